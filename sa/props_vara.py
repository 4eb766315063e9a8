"""Rules for the VARA modem driver."""
import re
from lib import *


def tasks(s):
    """The driver as a caller gets it: (VaraTnc value, [spawned task], build graph)."""
    if 'vara' in s.cache:
        return s.cache['vara']
    g = s.asyncfn(VARA + 'VaraTncBuilder::build')
    tnc = [ev[1].a[2].a[2] for ev in events(g, 'ret') if ok_value(ev[1]) is not None]
    sp = [ev[1] for ev in events(g, 'spawn')]
    if not tnc or not sp:
        raise Missing('VaraTncBuilder::build returns no modem or spawns no task')
    io = [x for x in sp if any(y.k == 'r' and y.a[0] == 'tcp_connect:ok' for y in subterms(x))]
    s.cache['spawned'] = [freeze(x) for x in sp if x not in io] if io else []
    s.cache['vara'] = ([freeze(x) for x in tnc], [freeze(x) for x in io or sp], g)
    return s.cache['vara']


def ok_value(v):
    if v.k == 'A' and v.a[0] == POLL and v.a[1] == 0:
        v = v.a[2]
    if v.k == 'A' and v.a[0] == RES and v.a[1] == 0:
        return v.a[2]
    return None


def modem_task(s):
    tnc, sp, g = tasks(s)
    gs = []
    for x in dict.fromkeys(norm_task(t) for t in sp):
        gs.append(s.cor(x))
    return gs


SOCK = mk('Y', '#control_socket')


def norm_task(t):
    """The task with its socket (the only captured network stream) made symbolic."""
    m = {}
    for x in subterms(t):
        if x.k == 'r' and x.a[0] == 'tcp_connect:ok':
            m[x] = SOCK
    return subst(t, m)


# ---- C01 ------------------------------------------------------------------------------------------
def spec_command(s, msg, known):
    """Alternatives (bytes term) the protocol allows for command value msg under the branch facts."""
    C = VARA + 'Command'

    def d(t):
        return known(discr_term(s.w, t))
    names = [v['n'] for v in s.w.adts[C]['v']]
    k = d(msg)
    if k is None:
        return None, 'the command is not known'
    v = names[[s.w.discr_of(C, i) for i in range(len(names))].index(k)]

    def f(name):
        return s.pj(msg, C, v, name)

    def enum(t, adt, table):
        dv = d(t)
        for n, txt in table.items():
            if dv == s.discr(adt, n):
                return txt
        return None

    def sid(t):
        return proj(proj(t, (None, 0)), (None, 0)) if True else t

    if v == 'Disconnect':
        return S(b'DISCONNECT\r'), v
    if v == 'Abort':
        return S(b'ABORT\r'), v
    if v == 'Listen':
        x = enum(f('0'), VARA + 'ListenMode', {'Enable': b'LISTEN ON\r', 'Disable': b'LISTEN OFF\r', 'CQ': b'LISTEN CQ\r'})
        return (S(x) if x else None), v
    if v == 'SetCompression':
        x = enum(f('0'), VARA + 'CompressionMode', {'Off': b'COMPRESSION OFF\r', 'Text': b'COMPRESSION TEXT\r', 'Files': b'COMPRESSION FILES\r'})
        return (S(x) if x else None), v
    if v == 'SetBandwidth':
        x = enum(f('0'), VARA + 'BandwidthMode', {'Narrow': b'BW500\r', 'Wide': b'BW2300\r', 'Tactical': b'BW2750\r'})
        return (S(x) if x else None), v
    if v == 'Connect':
        CC, CP = VARA + 'ConnectCommand', VARA + 'ConnectPath'
        cc = f('0')
        a, b, p = s.pj(cc, CC, None, 'origin'), s.pj(cc, CC, None, 'target'), s.pj(cc, CC, None, 'path')
        parts = [S(b'CONNECT '), idtext(s, a), S(b' '), idtext(s, b)]
        dp = d(p)
        if dp == s.discr(CP, 'Direct'):
            pass
        elif dp == s.discr(CP, 'OneHop'):
            parts += [S(b' via '), idtext(s, s.pj(p, CP, 'OneHop', 'digipeater'))]
        elif dp == s.discr(CP, 'TwoHops'):
            parts += [S(b' via '), idtext(s, s.pj(p, CP, 'TwoHops', 'first')), S(b' '), idtext(s, s.pj(p, CP, 'TwoHops', 'second'))]
        else:
            return None, v
        return models.cat(*(parts + [S(b'\r')])), v
    if v == 'SetCall':
        my = f('0')
        one = idtext(s, proj(my, (None, 0)))
        seq = proj(my, (None, 1))
        return models.cat(ap('fold', models.cat(S(b'MYCALL '), one), models.cat(ACC, S(b' '), idtext(s, ELEM)), seq), S(b'\r')), v
    return None, v


def idtext(s, t):
    """The text a StationId value displays as, as a term over the value."""
    k = 'idtext'
    if k not in s.cache:
        n = '<%sStationId as core::fmt::Display>::fmt' % TY
        g = s.fn(n)
        rs = [f for v, f, facts in rets(g)]
        texts = {f.get('f') for f in rs}
        b = s.body(n)
        me, fm = mk('Y', b.locals[1][1] or 'arg0'), mk('Y', b.locals[2][1] or 'arg1')
        texts = {x.a[2] if x is not None and x.k == 'ap' and x.a[0] == 'cat' and x.a[1] is fm and len(x.a) == 3 else None for x in [f.get(fm.a[0]) for f in rs]}
        if len(texts) != 1 or None in texts:
            raise Missing('StationId does not display as one text')
        s.cache[k] = (texts.pop(), me)
    text, me = s.cache[k]
    return subst(text, {me: t})


def known_in(g, node, ev=None):
    """Branch facts at a node, with phis resolved."""
    c = getattr(node, 'known', None)
    if c is None:
        fs = {g.norm(t): v for t, v in node.ctx.facts.items()}
        c = node.known = Ctx(g.e, [], {}, fs, {})
    return c


def is_prefix(a, b):
    """Byte-string term a is a proper prefix of b."""
    xs = list(a.a[1:]) if a.k == 'ap' and a.a[0] == 'cat' else [a]
    ys = list(b.a[1:]) if b.k == 'ap' and b.a[0] == 'cat' else [b]
    for i, x in enumerate(xs):
        if i >= len(ys):
            return False
        if x is ys[i]:
            continue
        return i == len(xs) - 1 and x.k == 'S' and ys[i].k == 'S' and ys[i].a[0].startswith(x.a[0])
    return len(xs) < len(ys)


WRITES = ('write_all', 'write', 'write_buf', 'try_write', 'write_all_buf', 'poll_write')


def c01(s, r):
    n = {}
    for g in modem_task(s):
        def step(st, ev, node):
            if ev[0] == 'io' and ev[1] in WRITES and ev[2] and ev[2][0] is SOCK:
                key = 'C01/write/' + fnname(ev)
                kn = known_in(g, node)
                text = closed(g, ev[2][1], facts_at(g, node, kn.facts))
                st, done = st
                if st is not None:
                    text = models.cat(st, text)
                best = None
                cands = {}
                for t in list(kn.facts) + [text]:
                    for x in subterms(t):
                        if x.k == 'r' and x.a[0] == 'recv:msg':
                            cands[x] = 1
                for msg in cands:
                    for cand in [msg] + [proj(msg, (None, i)) for i in range(4)]:
                        exp, v = spec_command(s, cand, kn.known)
                        if exp is not None and (best is None or exp is text or is_prefix(text, exp)):
                            best = (exp, v)
                if best is None:
                    r.bad(key + '/unknown', 'bytes %s written to the control connection do not correspond to a received command, at %s' % (show(text)[:300], loc(ev)))
                elif ev[1] != 'write_all':
                    r.bad(key + '/' + ev[1], 'a %s may send only part of command %s, at %s' % (ev[1], best[1], loc(ev)))
                elif done:
                    r.bad('C01/twice/' + fnname(ev), 'bytes are written after a command and before the next is received, at %s' % loc(ev))
                elif best[0] is text:
                    n.setdefault(best[1], set()).add(best[0])
                    r.ok('each command written is exactly its protocol line', '%s: %s' % (best[1], show(best[0])[:160]))
                elif is_prefix(text, best[0]):
                    return text, False
                else:
                    r.bad(key + '/' + best[1], 'command %s is sent as %s instead of %s, at %s' % (best[1], show(text)[:300], show(best[0])[:300], loc(ev)))
                return None, True
            if ev[0] == 'io' and ev[1] in ('recv', 'readable', 'oneshot_send'):
                if st[0] is not None:
                    r.bad('C01/partial/' + fnname(ev), 'only %s of a command is sent before %s' % (show(st[0])[:200], loc(ev)))
                if ev[1] == 'recv':
                    return st[0], False
            return st
        flow(g, (None, False), step)
        for ev in events(g, 'call'):
            if not HARMLESS.search(ev[1]) and any(y is SOCK for x in list(ev[2]) + list(ev[3]) for y in subterms(x)):
                r.bad('C01/other/' + ev[1].split('::')[-1], 'the control connection is passed to %s, at %s' % (ev[1], loc(ev)))
    want = {'Disconnect': 1, 'Abort': 1, 'Listen': 3, 'SetCompression': 3, 'SetBandwidth': 3, 'Connect': 3, 'SetCall': 1}
    for v, k in want.items():
        if len(n.get(v, ())) < k and not r.viol:
            r.bad('C01/missing/' + v, 'command %s: %d of %d forms reach the control connection' % (v, len(n.get(v, ())), k))


    build_writes(s, r)


HARMLESS = re.compile(r"(^|::)((set_)?(nodelay|linger|ttl|zero_linger|quickack|keepalive)|(peer|local)_addr|readable|writable|ready|take_error|peek|from|into|as_ref|as_mut|fmt|new|new_debug|new_display|clone|drop)$")


def build_writes(s, r):
    """Before the modem task owns it, nothing is sent on the control connection."""
    tnc, sp, g = tasks(s)
    ctl = {x for ev in events(g, 'spawn') for x in subterms(ev[1]) if x.k == 'r' and x.a[0] == 'tcp_connect:ok'}
    seen = 0
    for ev in events(g):
        k = ev[0]
        if k == 'io':
            seen += ev[1] == 'tcp_connect'
            if ev[1] in WRITES and any(y in ctl for x in ev[2] for y in subterms(x)):
                r.bad('C01/build/' + ev[1], 'bytes are sent on the control connection when it is opened, at %s' % loc(ev))
        elif k == 'call' and not HARMLESS.search(ev[1]) and any(y in ctl for x in list(ev[2]) + list(ev[3]) for y in subterms(x)):
            r.bad('C01/build/' + ev[1].split('::')[-1], 'the control connection is passed to %s when it is opened, at %s' % (ev[1], loc(ev)))
    if seen:
        r.ok('nothing is sent on the control connection when it is opened', 'VaraTncBuilder::build')


NOTHING = S(b'')
