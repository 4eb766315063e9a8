"""Rules about the lines the TNC sends: the language (C03), what each line does (C04) and how command
results are matched with commands (C05)."""
from lib import *
import re
import grammar as G
import props_vara as V

CALL = bytes(sorted(b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'))
DIGITS = b'0123456789'


def c0(i):
    return mk('Y', '#%d' % i)


def call(i):
    return ('run', CALL, 3, 7, 'c', c0(i))


END = ('end',)


def lit(b):
    return ('lit', b, 'c')


def spec(s):
    """[(name, atoms, response value, conditions, effect)] of every line of the TNC's protocol."""
    T, U, CR, B, CS, X = (VARA + n for n in ('TncResponse', 'Update', 'CommandResult', 'BusyState', 'ConnectionState', 'TransceiverCommand'))
    OWN = VARA + 'ConnectionStateOwned'

    def up(name, *fs):
        return s.con(T, 'Update', s.con(U, name, *fs))

    def res(v):
        return s.con(T, 'CommandResult', s.con(CR, v))

    def sid(i):
        return A(TY + 'StationId', 0, c0(i))
    num = ap('number', mk('ty', 'usize'), c0(0), I(10))
    isnum = ap('is_number', mk('ty', 'usize'), c0(0), I(10))
    out = [('OK', (lit(b'OK'), END), res('Ok'), (), ('result', s.con(CR, 'Ok'))),
           ('WRONG', (lit(b'WRONG'), END), res('Wrong'), (), ('result', s.con(CR, 'Wrong'))),
           ('IAMALIVE', (lit(b'IAMALIVE'), END), up('Heartbeat'), (), ('heartbeat', 'now')),
           ('BUFFER n', (lit(b'BUFFER '), ('run', DIGITS, 1, None, 'c', c0(0)), END), up('Buffer', num), ((isnum, 1),), ('buffer', num))]
    for txt, v in ((b'ON', 'Busy'), (b'OFF', 'NotBusy')):
        out.append(('BUSY ' + txt.decode(), (lit(b'BUSY ' + txt), END), up('Busy', s.con(B, v)), (), ('busy', s.con(B, v))))
    for txt, v in ((b'ON', 'Transmit'), (b'OFF', 'Receive')):
        out.append(('PTT ' + txt.decode(), (lit(b'PTT ' + txt), END), up('TransceiverControl', s.con(X, v)), (), ('ptt', s.con(X, v))))
    for txt, v in ((b'DISCONNECTED', 'Disconnected'), (b'PENDING', 'Pending'), (b'CANCELPENDING', 'Canceled')):
        out.append((txt.decode(), (lit(txt), END), up('Connection', s.con(CS, v)), (), ('connection', s.con(OWN, v))))
    out.append(('CONNECTED a b', (lit(b'CONNECTED '), call(0), lit(b' '), call(1), END), up('Connection', s.con(CS, 'Connected', c0(0), c0(1))), (),
                ('connection', s.con(OWN, 'Connected', sid(0), sid(1)))))
    out.append(('REGISTERED c', (lit(b'REGISTERED '), call(0), END), up('Registered', c0(0)), (), ('registered', sid(0))))
    return out


def response_parsers(s, g):
    """The parsers applied to whole received lines."""
    ps = {}
    for ev in events(g, 'parse'):
        if ev[2].k == 'ap' and ev[2].a[0] == 'out':
            ps[ev[1]] = ev
    return ps


def forms(s, P):
    """Canonical cases of the response parser."""
    k = ('forms', P)
    if k not in s.cache:
        out = []
        for c in [G.canon(y) for x in G.Grammar(s).alts(P) for y in G.bytecases(x)]:
            atoms = []
            for a in c.atoms:
                if a[0] == 'run' and a[2] == 0 and any(t.k == 'ap' and t.a[0] == 'is_number' and t.a[2] is a[-1] and v == 1 for t, v in c.conds):
                    a = a[:2] + (1,) + a[3:]       # the empty string is no number
                atoms.append(a)
            out.append(G.Case(atoms, c.value, c.conds))
        s.cache[k] = out
    return s.cache[k]


def text_of(atoms):
    return ' '.join(G.showatom(a) for a in atoms)


def c03(s, r):
    sp = spec(s)
    n = 0
    for g in V.modem_task(s):
        for P, ev in response_parsers(s, g).items():
            n += 1
            got = forms(s, P)
            sh = G.shadowed(got)
            for a, b, _ in sh:
                r.bad('C03/shadow/' + text_of(b.atoms), 'a line form may not be recognised because an earlier alternative takes a prefix of it: %s before %s' % (a, b))
            want = {name: (at, v, frozenset(c)) for name, at, v, c, e in sp}
            left = list(got)
            for name, (at, v, conds) in want.items():
                hit = [c for c in left if c.atoms == tuple(at) or list(c.atoms) == list(at)]
                if not hit:
                    r.bad('C03/missing/' + name, 'no response form accepts the line %s exactly (forms: %s)' % (name, '; '.join(text_of(c.atoms) for c in left)[:600]))
                    continue
                for c in hit:
                    left.remove(c)
                c = hit[0]
                if len(hit) > 1:
                    r.bad('C03/ambiguous/' + name, 'the line %s is recognised by more than one form' % name)
                elif c.value is not v:
                    r.bad('C03/meaning/' + name, 'the line %s is understood as %s instead of %s' % (name, show(c.value), show(v)))
                elif frozenset(c.conds) != conds:
                    r.bad('C03/conds/' + name, 'the line %s is accepted only if %s' % (name, [(show(t), x) for t, x in c.conds]))
                else:
                    r.ok('each line of the protocol is recognised, whole, as its response', '%s => %s' % (text_of(c.atoms), show(v)))
            for c in left:
                r.bad('C03/extra/' + text_of(c.atoms), 'a line outside the protocol is accepted: %s' % c)
    if not n:
        raise Missing('received lines are not parsed as responses')


# ---- effects ---------------------------------------------------------------------------------------
def chan_of(rx):
    return rx.a[1] if rx.k == 'ap' and rx.a[0] == 'rx' else None


def status_channels(s, r=None, pid=None):
    """Which watch channel each status accessor of VaraTnc reads, checking what the accessor returns."""
    out = {}

    def bad(k, m):
        if r is not None:
            r.bad('%s/accessor/%s' % (pid, k), m)
    for tnc in V.tasks(s)[0]:
        for key, name in (('buffer', 'buffer'), ('busy', 'busy_state'), ('heartbeat', 'last_heartbeat'), ('registered', 'local_registration'), ('ptt', 'subscribe_rig_command')):
            st = mk('Y', 'station')
            g = s.fn(VARA + 'VaraTnc::' + name, [tnc] + ([st] if key == 'registered' else []))
            chans = {chan_of(ev[2][0]) for ev in events(g, 'io') if ev[1].startswith('watch_borrow')}
            vals = rets(g)
            if key == 'ptt':
                rx = vals[0][0] if vals else None
                c = chan_of(rx) if rx is not None else None
                if c is None:
                    bad(name, '%s does not return a receiver of a status channel' % name)
                chans = {c}
            elif key == 'registered':
                R_ = VARA + 'Registration'
                for v, fs in outcomes(g):
                    has = [x[1] for x in fs for t in [x[0]] if t.k == 'ap' and t.a[0] == 'set:contains' and t.a[1].k == 'r' and t.a[1].a[0] == 'watch_value' and t.a[2] is st]
                    exp = None if len(has) != 1 else s.con(R_, 'Registered' if has[0] else 'Unregistered')
                    if v is not exp:
                        bad(name, 'local_registration returns %s when membership is %s' % (show(v), has))
            else:
                for v, fin, fs in vals:
                    if not (v.k == 'r' and v.a[0] == 'watch_value'):
                        bad(name, '%s returns %s instead of the value last published' % (name, show(v)))
            if len(chans) != 1 or None in chans:
                raise Missing('VaraTnc::%s does not read one status channel' % name)
            out.setdefault(key, set()).add(chans.pop())
            if r is not None:
                r.ok('accessors return what was last published', name)
        tn = mk('Y', '#tnc')
        g = connect_graph(s, tnc)
        ch = {chan_of(ev[2][0]) for ev in events(g, 'io', 'changed')}
        if len(ch) != 1 or None in ch:
            raise Missing('VaraTnc::connect does not wait on one status channel')
        out.setdefault('connection', set()).add(ch.pop())
    return out


def connect_graph(s, tnc):
    a, b = mk('Y', 'from'), mk('Y', 'to')
    return s.asyncfn(VARA + 'VaraTnc::connect', [mk('R', ('G', 'tnc'), (), 'm'), a, b]) if False else s.asyncfn(VARA + 'VaraTnc::connect', [tnc, a, b])


IOEND = ('read_buf', 'try_read_buf', 'read', 'try_read', 'readable', 'recv', 'writable')


class Lines(object):
    """Follows the handling of each form of line through the modem task."""

    def __init__(self, s, g):
        self.s, self.g = s, g
        self.sp = spec(s)
        self.ps = response_parsers(s, g)
        self.stray = []        # what is published without a line

    def run(self):
        s, g = self.s, self.g
        out = []
        NONE = ('none',)

        def close(st, ev, how):
            out.append((st[1], st[4], st[5], ev, how))
            return NONE

        def step(st, ev, node):
            k = st[0]
            kind = ev[0]
            if kind == 'parse' and ev[1] in self.ps:
                if k == 'line':
                    st = close(st, ev, 'next')
                if ev[3].a[1] != 0:
                    return NONE
                T = ev[3].a[2].a[3]
                res = []
                for c in forms(s, ev[1]):
                    res.append(('line', c, T, frozenset(c.conds), (), ()))
                return res
            if k != 'line':
                if kind == 'io' and ev[1].startswith('watch_send'):
                    self.stray.append(ev)
                return st
            c, T, fs, eff, nows = st[1:]
            if kind in ('branch', 'branchne'):
                t2 = subst(ev[1], {T: c.value})
                fs2 = learn(g, fs, (kind, t2) + ev[2:], lambda t: any(x.k == 'Y' for x in subterms(t)) or t.k == 'I')
                if fs2 is None:
                    return None
                return ('line', c, T, fs2, eff, nows)
            if kind == 'parse' or kind == 'pending' or kind == 'bufop' or (kind == 'io' and ev[1] in IOEND):
                return close(st, ev, 'next')
            if kind == 'ret':
                return close(st, ev, 'ok' if ok_ret(ev[1]) else 'err')
            if len(eff) > 3:
                return close(st, ev, 'next')
            if kind == 'io' and ev[1] == 'oneshot_send' and not any(x is T for x in subterms(ev[2][1])):
                return close(st, ev, 'next')
            if kind == 'io' and ev[1].startswith('watch_send'):
                return ('line', c, T, fs, eff + ((ev[1], ev[2][0], subst(ev[2][1], {T: c.value}), at(ev)),), nows)
            if kind == 'io' and ev[1] in ('oneshot_send', 'mpsc_send', 'mpsc_try_send'):
                return ('line', c, T, fs, eff + ((ev[1], ev[2][0], subst(ev[2][1], {T: c.value}), at(ev)),), nows)
            if kind == 'push':
                return ('line', c, T, fs, eff + (('push', ev[1], subst(ev[2], {T: c.value}), at(ev)),), nows)
            if kind == 'call' and ev[1].endswith('Instant::now'):
                return ('line', c, T, fs, eff, (ev[1],))
            return st
        flow(g, NONE, step)
        return out


def ok_ret(v):
    return V.ok_value(v) is not None


def name_of(sp, c):
    for name, at_, v, conds, eff in sp:
        if tuple(c.atoms) == tuple(at_):
            return name, eff
    return None, None


def lines_of(s, g):
    return lines(s, g)[0]


def lines(s, g):
    k = ('lines', id(g))
    if k not in s.cache:
        x = Lines(s, g)
        s.cache[k] = x.run(), x.stray
    return s.cache[k]


def c04(s, r):
    ch = status_channels(s, r, 'C04')
    chans = {c: k for k, cs in ch.items() for c in cs}
    if len({k: 0 for k in chans}) != sum(len(x) for x in ch.values()):
        r.bad('C04/shared', 'two status accessors read the same channel')
    sp = spec(s)
    for g in V.modem_task(s):
        seen = set()
        for c, eff, nows, ev, how in lines_of(s, g):
            name, want = name_of(sp, c)
            if name is None or want[0] == 'result':
                if name is not None and any(e[0].startswith('watch') for e in eff):
                    r.bad('C04/result/' + name, 'the command result %s changes the published status' % name)
                continue
            key = 'C04/%s/' % name
            where = loc(ev) if at(ev) else g.e.rootname
            if how == 'err':
                r.bad(key + 'rejected', 'the line %s ends the modem task with an error' % name)
                continue
            if len(eff) != 1:
                if not eff:
                    r.bad(key + 'lost', 'the line %s is received but nothing is published, before %s' % (name, where))
                else:
                    r.bad(key + 'extra', 'the line %s has %d effects: %s' % (name, len(eff), '; '.join('%s %s %s' % (e[0], show(e[1])[:60], show(e[2])[:60]) for e in eff)))
                continue
            op, tx, val, w = eff[0]
            val = subst(val, {proj(c0(i), (None, 0)): c0(i) for i in range(3)})      # StationIdRef is transparent
            if op not in ('watch_send_replace', 'watch_send') or tx.k != 'ap' or tx.a[0] != 'tx' or chans.get(tx.a[1]) != want[0]:
                r.bad(key + 'channel', 'the line %s is published on %s (%s) instead of the %s status' % (name, show(tx)[:120], chans.get(tx.a[1]) if tx.k == 'ap' else None, want[0]))
                continue
            if want[0] == 'heartbeat':
                good = val.k == 'r' and val.a[0].endswith('Instant::now') and nows
            elif want[0] == 'registered':
                good = val.k == 'ap' and val.a[0] == 'set:insert' and val.a[2] is want[1] and accumulates(g, val.a[1], lambda x: x is ap('set'), lambda x: x.a[1] if x.k == 'ap' and x.a[0] == 'set:insert' else None, True, r, key)
            else:
                good = val is want[1]
            if not good:
                r.bad(key + 'value', 'the line %s publishes %s as %s' % (name, show(val)[:300], want[0]))
                continue
            seen.add(name)
            r.ok('each status line publishes exactly its value on the channel its accessor reads', '%s => %s' % (name, want[0]))
        for ev in lines(s, g)[1]:
            tx = ev[2][0]
            k = chans.get(tx.a[1], 'unread') if tx.k == 'ap' and tx.a[0] == 'tx' else None
            if k != 'unread':
                r.bad('C04/spurious/%s' % k, 'the modem task changes the %s status without a line that says so, at %s' % (k, loc(ev)))
        for name, at_, v, conds, eff in sp:
            if eff[0] != 'result' and name not in seen and not r.viol:
                r.bad('C04/unseen/' + name, 'the line %s never reaches its status channel' % name)


def accumulates(g, t, isinit, prev, whole, r, key):
    """t is a loop-carried accumulator: it starts empty once (whole) or at the start of the inner loop, and
    otherwise only grows."""
    st, seen = [(t, None, None)], set()
    heads = {n.head: n for n in g.nodes if n.head is not None}
    while st:
        x, kind, p = st.pop()
        if x.k == 'P':
            if x not in seen:
                seen.add(x)
                inc = g.phi.get(x, ())
                if not inc:
                    return False
                st += [(y, k, x) for k, y in inc]
            continue
        if isinit(x):
            if p is None:
                if whole and g.phi:
                    return False
                continue
            n = heads.get(p.a[0])
            if kind != 'entry' or n is None:
                return False
            if whole and len(n.ctx.loops) > 1:
                return False
            continue
        y = prev(x)
        if y is None:
            return False
        st.append((y, kind, p))
    return True


# ---- C05: command results answer commands in order ---------------------------------------------------
def is_queue(g, t):
    return any(x.k == 'ap' and (x.a[0] == 'queue' or str(x.a[0]).startswith('q:')) for x, fs in g.sources(t))


def c05(s, r):
    sp = spec(s)
    for g in V.modem_task(s):
        # every result line is recorded exactly once, with its value
        for c, eff, nows, ev, how in lines_of(s, g):
            name, want = name_of(sp, c)
            if name is None:
                continue
            key = 'C05/%s/' % name
            eff = [e for e in eff if not e[0].startswith('watch')]
            where = loc(ev) if at(ev) else g.e.rootname
            if want[0] != 'result':
                if eff:
                    r.bad(key + 'answers', 'the status line %s answers a command' % name)
                continue
            if how == 'err':
                r.bad(key + 'rejected', 'the command result %s ends the modem task with an error' % name)
            elif len(eff) != 1:
                r.bad(key + 'count', 'the command result %s is recorded %d times, before %s' % (name, len(eff), where))
            elif eff[0][2] is not want[1]:
                r.bad(key + 'value', 'the command result %s is recorded as %s' % (name, show(eff[0][2])[:200]))
            else:
                r.ok('each command result is recorded once', name)
        qs, lists = set(), set()
        for ev in events(g, 'q'):
            qs.add(ev[2])
            if ev[1] not in ('push_back', 'pop_front'):
                r.bad('C05/order/' + ev[1], 'replies are not kept in first-in first-out order: %s at %s' % (ev[1], loc(ev)))
        for q in qs:
            def prev(x):
                return x.a[1] if x.k == 'ap' and x.a[0] in ('q:push_back', 'q:rest:pop_front') else None
            r.check(accumulates(g, q, lambda x: x is ap('queue'), prev, True, r, ''), 'pending replies are only added at the back and removed at the front', show(q)[:60],
                    'C05/queue', 'the queue of pending replies is replaced or emptied: %s' % '; '.join(show(x)[:80] for x, fs in g.sources(q)))
        okl = {}

        def is_list(v):
            if v not in okl:
                okl[v] = accumulates(g, v, lambda x: x.k == 'A' and x.a[0] == 'array' and len(x.a) == 2,
                                     lambda x: x.a[1] if x.k == 'ap' and x.a[0] == 'push' else (A('array', 0) if x.k == 'A' and x.a[0] == 'array' and len(x.a) == 3 else None), False, r, '') \
                    and any(x.k == 'ap' and x.a[0] == 'push' or x.k == 'A' and len(x.a) > 2 for x, fs in g.sources(v))
            return okl[v]

        def elem_of(t):
            """(list, counter) if t is the i-th element of a list of results."""
            if t.k == 'sel' and t.a[1].k == 'P' and is_counter(g, t.a[1]) and is_list(t.a[0]):
                return t.a[0], t.a[1]
            return None

        # cmd: None | 'new' | 'queued' (reply pushed); wr: written; und: results recorded but not delivered;
        # pop: popped reply not answered; el: element being delivered; emp: queue known empty
        INIT = (None, False, False, None, None, None)

        def step(st, ev, node):
            cmd, wr, und, pop, el, emp = st
            k = ev[0]
            w = fnname(ev)
            if k == 'io' and ev[1] == 'recv' or k in ('pending',) or k == 'io' and ev[1] in ('try_read_buf', 'read_buf', 'try_read', 'read') or k == 'ret':
                okr = k != 'ret' or ok_ret(ev[1])
                if okr:
                    if cmd is not None and cmd != 'queued':
                        r.bad('C05/unqueued/' + w, 'a command is taken from the queue but its reply is not remembered')
                    if cmd is not None and not wr:
                        r.bad('C05/unwritten/' + w, 'a command is taken from the queue but not sent')
                    if und:
                        r.bad('C05/undelivered/' + w, 'command results are dropped before they are delivered, at %s' % (loc(ev) if at(ev) else g.e.rootname))
                    if pop is not None:
                        r.bad('C05/unanswered/' + w, 'a pending reply is removed without being answered')
                    if k == 'ret' and emp != 1:
                        r.bad('C05/drain/' + w, 'the modem task ends normally although replies may be pending')
                    if el is not None and el[1] != 'done':
                        r.bad('C05/skip/' + w, 'a command result is not delivered although a reply is pending')
                if k == 'ret':
                    r.ok('the task ends normally only when every reply was sent', g.e.rootname) if okr else None
                    return None
                cmd, wr, und, pop, el = None, False, False, None, None
                if k == 'io' and ev[1] == 'recv':
                    res = ev[3]
                    msg = [x for x in subterms(res) if x.k == 'r' and x.a[0] == 'recv:msg']
                    if msg:
                        cmd = msg[0]
                        return (('new', cmd), False, False, None, None, emp)
                return (None, False, False, None, None, emp)
            if k == 'q':
                if ev[1] == 'push_back':
                    if cmd is None or cmd == 'queued' or ev[3] is not proj(cmd[1], (None, 1)):
                        r.bad('C05/pushed/' + w, 'something other than the reply of the command just taken is queued: %s' % show(ev[3])[:200])
                    else:
                        r.ok('the reply of each command is queued once', loc(ev))
                    return ('queued', wr, und, pop, el, 0)
                if ev[1] == 'pop_front':
                    if pop is not None:
                        r.bad('C05/unanswered/' + w, 'a pending reply is removed without being answered')
                    return (cmd, wr, und, ev[3], el, None)
            if k == 'io' and ev[1] == 'write_all' and ev[2][0] is V.SOCK:
                return (cmd, True, und, pop, el, emp)
            if k == 'io' and ev[1] == 'oneshot_send':
                tgt, val = ev[2]
                if tgt is not pop:
                    r.bad('C05/target/' + w, 'a result is sent to %s, which is not the oldest pending reply' % show(tgt)[:160])
                e = elem_of(val)
                direct = val.k in ('A', 'F') and any(x.k == 'ap' and x.a[0] == 'out' for x in subterms(val))
                if e is None and not direct:
                    r.bad('C05/value/' + w, 'the value sent is not the next command result: %s' % show(val)[:200])
                elif e is not None:
                    if el is None or el[0] != e:
                        r.bad('C05/value/' + w, 'the value sent is not the command result being delivered: %s' % show(val)[:200])
                    elif el[1] == 'done':
                        r.bad('C05/twice/' + w, 'a command result is delivered to two replies')
                    el = (e, 'done')
                r.ok('each result goes to the oldest pending reply', loc(ev))
                return (cmd, wr, und, None, el, emp)
            if k == 'push':
                v = ev[2]
                if any(x.k == 'ap' and x.a[0] == 'out' for x in subterms(v)):
                    return (cmd, wr, True, pop, el, emp)
                return st
            if k in ('branch',):
                t, v = ev[1], ev[2]
                while t.k == 'not':
                    t, v = t.a[0], 1 - v
                if t.k == 'bin' and t.a[0] == 'Lt' and t.a[2].k == 'P' and islen(t.a[3]) is not None and is_counter(g, t.a[2]) and is_list(islen(t.a[3])):
                    e = (islen(t.a[3]), t.a[2])
                    if el is not None and el[1] != 'done':
                        r.bad('C05/skip/' + w, 'a command result is not delivered although a reply is pending')
                    if pop is not None:
                        r.bad('C05/unanswered/' + w, 'a pending reply is removed without being answered')
                    if v:
                        return (cmd, wr, und, None, (e, 'todo'), emp)
                    return (cmd, wr, False, None, None, emp)
                z = t if t.k == 'bin' and t.a[0] == 'Eq' and t.a[3] is I(0) else None
                q, val = (islen(z.a[2]), v) if z is not None else (islen(t), 1 if v == 0 else 0)
                if q is not None and is_queue(g, q):
                    if val == 1 and el is not None:
                        el = (el[0], 'done')         # no reply pending for this result
                    return (cmd, wr, und, pop, el, val)
            if k == 'branchne':
                q = islen(ev[1])
                if q is not None and is_queue(g, q) and 0 in ev[2]:
                    return (cmd, wr, und, pop, el, 0)
            return st
        # commands are carried as ('new', msg) until queued
        flow(g, INIT, step)
    r.need('each command result is recorded once', 2)
    r.need('each result goes to the oldest pending reply', 1)
    r.need('the reply of each command is queued once', 1)
    r.need('the task ends normally only when every reply was sent', 1)


def islen(t):
    return t.a[1] if t.k == 'ap' and t.a[0] == 'len' and len(t.a) == 2 else None


# ---- C27 -------------------------------------------------------------------------------------------
def err_ret(v):
    if v.k == 'A' and v.a[0] == POLL and v.a[1] == 0:
        v = v.a[2]
    return v.k == 'A' and v.a[0] == RES and v.a[1] == 1


def lifetime(s, r, name, g):
    """A driver task ends when its commands do, or by an error that happened."""
    import props_main as M
    pid = 'C27/' + name
    READ = ('try_read_buf', 'read_buf', 'try_read', 'read')

    # state: (no one can send commands any more, replies outstanding?, why it may give up, the last chunk read)
    def step(st, ev, node):
        closed, out, why, chunk = st
        k = ev[0]
        w = fnname(ev)
        if k in ('io', 'pending'):
            if closed and (ev[1] == 'recv' or ev[1] in READ and not ev[1].startswith('try_') or ev[1] in ('readable', 'ready', 'sleep', 'changed', 'wait_for', 'oneshot_recv', 'writable', 'yield_now')):
                if ev[1] == 'recv':
                    r.bad(pid + '/again/' + w, '%s waits for commands although no one can send any' % name)
                    return None
                r.check(out is True, 'once its commands have ended a task waits for outstanding answers only', loc(ev), '%s/lingers/%s/%s' % (pid, ev[1], w),
                        '%s waits (%s) after the last handle is gone although no answer is outstanding, at %s' % (name, ev[1], loc(ev)))
            if k == 'io':
                res = ev[3]
                if ev[1] == 'recv':
                    closed = closed or res is NONE
                if res is not None and res.k == 'A' and res.a[:2] == (RES, 1) and ev[1] not in ('oneshot_send', 'oneshot_recv'):
                    why = ('try', res.a[2]) if ev[1].startswith('try_') else 'io'
                elif ev[1] in READ:
                    chunk = next((x for x in subterms(res) if taken(x)), None) if res is not None else None
            return (closed, out, why, chunk)
        if k == 'parse':
            res = ev[3]
            if res.k == 'A' and res.a[:2] == (RES, 1) and not (res.a[2].k == 'A' and res.a[2].a[1] == 0):
                why = 'parse'
            return (closed, out, why, chunk)
        if k == 'utf8':
            return (closed, out, 'parse', chunk)
        if k == 'q':
            return (closed, True if ev[1].startswith('push') else None, why, chunk)
        if k in ('branch', 'branchne') and isinstance(why, tuple):
            b = M.blocks(s, ev, why[1])
            why = why if b is None else None if b else 'io'
        if k in ('branch', 'branchne'):
            fs = learn(g, frozenset(), ev) if chunk is not None else None
            if fs is not None and (knows(g, fs)(length(chunk)) == 0 or knows(g, fs)(binop('Eq', 'usize', length(chunk), I(0))) == 1):
                why = 'end'
            t, v = ev[1], ev[2]
            if k == 'branchne':
                q = islen(t)
                if q is not None and is_queue(g, q) and 0 in v:
                    out = True
                return (closed, out, why, chunk)
            while t.k == 'not':
                t, v = t.a[0], 1 - v
            z = t if t.k == 'bin' and t.a[0] == 'Eq' and t.a[3] is I(0) else None
            q, val = (islen(z.a[2]), v) if z is not None else (islen(t), 1 if v == 0 else 0)
            if q is not None and is_queue(g, q):
                out = val == 0
            return (closed, out, why, chunk)
        if k == 'ret':
            if ok_ret(ev[1]):
                r.check(closed, 'a task ends normally only when no one can send it commands', name, pid + '/early', '%s ends although commands can still be sent to it' % name)
            elif err_ret(ev[1]):
                r.check(isinstance(why, str), 'a task gives up only after an error', name, pid + '/gives-up', '%s ends with an error although nothing failed' % name)
            return None
        return st

    flow(g, (False, None, None, None), step)


ABORTS = re.compile(r'(^|::)(JoinHandle(::<T>)?|AbortHandle|JoinSet(::<T>)?)::(abort|abort_all|shutdown)$|Runtime::shutdown_(background|timeout)$')


def c27(s, r):
    import props_main as M
    for g in V.modem_task(s):
        lifetime(s, r, 'the modem task', g)
    lifetime(s, r, 'the rig task', M.rig_task(s))
    import props_types as T
    import props_conn as C
    for tnc in V.tasks(s)[0]:
        ctl = C.control(tnc)
        for t in s.cache['spawned']:
            r.check(ctl not in subterms(t), 'nothing but its users keeps the modem task going', 'task', 'C27/kept', 'build spawns a task that can send commands for ever, so that the modem task never ends')
        for tn, g, vs, sp in C.connects(s):
            force = {t for sv in vs for t in sp for c in C.chans_in(t, 'rx') & C.chans_in(sv, 'tx') if c not in C.chans_in(tn, 'tx')}
            for t in sp:
                r.check(ctl not in subterms(t) or t in force, 'nothing but its users keeps the modem task going', 'task of connect', 'C27/kept/connect',
                        'connect spawns a task that can send commands although no stream is left that it waits for')
    n = 0
    for p, f, ts, sp in T.crate_calls(s, ABORTS):
        n += 1
        if 'Report>' in ''.join(ts):
            r.bad('C27/aborted/' + p, '%s ends a task from outside, whatever it still has to do (%s:%s)' % (p, sp[0], sp[1]))
    r.check(True, 'no driver task is ended from outside', '%d calls that end a task' % n, 'C27/aborted', '')
