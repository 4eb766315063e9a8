"""Rules spanning the program: main, the rig driver and the line readers."""
import re
from lib import *
import grammar as G
import readers as R
import props_vara as V
import props_lines as L
import props_conn as N
from props_vara import NOTHING



def main_task(s):
    """The graph of main's coroutine."""
    if 'main' not in s.cache:
        g = s.fn(P + 'main')
        cors = []
        for ev in events(g, 'call'):
            if 'block_on' in ev[1]:
                for x in ev[2]:
                    for y in subterms(x):
                        if is_cor(y) and y not in cors:
                            cors.append(y)
        if len(cors) != 1:
            raise Missing('main does not run one coroutine')
        s.cache['main'] = s.cor(cors[0], {'maxnodes': 60000})
    return s.cache['main']


def rig_task(s):
    return s.asyncfn(KX3 + 'manage_rig_thread')


def c06(s, r):
    n = 0
    for g in V.modem_task(s):
        a = R.Reader(s, r, g, 'C06/modem', lambda y: y is V.SOCK, R.line_frames(b'\r'))
        reads, parses = a.run()
        r.check(reads and parses, 'a reader is found', 'modem', 'C06/modem/none', 'the modem task does not read lines from the control connection')
    g = rig_task(s)
    srcs = {ev[2][0] for ev in events(g, 'io') if ev[1] in R.READS}
    r.check(srcs, 'a reader is found', 'rig', 'C06/rig/none', 'the rig task does not read responses')
    for src in srcs:
        a = R.Reader(s, r, g, 'C06/rig', lambda y: y is src, R.line_frames(b';'))
        reads, parses = a.run()
        r.check(reads and parses, 'a reader is found', 'rig', 'C06/rig/none', 'the rig task does not read responses')
    g = main_task(s)
    srcs = {ev[2][0] for ev in events(g, 'io') if ev[1] in R.READS}
    r.check(srcs, 'a reader is found', 'main', 'C06/main/none', 'main does not read lines')
    for src in srcs:
        a = R.Reader(s, r, g, 'C06/main', lambda y: y is src, R.line_frames(b'\r', True), lambda fs: at_prompt(g, fs))
        reads, parses = a.run()
        r.check(reads and parses, 'a reader is found', 'main', 'C06/main/none', 'main does not read lines')


def is_prompt(g, t, v, seen=frozenset()):
    """t == v says that a line ends in '>', the remote's prompt."""
    if t.k == 'not':
        return v in (0, 1) and is_prompt(g, t.a[0], 1 - v, seen)
    if t.k == 'ap' and t.a[0] == 'last' and v == 62:
        return True
    if v != 1:
        return False
    if t.k == 'ap' and t.a[0] == 'ends_with':
        return t.a[2] is S(b'>')
    if t.k == 'bin' and t.a[0] == 'Eq':
        return any(a is I(62) and b.k == 'ap' and b.a[0] == 'last' for a, b in ((t.a[2], t.a[3]), (t.a[3], t.a[2])))
    if t.k == 'P':
        # a flag: whatever can set it says so
        inc = [(x, fs) for x, fs in g.incoming(t) if x is not I(0) and x not in seen]
        return bool(inc) and all(is_prompt(g, x, 1, seen | {t}) if x is not I(1) else any(is_prompt(g, y, w, seen | {t}) for y, w in fs.items()) for x, fs in inc if x is not t)
    return False


def at_prompt(g, fs):
    """main stops reading at the remote's prompt."""
    return any(is_prompt(g, t, v) for t, v in fs)


# ---- C07 -------------------------------------------------------------------------------------------
DATA = ('try_read_buf', 'read_buf', 'try_read', 'read', 'write_all', 'write', 'try_write', 'flush')
AWAITS = ('readable', 'writable', 'ready', 'recv', 'changed', 'wait_for', 'read_buf', 'read', 'write_all', 'write', 'read_line', 'mpsc_send', 'mpsc_reserve', 'oneshot_recv',
          'sleep', 'tcp_connect', 'yield_now', 'join')


def stream_graphs(s):
    """(name, graph, is it the stream?, must end with an error at end of stream)"""
    out = []
    for g in V.modem_task(s):
        out.append(('modem', g, lambda x: x is V.SOCK, True))
    g = rig_task(s)
    srcs = {ev[2][0] for ev in events(g, 'io') if ev[1] in R.READS}
    out.append(('rig', g, lambda x: x in srcs, True))
    g = main_task(s)
    srcs2 = {ev[2][0] for ev in events(g, 'io') if ev[1] in R.READS}
    out.append(('main', g, lambda x: x in srcs2, False))
    return out


def c07(s, r):
    for name, g, is_src, strict in stream_graphs(s):
        pid = 'C07/' + name

        def step(st, ev, node):
            k = ev[0]
            w = fnname(ev)
            if st is not None and k in ('branch', 'branchne'):
                t = ev[1]
                if st[0] == 'failed':
                    b = blocks(s, ev, st[1])
                    if b is not None:
                        return ('block', st[1]) if b else st
                if st[0] == 'got':
                    fs = learn(g, st[2], ev, lambda t: any(x is st[1] for x in subterms(t)))
                    if fs is None:
                        return None
                    n = knows(g, fs)(length(st[1]))
                    if n == 0:
                        r.ok('an empty read is recognised as end of stream', name)
                        return ('eof', st[1])
                    if n is not None or any(t is length(st[1]) and isinstance(v, frozenset) and 0 in v for t, v in fs) or knows(g, fs)(binop('Eq', 'usize', length(st[1]), I(0))) == 0 or knows(g, fs)(binop('Lt', 'usize', I(0), length(st[1]))) == 1:
                        return None if False else ('some',)
                    return ('got', st[1], fs)
                return st
            if k == 'io' and st is not None:
                if st[0] in ('block', 'some'):
                    st = None
                elif st[0] in ('failed', 'eof') and ev[2] and is_src(ev[2][0]) or st[0] in ('failed', 'eof') and strict:
                    if ev[1] in ('oneshot_send',):
                        return st
                    r.bad('%s/%s/%s' % (pid, 'ignored' if st[0] == 'failed' else 'eof', w), '%s goes on after %s, at %s' % (name, 'an I/O error' if st[0] == 'failed' else 'the end of the stream', loc(ev)))
                    return None
                elif st[0] == 'got':
                    r.bad('%s/eof-unseen/%s' % (pid, w), '%s does not tell the end of the stream from data before %s' % (name, loc(ev)))
                    return None
            if k == 'pending' and st is not None:
                if st[0] in ('failed', 'eof') and strict:
                    r.bad('%s/%s/%s' % (pid, 'ignored' if st[0] == 'failed' else 'eof', w), '%s goes on after %s' % (name, 'an I/O error' if st[0] == 'failed' else 'the end of the stream'))
                    return None
                if st[0] == 'got':
                    r.bad('%s/eof-unseen/%s' % (pid, w), '%s does not tell the end of the stream from data' % name)
                    return None
                return None if st[0] in ('block', 'some') else st
            if k == 'ret':
                good = ok_ret(ev[1])
                if st is None:
                    return None
                if st[0] == 'failed' and good:
                    r.bad('%s/ok-after-error' % pid, '%s ends successfully after an I/O error' % name)
                elif st[0] == 'eof' and good and strict:
                    r.bad('%s/ok-after-eof' % pid, '%s ends successfully when the stream was closed' % name)
                elif st[0] == 'got' and good:
                    r.bad('%s/eof-unseen' % pid, '%s does not tell the end of the stream from data' % name)
                elif st[0] == 'block' and not good:
                    r.bad('%s/would-block' % pid, '%s ends with an error when a read would merely block' % name)
                elif st[0] in ('failed', 'eof'):
                    r.ok('%s ends after %s' % (name, 'an I/O error' if st[0] == 'failed' else 'the end of the stream'), g.e.rootname)
                return None
            if k == 'io' and ev[1] in DATA and ev[2] and is_src(ev[2][0]):
                res = ev[3]
                if res.k == 'A' and res.a[0] == RES and res.a[1] == 1:
                    return ('failed', res.a[2], ev[1])
                if ev[1] in R.READS and res.k == 'A' and res.a[1] == 0 and R.islen(res.a[2]) is not None:
                    return ('got', R.islen(res.a[2]), frozenset())
                return None if st is None else ('some',)
            return st
        flow(g, ('start',), lambda st, ev, node: keep(step(None if st == ('start',) else st, ev, node)))
        spin(s, r, pid, name, g)
        r.need('%s ends after an I/O error' % name, 1)
        r.need('%s ends after the end of the stream' % name, 1)
    for name, g in watchers(s):
        spin(s, r, 'C07/' + name, name, g)


def keep(st):
    return ('start',) if st is None or st == ('some',) else st


def ok_ret(v):
    return V.ok_value(v) is not None


def blocks(s, ev, err):
    """Does this branch say that the error is WouldBlock (True), that it is not (False), or neither (None)?"""
    t, v, eq = ev[1], ev[2], ev[0] == 'branch'
    while t.k == 'not':
        t, v = t.a[0], 1 - v if eq else v

    def iskind(x):
        if x.k == 'discr':
            x = x.a[0]
        return x.k == 'ap' and x.a[0] == 'kind' and x.a[1] is err

    if t.k == 'discr' and iskind(t):
        idx = [i for p, a in s.w.adts.items() if p.endswith('ErrorKind') and 'io' in p for i, x in enumerate(a['v']) if x['n'] == 'WouldBlock']
        if eq:
            return v in idx
        return False if set(idx) & set(v) else None
    if eq and t.k == 'bin' and t.a[0] == 'Eq' and any(iskind(x) for x in t.a[2:]):
        return wouldblock(s, t) == (v == 1) if wouldblock(s, t) else (False if v == 1 else None)
    return None


def wouldblock(s, u):
    for x in u.a[2:]:
        if x.k == 'A' and 'ErrorKind' in str(x.a[0]):
            a = s.w.adts.get(x.a[0])
            return a is not None and a['v'][x.a[1]]['n'] == 'WouldBlock'
    return False


def watchers(s):
    """The background tasks a connection and main spawn, other than the modem and rig tasks."""
    out = []
    seen = set()
    for t in main_spawns(s)['other']:
        path = cor_path(t)
        if path and path not in seen:
            seen.add(path)
            out.append((path.replace('plusendi::', ''), s.cor(t)))
    return out


def spin(s, r, pid, name, g):
    """Every cycle waits for something, consumes input, or counts."""
    succ = {}
    for n, evs, m, lab in g.edges():
        if m is None:
            continue
        wait = False
        for ev in evs:
            if ev[0] == 'pending' or ev[0] == 'io' and ev[1] in AWAITS:
                wait = True
            if ev[0] == 'parse' and ev[3].k == 'A' and ev[3].a[1] == 0:
                wait = True
            if ev[0] == 'q' and ev[1].startswith('pop'):
                wait = True
            if ev[0] == 'branch' and any(t.k == 'P' and is_counter(g, t) for t in subterms(ev[1])):
                wait = True
        if not wait:
            succ.setdefault(n.id, set()).add(m.id)
    cyc = cycle(succ)
    if cyc is not None:
        nodes = {n.id: n for n in g.nodes}
        n = nodes[cyc]
        r.bad('%s/spin' % pid, '%s can loop without waiting for anything (in %s)' % (name, g.e.frames[n.ctx.stack[-1][0]][1].path if n.ctx.stack else '?'))
    else:
        r.ok('every cycle of a task waits, consumes input or counts', '%s: %d points' % (name, len(g.nodes)))


def cycle(succ):
    color = {}
    for root in list(succ):
        if color.get(root):
            continue
        st = [(root, iter(succ.get(root, ())))]
        color[root] = 1
        while st:
            n, it = st[-1]
            for m in it:
                if color.get(m) == 1:
                    return m
                if not color.get(m):
                    color[m] = 1
                    st.append((m, iter(succ.get(m, ()))))
                    break
            else:
                color[n] = 2
                st.pop()
    return None


# ---- C02 -------------------------------------------------------------------------------------------
def roots(t):
    """The objects a value is, or is a changed state of."""
    if t.k == 'r' and '!' in t.a[0]:
        i = t.a[0].rsplit('!', 1)[1]
        return {t} | (roots(t.a[1][int(i)]) if i.isdigit() and int(i) < len(t.a[1]) else set())
    if t.k == 'U':
        return {t} | roots(t.a[0])
    if t.k == 'r' and '_channel' not in t.a[0]:
        return {t}
    return set()


def main_spawns(s):
    """Tasks main spawns, as values (frozen): {role: [task]}."""
    out = {'modem': [], 'rig': [], 'other': []}
    for ev in events(main_task(s), 'spawn'):
        t = freeze(ev[1])
        p = cor_path(t)
        k = 'modem' if 'manage_modem' in p or any(x.k == 'r' and x.a[0] == 'tcp_connect:ok' for x in subterms(t)) else 'rig' if p.startswith(KX3) else 'other'
        if t not in out[k]:
            out[k].append(t)
    return out


def cor_path(t):
    while t.k == 'U':
        t = t.a[0]
    return t.a[0][1] if is_cor(t) else ''


def chans_in(t, side):
    return {x.a[1] for x in subterms(t) if x.k == 'ap' and x.a[0] == side}


def ptt_channels(s, task, r=None):
    """{'ON': {(channel, value)}, 'OFF': ...}: what the modem task publishes for the PTT lines."""
    g = s.cor(V.norm_task(task))
    sp = L.spec(s)
    out, other = {}, []
    for c, eff, nows, ev, how in L.lines_of(s, g):
        name, want = L.name_of(sp, c)
        if name in ('PTT ON', 'PTT OFF'):
            out.setdefault(name[4:], set()).add(tuple((e[1].a[1], e[2]) for e in eff if e[1].k == 'ap' and e[1].a[0] == 'tx'))
        else:
            other += [(name or show(c)[:60], e[1].a[1]) for e in eff if e[1].k == 'ap' and e[1].a[0] == 'tx']
    ptt = {c for v in out.values() for t in v for c, x in t}
    if r is not None:
        for name, c in other:
            if c in ptt:
                r.bad('C02/modem/other/' + name, 'the line %s changes the PTT request' % name)
        for ev in L.lines(s, g)[1]:
            if chan_tx(ev[2][0]) in ptt:
                r.bad('C02/modem/spurious', 'the modem task changes the PTT request although no PTT line was received, at %s' % loc(ev))
    return out


def relay_map(s, r, g, chan, vals, rig):
    """What the relay sends on the rig's channel for each published value; {value: {command}}."""
    out = {}

    def step(st, ev, node):
        k = ev[0]
        if k == 'io' and ev[1] == 'changed' and L.chan_of(ev[2][0]) is chan:
            if st[0] in ('fresh', 'val'):
                r.bad('C02/relay/dropped', 'a change of the PTT request is not passed to the rig before the next is waited for, at %s' % loc(ev))
            return ('fresh',) if ev[3].a[1] == 0 else ('gone',)
        if k == 'io' and ev[1] == 'wait_for':
            raise Unsupported('the PTT relay waits for particular values')
        if k == 'io' and ev[1].startswith('watch_borrow') and L.chan_of(ev[2][0]) is chan:
            if st[0] == 'fresh':
                return [('val', ev[3], v, frozenset()) for v in vals]
            return st
        if st[0] == 'val' and k in ('branch', 'branchne'):
            fs = learn(g, st[3], (k, subst(ev[1], {st[1]: st[2]})) + ev[2:], lambda t: t.k == 'I')
            return None if fs is None else st
        if k == 'io' and ev[1] in ('mpsc_send', 'mpsc_try_send') and chan_tx(ev[2][0]) is rig:
            if ev[1] != 'mpsc_send':
                r.bad('C02/relay/' + ev[1], 'a PTT command is dropped when the rig\'s queue is full, at %s' % loc(ev))
            if st[0] == 'val':
                out.setdefault(st[2], set()).add(subst(ev[2][1], {st[1]: st[2]}))
                return ('sent',) if ev[3].a[1] == 0 else ('gone',)
            r.bad('C02/relay/' + st[0], 'the PTT relay sends %s without a %s, at %s' % (show(ev[2][1]), 'new PTT request' if st[0] != 'fresh' else 'look at the request', loc(ev)))
            return st
        if k == 'io' and ev[1] == 'mpsc_reserve' and chan_tx(ev[2][0]) is rig and ev[3].a[1] == 1:
            return ('gone',)
        if k == 'ret' and st[0] != 'gone':
            r.bad('C02/relay/ends', 'the PTT relay ends while the modem and the rig are both there')
        return st
    flow(g, ('idle',), step)
    return out


def chan_tx(t):
    return t.a[1] if t.k == 'ap' and t.a[0] == 'tx' else None


def rig_text(s, r, g, rx, cmds):
    """What the rig task writes for each command: {command: {bytes term}}."""
    out = {}
    srcs = {ev[2][0] for ev in events(g, 'io') if ev[1] in R.READS}

    def finish(st, where):
        if st[0] == 'cmd':
            out.setdefault(st[2], set()).add(st[3])
        return ('idle',)

    def step(st, ev, node):
        k = ev[0]
        if k == 'io' and ev[1] == 'recv' and L.chan_of(ev[2][0]) is rx:
            finish(st, ev)
            if ev[3].k == 'A' and ev[3].a[0] == OPT and ev[3].a[1] == 1:
                return [('cmd', ev[3].a[2], c, NOTHING) for c in cmds]
            return ('idle',)
        if k == 'io' and ev[1] in V.WRITES and ev[2][0] in srcs:
            if st[0] != 'cmd':
                r.bad('C02/rig/spurious', '%s is written to the rig without a command, at %s' % (show(ev[2][1])[:100], loc(ev)))
                return st
            kn = V.known_in(g, node)
            text = subst(closed(g, ev[2][1], facts_at(g, node, kn.facts)), {st[1]: st[2]})
            if ev[1] != 'write_all':
                r.bad('C02/rig/' + ev[1], 'a %s may send only part of a command to the rig, at %s' % (ev[1], loc(ev)))
            if ev[3].a[1] != 0:
                return ('failed',)
            return ('cmd', st[1], st[2], models.cat(st[3], text))
        if st[0] == 'cmd' and k in ('branch', 'branchne'):
            fs = learn(g, frozenset(), (k, subst(ev[1], {st[1]: st[2]})) + ev[2:], lambda t: t.k == 'I')
            return None if fs is None else st
        if k == 'pending' or k == 'io' and ev[1] in R.READS + ('recv',):
            return finish(st, ev)
        if k == 'ret':
            finish(st, ev)
        return st
    flow(g, ('idle',), step)
    return out


def c02(s, r):
    sp = main_spawns(s)
    if not sp['modem'] or not sp['rig']:
        raise Missing('main does not spawn the modem and rig tasks')
    n = 0
    for m in sp['modem']:
        ptt = ptt_channels(s, m, r)
        pubs = {}
        for k in ('ON', 'OFF'):
            if len(ptt.get(k, ())) != 1 or len(list(ptt[k])[0]) != 1:
                raise Missing('the modem task does not publish PTT %s once' % k)
            pubs[k] = list(ptt[k])[0][0]
        chan = pubs['ON'][0]
        if pubs['OFF'][0] is not chan:
            raise Missing('PTT ON and OFF go to different channels')
        relays = [t for t in sp['other'] if chan in chans_in(t, 'rx')]
        if len(relays) != 1:
            r.bad('C02/relay', '%d tasks of main follow the modem\'s PTT request instead of one' % len(relays))
            continue
        for rig in sp['rig']:
            rxs = {c for c in chans_in(rig, 'rx')}
            if len(rxs) != 1 or not rxs & chans_in(relays[0], 'tx'):
                r.bad('C02/rig/channel', 'the PTT relay does not hold the sender of the rig\'s command queue')
                continue
            rx = rxs.pop()
            for t in sp['other']:
                if t is not relays[0] and rx in chans_in(t, 'tx'):
                    for ev in events(s.cor(t), 'io'):
                        if ev[1].startswith('mpsc_') and 'send' in ev[1] and rx in chans_in(ev[2][0], 'tx'):
                            r.bad('C02/other/task', 'a task other than the PTT relay sends commands to the rig, at %s' % loc(ev))
            for ev in events(main_task(s), 'io'):
                if ev[1].startswith('mpsc_') and 'send' in ev[1] and rx in {freeze(x) for x in chans_in(ev[2][0], 'tx')}:
                    r.bad('C02/other/main', 'main sends a command to the rig itself, at %s' % loc(ev))
            port = set().union(*[roots(x) for x in rig.a if isinstance(x, Term)])
            for ev in events(main_task(s)):
                if ev[0] in ('io', 'call') and re.search(r'(^|::)(poll_|try_)?write|break|try_clone|(^|::)dup', ev[1]) and any(roots(freeze(a)) & port for x in ev[2:4] for a in (x if isinstance(x, tuple) else ()) if isinstance(a, Term)):
                    r.bad('C02/other/port', 'main uses the rig\'s port itself (%s), at %s' % (ev[1], loc(ev)))
            g = s.cor(relays[0])
            mp = relay_map(s, r, g, chan, [pubs['ON'][1], pubs['OFF'][1]], rx)
            cmds = sorted({c for x in mp.values() for c in x}, key=lambda t: t.id)
            gr = s.cor(rig)
            tx = rig_text(s, r, gr, rx, cmds)
            for k, want in (('ON', b'TX;'), ('OFF', b'RX;')):
                sent = mp.get(pubs[k][1], set())
                if not sent:
                    r.bad('C02/%s/lost' % k, 'PTT %s makes the relay send nothing to the rig' % k)
                for c in sent:
                    for t in tx.get(c, {None}):
                        n += 1
                        r.check(t is S(want), 'PTT lines become the rig\'s transmit commands', 'PTT %s -> %s -> %s -> %s' % (k, show(pubs[k][1]), show(c), want.decode()),
                                'C02/%s/text' % k, 'PTT %s makes the rig task write %s instead of %s' % (k, show(t) if t is not None else 'nothing', want.decode()))
    g = main_task(s)
    bad = set()

    def step(st, ev, node):
        if ev[0] == 'spawn':
            p = cor_path(ev[1])
            t = freeze(ev[1])
            return st | {k for k in ('modem', 'rig', 'other') if t in sp[k] and (k != 'other' or any(t is x and chans_in(t, 'rx') & ptt_chans for x in sp['other']))}
        if ev[0] == 'io' and ev[1] == 'mpsc_send' and is_connect(s, ev[2][1]):
            r.check(len(st) == 3, 'rig control is running before a connection is requested', loc(ev), 'C02/late', 'main requests a connection before rig control is running (only %s), at %s' % (', '.join(sorted(st)), loc(ev)))
        return st
    ptt_chans = {c for m in sp['modem'] for k in ptt_channels(s, m).values() for x in k for c, v in x}
    flow(g, frozenset(), step)


def is_connect(s, t):
    C = VARA + 'Command'
    return any(x.k == 'A' and x.a[0] == C and x.a[1] == s.var(C, 'Connect') for x in subterms(t))


# ---- C26 -------------------------------------------------------------------------------------------
def c26(s, r):
    import re
    C, CR = VARA + 'Command', VARA + 'CommandResult'
    g = main_task(s)
    opts = {ev[4] for ev in events(g, 'call') if ev[1].endswith('from_args') or ev[1].endswith('StructOpt::from_args')}
    ot = [x for x in opts if isinstance(x, Term)]
    if not ot:
        ot = list({x for ev in events(g, 'io', 'tcp_connect') for x in subterms(ev[2][0]) if x.k == 'r' and x.a[0].endswith('from_args')})
    if len(ot) != 1:
        raise Missing('main does not parse its options once')
    O = [k for k in s.w.adts if k.split('::')[-1] == 'Opt' and {'target', 'my_call'} <= set(s.w.adts[k]['v'][0]['f'])]
    if len(O) != 1:
        raise Missing('main has no options target and my_call')
    my, target = (s.pj(ot[0], O[0], None, n) for n in ('my_call', 'target'))
    OKD = s.discr(CR, 'Ok')
    CCf = s.w.adts[VARA + 'ConnectCommand']['v'][0]['f']
    LINE = re.compile(rb'\[[A-Za-z0-9]+-[^-\[\]\r]+-B2FWIHJM\$\]\rFF\r')
    data = [ev[2][0] for ev in events(g, 'io') if ev[1] in R.READS]

    def station(t, x):
        return t is x or t.k == 'A' and t.a[0] == TY + 'StationId' and t.a[2] is proj(x, (None, 0)) or t.k == 'U' and False

    def into(t):
        while t.k in ('ap', 'r') and t.a[0].endswith('Into::into'):
            t = t.a[1] if t.k == 'ap' else t.a[1][0]
        if t.k == 'A' and t.a[0] == VARA + 'MyCallSigns' and length(t.a[3]) is I(0):
            t = t.a[2]
        return t

    def kind(cmd):
        n = N.cname(s, cmd)
        if n == 'SetCall':
            return 'callsign' if station(into(cmd.a[2]), my) else None
        if n == 'SetCompression':
            return 'compression' if cmd.a[2] is s.con(VARA + 'CompressionMode', 'Text') else None
        if n == 'SetBandwidth':
            return 'bandwidth' if cmd.a[2] is s.con(VARA + 'BandwidthMode', 'Wide') else None
        if n == 'Connect':
            cc = cmd.a[2]
            f = {k: proj(cc, (None, i)) for i, k in enumerate(CCf)}
            return 'connect' if station(f['origin'], my) and station(f['target'], target) and f['path'] is s.con(VARA + 'ConnectPath', 'Direct') else None
        return n

    def step(st, ev, node):
        done, wait, fs, prompt, said = st
        k = ev[0]
        if k == 'io' and ev[1] in ('mpsc_send', 'mpsc_try_send'):
            cmd, rep = N.command_of(s, ev)
            if cmd is None:
                return st
            what = kind(cmd)
            if what is None:
                r.bad('C26/%s' % N.cname(s, cmd), 'main sends %s, at %s' % (show(cmd)[:200], loc(ev)))
                return None
            if what == 'connect':
                miss = {'callsign', 'compression', 'bandwidth'} - done
                r.check(not miss, 'main connects only after the TNC accepted callsign, compression and bandwidth', loc(ev), 'C26/order', 'main connects before the TNC accepted %s, at %s' % (', '.join(sorted(miss)), loc(ev)))
            return (done, (what, rep), frozenset(), prompt, said)
        if k == 'io' and ev[1] == 'oneshot_recv' and wait is not None and L.chan_of(ev[2][0]) is wait[1]:
            return (done, (wait[0], ev[3].a[2]), frozenset(), prompt, said) if ev[3].a[1] == 0 else (done, None, frozenset(), prompt, said)
        if k in ('branch', 'branchne'):
            if wait is not None and wait[1] is not None and any(x is wait[1] for x in subterms(ev[1])):
                fs = learn(g, fs, ev)
                if fs is None:
                    return None
                d = discr_term(s.w, wait[1])
                if not N.possible_ne(s, g, fs, d, CR, OKD):
                    return (done | {wait[0]}, None, frozenset(), prompt, said)
                return (done, wait, fs, prompt, said)
            f2 = learn(g, frozenset(), ev)
            if f2 and at_prompt(g, f2):
                return (done, wait, fs, True, said)
            return st
        if k == 'io' and ev[1] in V.WRITES and any(ev[2][0] is d for d in data):
            t = ev[2][1]
            if not prompt:
                r.bad('C26/early', 'main writes to the remote before its prompt, at %s' % loc(ev))
            elif LINE.fullmatch(said):
                r.bad('C26/again', 'main writes to the remote a second time, at %s' % loc(ev))
            elif ev[1] != 'write_all':
                r.bad('C26/' + ev[1], 'a %s may send only part of the identification, at %s' % (ev[1], loc(ev)))
            elif t.k != 'S' or len(said) > 400:
                r.bad('C26/text', 'main identifies itself with %s, at %s' % (show(t)[:200], loc(ev)))
            else:
                said += t.a[0]
                if LINE.fullmatch(said):
                    r.ok('main identifies itself once, after the prompt', show(S(said)))
                return (done, wait, fs, prompt, said)
            return None
        if k == 'io' and ev[1] in R.READS and any(ev[2][0] is d for d in data) and said and not LINE.fullmatch(said):
            r.bad('C26/text', 'main identifies itself with %s, before %s' % (show(S(said))[:200], loc(ev)))
            return None
        if k == 'ret' and V.ok_value(ev[1]) is not None and not LINE.fullmatch(said):
            r.bad('C26/silent' if not said else 'C26/text', 'main ends successfully without identifying itself' if not said else 'main identifies itself with %s only' % show(S(said))[:200])
        return st
    flow(g, (frozenset(), None, frozenset(), False, b''), step)
    r.need('main identifies itself once, after the prompt', 1)
    r.need('main connects only after the TNC accepted callsign, compression and bandwidth', 1)


# ---- C28 -------------------------------------------------------------------------------------------
# tokio documents these as cancel safe: given up while pending, they have done nothing
SAFE = ('recv', 'readable', 'writable', 'ready', 'changed', 'wait_for', 'read_buf', 'read', 'write', 'flush', 'sleep', 'yield_now', 'oneshot_recv', 'ready_now')


def c28(s, r):
    for name, gs in (('modem', V.modem_task(s)), ('rig', [rig_task(s)]), ('main', [main_task(s)])):
        for g in gs:
            waits(s, r, name, g)
            r.ok('the waits of a task that may be given up are looked at', name)


def safe(x):
    """A future that has done nothing while it is pending."""
    return x.k == 'ap' and x.a[0] == 'rx' or x.k == 'A' and isinstance(x.a[0], str) and x.a[0] in {models.FUT + y for y in SAFE}


def waits(s, r, name, g):
    pid = 'C28/' + name

    # state: (the branch that may be given up, what it has received and in how many places outside of it that
    # was when it was received, the same for whatever is received next)
    def step(st, ev, node):
        k = ev[0]
        if k == 'done':
            return (None, frozenset(), frozenset()) if st[0] == ev[1] else st
        if k == 'had':
            return (ev[1], st[1] if st[0] == ev[1] else frozenset(), ev[2])
        if k == 'kept':
            return st if st[0] != ev[1] else (st[0], frozenset((x, n) for x, n in st[1] if dict(ev[2]).get(x, 0) <= n), st[2])
        if k not in ('io', 'pending'):
            return st
        w = at(ev)
        f = g.e.byhand(w[4])
        if st[0] != f:
            st = (f, frozenset(), frozenset())
        if k == 'io':
            if ev[1] == 'timeout':
                r.check(safe(ev[2][1]), 'a wait that may be given up has done nothing yet', loc(ev), '%s/timeout/%s' % (pid, w[0]),
                        'what has a time limit may already have taken or sent something when it runs out, at %s' % loc(ev))
            return (f, st[1] | {(x, dict(st[2]).get(x, 0)) for x in subterms(ev[3]) if taken(x)}, frozenset()) if f is not None else st
        r.check(ev[1] in SAFE, 'a wait that may be given up has done nothing yet', loc(ev), '%s/unsafe/%s/%s' % (pid, ev[1], w[0]),
                'a wait (%s) that may have taken or sent something when it is given up, at %s' % (ev[1], loc(ev)))
        r.check(not st[1], 'the branch of a wait that may be given up holds nothing', loc(ev), '%s/lost/%s/%s' % (pid, ev[1], w[0]),
                'what was received (%s) is lost when the wait for something else after it is given up, at %s' % (', '.join(sorted({x.a[0].split(':')[0] for x, n in st[1]})), loc(ev)))
        return (f, frozenset(), frozenset()) if not st[1] else None

    flow(g, (None, frozenset(), frozenset()), step)
