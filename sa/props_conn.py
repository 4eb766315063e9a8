"""Rules about a VARA connection: building the modem, commands, connecting, the stream, dropping it."""
from lib import *
import re
import props_vara as V
import props_lines as L

STREAM = VARA + 'VaraStream'
SELF = mk('R', ('G', '#self'), (), 'm')


def chans_in(t, side):
    return {x.a[1] for x in subterms(t) if x.k == 'ap' and x.a[0] == side}


def socks(t):
    return {x for x in subterms(t) if x.k == 'r' and x.a[0] == 'tcp_connect:ok'}


def own(t):
    """What a VaraTnc holds itself (the handle of the task it spawned excluded)."""
    return subst(t, {x: mk('Y', '#task') for x in subterms(t) if x.k == 'r' and x.a[0] == 'spawn'})


def data_socket(s, tnc, tasks):
    d = socks(own(tnc)) - {y for t in tasks for y in socks(t)}
    if len(d) != 1:
        raise Missing('the modem has %d data connections' % len(d))
    return d.pop()


def M_roots(t):
    import props_main
    return props_main.roots(t)


def connects(s):
    """[(tnc, connect graph, [stream values], [spawned tasks])]"""
    if 'connects' not in s.cache:
        tncs, tasks, g0 = V.tasks(s)
        out = []
        for tnc in tncs:
            g = L.connect_graph(s, tnc)
            vs = list(dict.fromkeys(freeze(V.ok_value(ev[1])) for ev in events(g, 'ret') if V.ok_value(ev[1]) is not None))
            sp = list(dict.fromkeys(freeze(ev[1]) for ev in events(g, 'spawn')))
            if not vs:
                raise Missing('VaraTnc::connect never returns a stream')
            out.append((tnc, g, vs, sp))
        s.cache['connects'] = out
    return s.cache['connects']


def conn_channel(s):
    ch = L.status_channels(s)['connection']
    if len(ch) != 1:
        raise Missing('several connection status channels')
    return freeze(list(ch)[0])


METHODS = [('tokio::io::async_read::AsyncRead', 'poll_read'), ('tokio::io::async_write::AsyncWrite', 'poll_write'), ('tokio::io::async_write::AsyncWrite', 'poll_flush'),
           ('tokio::io::async_write::AsyncWrite', 'poll_shutdown'), ('tokio::io::async_write::AsyncWrite', 'poll_write_vectored')]


def impl(s, trait, m):
    c = [k for k in s.w.bodies if k.startswith('<' + STREAM) and k.endswith(' as %s>::%s' % (trait, m))]
    if len(c) != 1:
        if m == 'poll_write_vectored' and not c:
            return None
        raise Missing('%s::%s is not implemented for VaraStream' % (trait, m))
    return c[0]


def states(s, r, tnc, sv, sigs, data, report=True):
    """All values a stream can take under any sequence of polls: {(value, disconnect seen)}; checks every poll."""
    todo, seen = [(sv, False)], set()
    good = 'polls of a live stream reach the data connection; after the remote disconnected they end it'
    while todo:
        val, gone0 = todo.pop()
        if (val, gone0) in seen:
            continue
        seen.add((val, gone0))
        if len(seen) > 40:
            raise Unsupported('the state of VaraStream grows with every poll')
        for trait, m in METHODS:
            path = impl(s, trait, m)
            if path is None:
                continue
            body = s.body(path)
            params = [mk('Y', body.locals[i + 1][1] or 'arg%d' % i) for i in range(body.argc)]
            g = s.fn(path, [SELF], cells={'#self': val})
            key = 'C08/%s/' % m

            def bad(k, msg):
                if report:
                    r.bad(key + k, msg)

            def step(st, ev, node):
                k = ev[0]
                if k in ('pending', 'io') and ev[1] == 'oneshot_recv' and chans_in(ev[2][0], 'rx') & sigs:
                    if st[1]:
                        bad('again', '%s polls the disconnect signal again after it resolved (that panics)' % m)
                    return ('start', True) if k == 'io' else ('alive', st[1])
                if k == 'call' and ev[1].startswith('<tokio::net::tcp::stream::TcpStream as ') or k == 'io' and ev[2] and ev[2][0] is data:
                    if k != 'call' or not ev[1].endswith('::' + m) or ev[3][0] is not data:
                        bad('delegate', '%s uses %s of %s' % (m, ev[1].split('::')[-1], show(ev[3][0] if k == 'call' else ev[2][0])[:80]))
                    elif list(ev[3][1:]) != params[1:]:
                        bad('args', '%s passes on %s instead of what it was given' % (m, [show(x)[:60] for x in ev[3][1:]]))
                    elif st[1]:
                        bad('gone', '%s still uses the data connection after the remote disconnected' % m)
                    elif st[0] != 'alive':
                        bad('unchecked', '%s uses the data connection without checking for a remote disconnect' % m)
                    return ('done', st[1], ev[4] if k == 'call' else ev[3])
                if k == 'ret':
                    v = ev[1]
                    fin = dict(ev[2])
                    nv = fin.get(mk('Y', '#self'), val)
                    todo.append((freeze(nv), st[1]))
                    if st[0] == 'done':
                        if v is not st[2]:
                            bad('result', '%s returns %s instead of the result of the data connection' % (m, show(v)[:200]))
                        elif report:
                            r.ok(good, '%s live' % m)
                    elif st[1]:
                        if m == 'poll_read':
                            ok = v is A(POLL, 0, A(RES, 0, mk_unit())) and not any(p in fin and fin[p] is not p for p in params[1:])
                        else:
                            ok = is_aborted(s, v)
                        if not ok:
                            bad('closed', 'after the remote disconnected %s returns %s' % (m, show(v)[:200]))
                        elif report:
                            r.ok(good, '%s after the remote disconnected' % m)
                    elif st[0] == 'alive':
                        bad('idle', '%s returns %s without using the data connection' % (m, show(v)[:200]))
                    else:
                        bad('unchecked', '%s returns %s without checking for a remote disconnect' % (m, show(v)[:200]))
                return st
            flow(g, ('start', gone0), step)
    return seen


def mk_unit():
    return UNIT


def is_aborted(s, v):
    if not (v.k == 'A' and v.a[0] == POLL and v.a[1] == 0 and v.a[2].k == 'A' and v.a[2].a[0] == RES and v.a[2].a[1] == 1):
        return False
    for x in subterms(v):
        if x.k == 'A' and 'ErrorKind' in str(x.a[0]):
            return s.w.adts[x.a[0]]['v'][x.a[1]]['n'] == 'ConnectionAborted'
    return False


def signals(sv, spawned, chan):
    """oneshot channels of a stream fed by a task that watches the connection status."""
    return {c for t in spawned if chan in chans_in(t, 'rx') for c in chans_in(t, 'tx') & chans_in(sv, 'rx')}


def c08(s, r):
    tasks = V.tasks(s)[1]
    chan = conn_channel(s)
    for tnc, g, vs, sp in connects(s):
        data = data_socket(s, tnc, tasks)
        for sv in vs:
            sigs = signals(sv, sp, chan)
            if len(sigs) != 1:
                r.bad('C08/signal', 'a connected stream has %d signals of a remote disconnect' % len(sigs))
                continue
            states(s, r, tnc, sv, sigs, data)
        for t in sp:
            if chan in chans_in(t, 'rx'):
                watcher(s, r, t, chan)
        for ev in events(g, 'spawn'):
            t = freeze(ev[1])
            if chan in chans_in(t, 'rx'):
                r.ok('the watcher follows the connection status the stream was opened with', show(t)[:100])
        for ev in events(g):
            if ev[0] in ('io', 'call') and not V.HARMLESS.search(ev[1]) and any(isinstance(a, Term) and data in M_roots(freeze(a)) for x in ev[2:4] if isinstance(x, tuple) for a in x):
                r.bad('C08/connect/' + ev[1].split('::')[-1], 'connect uses the data connection itself (%s), at %s' % (ev[1], loc(ev)))
        # the watcher must not be given a receiver that already skipped a disconnect
        def step(st, ev, node):
            if ev[0] == 'io' and ev[1] == 'watch_borrow_and_update' and L.chan_of(ev[2][0]) is chan_un(g, chan):
                if st == 'looked':
                    r.bad('C08/missed', 'a disconnect between the connection check and the watcher would be marked as seen, at %s' % loc(ev))
            if ev[0] == 'io' and ev[1].startswith('watch_borrow') and st == 'changed':
                return 'looked'
            if ev[0] == 'io' and ev[1] in ('changed', 'wait_for'):
                if st == 'looked':
                    r.bad('C08/missed', 'a status change after the connection check is consumed before the watcher starts, at %s' % loc(ev))
                return 'changed'
            return st
        flow(g, 'start', step)


def chan_un(g, chan):
    return chan


def watcher(s, r, t, chan):
    g = s.cor(t)
    sig = chans_in(t, 'tx')
    C = VARA + 'ConnectionStateOwned'
    names = [v['n'] for v in s.w.adts[C]['v']]
    dis = s.discr(C, 'Disconnected')

    def step(st, ev, node):
        k = ev[0]
        if k == 'io' and ev[1] == 'changed' and L.chan_of(ev[2][0]) is chan:
            if st[0] == 'val' and possible(g, st[2], discr_term(s.w, st[1]), dis):
                r.bad('C08/watcher/missed', 'the watcher of a stream goes on after a disconnect, at %s' % loc(ev))
            if st[0] == 'fresh':
                r.bad('C08/watcher/missed', 'the watcher of a stream does not look at a status change, at %s' % loc(ev))
            return ('fresh',) if ev[3].a[1] == 0 else ('gone',)
        if k == 'io' and ev[1].startswith('watch_borrow') and L.chan_of(ev[2][0]) is chan:
            if ev[1] == 'watch_borrow_and_update' and st[0] == 'val' or st[0] == 'idle':
                r.bad('C08/watcher/skip', 'the watcher of a stream can skip a status, at %s' % loc(ev))
            return ('val', ev[3], frozenset()) if st[0] in ('fresh', 'val') else st
        if st[0] == 'val' and k in ('branch', 'branchne'):
            fs = learn(g, st[2], ev, lambda t: any(x is st[1] for x in subterms(t)))
            return None if fs is None else ('val', st[1], fs)
        if k == 'io' and ev[1] == 'oneshot_send' and chans_in(ev[2][0], 'tx') & sig:
            if st[0] != 'val' or knows(g, st[2])(discr_term(s.w, st[1])) != dis:
                r.bad('C08/watcher/early', 'the stream is told of a disconnect when the status is not Disconnected, at %s' % loc(ev))
            else:
                r.ok('the watcher reports exactly a disconnect', loc(ev))
            return ('sent',)
        if k == 'ret' and st[0] not in ('sent', 'gone'):
            r.bad('C08/watcher/ends', 'the watcher of a stream ends without a disconnect (the stream then takes the link for closed)')
        return st
    flow(g, ('idle',), step)
    r.need('the watcher reports exactly a disconnect', 1)


# ---- C09 -------------------------------------------------------------------------------------------
def command_of(s, ev):
    """(command value, reply channel) of an mpsc_send of the modem's command queue."""
    x = ev[2][1]
    if x.k == 'A' and x.a[0] == 'tuple' and len(x.a) == 4:
        ch = chans_in(x.a[3], 'tx')
        if len(ch) == 1 and x.a[2].k == 'A' and x.a[2].a[0] == VARA + 'Command':
            return x.a[2], list(ch)[0]
    return None, None


def control(tnc):
    """The sender of the modem's command queue."""
    c = {x for x in subterms(own(tnc)) if x.k == 'ap' and x.a[0] == 'tx'}
    if len(c) != 1:
        raise Missing('a VaraTnc has %d command queues' % len(c))
    return c.pop()


def cname(s, t):
    return s.w.adts[VARA + 'Command']['v'][t.a[1]]['n'] if t is not None else None


def drop_path(s):
    c = [k for k in s.w.bodies if 'core::ops::drop::Drop for ' + STREAM in k and k.endswith('>::drop')]
    if not c:
        c = ['<%s<\'a> as core::ops::drop::Drop>::drop' % STREAM]
    if len(c) != 1 or c[0] not in s.w.bodies:
        raise Missing('VaraStream does not implement Drop')
    return c[0]


KEEPS = re.compile(r'(^|::)(mem::forget|ManuallyDrop::<T>::new|Box::<T(, A)?>::(leak|into_raw)|(Rc|Arc)::<T(, A)?>::into_raw|MaybeUninit::<T>::new)$')
ENDS = re.compile(r'(^|::)JoinHandle(::<T>)?::abort$')


def ends_force(s, tnc, g, vs, sp):
    """The streams that hold the handle of the task that forces a disconnect."""
    for sv in vs:
        force = [t for t in sp for c in chans_in(t, 'rx') & chans_in(sv, 'tx') if c not in chans_in(tnc, 'tx')]
        for x in subterms(sv):
            if x.k == 'r' and x.a[0] == 'spawn' and any(freeze(y) in force for y in x.a[1] if isinstance(y, Term)):
                yield sv


def c09(s, r):
    tasks = V.tasks(s)[1]
    chan = conn_channel(s)
    C = VARA + 'ConnectionStateOwned'
    dis = s.discr(C, 'Disconnected')
    for tnc, g, vs, sp in connects(s):
        data, ctl = data_socket(s, tnc, tasks), control(tnc)
        for sv in vs:
            sigs = signals(sv, sp, chan)
            force = {c: t for t in sp for c in chans_in(t, 'rx') & chans_in(sv, 'tx') if c not in chans_in(tnc, 'tx')}
            if len(force) != 1:
                r.bad('C09/force', 'a connected stream has %d ways to force a disconnect when it is dropped' % len(force))
                continue
            fch, ft = list(force.items())[0]
            for val, gone in sorted(states(s, r, tnc, sv, sigs, data, False), key=lambda x: (x[0].id, x[1])):
                drops(s, r, val, chan, dis, fch)
            forced(s, r, ft, fch, ctl)
    import props_types as T
    for p, f, ts, sp in T.crate_calls(s, KEEPS):
        if any('VaraStream' in x for x in ts):
            r.bad('C09/drop/never/' + p, '%s keeps a stream from being dropped (%s:%s)' % (p, sp[0], sp[1]))
    for p, f, ts, sp in T.crate_calls(s, ENDS):
        if ts[-1:] == ['()']:
            for tnc, g, vs, sp2 in connects(s):
                for q in ends_force(s, tnc, g, vs, sp2):
                    r.bad('C09/forced/aborted/' + p, '%s ends a task, which may be the one that disconnects (%s:%s)' % (p, sp[0], sp[1]))
    for name, cmd in (('disconnect', 'Disconnect'), ('abort', 'Abort')):
        for tnc, g0, vs, sp in connects(s):
            for sv in vs:
                c = [k for k in s.w.bodies if k.startswith(STREAM) and k.endswith('::' + name)]
                if len(c) != 1:
                    raise Missing('VaraStream has no ' + name)
                g = s.asyncfn(c[0], [sv])
                sends_one(s, r, g, control(tnc), lambda t: cname(s, t) == cmd, 'C09/' + name, 'VaraStream::%s sends exactly its command' % name)


def drops(s, r, val, chan, dis, fch):
    g = s.fn(drop_path(s), [SELF], cells={'#self': val})

    def step(st, ev, node):
        k = ev[0]
        if k == 'io' and ev[1].startswith('watch_borrow') and L.chan_of(ev[2][0]) is chan:
            return ('val', ev[3], frozenset()) if st[0] != 'sent' else st
        if st[0] == 'val' and k in ('branch', 'branchne'):
            fs = learn(g, st[2], ev, lambda t: any(x is st[1] for x in subterms(t)))
            return None if fs is None else ('val', st[1], fs)
        if k == 'io' and ev[1] == 'oneshot_send' and chans_in(ev[2][0], 'tx') == {fch}:
            if st[0] == 'sent':
                r.bad('C09/drop/twice', 'dropping a stream forces a disconnect twice, at %s' % loc(ev))
            if st[0] == 'val' and not possible_ne(s, g, st[2], discr_term(s.w, st[1]), VARA + 'ConnectionStateOwned', dis):
                r.bad('C09/drop/spurious', 'dropping a stream that is disconnected forces a disconnect, at %s' % loc(ev))
            return ('sent',)
        if k == 'ret':
            if st[0] == 'val' and possible_ne(s, g, st[2], discr_term(s.w, st[1]), VARA + 'ConnectionStateOwned', dis):
                r.bad('C09/drop/kept', 'dropping a stream can leave the link connected')
            elif st[0] == 'start':
                r.bad('C09/drop/kept', 'dropping a stream neither checks nor ends the link')
            else:
                r.ok('dropping a stream forces a disconnect exactly unless the link is down', 'drop, %s' % st[0])
        return st
    flow(g, ('start',), step)


def possible_ne(s, g, facts, t, adt, v):
    """t may be the discriminant of another variant of adt than v."""
    return any(possible(g, facts, t, x) for x in {s.w.discr_of(adt, i) for i in range(len(s.w.adts[adt]['v']))} - {v})


def forced(s, r, task, fch, ctl):
    g = s.cor(task)

    def step(st, ev, node):
        k = ev[0]
        if k == 'io' and ev[1] == 'oneshot_recv' and L.chan_of(ev[2][0]) is fch:
            return ('told',) if ev[3].a[1] == 0 else ('dropped',)
        if k == 'io' and ev[1] in ('mpsc_send', 'mpsc_try_send') and ev[2][0] is ctl:
            cmd, rep = command_of(s, ev)
            if ev[1] != 'mpsc_send':
                r.bad('C09/forced/' + ev[1], 'the forced disconnect is lost when the command queue is full')
            if st[0] != 'told' or cname(s, cmd) != 'Disconnect':
                r.bad('C09/forced/' + st[0], 'the task behind a stream sends %s %s, at %s' % (cname(s, cmd) or show(ev[2][1])[:80], {'told': 'when told to disconnect', 'dropped': 'although the stream did not ask', 'start': 'unasked', 'sent': 'once more'}[st[0]], loc(ev)))
            else:
                r.ok('a forced disconnect sends DISCONNECT once', loc(ev))
            return ('sent',)
        if k == 'ret' and st[0] in ('told', 'start'):
            r.bad('C09/forced/lost', 'a forced disconnect is not sent')
        return st
    flow(g, ('start',), step)
    r.need('a forced disconnect sends DISCONNECT once', 1)


def sends_one(s, r, g, ctl, want, key, rule):
    """The async fn sends exactly one command (want), and is Ok exactly if its reply is Ok."""
    OKD = s.discr(VARA + 'CommandResult', 'Ok')

    def step(st, ev, node):
        k = ev[0]
        if k == 'io' and ev[1] in ('mpsc_send', 'mpsc_try_send') and chans_in(ev[2][0], 'tx') & chans_in(ctl, 'tx'):
            cmd, rep = command_of(s, ev)
            if ev[1] != 'mpsc_send':
                r.bad(key + '/' + ev[1], 'a command is lost when the command queue is full, at %s' % loc(ev))
            if st[0] != 'start':
                r.bad(key + '/more', 'a second command is sent, at %s' % loc(ev))
            elif rep is None or not want(cmd):
                r.bad(key + '/command', '%s is sent, at %s' % (show(ev[2][1])[:200], loc(ev)))
            return ('sent', rep) if ev[3].a[1] == 0 else ('failed',)
        if k == 'io' and ev[1] == 'mpsc_reserve' and chans_in(ev[2][0], 'tx') & chans_in(ctl, 'tx') and ev[3].a[1] == 1:
            return ('failed',)
        if k == 'io' and ev[1] == 'oneshot_recv' and st[0] == 'sent' and L.chan_of(ev[2][0]) is st[1]:
            return ('reply', ev[3].a[2], frozenset()) if ev[3].a[1] == 0 else ('failed',)
        if st[0] == 'reply' and k in ('branch', 'branchne'):
            fs = learn(g, st[2], ev, lambda t: any(x is st[1] for x in subterms(t)))
            return None if fs is None else ('reply', st[1], fs)
        if k == 'ret':
            good = V.ok_value(ev[1]) is not None
            if st[0] == 'start':
                r.bad(key + '/nothing', 'it returns without sending a command')
            elif st[0] == 'sent':
                r.bad(key + '/noreply', 'it returns without waiting for the TNC\'s answer')
            elif st[0] == 'failed':
                r.check(not good, rule, '%s: no answer' % g.e.rootname, key + '/closed', 'it succeeds although the modem task is gone')
            else:
                d = discr_term(s.w, st[1])
                if good and possible_ne(s, g, st[2], d, VARA + 'CommandResult', OKD):
                    r.bad(key + '/wrong', 'it succeeds although the TNC answered WRONG')
                elif not good and possible(g, st[2], d, OKD):
                    r.bad(key + '/ok', 'it fails although the TNC answered OK')
                else:
                    r.ok(rule, '%s: %s' % (g.e.rootname, 'OK' if good else 'WRONG'))
        return st
    flow(g, ('start', None), step)


# ---- C29 -------------------------------------------------------------------------------------------
def c29(s, r):
    C = VARA + 'Command'
    rule = 'a command method sends exactly its command and reports the TNC\'s answer'
    for tnc, g0, vs, sp in connects(s):
        ctl = control(tnc)
        x = mk('Y', '#arg')
        for m, cmd, has in (('send_compression', 'SetCompression', 1), ('send_bandwidth', 'SetBandwidth', 1), ('send_disconnect', 'Disconnect', 0), ('send_abort', 'Abort', 0),
                            ('send_callsign', 'SetCall', 1)):
            g = s.asyncfn(VARA + 'VaraTnc::' + m, [tnc] + [x] * has)

            def want(t, cmd=cmd, has=has, m=m):
                if cname(s, t) != cmd:
                    return False
                if not has:
                    return True
                a = t.a[2]
                return a is x or m == 'send_callsign' and a.k in ('r', 'ap') and a.a[0].endswith('Into::into') and any(y is x for y in subterms(a))
            sends_one(s, r, g, ctl, want, 'C29/' + m, rule)
    # one station as MyCallSigns is that station, alone
    p = '<%sMyCallSigns as core::convert::From<%sStationId>>::from' % (VARA, TY)
    g = s.fn(p)
    a = mk('Y', s.body(p).locals[1][1] or 'arg0')
    for v, f, fs in rets(g):
        r.check(v.k == 'A' and v.a[2] is a and (v.a[3] is S(b'') or v.a[3].k == 'ap' and v.a[3].a[0] in ('vec', 'queue') and len(v.a[3].a) == 1 or is_empty(v.a[3])), 'one callsign is registered as that callsign, alone', show(v)[:80], 'C29/from', 'a single station becomes %s' % show(v)[:200])


def is_empty(t):
    return length(t) is I(0)


# ---- C10 -------------------------------------------------------------------------------------------
def c10(s, r):
    C, OWN, CR = VARA + 'Command', VARA + 'ConnectionStateOwned', VARA + 'CommandResult'
    CONN, OKD = s.discr(OWN, 'Connected'), s.discr(CR, 'Ok')
    chan = conn_channel(s)
    a, b = mk('Y', 'from'), mk('Y', 'to')
    direct = s.con(VARA + 'ConnectPath', 'Direct')
    CCf = s.w.adts[VARA + 'ConnectCommand']['v'][0]['f']
    fs = {'origin': a, 'target': b, 'path': direct}
    if set(CCf) != set(fs):
        raise Missing('ConnectCommand has fields %s' % ', '.join(CCf))
    want = s.con(C, 'Connect', A(VARA + 'ConnectCommand', 0, *[fs[f] for f in CCf]))
    rule = 'connect succeeds exactly if the TNC takes the command and then reports a connection'
    for tnc, g, vs, sp in connects(s):
        ctl = control(tnc)

        def step(st, ev, node):
            k = ev[0]
            if k == 'io' and ev[1] in ('watch_borrow_and_update', 'watch_mark_unchanged') and L.chan_of(ev[2][0]) is chan and st[0] in ('start', 'seen'):
                return ('seen',)
            if k == 'io' and ev[1] in ('watch_borrow_and_update', 'watch_mark_unchanged') and L.chan_of(ev[2][0]) is chan and st[0] in ('sent', 'reply'):
                r.bad('C10/late-discard', 'connect may discard the status change it is to wait for: it marks the status as seen after sending the command, at %s' % loc(ev))
            if k == 'io' and ev[1] in ('mpsc_send', 'mpsc_try_send') and chans_in(ev[2][0], 'tx') & chans_in(ctl, 'tx'):
                cmd, rep = command_of(s, ev)
                if st[0] == 'start':
                    r.bad('C10/stale', 'connect does not discard the status changes of earlier connections before it sends the command, at %s' % loc(ev))
                elif st[0] != 'seen':
                    r.bad('C10/more', 'connect sends a second command, at %s' % loc(ev))
                if cmd is not want:
                    r.bad('C10/command', 'connect sends %s, at %s' % (show(ev[2][1])[:200], loc(ev)))
                if ev[1] != 'mpsc_send':
                    r.bad('C10/' + ev[1], 'the command is lost when the command queue is full')
                return ('sent', rep) if ev[3].a[1] == 0 else ('failed',)
            if k == 'io' and ev[1] == 'mpsc_reserve' and chans_in(ev[2][0], 'tx') & chans_in(ctl, 'tx') and ev[3].a[1] == 1:
                return ('failed',)
            if k == 'io' and ev[1] == 'oneshot_recv' and st[0] == 'sent' and L.chan_of(ev[2][0]) is st[1]:
                return ('reply', ev[3].a[2], frozenset()) if ev[3].a[1] == 0 else ('failed',)
            if st[0] in ('reply', 'state') and k in ('branch', 'branchne'):
                about = st[1] if st[0] == 'state' else (st[1],)
                fs = learn(g, st[2], ev, lambda t: any(x in about for x in subterms(t)))
                return None if fs is None else (st[0], st[1], fs)
            if k == 'io' and ev[1] == 'changed' and L.chan_of(ev[2][0]) is chan:
                if st[0] != 'reply':
                    if st[0] == 'state':
                        r.bad('C10/later', 'connect waits for another status change after it looked at one, at %s' % loc(ev))
                    elif st[0] != 'failed':
                        r.bad('C10/order', 'connect waits for a status change before the TNC answered the command, at %s' % loc(ev))
                    return st
                if possible_ne(s, g, st[2], discr_term(s.w, st[1]), CR, OKD):
                    r.bad('C10/wrong', 'connect waits for a connection although the TNC may have answered WRONG, at %s' % loc(ev))
                return ('changed',) if ev[3].a[1] == 0 else ('failed',)
            if k == 'io' and ev[1].startswith('watch_borrow') and L.chan_of(ev[2][0]) is chan and st[0] in ('changed', 'state'):
                return ('state',) + (st[1] + (ev[3],) if st[0] == 'state' else (ev[3],), st[2] if st[0] == 'state' else frozenset())
            if k == 'ret':
                good = V.ok_value(ev[1]) is not None
                if st[0] == 'state':
                    ds = [discr_term(s.w, x) for x in st[1]]
                    if good and all(possible_ne(s, g, st[2], d, OWN, CONN) for d in ds):
                        r.bad('C10/ok', 'connect returns a stream when the status is not Connected')
                    elif not good and all(possible(g, st[2], d, CONN) for d in ds):
                        r.bad('C10/err', 'connect fails although the status is Connected')
                    else:
                        r.ok(rule, 'status %s: %s' % ('Connected' if good else 'other', 'Ok' if good else 'Err'))
                elif st[0] == 'reply':
                    if good:
                        r.bad('C10/unconnected', 'connect returns a stream without waiting for a connection')
                    elif possible(g, st[2], discr_term(s.w, st[1]), OKD):
                        r.bad('C10/refused', 'connect fails although the TNC answered OK')
                    else:
                        r.ok(rule, 'WRONG: Err')
                elif good:
                    r.bad('C10/' + st[0], 'connect returns a stream (%s)' % {'start': 'without sending a command', 'seen': 'without sending a command', 'sent': 'without an answer', 'failed': 'although the modem task is gone', 'changed': 'without looking at the connection status'}[st[0]])
                elif st[0] == 'failed':
                    r.ok(rule, 'modem task gone: Err')
                elif st[0] == 'sent':
                    r.bad('C10/noreply', 'connect fails without waiting for the answer to its command')
                elif st[0] in ('seen', 'start'):
                    r.bad('C10/unsent', 'connect fails without sending its command')
            return st
        flow(g, ('start',), step)
        for sv in vs:
            r.check(own(tnc) in [own(x) for x in subterms(sv) if x.k == 'A' and x.a[0] == VARA + 'VaraTnc'], 'a stream belongs to the modem that opened it', 'VaraStream', 'C10/tnc', 'the stream is not tied to the modem that opened it')


# ---- C25 -------------------------------------------------------------------------------------------
def c25(s, r):
    B = VARA + 'VaraTncBuilder'
    fn = [v['f'] for v in s.w.adts[B]['v']][0]
    H = 'std::net::IpAddr'
    g = s.fn(VARA + 'VaraTnc::builder')
    start = [v for v, f, fs in rets(g)]
    if len(start) != 1 or start[0].k != 'A' or start[0].a[0] != B:
        raise Missing('VaraTnc::builder does not return one builder')
    get = lambda v, n: proj(v, (None, s.field(B, s.w.adts[B]['v'][0]['n'], n)))
    setters = {'host': None, 'control_port': None, 'data_port': None}
    old = mk('Y', '#old')
    n = 0
    fields = {}
    # a setter changes exactly the field build reads for it
    for m in setters:
        p = '%s::%s' % (B, m)
        x = mk('Y', '#x')
        g = s.fn(p, [SELF, x], cells={'#self': old})
        for v, f, fs in rets(g):
            nv = f.get('#self', old)
            ch = [i for i in range(len(fn)) if proj(nv, (None, i)) is not proj(old, (None, i))]
            if len(ch) != 1:
                r.bad('C25/%s' % m, 'VaraTncBuilder::%s changes %d settings' % (m, len(ch)))
                continue
            fields.setdefault(m, set()).add((ch[0], proj(nv, (None, ch[0])) ))
    idx = {}
    for m, v in fields.items():
        if len(v) != 1:
            r.bad('C25/%s' % m, 'VaraTncBuilder::%s has several effects' % m)
            continue
        i, val = list(v)[0]
        x = mk('Y', '#x')
        want = A(OPT, 1, x) if m == 'data_port' else x
        if val is want or val is x:
            idx[m] = (i, val is not x)
            r.ok('a setting is stored unchanged', '%s -> %s' % (m, fn[i]))
        else:
            r.bad('C25/%s/value' % m, 'VaraTncBuilder::%s stores %s' % (m, show(val)[:200]))
    if len(set(i for i, o in idx.values())) != 3:
        if not r.viol:
            r.bad('C25/fields', 'the settings share a field')
        return
    # defaults
    st = start[0]
    d = {m: proj(st, (None, i)) for m, (i, o) in idx.items()}
    r.check(number(d['control_port']) == 8300, 'defaults', 'control port 8300', 'C25/default/port', 'the default control port is %s' % show(d['control_port']))
    r.check(d['data_port'] is A(OPT, 0), 'defaults', 'data port follows the control port', 'C25/default/data', 'the default data port is %s' % show(d['data_port']))
    r.check(localhost(d['host']), 'defaults', 'localhost', 'C25/default/host', 'the default host is %s' % show(d['host'])[:100])
    # build
    h, cp, dp = mk('Y', 'host'), mk('Y', 'cport'), mk('Y', 'dport')
    for case in ('given', 'default'):
        fv = [None] * len(fn)
        fv[idx['host'][0]] = h
        fv[idx['control_port'][0]] = cp
        fv[idx['data_port'][0]] = A(OPT, 1, dp) if case == 'given' else A(OPT, 0)
        for i in range(len(fn)):
            if fv[i] is None:
                fv[i] = proj(st, (None, i))
        bv = A(B, 0, *fv)
        g = build_graph(s, bv)
        cport = ap('nz', cp)
        want_c = (h, cport)
        want_d = (h, ap('nz', dp)) if case == 'given' else (h, binop('Add', 'u16', cport, I(1)))
        MAX = 65535

        def addr(ev):
            a = ev[2][0]
            if a.k == 'A' and a.a[0] == 'tuple' and len(a.a) == 4:
                return (a.a[2], a.a[3])
            if a.k in ('ap', 'r') and 'SocketAddr' in a.a[0] and len(a.a[1]) == 2 if a.k == 'r' else a.k == 'ap' and 'SocketAddr' in a.a[0] and len(a.a) == 3:
                return tuple(a.a[1]) if a.k == 'r' else tuple(a.a[1:])
            return (a, None)

        def step(st, ev, node):
            k = ev[0]
            fs, con = st
            if k in ('branch', 'branchne'):
                fs2 = learn(g, fs, ev, lambda t: any(x is cp for x in subterms(t)))
                return None if fs2 is None else (fs2, con)
            if k == 'assert':
                if ev[1] == 'overflow:Add' and tuple(ev[3]) == (cport, I(1)) and not any(values(cport, fs, [MAX])):
                    return st
                r.bad('C25/%s/panic' % case, 'build can panic (%s), at %s' % (ev[1], loc(ev)))
            if k == 'panic':
                # the port after a port below 65535 is not zero
                if not any(v == 0 and t is binop('Add', 'u16', cport, I(1)) for t, v in fs) or any(values(cport, fs, [MAX])):
                    r.bad('C25/%s/panic' % case, 'build can panic, at %s' % loc(ev))
                return None
            if k == 'io' and ev[1] == 'tcp_connect':
                ad = addr(ev)
                if len(con) >= 2:
                    r.bad('C25/%s/more' % case, 'build opens a third connection, at %s' % loc(ev))
                elif ad != (want_c, want_d)[len(con)]:
                    r.bad('C25/%s/%s' % (case, ('control', 'data')[len(con)]), 'the %s connection goes to (%s, %s), at %s' % (('control', 'data')[len(con)], show(ad[0])[:80], show(ad[1])[:80] if ad[1] is not None else '', loc(ev)))
                else:
                    r.ok('connections go to the configured host and ports', '%s %s' % (case, ('control', 'data')[len(con)]))
                if case == 'default' and any(values(cport, fs, [MAX])):
                    r.bad('C25/default/late', 'build connects although control port 65535 has no port after it, at %s' % loc(ev))
                return (fs, con + ((ev[3].a[2],) if ev[3].a[1] == 0 else ('failed',)))
            if k == 'spawn' and (socks(ev[1]) or not any(socks(e[1]) for e in events(g, 'spawn'))):
                t = ev[1]
                if not (len(con) == 2 and con[0] in socks(t) and con[1] not in socks(t)):
                    r.bad('C25/%s/task' % case, 'the modem task is not given the control connection, at %s' % loc(ev))
                return st
            if k == 'ret':
                v = V.ok_value(ev[1])
                if v is not None:
                    if len(con) != 2 or 'failed' in con or socks(own(v)) != {con[1]}:
                        r.bad('C25/%s/result' % case, 'build succeeds without its two connections, or with the wrong one for data')
                    else:
                        r.ok('a modem holds the data connection and its task the control connection', case)
                elif not con:
                    if case == 'given' or any(values(cport, fs, range(1, MAX))):
                        r.bad('C25/%s/refused' % case, 'build refuses a usable configuration')
                    else:
                        r.ok('the impossible configuration is refused', case)
                elif 'failed' not in con:
                    r.bad('C25/%s/err' % case, 'build fails although both connections were opened')
            return st
        flow(g, (frozenset(), ()), step)
    r.need('the impossible configuration is refused', 1)


def number(t):
    for x in [t] + list(subterms(t)):
        if x.k == 'I':
            return x.a[0]
    return None


def localhost(t):
    s = show(t)
    return 'LOCALHOST' in s or any(x.k == 'S' and x.a[0] == bytes([127, 0, 0, 1]) for x in subterms(t)) or '127, 0, 0, 1' in s


def build_graph(s, bv):
    g0 = s.fn(VARA + 'VaraTncBuilder::build', [SELF], cells={'#self': bv})
    cs = [ev[1] for ev in events(g0, 'ret')]
    if len(cs) != 1:
        raise Missing('build is not an async fn')
    return s.cor(subst(cs[0], {}), None)
