"""C24: nothing the TNC, the rig, the remote station or the caller sends makes the driver or a parser panic."""
import re
from lib import *
import engine
import program
import grammar as G
import props_vara as V
import props_conn as N
import props_main as M
import readers as R
import trans
from trans import lin, ladd
from engine import W

RULE = 'an operation that could panic cannot'
ENTRY = 'code that handles received data is analysed for panics'
BUILD = VARA + 'VaraTncBuilder::build'


def lenof(t):
    """The sequence t is the length of."""
    return t.a[1] if t.k == 'ap' and t.a[0] == 'len' else None


def parts(t):
    """Sequences that t is a part of (so not longer than)."""
    if t.k == 'ap' and t.a[0] == 'rest':
        yield t.a[2]
    if t.k == 'ap' and t.a[0] in ('suffix', 'prefix') or t.k == 'ap' and t.a[0].startswith('slice:'):
        yield t.a[1]
    if t.k == 'ap' and t.a[0] in ('trim', 'trim_start', 'trim_end', 'lossy'):
        return
    if t.k == 'U':
        yield t.a[0]


def shorter(g, a, b, hyp=frozenset()):
    """len(a) <= len(b) for every run (induction over loops)."""
    if a is b or (a, b) in hyp:
        return True
    if b.k == 'ap' and b.a[0] in ('cat', 'push') and any(shorter(g, a, x, hyp) for x in b.a[1:] if isinstance(x, Term)) and (a.k != 'P' or a not in subterms(b)):
        return True
    if any(shorter(g, x, b, hyp) for x in parts(a)):
        return True
    if a.k == 'P' and len(hyp) < 6:
        src = [v for v, fs in g.incoming(a)]
        if src and all(v is a or shorter(g, v, b, hyp | {(a, b)}) for v in src):
            return all(same_run(g, a, x) for x in subterms(b) if x.k == 'P')
    return False


def same_run(g, a, x):
    """x does not change while the loop of a runs: every way to that loop passes the head of x first, so x belongs to a
    loop around it or before it (or both are the same head)."""
    if a.a[0] == x.a[0]:
        return False
    k = (a.a[0], x.a[0])
    memo = g.__dict__.setdefault('_outer', {})
    if k not in memo:
        seen, work = set(), [g.entry]
        ok = True
        while work and ok:
            n = work.pop()
            if n.id in seen or n.head == x.a[0]:
                continue
            seen.add(n.id)
            if n.head == a.a[0]:
                ok = False
            work += [m for evs, m, lab in n.out if m is not None]
        memo[k] = ok
    return memo[k]


class Ctx2(object):
    """Bounds of unsigned terms: lengths are below 2^63; random numbers below their bound."""

    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g

    def known(self, t):
        return self.ctx.known(t)

    def bounds(self, t, d=0):
        lo, hi = self.ctx.bounds(t)
        if hi is None:
            if lenof(t) is not None:
                return lo, (1 << 63) - 1
            if t.k == 'r' and t.a[0].endswith('thread_rng_n') and t.a[1][0].k == 'I':
                return lo, t.a[1][0].a[0] - 1
            if t.k == 'r' and t.a[0] == 'random' and len(t.a[1]) == 1 and t.a[1][0].k == 'I':
                return lo, t.a[1][0].a[0] - 1
        return lo, hi


def extras(g, terms):
    """len(a) <= len(b) for the lengths among the terms, as linear forms >= 0."""
    ls = []
    for t in terms:
        for x in subterms(t):
            if lenof(x) is not None and x not in ls:
                ls.append(x)
    out = []
    for a in ls[:12]:
        for b in ls[:12]:
            if a is not b and shorter(g, lenof(a), lenof(b)):
                out.append({b: 1, a: -1})
        x = lenof(a)
        if x.k == 'r' and x.a[0] in ('read:chunk', 'try_read:chunk') and len(x.a[1]) == 2:
            # no more is read than the slice holds
            n = engine.length(x.a[1][1])
            out.append({n: 1, a: -1} if n.k != 'I' else {None: n.a[0], a: -1})
    return out


def counter64(g, t):
    """A 64-bit number counted up from a constant in constant steps: it does not get to overflow."""
    if t.k != 'P':
        return False
    for k, v in g.phi.get(t, ()):
        while v.k == 'bin' and v.a[0] == 'Add' and v.a[3].k == 'I' and v.a[3].a[0] < 1 << 16 and v is not t:
            v = v.a[2]
        if not (v is t or v.k == 'I' and v.a[0] < 1 << 32 or k == 'entry' and lenof(v) is not None):
            return False
    return True


class Prover(object):
    def __init__(self, g, texts=None):
        self.g, self.texts = g, texts
        self.readers = {}

    def reader(self, end):
        if end not in self.readers:
            self.readers[end] = R.Reader(self.texts.gr.s, Report('C24'), self.g, 'C24', lambda x: False, R.line_frames(end))
        return self.readers[end]

    def facts(self, fs, terms):
        c = Ctx(self.g.e, [], {}, dict(fs), {})
        return trans.Facts(Ctx2(c, self.g), list(fs.items()), extras(self.g, list(terms) + [t for t in fs]))

    def le(self, fs, a, b, strict=False):
        """a <= b (or a < b)."""
        v = lenof(b)
        if v is not None and not strict and any(self.reader(x).offset(a, v) for x in (b'\r', b';', b'\n')):
            return True
        F = self.facts(fs, (a, b))
        return F.proves(ladd(ladd(F.lin(b), F.lin(a), -1), {None: -1} if strict else {}))

    def safe_assert(self, ev, fs):
        msg, term, ops = ev[1], ev[2], ev[3]
        c = Ctx(self.g.e, [], {}, dict(fs), {})
        if c.known(term) == 1:
            return True
        if term.k == 'not' and term.a[0].k == 'ap' and term.a[0].a[0] == 'ovf':
            op, ty, a, b = term.a[0].a[1:5]
            F = self.facts(fs, (a, b))
            if ty and ty[0] == 'u':
                if op == 'Sub' and (F.proves(ladd(F.lin(a), F.lin(b), -1)) or self.le(fs, b, a)):
                    return True
                if op == 'Add':
                    hi = (1 << W.get(ty, 8)) - 1
                    if F.proves(ladd({None: hi}, ladd(F.lin(a), F.lin(b)), -1)):
                        return True
                    if W.get(ty) == 64 and b.k == 'I' and b.a[0] < 1 << 16 and counter64(self.g, a):
                        return True
            return False
        if term.k == 'bin' and term.a[0] == 'Lt' and term.a[1] and term.a[1][0] == 'u':
            return self.le(fs, term.a[2], term.a[3], True)
        return self.impossible(fs)

    def safe_slice(self, v, k, f, fs):
        n = length(v)
        if k == 'from' or k == 'to':
            return self.le(fs, f[0], n)
        if k == 'range':
            return self.le(fs, f[0], f[1]) and self.le(fs, f[1], n)
        if k == 'toincl':
            return self.le(fs, f[0], n, True)
        if k == 'incl':
            return self.le(fs, f[0], f[1]) and self.le(fs, f[1], n, True)
        return False

    def impossible(self, fs):
        """The facts contradict each other, or what is known of the bytes they are about."""
        c = Ctx(self.g.e, [], {}, {}, {})
        for t, v in fs.items():
            if isinstance(v, frozenset):
                if c.assume_ne(t, list(v)) is False:
                    return True
            elif c.assume(t, v) is False:
                return True
        if self.texts is not None:
            for t, v in fs.items():
                u, w = t, v
                while u.k == 'not' and isinstance(w, int):
                    u, w = u.a[0], 1 - w
                if w == 0 and u.k == 'ap' and (u.a[0] == 'is_utf8' or u.a[0].endswith('::is_ascii')) and self.texts.within(u.a[1], bytes(range(128)), 0, None):
                    return True
                if w == 0 and u.k == 'ap' and u.a[0] == 'is_number' and u.a[3] is I(10) and u.a[1].k == 'ty':
                    ty = u.a[1].a[0]
                    top = (1 << (W.get(ty, 8) - (ty[0] == 'i'))) - 1
                    if self.texts.within(u.a[2], b'0123456789', 1, len(str(top)) - 1):
                        return True
        return False


class Texts(object):
    """What is known of the bytes of a value: from the atoms of its alternative and of the parsers it came out of."""

    def __init__(self, grammar, atoms=()):
        self.gr, self.atoms = grammar, atoms

    def within(self, v, cs, lo, hi):
        return self.gr.within(v, cs, lo, hi, self.atoms)


class Panics(G.Grammar):
    """Walks parsers into every function and closure they run, looking for operations that can panic."""

    def __init__(self, s, r):
        G.Grammar.__init__(self, s)
        self.r = r
        self.graphs = set()
        self.seen = set()

    def applied(self, g, case):
        self.look('parser', g, Texts(self, case.atoms if case else ()), dict(case.conds) if case else {})

    def of_graph(self, g, data):
        self.look('parser', g, Texts(self))
        return G.Grammar.of_graph(self, g, data)

    def look(self, name, g, texts, conds=None, started=None, skip=()):
        """Every operation of g that can panic is one that cannot."""
        k = (g, tuple(texts.atoms), frozenset((conds or {}).items()))
        if k in self.graphs:
            return
        self.graphs.add(k)
        pr = Prover(g, texts)
        r = self.r
        todo = {}
        for n, evs, m, lab in g.edges():
            for i, ev in enumerate(evs):
                if ev[0] in ('assert', 'panic', 'slice', 'panics') or ev[0] == 'bufop' and ev[2] is not None and ev[1] in ('suffix', 'suffix-out'):
                    todo.setdefault(n.id, []).append((n, evs, i, ev))
        r.ok(ENTRY, '%s %s' % (name, g.e.rootname))
        self.seen |= set(g.e.inlined) | {g.e.rootname}
        from_io = None
        if started:
            from_io = after_start(g, started)
        for n, evs, i, ev in sum(todo.values(), []):
            o = origin(g, ev)
            w = o[0]
            if o[3] and any(x.startswith('tracing') for x in o[3][-1:]) and ev[0] == 'panic':
                continue        # the field set of a diagnostic, written by the macro itself
            if w.startswith(skip) and skip:
                continue
            if from_io is not None and n.id not in from_io and not any(started(x) for x in evs[:i]):
                continue
            fs = dict(conds or {})
            fs.update(facts_at(g, n, n.ctx.facts if n.ctx else {}))
            dead = False
            for x in evs[:i]:
                if x[0] == 'branch' and isinstance(x[2], int):
                    fs[x[1]] = x[2]
                elif x[0] == 'branchne':
                    fs.setdefault(x[1], frozenset(x[2]))
                elif x[0] == 'assert' and isinstance(x[2], Term):
                    fs[x[2]] = 1
            place = '%s (%s:%s)' % o[:3]
            where = '%s %s' % (name, place)
            if ev[0] == 'assert':
                ok = pr.safe_assert(ev, fs) or pr.impossible(fs)
                what = 'may panic (%s of %s)' % (ev[1], ', '.join(show(x)[:80] for x in ev[3]))
            elif ev[0] == 'slice':
                ok = ev[2] in ('from', 'to', 'range', 'incl', 'toincl') and pr.safe_slice(ev[1], ev[2], ev[3], fs) or pr.impossible(fs)
                what = 'may panic: slices %s beyond its end' % show(ev[1])[:80]
            elif ev[0] == 'bufop':
                ok = pr.le(fs, ev[3], length(ev[2])) or pr.impossible(fs)
                what = 'may panic: splits %s beyond its end' % show(ev[2])[:80]
            else:
                ok = pr.impossible(fs)
                what = 'may panic' if ev[0] == 'panic' else 'calls %s, which may panic' % ev[1]
            if ok:
                r.ok(RULE, where)
                continue
            last = [x for x in evs[:i] if x[0] in ('branch', 'branchne', 'parse', 'io')]
            why = ''
            if ev[0] == 'panic' and last:
                x = last[-1]
                why = ' when %s' % ('%s is %s' % (show(x[1])[:100], x[2]) if x[0] == 'branch' else '%s %s' % (x[0], x[1] if isinstance(x[1], str) else show(x[1])[:80]))
            r.bad('C24/%s/%s/%s' % (name, ev[0], w), '%s %s%s, at %s' % (name if name != 'parser' else g.e.rootname, what, why, place))
        for ev in events(g, 'parse'):
            try:
                self.alts(ev[1])
            except (Unsupported, Missing):
                pass


def origin(g, ev):
    """The call in the source an event inside a library function belongs to: (function, file, line, macros)."""
    w = at(ev)
    if w is None:
        return ('?', '?', 0, ())
    fr = g.e.frames
    fid = w[4]
    while fr[fid][1].path.startswith('models::') and fr[fid][0] is not None:
        bi, fid = fr[fid][2], fr[fid][0]
        while isinstance(bi, tuple):
            bi = bi[1]
        w = g.e.where(fid, bi)
    return w


def after_start(g, started):
    """Ids of the nodes every event of which comes after one that starts."""
    out = {}
    work = []
    for n, evs, m, lab in g.edges():
        if any(started(x) for x in evs) and m is not None:
            work.append(m)
    seen = set()
    while work:
        n = work.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        for evs, m, lab in n.out:
            if m is not None:
                work.append(m)
    return seen


def received(ev):
    """The first exchange with the outside: what follows is run time, not start up."""
    return ev[0] == 'io' and ev[1] not in ('tcp_connect', 'spawn')


def c24(s, r):
    try:
        s.base = {'trace': True}
        panics(s, r)
    finally:
        s.base = {}


def panics(s, r):
    p = Panics(s, r)
    t0 = Texts(p)
    for g in V.modem_task(s):
        p.look('modem', g, t0)
    p.look('rig', M.rig_task(s), t0)
    p.look('main', M.main_task(s), t0, started=received, skip=(BUILD,))
    for name, g in M.watchers(s):
        p.look(name, g, t0)
    own = {k: b for k, b in s.w.bodies.items() if k.startswith(P) and '::tests::' not in k and '{' not in k}
    n = 0
    for k, b in sorted(own.items()):
        ty = b.prog.types[b.locals[0][0]]['s']
        if 'nom::internal::Err' not in ty or not b.argc:
            continue
        try:
            g = s.fn(k)
        except Unsupported as x:
            r.bad('C24/parser/%s' % k, '%s cannot be analysed for panics: %s' % (k, x))
            continue
        p.look('parser', g, t0)
        n += 1
        if b.argc == 1:
            try:
                p.alts(mk('fn', k))
            except (Unsupported, Missing):
                pass
    r.check(n >= 20, 'the parsers are known', '%d functions' % n, 'C24/parsers', 'only %d parser functions are found' % n)
    tasks, chan = V.tasks(s)[1], N.conn_channel(s)
    for tnc, g0, vs, sp in N.connects(s):
        p.look('connect', g0, t0)
        for m in ('send_compression', 'send_bandwidth', 'send_disconnect', 'send_abort', 'send_callsign'):
            x = mk('Y', '#arg')
            p.look(m, s.asyncfn(VARA + 'VaraTnc::' + m, [tnc] + [x] * (m not in ('send_disconnect', 'send_abort'))), t0)
        data = N.data_socket(s, tnc, tasks)
        for sv in vs:
            sigs = N.signals(sv, sp, chan)
            for val, gone in sorted(N.states(s, r, tnc, sv, sigs, data, False), key=lambda x: (x[0].id, x[1])):
                for tr, m in N.METHODS:
                    path = N.impl(s, tr, m)
                    if path is not None:
                        p.look(m, s.fn(path, [N.SELF], cells={'#self': val}), t0)
                p.look('drop', s.fn(N.drop_path(s), [N.SELF], cells={'#self': val}), t0)
            for m in ('disconnect', 'abort'):
                for k in s.w.bodies:
                    if k.startswith(N.STREAM) and k.endswith('::' + m):
                        p.look(m, s.asyncfn(k, [sv]), t0)
    # what they hand to library functions: analysed for any arguments
    impls = {}
    for k in s.w.bodies:
        m = re.match(r"<.* as (plusendi::.*)>::(\w+)$", k)
        if m:
            impls.setdefault('%s::%s' % m.groups(), []).append(k)
    work = sorted(x for x in p.seen if x in s.w.bodies)
    done = set(work)
    while work:
        for q in program.direct_mentions(s.w.bodies[work.pop()]):
            for q in [q] if q in s.w.bodies else impls.get(q, ()):
                if q not in done and 'plusendi::' in q:
                    done.add(q)
                    work.append(q)
                    if q not in p.seen:
                        try:
                            p.look('helper', s.fn(q), t0)
                        except Unsupported as x:
                            r.bad('C24/helper/%s' % q, '%s cannot be analysed for panics: %s' % (q, x))
    r.need(RULE, 8)
    r.need(ENTRY, 60)
