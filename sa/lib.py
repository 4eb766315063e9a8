"""Common machinery of the rules: sessions, event-graph dataflow, closed forms, reports."""
import os, sys, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import *
import engine
import models
import facts as F

VARA = 'plusendi::modem::vara::'
KX3 = 'plusendi::rig::elecraft::kx3::'
FBB = 'plusendi::fbb::'
LZ = 'plusendi::lzhuf::'
TY = 'plusendi::types::'
P = 'plusendi::'


class Missing(Exception):
    """An anchor (a public item or an event class the rule speaks about) is not in the program."""


_frozen = {}


def freeze(t):
    """A value of one exploration as an input of another: its call sites and loops are not the other's."""
    if isinstance(t, tuple):
        return tuple(freeze(x) if isinstance(x, (Term, tuple)) else x for x in t)
    if not isinstance(t, Term):
        return t
    r = _frozen.get(t.id)
    if r is None:
        if t.k == 'P':
            r = mk('Y', '#phi%d' % t.id)
        elif t.k in ('r', 'el') and t.a[-1][0] != 'ext':
            r = mk(t.k, *(tuple(freeze(x) if isinstance(x, (Term, tuple)) else x for x in t.a[:-1]) + (('ext',) + tuple(t.a[-1][:2]),)))
        elif t.k in ('I', 'S', 'Y', 'fn', 'arr', 'X', 'txt', 'ty'):
            r = t
        elif any(isinstance(x, (Term, tuple)) for x in t.a) and t.k not in ('r', 'el'):
            r = mk(t.k, *[freeze(x) if isinstance(x, (Term, tuple)) else x for x in t.a])
        else:
            r = t
        _frozen[t.id] = r
    return r


class Session(object):
    def __init__(self):
        t = time.time()
        l, b, m = F.extract()
        self.w = World([('lib', l), ('bin', b), ('models', m)])
        engine.THEWORLD[:] = [self.w]
        self.cache = {}
        self.graphs = []
        self.looked = set()           # bodies inspected without a graph
        self.points = 0
        self.t0 = t
        self.base = {}        # options of every analysis

    def body(self, path):
        b = self.w.bodies.get(path)
        if b is None:
            raise Missing('no function ' + path)
        return b

    def has(self, path):
        return path in self.w.bodies

    def fn(self, path, args=None, opts=None, mods=None, cells=None):
        """Graph of a function applied to args (None: symbolic); cells: {'#name': value} for R(('G', '#name'), ...) args."""
        opts = dict(self.base, **(opts or {}))
        args = [freeze(a) if a is not None else None for a in args] if args else args
        cells = {k: freeze(v) for k, v in (cells or {}).items()}
        key = ('fn', path, tuple(args) if args else None, str(opts), tuple(sorted(mods)) if mods else None, tuple(sorted((k, v.id) for k, v in cells.items())))
        if key not in self.cache:
            ms = dict(models.MODELS)
            ms.update(mods or {})
            e = Engine(self.w, ms, opts or {})
            c = models.root(e, self.body(path), args)
            for k, v in cells.items():
                c.store[('G', k)] = v
            g = e.explore(c)
            self.graphs.append((path, g))
            self.cache[key] = g
        return self.cache[key]

    def cor(self, value, opts=None, mods=None, args=None):
        """Graph of a coroutine value run from its start."""
        opts = dict(self.base, **(opts or {}))
        value = freeze(value)
        key = ('cor', value, str(opts), tuple(sorted(mods)) if mods else None)
        if key not in self.cache:
            ms = dict(models.MODELS)
            ms.update(mods or {})
            e = Engine(self.w, ms, opts or {})
            g = e.explore(models.root_cor(e, value))
            self.graphs.append((show(value)[:80], g))
            self.cache[key] = g
        return self.cache[key]

    def apply(self, f, args, opts=None):
        """Graph of a callable value (closure or fn term) applied to argument terms."""
        opts = dict(self.base, **(opts or {}))
        f, args = freeze(f), [freeze(a) for a in args]
        key = ('app', f, tuple(args), str(opts))
        if key not in self.cache:
            u = f
            while u.k == 'U':
                u = u.a[0]
            if u.k == 'fn' and u.a[0] in self.w.bodies:
                g = self.fn(u.a[0], list(args), opts)
            elif is_clo(u):
                b = self.body(u.a[0][1])
                e = Engine(self.w, dict(models.MODELS), opts or {})
                env = f
                c = models.root(e, b, None)
                fid = c.stack[0][0]
                t1 = b.prog.types[b.locals[1][0]]
                if t1['k'] == 'ref':
                    cell = ('G', 'env')
                    c.store[cell] = f
                    env = mk('R', cell, (), 'm')
                c.store[(fid, 1)] = env
                for i, a in enumerate(args):
                    if i + 2 < len(b.locals) and b.prog.types[b.locals[i + 2][0]]['k'] == 'ref' and a.k in ('A', 'ap', 'I', 'bin'):
                        c.store[('G', 'arg%d' % i)] = a
                        a = mk('R', ('G', 'arg%d' % i), (), 's')
                    c.store[(fid, 2 + i)] = a
                g = e.explore(c)
                self.graphs.append((b.path, g))
            else:
                raise Missing('not a callable: ' + show(f)[:80])
            self.cache[key] = g
        return self.cache[key]

    def asyncfn(self, path, args=None, opts=None, mods=None):
        """Graph of an async fn run to completion."""
        g = self.fn(path, args, {'trace': False} if self.base.get('trace') else None)
        rs = [ev[1] for ev in events(g, 'ret')]
        if len(rs) != 1 or not is_cor(rs[0]):
            raise Missing('%s is not an async fn' % path)
        return self.cor(rs[0], opts, mods)

    def stats(self):
        fns = set(self.looked)
        for n, g in self.graphs:
            fns |= set(g.e.inlined)
            fns.add(g.e.rootname)
        return {'graphs': len(self.graphs), 'program_points': self.points + sum(len(g.nodes) for n, g in self.graphs),
                'edges': sum(len(n.out) for x, g in self.graphs for n in g.nodes),
                'functions_analysed': sorted(f for f in fns if not f.startswith('models::')),
                'library_functions_treated_as_opaque': sorted({k for n, g in self.graphs for k in g.e.unmodelled})}

    # ---- ADT helpers
    def var(self, adt, name):
        a = self.w.adts.get(adt)
        if a:
            for i, v in enumerate(a['v']):
                if v['n'] == name:
                    return i
        raise Missing('no variant %s::%s' % (adt, name))

    def discr(self, adt, name):
        return self.w.discr_of(adt, self.var(adt, name))

    def field(self, adt, var, name):
        a = self.w.adts.get(adt)
        if a:
            for i, v in enumerate(a['v']):
                if v['n'] == var and name in v['f']:
                    return v['f'].index(name)
        raise Missing('no field %s::%s.%s' % (adt, var, name))

    def con(self, adt, name, *fs):
        return A(adt, self.var(adt, name), *fs)

    def pj(self, t, adt, var, name):
        """The field of variant var of t (structs: var is None)."""
        a = self.w.adts.get(adt)
        if a is None:
            raise Missing('no type ' + adt)
        if var is None:
            return proj(t, (None, self.field(adt, a['v'][0]['n'], name)))
        return proj(t, (self.var(adt, var), self.field(adt, var, name)))


def events(g, kind=None, name=None):
    for n, evs, m, lab in g.edges():
        for ev in evs:
            if (kind is None or ev[0] == kind) and (name is None or len(ev) > 1 and ev[1] == name):
                yield ev


def at(ev):
    """file:line-free location of an event: the function it is in."""
    for x in reversed(ev):
        if isinstance(x, tuple) and len(x) >= 6 and isinstance(x[0], str) and isinstance(x[2], int):
            return x
    return None


def fnname(ev):
    w = at(ev)
    return w[0] if w else '?'


def loc(ev):
    w = at(ev)
    return '%s (%s:%s)' % (w[0], w[1], w[2]) if w else '?'


def flow(g, init, step, cap=200000):
    """Forward dataflow of finite state sets over the event graph.  step(state, ev, node) returns the
    next state, a list of states, or None to drop it.  Returns [(label, state, node)] at terminals."""
    ins = {g.entry.id: {init}}
    nodes = {n.id: n for n in g.nodes}
    work = [(g.entry.id, init)]
    ends = []
    seen_end = set()
    k = 0
    while work:
        nid, st = work.pop()
        n = nodes[nid]
        for evs, m, lab in n.out:
            sts = [st]
            for ev in evs:
                nx = []
                for s in sts:
                    r = step(s, ev, n)
                    if r is None:
                        continue
                    if isinstance(r, list):
                        nx.extend(r)
                    else:
                        nx.append(r)
                sts = nx
                if not sts:
                    break
            for s in sts:
                k += 1
                if k > cap:
                    raise Unsupported('dataflow does not converge in ' + g.e.rootname)
                if m is None:
                    if (lab, s, nid) not in seen_end:
                        seen_end.add((lab, s, nid))
                        ends.append((lab, s, n))
                elif s not in ins.setdefault(m.id, set()):
                    ins[m.id].add(s)
                    work.append((m.id, s))
    g.flow_ins = ins
    return ends


def paths(g, limit=5000):
    """All entry-to-terminal paths of an acyclic graph (loops: each head entered at most twice):
    [(events, label)]."""
    out = []
    st = [(g.entry, (), {})]
    while st:
        n, evs, vis = st.pop()
        v = vis.get(n.id, 0)
        if v >= 2:
            continue
        vis2 = dict(vis)
        vis2[n.id] = v + 1
        for es, m, lab in n.out:
            if m is None:
                out.append((evs + es, lab))
                if len(out) > limit:
                    raise Unsupported('too many paths in ' + g.e.rootname)
            else:
                st.append((m, evs + es, vis2))
    return out


def rets(g):
    """[(value, {param: final value}, {fact: value})] of every return of a function graph."""
    r = []
    seen = set()
    for ev in events(g, 'ret'):
        if ev in seen:
            continue
        seen.add(ev)
        r.append((ev[1], {p.a[0]: v for p, v in ev[2] if p.k == 'Y'}, dict(ev[3])))
    return r


def learn(g, facts, ev, keep=None):
    """facts (frozenset of (term, value)) after a branch event; None if contradictory."""
    if ev[0] not in ('branch', 'branchne'):
        return facts
    if keep is not None and not keep(ev[1]):
        return facts
    c = Ctx(g.e, [], {}, dict(facts), {})
    ok = c.assume(ev[1], ev[2]) if ev[0] == 'branch' else c.assume_ne(ev[1], list(ev[2]))
    return frozenset(c.facts.items()) if ok else None


def knows(g, facts):
    return Ctx(g.e, [], {}, dict(facts), {}).known


def evalc(t, env, memo=None):
    """The value of a closed integer term for constants of env, or None."""
    if t in env:
        return env[t]
    if t.k == 'I':
        return t.a[0]
    if t.k == 'bin':
        a, b = evalc(t.a[2], env), evalc(t.a[3], env)
        if a is None or b is None:
            return None
        x = engine.binop(t.a[0], t.a[1], I(a), I(b))
        return x.a[0] if x.k == 'I' else None
    if t.k == 'not':
        a = evalc(t.a[0], env)
        return None if a is None else 1 - a
    if t.k == 'ap' and t.a[0] == 'ovf':
        a, b = evalc(t.a[3], env), evalc(t.a[4], env)
        if a is None or b is None:
            return None
        n = a + b if t.a[1] == 'Add' else a - b if t.a[1] == 'Sub' else a * b
        return int(engine.wrap(t.a[2], n) != n)
    if t.k == 'ap' and t.a[0] == 'trunc':
        a = evalc(t.a[2], env)
        return None if a is None else engine.wrap(t.a[1], a)
    if t.k == 'ap' and t.a[0] == 'inset':
        a = evalc(t.a[2], env)
        return None if a is None else int(a in t.a[1].a[0])
    if t.k == 'sel' and t.a[0].k in ('arr', 'S'):
        i = evalc(t.a[1], env)
        return t.a[0].a[0][i] if i is not None and 0 <= i < len(t.a[0].a[0]) else None
    return None


def values(t, facts, vals):
    """Those of vals that t can have under the facts about t alone."""
    fs = [(x, v) for x, v in facts if x is not t and evalc(x, {t: 1}) is not None]
    for n in vals:
        if all(evalc(x, {t: n}) not in v if isinstance(v, frozenset) else evalc(x, {t: n}) == v for x, v in fs) and \
                all(n not in v if isinstance(v, frozenset) else n == v for x, v in facts if x is t):
            yield n


def possible(g, facts, t, v):
    """The facts do not exclude t == v."""
    return Ctx(g.e, [], {}, dict(facts), {}).assume(t, v) is not False


# ---- closed forms of counted loops ---------------------------------------------------------------
ACC = mk('Y', '#acc')
ELEM = mk('Y', '#elem')
IDX = mk('Y', '#idx')


def subst(t, m):
    memo = {}

    def go(x):
        if isinstance(x, Term):
            if x in m:
                return m[x]
            r = memo.get(x.id)
            if r is None:
                if x.k in ('I', 'S', 'Y', 'fn', 'arr', 'X', 'txt', 'ty', 'P'):
                    r = x
                else:
                    r = engine.rebuild(x.k, tuple(go(y) if isinstance(y, (Term, tuple)) else y for y in x.a))
                memo[x.id] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) if isinstance(y, (Term, tuple)) else y for y in x)
        return x
    return go(t)


def closed(g, t, fs, depth=0):
    """t with accumulators of completed counted loops over a sequence in closed form:
    fold(init, f(#acc, #elem), sequence)."""
    if depth > 6:
        return t
    m = {}
    for p in [x for x in subterms(t) if x.k == 'P']:
        r = closed1(g, p, fs)
        if r is not None:
            m[p] = closed(g, r, fs, depth + 1) if any(x.k == 'P' for x in subterms(r)) else r
    t = subst(t, m) if m else t
    if any(x.k == 'ap' and x.a[0] == 'cat' for x in t.a[1:] if isinstance(x, Term)) and t.k == 'ap' and t.a[0] == 'cat':
        t = models.cat(*t.a[1:])
    return t


def is_counter(g, p):
    inc = g.phi.get(p, ())
    es = [s for k, s in inc if k == 'entry']
    bs = [s for k, s in inc if k == 'back']
    return len(es) == 1 and es[0] is I(0) and len(bs) == 1 and bs[0].k == 'bin' and bs[0].a[0] == 'Add' and bs[0].a[2] is p and bs[0].a[3] is I(1)


def once(g, p):
    """Does p start at zero and become one after a round?"""
    inc = g.phi.get(p, ())
    return sorted((k, s.k == 'I' and s.a[0]) for k, s in inc) == [('back', 1), ('entry', 0)]


def closed1(g, p, fs):
    inc = g.phi.get(p)
    if not inc:
        return None
    es = [s for k, s in inc if k == 'entry']
    bs = [s for k, s in inc if k == 'back']
    if len(es) != 1 or len(bs) != 1:
        return None
    for t, v in fs.items():
        i, n = (t.a[2], t.a[3]) if v == 0 and t.k == 'bin' and t.a[0] == 'Lt' else (t, I(1)) if v != 0 else (p, None)
        if v.__class__ is frozenset and 0 not in v:
            continue
        if n is not None and i.k == 'P' and i.a[0] == p.a[0] and (is_counter(g, i) or i is t and once(g, i)):
            if p is i:
                return n
            seq = n.a[1] if n.k == 'ap' and n.a[0] == 'len' else None
            b = bs[0]
            sm = {p: ACC, i: IDX}
            if seq is not None:
                sm[mk('sel', seq, i)] = ELEM
            b2 = subst(b, sm)
            if any(x.k == 'P' and x.a[0] == p.a[0] for x in subterms(b2)):
                continue
            return fold(es[0], b2, seq if seq is not None and not any(x is IDX for x in subterms(b2)) else n)
    return None


# ---- reports ---------------------------------------------------------------------------------------
class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.rules = {}       # rule -> list of discharged constructs
        self.viol = {}        # key -> message
        self.notes = []

    def ok(self, rule, construct):
        self.rules.setdefault(rule, []).append(construct)

    def bad(self, key, msg, rule='rule'):
        self.viol.setdefault(key, msg)

    def check(self, cond, rule, construct, key, msg):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(key, msg, rule)
        return cond

    def need(self, rule, n):
        """Fail closed: the rule must have found at least n constructs."""
        if len(self.rules.get(rule, ())) < n and not self.viol:
            self.bad('%s/floor' % rule, 'only %d constructs found for "%s", at least %d expected: the analysis no longer sees the code this property is about'
                     % (len(self.rules.get(rule, ())), rule, n))


def complete_loops(g):
    """Facts (counter < n) = 0 of the counted loops that are only left, on a path to a result, when the
    counter has reached n."""
    r = getattr(g, 'complete', None)
    if r is not None:
        return r
    succ, pred = {}, {}
    good = set()
    for n, evs, m, lab in g.edges():
        if m is not None:
            succ.setdefault(n.id, set()).add(m.id)
            pred.setdefault(m.id, set()).add(n.id)
        if any(ev[0] == 'ret' and not (ev[1].k == 'A' and ev[1].a[0] == RES and ev[1].a[1] == 1) for ev in evs):
            good.add(n.id)
    w = list(good)
    while w:
        for q in pred.get(w.pop(), ()):
            if q not in good:
                good.add(q)
                w.append(q)

    def reach(a, step, stop):
        seen, w = {a}, [a]
        while w:
            x = w.pop()
            if x == stop:
                continue
            for y in step.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return seen
    r = {}
    g.completed = {}
    g.good = good
    for n, evs, m, lab in g.edges():
        for ev in evs:
            if ev[0] == 'branch' and ev[2] == 1 and ev[1].k == 'bin' and ev[1].a[0] == 'Lt' and is_counter(g, ev[1].a[2]) and m is not None:
                t = ev[1]
                body = reach(m.id, succ, n.id) & reach(n.id, pred, None) | {n.id}
                if n.id not in reach(m.id, succ, None):
                    continue
                whole = True
                for q, es, d, lb in g.edges():
                    if q.id not in body or d is not None and d.id in body:
                        continue
                    if q is n and any(e[0] == 'branch' and e[1] is t and e[2] == 0 for e in es):
                        continue
                    if d is None and (lb != 'ret' or all(e[0] != 'ret' or e[1].k == 'A' and e[1].a[0] == RES and e[1].a[1] == 1 for e in es)):
                        continue
                    if d is not None and d.id not in good:
                        continue
                    whole = False
                if whole:
                    r[t] = 0
                    g.completed[t] = g.completed.get(t, frozenset()) | body
    g.complete = r
    return r


def facts_at(g, node, fs):
    """fs and what is known behind counted loops that were left before node was reached."""
    r = dict(fs)
    for t, v in complete_loops(g).items():
        if node.id not in g.completed[t] and node.id in g.good:
            r.setdefault(t, v)
    return r


def folded(g, t, skip=frozenset()):
    """t with the accumulators of complete counted loops, nested ones included, as fold(init, body, sequence)."""
    fs = complete_loops(g)
    m = {}
    for p in [x for x in subterms(t) if x.k == 'P' and x.a[0] not in skip]:
        r = folded1(g, p, fs, skip)
        if r is not None:
            m[p] = r
    return subst(t, m) if m else t


def folded1(g, p, fs, skip):
    inc = g.phi.get(p)
    if not inc:
        return None
    es = [s for k, s in inc if k == 'entry']
    bs = [s for k, s in inc if k == 'back']
    if len(es) != 1 or len(bs) != 1:
        return None
    for t in fs:
        i, n = t.a[2], t.a[3]
        if i.a[0] != p.a[0]:
            continue
        if p is i:
            return n
        seq = n.a[1] if n.k == 'ap' and n.a[0] == 'len' else None
        b = folded(g, bs[0], skip | {p.a[0]})
        sm = {p: ACC, i: IDX}
        if seq is not None:
            sm[mk('sel', seq, i)] = ELEM
        b = subst(b, sm)
        if any(x.k == 'P' and x.a[0] == p.a[0] for x in subterms(b)):
            continue
        e = folded(g, es[0], skip)
        seq = seq if seq is not None and not any(x is IDX for x in subterms(b)) else n
        if seq is n:
            # a loop over the elements of a sequence of that length
            ar = {x.a[0] for x in subterms(b) if x.k == 'sel' and x.a[1] is IDX}
            if len(ar) == 1:
                q = ar.pop()
                b2 = subst(b, {mk('sel', q, IDX): ELEM})
                if not any(x is IDX for x in subterms(b2)) and engine.length(q) is n:
                    b, seq = b2, q
        if b.k == 'ap' and b.a[0] == 'fold' and b.a[1] is ACC and b.a[3] is ELEM:
            b, seq = b.a[2], ap('flat', seq)
        return fold(e, b, seq)
    return None


def fold(e, b, seq):
    if seq.k == 'ap' and seq.a[0] == 'seqcat' and not any(x is IDX for x in subterms(b)):
        return fold(fold(e, b, seq.a[1]), b, seq.a[2])
    n = seq if seq.k == 'I' else engine.length(seq)
    if b.k == 'ap' and b.a[:2] == ('cat', ACC) and n.k == 'I' and n.a[0] <= 8:
        # a text that is put together in a few rounds
        for i in range(n.a[0]):
            m = {ELEM: engine.sel(seq, I(i)), IDX: I(i)}
            m.update({x: engine.sel(x.a[0], I(i)) for x in subterms(b) if x.k == 'sel' and x.a[1] is IDX})
            e = models.cat(*[e if x is ACC else subst(x, m) for x in b.a[1:]])
        return e
    return ap('fold', e, b, seq)


def cyclic(g):
    """Edges (source id, target id) inside loops."""
    r = getattr(g, 'cyc', None)
    if r is None:
        succ = {}
        for n, evs, m, lab in g.edges():
            if m is not None:
                succ.setdefault(n.id, set()).add(m.id)
        index, low, onst, st, comp = {}, {}, set(), [], {}
        for root in succ:
            if root in index:
                continue
            work = [(root, iter(sorted(succ.get(root, ()))))]
            index[root] = low[root] = len(index)
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in index:
                        index[w] = low[w] = len(index)
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter(sorted(succ.get(w, ())))))
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            comp[w] = v
                            if w == v:
                                break
        r = g.cyc = {(n.id, m.id) for n, evs, m, lab in g.edges() if m is not None and comp.get(n.id) == comp.get(m.id)}
    return r


def conditions(g, evs, node, target):
    """What the branches of an edge outside loops say about the results of the loops before it: [(term, value)]."""
    if target is not None and (node.id, target.id) in cyclic(g):
        return []
    done = complete_loops(g)
    return [(ev[0], folded(g, ev[1]), ev[2]) for ev in evs if ev[0] in ('branch', 'branchne') and ev[1] not in done]


def outcomes(g):
    """{(value, frozenset of facts)} of the returns of g, results of counted loops as folds."""
    out = set()
    ins = {g.entry.id: {frozenset()}}
    work = [(g.entry, frozenset())]
    k = 0
    while work:
        n, fs = work.pop()
        for evs, m, lab in n.out:
            f2 = fs
            for b, t, v in conditions(g, evs, n, m):
                f2 = learn(g, f2, (b, t, v))
                if f2 is None:
                    break
            if f2 is None:
                continue
            for ev in evs:
                if ev[0] == 'ret':
                    out.add((folded(g, ev[1]), f2))
            if m is not None and f2 not in ins.setdefault(m.id, set()):
                ins[m.id].add(f2)
                work.append((m, f2))
                k += 1
                if k > 50000:
                    raise Unsupported('too many outcomes of ' + g.e.rootname)
    return out
