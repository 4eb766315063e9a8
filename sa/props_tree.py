"""The adaptive Huffman tree of LZHUF: how it learns a symbol, and how it is rebuilt."""
from lib import *
from trans import *
from props_lzhuf import SELF, member, index_of, array_size, fields

LZ = 'plusendi::lzhuf::'
SS = ('G', '#self')
T, ROOT, MAX = 627, 626, 0x8000


def layout(s):
    """Which fields are the counts, the parents and the children."""
    ng = s.fn(LZ + 'LzHufState::new')
    f = fields(rets(ng)[0][0])
    sz = [array_size(ng, x) for x in f]
    r = []
    for n in (T + 1, T + 314, T):
        k = [i for i, x in enumerate(sz) if x == n]
        if len(k) != 1:
            raise Missing('no single table of %d entries in the coder state' % n)
        r.append(k[0])
    return r, len(f)


def writes(v, base):
    """Writes that make v of base, oldest first; None if it is something else."""
    out = []
    while v is not base:
        if v.k != 'upd':
            return None
        out.insert(0, (v.a[1], v.a[2]))
        v = v.a[0]
    return out


class Arr(object):
    """Values of array elements where indices known to differ do not alias."""

    def __init__(self, differ):
        self.differ = differ

    def rd(self, t):
        if t.k == 'sel':
            a, i = t.a[0], self.ix(t.a[1])
            while a.k == 'upd':
                j = self.ix(a.a[1])
                if i is j:
                    return self.rd(a.a[2])
                if not self.differ(i, j):
                    break
                a = a.a[0]
            return sel(a, i)
        if t.k == 'bin':
            x = binop(t.a[0], t.a[1], self.rd(t.a[2]), self.rd(t.a[3]))
            return self.typeless(x) if t.a[0] in ('Add', 'Sub') else x
        if t.k == 'not':
            return bnot(self.rd(t.a[0]))
        return t

    def ix(self, i):
        """An index, however it is typed."""
        return self.typeless(self.rd(i))

    def typeless(self, i):
        d = lin(i)
        if i.k == 'ap' and i.a[0] == 'trunc' and i.a[1] == 'u16':
            return self.typeless(i.a[2])        # the tables have fewer entries
        xs = [x for x in d if x is not None]
        if len(xs) == 1 and d[xs[0]] == 1:
            n = d.get(None, 0)
            return xs[0] if n == 0 else binop('Add' if n > 0 else 'Sub', 'usize', xs[0], I(abs(n)))
        return i

    def final(self, ws):
        """The last value written to each index; None if two of them might be the same."""
        m = {}
        for i, v in ws:
            m[self.ix(i)] = self.rd(v)
        return m


def truth(t, want, rd):
    """The path knows one of the given (term, value)."""
    have = set()
    for f, v in t.facts:
        while f.k == 'not' and isinstance(v, int):
            f, v = f.a[0], 1 - v
        if isinstance(v, frozenset):
            if f.k == 'bin' and f.a[0] in ('Lt', 'Eq') and len(v & {0, 1}) == 1:
                v = 1 - list(v & {0, 1})[0]
            else:
                continue
        have.add((rd(f), v))
        if f.k == 'bin' and f.a[0] == 'Eq' and v == 1:
            have.add((rd(binop('Eq', f.a[1], f.a[3], f.a[2])), 1))
    return any((f, v) in have for f, v in want)


def below(t, x, n, rd):
    """Whether the path knows x < n: 1, 0 or None."""
    lt = binop('Lt', 'u16', x, I(n))
    if truth(t, [(lt, 1)], rd):
        return 1
    if truth(t, [(lt, 0)], rd):
        return 0
    c = t.known()
    if c is not None:
        f = Facts(c, t.facts)
        fx = f.lin(x)
        if f.proves(ladd({None: n - 1}, fx, -1)):
            return 1
        if f.proves(ladd(fx, {None: -n})):
            return 0
    return None


def plain(d):
    """d as a constant, or None."""
    return d.get(None, 0) if all(x is None for x in d) else None


def learn_symbol(s, r):
    COUNT, XCH, WAY, START = 'each node on the way to the root is counted once', 'a node is exchanged with the last one of lesser count', \
        'the way goes on from the parent of the new place', 'the way starts at the leaf; a full tree is rebuilt first'
    (fi, pi, ci), nf = layout(s)
    up = member(s, 'LzHufState', 'update', 2, '()')
    rec = member(s, 'LzHufState', 'reconstruct', 1, '()')
    sym = mk('Y', 'c')
    ts = System(s.fn(up, [SELF, sym], {'opaque': (rec,)}, cells={'#self': mk('Y', 'st')}))
    ts.ts = [t for t in ts.ts if t.known() is not None]
    first = [t for t in ts.ts if t.first]
    heads = []
    for t in first:
        if t.dst is None:
            r.bad('C23/start/idle', 'a symbol may not be learnt: %s returns at once' % up)
            return
        if t.dst not in heads:
            heads.append(t.dst)
    if len(heads) != 1:
        r.bad('C23/way/loop', 'a symbol is not learnt by one walk to the root')
        return
    H = heads[0]
    S = ts.value(H, SS)
    F, P, C = (index_of(S, i) for i in (fi, pi, ci))
    ps = [p for p in ts.phis(H) if p is not S and p is not F and p is not P and p is not C]
    # the node: the loop variable that begins as the parent of the symbol's leaf
    leaf = binop('Add', 'u16', sym, I(T))
    cs = []
    for p in ps:
        ok = True
        for t in first:
            v = t.asg.get(p)
            ok = ok and v is not None and v.k == 'sel' and lin(v.a[1]) == lin(leaf)
        if ok:
            cs.append(p)
    if len(cs) != 1:
        r.bad('C23/start/leaf', 'the way does not start at the parent of the leaf of the symbol, at %s' % up)
        return
    c = cs[0]
    st0 = mk('Y', 'st')
    for t in first:
        calls = [ev for ev in t.evs if ev[0] == 'call' and ev[1] == rec]
        full = [(binop('Eq', 'u16', sel(index_of(st0, fi), I(ROOT)), I(MAX)), 1), (binop('Lt', 'u16', sel(index_of(st0, fi), I(ROOT)), I(MAX)), 0), (sel(index_of(st0, fi), I(ROOT)), MAX)]
        nfull = [(full[0][0], 0), (full[1][0], 1), (binop('Eq', 'u16', I(MAX), sel(index_of(st0, fi), I(ROOT))), 0)]
        full.append((binop('Eq', 'u16', I(MAX), sel(index_of(st0, fi), I(ROOT))), 1))
        idn = lambda x: x
        v = t.to(S)
        if calls:
            ok = len(calls) == 1 and truth(t, full, idn)
            r.check(ok, START, 'rebuilt when full', 'C23/start/when', 'the tree is rebuilt although the count of its root has not reached 0x8000')
            w = t.asg[c].a[0]
            r.check(v is not st0 and w is index_of(v, pi), START, 'the rebuilt tree is used', 'C23/start/stale', 'after the tree was rebuilt the way starts from %s' % show(t.asg[c])[:100])
        else:
            ok = truth(t, nfull, idn) or any(f is sel(index_of(st0, fi), I(ROOT)) and isinstance(k, frozenset) and MAX in k for f, k in t.facts)
            r.check(ok, START, 'not rebuilt otherwise', 'C23/start/when', 'the tree may not be rebuilt when the count of its root has reached 0x8000')
            r.check(v is st0 and t.asg[c].a[0] is index_of(st0, pi), START, 'nothing else is changed', 'C23/start/stale', 'the tree is changed before the symbol is learnt')
    k = binop('Add', 'u16', sel(F, c), I(1))
    F1 = upd(F, c, k)
    # inner loops: a scan upwards from c
    scans = {}
    for I0 in ts.heads:
        if I0 is H or I0 is None or not getattr(I0, 'head', None):
            continue
        ins = [t for t in ts.into(I0) if t.src is not I0]
        rnd = [t for t in ts.into(I0) if t.src is I0]
        if not ins:
            continue
        if any(t.src is not H for t in ins) or not rnd:
            r.bad('C23/exchange/scan', 'the scan for the node to exchange with is not a single loop')
            return
        cand = None
        for x in ts.phis(I0):
            a = {plain(ladd(lin(t.asg[x]), lin(c), -1)) if x in t.asg else None for t in ins}
            if len(a) == 1 and None not in a and all(x in t.asg and ladd(lin(t.asg[x]), lin(x), -1) == {None: 1} for t in rnd):
                cand = (x, a.pop(), ins, rnd)
        if cand is None:
            r.bad('C23/exchange/scan', 'the scan for the node to exchange with does not go up one by one')
            return
        scans[I0] = cand

    def off(t, i):
        """i - c: (constant, True) or (lower bound, False); None if unknown."""
        d = ladd(lin(i), lin(c), -1)
        n = plain(d)
        if n is not None:
            return n, True
        sc = scans.get(t.src)
        if sc is not None:
            x, a = sc[0], sc[1]
            e = ladd(lin(i), lin(x), -1)
            n = plain(e)
            if n is not None:
                return a + n, False
        return None

    def arr(t):
        def differ(i, j):
            a, b = off(t, i), off(t, j)
            if a is None or b is None:
                return False
            if a[1] and b[1]:
                return a[0] != b[0]
            if not a[1] and not b[1]:
                return plain(ladd(lin(i), lin(j), -1)) not in (None, 0)
            lo, ex = (a[0], b[0]) if not a[1] else (b[0], a[0])
            if lo == ex:
                return any(f.k == 'bin' and f.a[0] == 'Eq' and v == 0 and lin(f.a[2]) in (lin(i), lin(j)) and lin(f.a[3]) in (lin(i), lin(j)) for f, v in flat(t.facts)) or \
                    any(isinstance(v, int) and v == 1 and f.k == 'bin' and f.a[0] == 'Lt' and {key(f.a[2]), key(f.a[3])} == {key(i), key(j)} for f, v in flat(t.facts))
            return lo > ex
        return Arr(differ)

    def less(t, i):
        """The path knows that the count at i is less than k."""
        A = arr(t)
        return truth(t, [(A.rd(binop('Lt', 'u16', sel(F1, i), k)), 1)], A.rd)

    def notless(t, i):
        A = arr(t)
        return truth(t, [(A.rd(binop('Lt', 'u16', sel(F1, i), k)), 0)], A.rd)

    def at(x, n):
        return binop('Add', 'u16', x, I(n)) if n > 0 else binop('Sub', 'u16', x, I(-n)) if n < 0 else x
    ahead = {}
    for h, (x, a, ins, rnd) in scans.items():
        es = [e for e in (0, 1, -1, 2) if all(less(t, at(x, e)) for t in rnd)]
        ok = len(es) >= 1
        if ok:
            e = es[0]
            ok = a + e >= 1
            for t in ins:
                for m in range(1, a + e):
                    ok = ok and less(t, at(c, m))
        if not ok:
            r.bad('C23/exchange/scan', 'the scan goes past a node whose count is not less, at %s' % up)
            return
        ahead[h] = es
        for t in rnd:
            v = [t.to(index_of(ts.value(h, SS), i)) for i in (fi, pi, ci)]
            if v != [index_of(ts.value(h, SS), i) for i in (fi, pi, ci)]:
                r.bad('C23/exchange/scan', 'the tree is changed while the node to exchange with is looked for')
                return
    zero = lambda t, v, A: truth(t, [(A.rd(binop('Eq', 'u16', v, I(0))), 1), (A.rd(v), 0), (A.rd(binop('Lt', 'u16', I(0), v)), 0)], A.rd)
    nonzero = lambda t, v, A: truth(t, [(A.rd(binop('Eq', 'u16', v, I(0))), 0), (A.rd(binop('Lt', 'u16', I(0), v)), 1)], A.rd) or \
        any(isinstance(q, frozenset) and 0 in q and A.rd(f) is A.rd(v) for f, q in t.facts)
    A0 = Arr(lambda i, j: False)
    guarded = all(nonzero(t, c, A0) or t.ret is not None and zero(t, c, A0) for t in ts.out(H))
    n = 0
    for t in ts.ts:
        if t.src is not H and t.src not in scans or t.dst is not None and t.dst is not H:
            continue
        A = arr(t)
        v = t.final(SS)
        new = [index_of(v, i) for i in range(nf)]
        if t.ret is not None and v is S and guarded and zero(t, c, A0):
            continue                        # the root was reached
        n += 1
        for i in range(nf):
            if i not in (fi, pi, ci) and new[i] is not index_of(S, i):
                r.bad('C23/count/other', 'learning a symbol changes more than the tree')
        wf, wp, wc = writes(new[fi], F), writes(new[pi], P), writes(new[ci], C)
        if wf is None or wp is None or wc is None:
            r.bad('C23/count/what', 'learning a symbol changes the tables in an unexpected way, at %s' % up)
            continue
        mf, mc = A.final(wf), A.final(wc)
        mp = {}
        for i, x in wp:
            mp[A.ix(i)] = A.rd(x)
        ls = [i for i in mf if i is not c]
        x = scans.get(t.src)
        if not ls:
            r.check(mf == {c: A.rd(k)}, COUNT, 'one round', 'C23/count/add', 'the count of a node on the way becomes %s' % (show(mf[c])[:120] if c in mf else 'what it was'))
            stay = notless(t, at(c, 1))
            if not stay and x is not None:
                f = Facts(t.known(), t.facts)
                stay = any(notless(t, at(x[0], e)) and f.proves(ladd(lin(c), lin(at(x[0], e - 1)), -1)) for e in ahead[t.src])
            r.check(stay and not mp and not mc, XCH, 'no exchange', 'C23/exchange/none', 'a node stays where it is although the next one may have a lesser count')
            place = c
        else:
            if len(ls) != 1:
                r.bad('C23/exchange/counts', 'more than two counts change in one step')
                continue
            l = ls[0]
            ok = mf.get(l) is A.rd(k) and c in mf and mf[c] is A.rd(sel(F, l))
            r.check(ok, XCH, 'counts', 'C23/exchange/counts', 'the counts of two exchanged nodes become %s' % ', '.join(show(q)[:80] for q in mf.values()))
            d = None if x is None else plain(ladd(lin(l), lin(x[0]), -1))
            ok = False
            if d is not None:
                ok = any(e - 1 == d and notless(t, at(x[0], e)) for e in ahead[t.src])
                ok = ok and A.differ(l, c)
            r.check(ok, XCH, 'the last node of lesser count', 'C23/exchange/which', 'a node is exchanged with another than the last one of lesser count: %s' % show(l)[:80])
            cc, cl = A.rd(sel(C, c)), A.rd(sel(C, l))
            r.check(mc == {c: cl, l: cc}, XCH, 'children', 'C23/exchange/children', 'the children of two exchanged nodes become %s' % ', '.join('%s: %s' % (show(a)[:40], show(b)[:60]) for a, b in mc.items()))
            want = {}
            for ch, to in ((cc, l), (cl, c)):
                want[lk(ch)] = A.ix(to)
                b = below(t, ch, T, A.rd)
                if b is None:
                    want = None
                    break
                if b:
                    want[lk(ch, 1)] = A.ix(to)
            got = {key(i): q for i, q in mp.items()}
            r.check(want is not None and got == want, XCH, 'parents', 'C23/exchange/parents',
                    'the children of two exchanged nodes do not all learn their new parent: %s' % ', '.join('%s: %s' % (show(a)[:60], show(b)[:40]) for a, b in mp.items())[:300])
            place = l
        # where it goes on

        def is_next(q):
            q0 = q
            if q.k != 'sel' or A.ix(q.a[1]) is not place:
                return False
            w = writes(q.a[0], P)
            return w is not None and all(A.ix(i) in mp and A.rd(y) is mp[A.ix(i)] for i, y in w)
        if t.dst is H:
            q = t.asg.get(c)
            ok = q is not None and is_next(q)
            r.check(ok, WAY, 'next node', 'C23/way/next', 'the way goes on at %s' % (show(q)[:120] if q is not None else 'the same node'))
            ok = ok and (guarded or nonzero(t, q, A))
            r.check(ok, WAY, 'up to the root', 'C23/way/end', 'the way goes on although the root may have been counted')
        else:
            ok = any(v == 1 and f.k == 'bin' and f.a[0] == 'Eq' and (is_next(f.a[2]) and f.a[3] is I(0) or is_next(f.a[3]) and f.a[2] is I(0)) or v == 0 and isinstance(v, int) and is_next(f) for f, v in flat(t.facts))
            r.check(ok, WAY, 'ends at the root', 'C23/way/end', 'the way ends although the root may not have been counted')
    if n < 2:
        r.bad('C23/way/rounds', 'no node is counted')


def flat(facts):
    for f, v in facts:
        while f.k == 'not' and isinstance(v, int):
            f, v = f.a[0], 1 - v
        if isinstance(v, frozenset) and f.k == 'bin' and len(v & {0, 1}) == 1:
            v = 1 - list(v & {0, 1})[0]
        yield f, v


def key(i):
    return frozenset(lin(i).items())


def lk(i, n=0):
    return frozenset(ladd(lin(i), {None: n} if n else {}).items())


def halved(t, x):
    """t is half of x, rounded up, for every x up to 0x8000."""
    return all(evalc(t, {x: n}) == (n + 1) // 2 for n in list(range(0, 600)) + list(range(600, MAX + 1, 37)) + [MAX - 1, MAX])


def counter(ts, h, p, start, step, inner=()):
    """p begins as start and grows by step on every way around h."""
    ok = True
    for t in ts.into(h):
        v = t.asg.get(p)
        if v is None:
            return False
        if t.src is h or t.src in inner:
            ok = ok and ladd(lin(v), lin(p), -1) == ({None: step} if step else {})
        else:
            ok = ok and lin(v) == lin(start)
    return ok


def rebuild(s, r):
    HALF, INS, LINK = 'leaves keep their order and half their counts', 'each inner node is put where its count belongs', 'every node knows its parent'
    (fi, pi, ci), nf = layout(s)
    rec = member(s, 'LzHufState', 'reconstruct', 1, '()')
    ts = System(s.fn(rec, [SELF], cells={'#self': mk('Y', 'st')}))
    ts.ts = [t for t in ts.ts if t.known() is not None]
    # order of the loops
    loops = []
    for h in ts.heads:
        if h is not None and getattr(h, 'head', None) and any(t.dst is h for t in ts.ts):
            loops.append(h)
    order = []
    kinds = {}
    both = lambda a, b: a is b or reaches(ts, a, b) and reaches(ts, b, a)
    loops = [h for h in loops if any(t.first or not both(t.src, h) for t in ts.into(h))]    # scans are looked at with the loop they are in
    for h in loops:
        own = [t for t in ts.into(h) if t.src is h]
        back = [t for t in ts.into(h) if not t.first and t.src is not h and both(t.src, h)]
        ch = set()
        for t in own + back:
            v = t.final(SS)
            for i in range(nf):
                if index_of(v, i) is not index_of(ts.value(h, SS), i):
                    ch.add(i)
        kinds[h] = (ch, own, back)
    for h in loops:
        ch, own, back = kinds[h]
        S = ts.value(h, SS)
        F, P, C = (index_of(S, i) for i in (fi, pi, ci))
        if ch == {fi, ci} and not back:
            order.append('half')
            compact(ts, h, own, F, C, fi, ci, nf, r, HALF)
        elif ch == {fi, ci}:
            order.append('ins')
            insert(ts, h, own, back, F, C, fi, ci, nf, r, INS)
        elif ch == {pi}:
            order.append('link')
            links(ts, h, own, back, P, C, pi, ci, nf, r, LINK)
        else:
            r.bad('C23/rebuild/what', 'the tree is rebuilt in an unexpected way, at %s' % rec)
            return
    after = lambda a, b: any(reaches(ts, x, y) for x in loops for y in loops if kind_of(kinds, x, fi, pi, ci) == a and kind_of(kinds, y, fi, pi, ci) == b)
    ok = sorted(order) == ['half', 'ins', 'link'] and after('half', 'ins') and after('ins', 'link') and not after('link', 'ins') and not after('ins', 'half')
    r.check(ok, LINK, 'the three steps of a rebuild follow each other', 'C23/rebuild/order', 'rebuilding the tree does not consist of halving the leaves, adding inner nodes, and linking, in this order')
    # nothing happens between the loops
    for t in ts.ts:
        if not t.first and t.dst is not None and both(t.src, t.dst):
            continue
        v = t.final(SS)
        b = mk('Y', 'st') if t.first else ts.value(t.src, SS)
        r.check(v is b, LINK, 'between the steps', 'C23/rebuild/between', 'the tree is changed in an unexpected way between the steps of a rebuild')
        if t.ret is not None and t.src is not None and order:
            r.check(kind_of(kinds, t.src, fi, pi, ci) == 'link', LINK, 'returns after linking', 'C23/rebuild/early', 'rebuilding may end before the parents are known')


def kind_of(kinds, h, fi, pi, ci):
    if h not in kinds:
        return None
    ch, own, back = kinds[h]
    return 'half' if ch == {fi, ci} and not back else 'ins' if ch == {fi, ci} else 'link' if ch == {pi} else None


def reaches(ts, a, b):
    seen, w = set(), [a]
    while w:
        h = w.pop()
        for t in ts.out(h):
            if t.dst is not None and t.dst not in seen:
                seen.add(t.dst)
                w.append(t.dst)
    return b in seen


def runs(t, p, n, idn=lambda x: x):
    """On this path: 1 if p < n is known, 0 if p >= n is known."""
    for w in ('u16', 'usize', 'int', 'i32', 'u32'):
        lt = binop('Lt', w, p, I(n))
        if truth(t, [(lt, 1)], idn):
            return 1
        if truth(t, [(lt, 0), (binop('Eq', w, p, I(n)), 1)], idn):
            return 0
    return below(t, p, n, idn)


def base(x):
    while x.k == 'ap' and x.a[0] in ('sext', 'zext', 'trunc'):
        x = x.a[-1]
    return x


def unify(ts, h, i, paths):
    """Counters that always have the same value become one."""
    env = {p: i[0] for p in i[1:]}
    if env:
        for t in paths:
            t.facts = [(subst(f, env), v) for f, v in t.facts]
    return lambda x: subst(x, env) if env else x


def whole(ts, h, i, n, own, outs, r, rule, what):
    """The loop takes i through 0..n."""
    ok = all(runs(t, i, n) == 1 for t in own) and all(runs(t, i, n) == 0 for t in outs)
    r.check(ok, rule, what, 'C23/rebuild/range', 'the loop for "%s" does not run over exactly %d entries' % (what, n))


def compact(ts, h, own, F, C, fi, ci, nf, r, rule):
    S = ts.value(h, SS)
    ps = ts.phis(h)
    i = [p for p in ps if counter(ts, h, p, I(0), 1)]
    outs = [t for t in ts.out(h) if t.dst is not h]
    if not i:
        r.bad('C23/rebuild/half', 'the leaves are not collected in one pass')
        return
    one = unify(ts, h, i, own + outs)
    i = i[0]
    whole(ts, h, i, T, own, outs, r, rule, 'leaves')
    js = None
    for t in own:
        v = t.final(SS)
        wf, wc = writes(one(index_of(v, fi)), F), writes(one(index_of(v, ci)), C)
        leaf = below(t, sel(C, i), T, lambda x: x)
        if wf is None or wc is None or leaf is None:
            r.bad('C23/rebuild/half', 'the leaves are not told from the inner nodes, or changed unexpectedly')
            return
        if leaf:
            ok = not wf and not wc
            for p in ps:
                if p is not i and p is not S and p in t.asg and js is p:
                    ok = ok and t.asg[p] is p
            r.check(ok, rule, 'inner nodes are left out', 'C23/rebuild/half', 'an inner node is kept when the leaves are collected')
            t.inner = True
            continue
        t.inner = False
        ok = len(wf) == 1 and len(wc) == 1 and base(wf[0][0]) is base(wc[0][0]) and base(wf[0][0]).k == 'P'
        if ok:
            js = base(wf[0][0])
            ok = wc[0][1] is sel(C, i) and halved(wf[0][1], sel(F, i))
        r.check(ok, rule, 'a leaf is moved', 'C23/rebuild/half', 'a leaf is not moved with half its count, rounded up: %s' % show(index_of(v, fi))[-160:])
    if js is None:
        return
    for t in ts.into(h):
        v = t.asg.get(js)
        if t.src is not h:
            ok = v is not None and lin(v) == {}
        else:
            ok = v is not None and ladd(lin(v), lin(js), -1) == ({} if getattr(t, 'inner', False) else {None: 1})
        r.check(ok, rule, 'leaves stand one after the other', 'C23/rebuild/gap', 'the collected leaves do not stand one after the other from 0')


def insert(ts, h, own, back, F, C, fi, ci, nf, r, rule):
    S = ts.value(h, SS)
    ps = ts.phis(h)
    inner = []
    for t in back:
        if t.src not in inner:
            inner.append(t.src)
    j = [p for p in ps if counter(ts, h, p, I(314), 1, inner)]
    i = [p for p in ps if counter(ts, h, p, I(0), 2, inner)]
    if own or len(inner) != 1 or not j:
        r.bad('C23/rebuild/insert', 'inner nodes are not added one by one')
        return
    j, g = j[0], inner[0]
    outs = [t for t in ts.out(h) if not reaches(ts, t.dst, h)] if all(t.dst is not None for t in ts.out(h)) else [t for t in ts.out(h) if t.dst is None or not reaches(ts, t.dst, h)]
    ins = [t for t in ts.into(g) if t.src is not g]
    rnd = [t for t in ts.into(g) if t.src is g]
    whole(ts, h, j, T, ins, outs, r, rule, 'inner nodes')
    if i:
        i = i[0]
    else:
        i = None
    li = lin(i) if i is not None else {j: 2, None: -628}

    def is_i(t, n=0):
        return lin(t) == ladd(li, {None: n} if n else {})

    def is_sum(f):
        return f.k == 'bin' and f.a[0] == 'Add' and f.a[2].k == 'sel' and f.a[3].k == 'sel' and f.a[2].a[0] is F and f.a[3].a[0] is F and \
            (is_i(f.a[2].a[1]) and is_i(f.a[3].a[1], 1) or is_i(f.a[2].a[1], 1) and is_i(f.a[3].a[1]))
    # the scan goes down from j
    xs = []
    for x in ts.phis(g):
        a = {plain(ladd(lin(t.asg[x]), lin(j), -1)) if x in t.asg else None for t in ins}
        if len(a) == 1 and None not in a and all(x in t.asg and ladd(lin(t.asg[x]), lin(x), -1) == {None: -1} for t in rnd):
            xs.append((x, a.pop()))
    if len(xs) != 1 or not rnd:
        r.bad('C23/rebuild/insert', 'the place of an inner node is not looked for downwards from the end')
        return
    x, a = xs[0]

    def compared(t):
        """(offset from x, count, truth) of comparisons with the count of a node."""
        for f, v in flat(t.facts):
            if f.k == 'bin' and f.a[0] == 'Lt' and v in (0, 1):
                for p, q, sw in ((f.a[2], f.a[3], 0), (f.a[3], f.a[2], 1)):
                    if q.k == 'sel' and is_sum(p):
                        e = plain(ladd(lin(q.a[1]), lin(x), -1))
                        w = writes(q.a[0], F)
                        if e is not None and w is not None and all(z is j or lin(z) == lin(j) for z, y in w) and a + e < 0:
                            yield e, sw, v
    es = None
    for t in rnd:
        k = {e for e, sw, v in compared(t) if sw == 0 and v == 1}
        es = k if es is None else es & k
    if not es:
        r.bad('C23/rebuild/insert', 'the scan for the place of an inner node goes past a node whose count is not greater')
        return
    e = sorted(es)[0]
    r.check(a + e == -1, rule, 'the scan starts next to the end', 'C23/rebuild/insert', 'the scan for the place of an inner node starts %d before the end' % -(a + e))
    for t in back:
        stop = any(e2 == e and sw == 0 and v == 0 for e2, sw, v in compared(t))
        r.check(stop, rule, 'the scan stops at the first node not greater', 'C23/rebuild/insert', 'the scan for the place of an inner node may stop early')
        v = t.final(SS)
        for idx, B, val in ((fi, F, is_sum), (ci, C, is_i)):
            w = index_of(v, idx)
            ok = w.k == 'upd' and plain(ladd(lin(w.a[1]), lin(x), -1)) == e + 1 and val(w.a[2])
            r.check(ok, rule, 'an inner node at its place', 'C23/rebuild/place', 'an inner node is put elsewhere than behind the last node of no greater count, or with other contents: %s' % show(w)[-200:])
            if not ok:
                continue
            w = w.a[0]
            ok = w.k == 'ap' and w.a[0] == 'copy_within'
            if ok:
                src, rg, to = w.a[1], w.a[2], w.a[3]
                b = writes(src, B)
                ok = b is not None and all(lin(z) == lin(j) for z, y in b)
                lo, hi = fields(rg)[:2] if rg.k == 'A' and rg.a[0].endswith('Range') else (None, None)
                ok = ok and lo is not None and plain(ladd(lin(lo), lin(x), -1)) == e + 1 and ladd(lin(to), lin(lo), -1) == {None: 1}
                # up to j at least: hi - j = m * (j - place), m >= 0
                d = ladd(lin(hi), lin(j), -1) if ok else {}
                m = d.get(j, 0)
                ok = ok and m >= 0 and ladd(d, ladd(lin(j), ladd(lin(x), {None: e + 1}), -1), -m) == {}
            r.check(ok, rule, 'those behind it move up by one', 'C23/rebuild/shift', 'the nodes behind an inserted one do not all move up by one: %s' % show(w)[-200:])


def sized(t, *arrays):
    """t with the lengths of the tables."""
    return subst(t, {mk('ap', 'len', a): I(n) for a, n in arrays})


def links(ts, h, own, back, P, C, pi, ci, nf, r, rule):
    i = [p for p in ts.phis(h) if counter(ts, h, p, I(0), 1)]
    outs = [t for t in ts.out(h) if t.dst is not h]
    if not i or back:
        r.bad('C23/rebuild/links', 'parents are not set in one pass')
        return
    # the children are not changed here: what they were before the loop is what they are
    env = {}
    for t in ts.into(h):
        b = t.to(ts.value(h, SS))
        if t.src is not h and b is not None:
            env[index_of(b, ci)] = C
    env.pop(C, None)
    for t in own + outs:
        t.facts = [(sized(subst(f, env), (P, T + 314), (C, T)), v) for f, v in t.facts]
    one = unify(ts, h, i, own + outs)
    i = i[0]
    whole(ts, h, i, T, own, outs, r, rule, 'links')
    for t in own:
        A = Arr(lambda a, b: plain(ladd(lin(a), lin(b), -1)) not in (None, 0))
        w = writes(one(subst(index_of(t.final(SS), pi), env)), P)
        k = sel(C, i)
        b = below(t, k, T, lambda x: x)
        ok = w is not None and b is not None
        if ok:
            got = {key(A.ix(z)): A.ix(y) for z, y in w}
            want = {lk(k): i}
            if b:
                want[lk(k, 1)] = i
            ok = got == want
        r.check(ok, rule, 'the children of a node', 'C23/rebuild/links', 'a child does not learn its parent: %s' % show(index_of(t.final(SS), pi))[-200:])


def fresh(s, r):
    """The tree that nothing has been learnt by, by constant propagation."""
    RULE = 'a new tree gives every symbol a count of one'
    (fi, pi, ci), nf = layout(s)
    try:
        v = [x[0] for x in rets(s.fn(LZ + 'LzHufState::new', None, {'unroll': 1000}))]
    except Unsupported as e:
        r.bad('C23/new/constant', 'the new tree is not decided by constants: %s' % e)
        return
    if len(v) != 1:
        r.bad('C23/new/constant', 'the new tree is not decided by constants')
        return
    F, P, C = [1] * 314, {}, [T + i for i in range(314)]
    for j in range(314, T):
        i = 2 * (j - 314)
        F.append(F[i] + F[i + 1])
        C.append(i)
        P[i] = P[i + 1] = j
    F.append(0xffff)
    P[ROOT] = 0
    for i in range(314):
        P[T + i] = i
    for name, k, want in (('counts', fi, dict(enumerate(F))), ('parents', pi, P), ('children', ci, dict(enumerate(C)))):
        t = index_of(v[0], k)
        got = {}
        for i in want:
            x = sel(t, I(i))
            got[i] = x.a[0] if x.k == 'I' else None
        bad = [i for i in sorted(want) if got[i] != want[i]]
        r.check(not bad, RULE, name, 'C23/new/' + name, 'in a new tree the %s of node %s are %s, not %s' % (name, bad[0] if bad else '', got[bad[0]] if bad else '', want[bad[0]] if bad else ''))


def c23(s, r):
    fresh(s, r)
    learn_symbol(s, r)
    rebuild(s, r)
