"""Loops as transition systems: linear forms, inductive counters, entailment of linear inequalities."""
from lib import *
from engine import W


def lin(t, mod=None, norm=None):
    """t as a linear form {term: coefficient, None: constant} over the integers, or modulo mod (a power of two)."""
    if norm:
        t = norm(t)
    if t.k == 'I':
        return {None: t.a[0] % mod if mod else t.a[0]} if t.a[0] else {}
    if t.k == 'bin' and t.a[0] in ('Add', 'Sub'):
        return ladd(lin(t.a[2], mod, norm), lin(t.a[3], mod, norm), 1 if t.a[0] == 'Add' else -1, mod)
    if t.k == 'bin' and t.a[0] == 'Mul':
        for x, y in ((t.a[2], t.a[3]), (t.a[3], t.a[2])):
            if y.k == 'I':
                return ladd({}, lin(x, mod, norm), y.a[0], mod)
    if t.k == 'bin' and t.a[0] == 'Shl' and t.a[3].k == 'I':
        return ladd({}, lin(t.a[2], mod, norm), 1 << t.a[3].a[0], mod)
    if mod:
        if t.k == 'bin' and t.a[0] == 'BitAnd':
            for x, y in ((t.a[2], t.a[3]), (t.a[3], t.a[2])):
                if y.k == 'I' and (y.a[0] + 1) % mod == 0:
                    return lin(x, mod, norm)
        if t.k == 'bin' and t.a[0] == 'Rem' and t.a[3].k == 'I' and t.a[3].a[0] % mod == 0 and t.a[1][0] == 'u':
            return lin(t.a[2], mod, norm)
        if t.k == 'ap' and t.a[0] == 'trunc' and W.get(t.a[1], 0) and (1 << W[t.a[1]]) % mod == 0:
            return lin(t.a[2], mod, norm)
    return {t: 1}


def ladd(a, b, k=1, mod=None):
    r = dict(a)
    for x, c in b.items():
        c = r.get(x, 0) + k * c
        if mod:
            c %= mod
        if c:
            r[x] = c
        else:
            r.pop(x, None)
    return r


def nonneg(ctx, t):
    """Linear forms that are >= 0 because an atom is unsigned or bounded."""
    r = [{t: 1}]
    hi = ctx.bounds(t)[1]
    if hi is not None:
        r.append({t: -1, None: hi})
    return r


class Facts(object):
    """Linear inequalities over the integers known on a path."""

    def __init__(self, ctx, facts, extra=(), norm=None):
        self.ctx, self.norm = ctx, norm or (lambda t: t)
        self.safe = set()
        for t, v in facts:
            while t.k == 'not' and isinstance(v, int):
                t, v = t.a[0], 1 - v
            if t.k == 'ap' and t.a[0] == 'ovf' and v == 0:
                self.safe.add((t.a[1], self.norm(t.a[3]), self.norm(t.a[4])))
        self.ge = [dict(x) for x in extra]
        self.ne = []
        for i in range(2):
            self.ge, self.ne = self.ge if i else [dict(x) for x in extra], []
            for t, v in facts:
                self.fact(t, v)
        for d in self.ne:
            # different and not below: above
            if self.proves(d):
                self.ge.append(ladd(d, {None: 1}, -1))
            elif self.proves(ladd({}, d, -1)):
                self.ge.append(ladd(ladd({}, d, -1), {None: 1}, -1))

    def lin(self, t):
        """t as a linear form over the integers; what may overflow is an atom."""
        t = self.norm(t)
        if t.k == 'I':
            return {None: t.a[0]} if t.a[0] else {}
        if t.k == 'bin' and t.a[0] in ('Add', 'Sub'):
            a, b = self.lin(t.a[2]), self.lin(t.a[3])
            ok = (t.a[0], t.a[2], t.a[3]) in self.safe or t.a[0] == 'Add' and (t.a[0], t.a[3], t.a[2]) in self.safe
            # bounds of a range are integers
            ok = ok or t.a[1] == 'int'
            if not ok and t.a[1][0] == 'u':
                ok = self.ctx.known(ap('ovf', t.a[0], t.a[1], t.a[2], t.a[3])) == 0
                if not ok and t.a[0] == 'Sub':
                    ok = self.proves(ladd(a, b, -1))
                elif not ok:
                    ok = self.proves(ladd({None: (1 << W.get(t.a[1], 8)) - 1}, ladd(a, b), -1))
            if ok:
                return ladd(a, b, 1 if t.a[0] == 'Add' else -1)
        if t.k == 'ap' and t.a[0] == 'trunc' and t.a[1][0] == 'u':
            hi = self.ctx.bounds(t.a[2])[1]
            if hi is not None and hi >> W[t.a[1]] == 0 or self.proves(ladd({None: (1 << W[t.a[1]]) - 1}, self.lin(t.a[2]), -1)):
                return self.lin(t.a[2])
        return {t: 1}

    def fact(self, t, v):
        while t.k == 'not' and isinstance(v, int):
            t, v = t.a[0], 1 - v
        if isinstance(v, frozenset):
            if t.k == 'bin' and t.a[0] in ('Lt', 'Eq') and len(v & {0, 1}) == 1:
                return self.fact(t, 1 - list(v & {0, 1})[0])
            for x in v:
                if isinstance(x, int):
                    self.ne.append(ladd(self.lin(t), {None: -x} if x else {}))
            return
        if t.k == 'bin' and t.a[0] in ('Lt', 'Eq') and t.a[1] and (t.a[1][0] == 'u' or t.a[1] == 'int'):
            a, b = self.lin(t.a[2]), self.lin(t.a[3])
            if t.a[0] == 'Lt':
                self.ge.append(ladd({None: (1 << W.get(t.a[1], 64)) - 1}, b if v else a, -1))
                self.ge.append(ladd(ladd(b, a, -1), {None: -1}) if v else ladd(a, b, -1))
            elif v:
                self.ge += [ladd(a, b, -1), ladd(b, a, -1)]
            else:
                self.ne.append(ladd(a, b, -1))
        elif isinstance(v, int) and t.k not in ('bin', 'not', 'I') and not (t.k == 'ap' and t.a[0] in ('discr', 'ovf')):
            a = self.lin(t)
            k = {None: v} if v else {}
            self.ge += [ladd(a, k, -1), ladd(k, a, -1)]

    def proves(self, goal, depth=2):
        """goal >= 0 follows."""
        def atoms(g):
            return [x for x in g if x is not None]
        if not atoms(goal):
            return goal.get(None, 0) >= 0
        if depth == 0:
            return False
        cand = list(self.ge)
        for x in atoms(goal):
            cand += nonneg(self.ctx, x)
        for f in cand:
            for x in atoms(f):
                c, d = goal.get(x, 0), f[x]
                if c and (c > 0) == (d > 0) and c % d == 0:
                    if self.proves(ladd(goal, f, -(c // d)), depth - 1):
                        return True
                    break
        return False

    def impossible(self):
        return any(self.proves(ladd(ladd({}, f, -1), {None: -1})) for f in self.ge)

    def equal(self, d, mod=None):
        """d == 0 (modulo mod) follows."""
        if mod:
            d = {x: c % mod for x, c in d.items() if c % mod}
        if not d:
            return True
        for f in self.ge:
            neg = ladd({}, f, -1)
            if len(f) > 0 and any(x is not None for x in f) and self.proves(neg):
                for x in f:
                    if x is not None and abs(f[x]) == 1 and x in d:
                        e = ladd(d, f, -d[x] * f[x], mod)
                        if mod:
                            e = {y: c % mod for y, c in e.items() if c % mod}
                        if not e:
                            return True
        return False


class Trans(object):
    """One path between loop heads."""

    def __init__(self, ts, src, evs, dst, lab, asg):
        self.ts, self.src, self.evs, self.dst, self.lab, self.asg = ts, src, evs, dst, lab, asg
        self.ret = None
        self.first = src is None or not getattr(src, 'head', None)
        for ev in evs:
            if ev[0] == 'ret':
                self.ret = ev
        fs = list(ts.headfacts(src))
        for ev in evs:
            if ev[0] == 'branch':
                fs.append((ev[1], ev[2]))
            elif ev[0] == 'branchne':
                fs.append((ev[1], frozenset(ev[2])))
            elif ev[0] == 'assert' and isinstance(ev[2], Term):
                fs.append((ev[2], 1))
        self.facts = fs

    def known(self, extra=()):
        """The context knowing this path's conditions; None if the path is impossible."""
        c = Ctx(self.ts.g.e, [], {}, dict(extra), {})
        for t, v in self.facts:
            if isinstance(v, frozenset):
                if c.assume_ne(t, list(v)) is False:
                    return None
            elif c.assume(t, v) is False:
                return None
        return c

    def to(self, t):
        """A term over the target's loop variables as a term over the source's."""
        return subst(t, self.asg) if self.asg else t

    def final(self, cell):
        """The value of a cell ('G', name) at the end of the path."""
        if self.dst is not None:
            v = self.ts.value(self.dst, cell)
            return None if v is None else self.to(v)
        if self.ret is not None:
            for p, v in self.ret[2]:
                if p is mk('Y', cell[1]) or p.k == 'Y' and p.a[0] == cell[1]:
                    return v
            return self.ts.value(self.src, cell)
        return None


class System(object):
    def __init__(self, g):
        self.g = g
        self.ts = []
        self.ts = [Trans(self, *x) for x in g.transitions()]
        self.heads = []
        for t in self.ts:
            for h in (t.src, t.dst):
                if h is not None and h not in self.heads:
                    self.heads.append(h)

    def value(self, head, cell):
        v = head.ctx.store.get(cell)
        return None if v is None else self.g.norm(v)

    def headfacts(self, head):
        if head is None:
            return []
        return [(self.g.norm(t), v) for t, v in head.ctx.facts.items()]

    def phis(self, head):
        r = []
        for t in self.ts:
            if t.dst is head:
                r += [p for p in t.asg if p not in r]
        return r

    def out(self, head):
        return [t for t in self.ts if t.src is head]

    def into(self, head):
        return [t for t in self.ts if t.dst is head]

    def loop(self, head, ignore=()):
        """Heads in the same loop as head, itself included."""
        fwd, w = {head.id}, [head]
        while w:
            h = w.pop()
            for t in self.out(h):
                if t.dst is not None and t.dst.id not in fwd:
                    fwd.add(t.dst.id)
                    w.append(t.dst)
        return fwd
