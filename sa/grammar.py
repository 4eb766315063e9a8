"""Languages of nom parsers: ordered alternatives of (atoms, value, conditions), read off the parser
terms and the functions they are built from.

Atoms: ('lit', bytes, mode) | ('run', charset bytes, min, max or None, mode, cap) | ('take', count term, mode, cap)
     | ('until', bytes, min, mode, cap) | ('num', kind, mode, cap) | ('not', alternatives) | ('end',)
     | ('many_till', alternatives, alternatives, cap) | ('inner', cap, alternative)
mode is 's' (streaming: running out of input is Incomplete) or 'c' (running out of input is an error)."""
from lib import *
import itertools

_n = itertools.count()
OPTN = 'core::option::Option'


class Case(object):
    __slots__ = ('atoms', 'value', 'conds')

    def __init__(self, atoms, value, conds=()):
        self.atoms = tuple(atoms)
        self.value = value
        self.conds = frozenset(conds)

    def __repr__(self):
        return '%s => %s%s' % (' '.join(map(showatom, self.atoms)), show(self.value), ' if ' + ', '.join(sorted('%s=%s' % (show(t), v) for t, v in self.conds)) if self.conds else '')


def showatom(a):
    if a[0] == 'lit':
        return '%r%s' % (a[1], '' if a[2] == 'c' else '~')
    if a[0] == 'run':
        return '[%s]{%s,%s}%s:%s' % (charset_name(a[1]), a[2], '' if a[3] is None else a[3], '' if a[4] == 'c' else '~', show(a[5]))
    return '(' + ' '.join(show(x) if isinstance(x, Term) else str(x) for x in a) + ')'


def charset_name(cs):
    if len(cs) == 256:
        return 'any'
    if len(cs) > 128:
        return '^' + charset_name(bytes(b for b in range(256) if b not in set(cs)))
    out, i = '', 0
    cs = sorted(cs)
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        f = lambda b: chr(b) if 33 <= b < 127 else '\\x%02x' % b
        out += f(cs[i]) + ('-' + f(cs[j]) if j > i + 1 else f(cs[j]) if j == i + 1 else '')
        i = j + 1
    return out


def contradictory(conds):
    by = {}
    for t, v in conds:
        by.setdefault(t, []).append(v)
    for t, vs in by.items():
        n = {v for v in vs if not isinstance(v, frozenset)}
        if len(n) > 1 or any(v in x for v in n for x in vs if isinstance(x, frozenset)):
            return True
    return False


def newcap():
    return mk('Y', '#cap%d' % next(_n))


def holds(t, v):
    """Truth of fact (t, v) if decided: True/False/None."""
    if t.k == 'I':
        return t.a[0] not in v if isinstance(v, frozenset) else t.a[0] == v
    return None


class Grammar(object):
    def __init__(self, s):
        self.s = s
        self.memo = {}
        self.sets = {}

    # ---- predicates and mappings
    def charset(self, f):
        if f.k == 'fn' and f.a[0] in models.PREDS:
            return bytes(sorted(models.PREDS[f.a[0]]))
        if f not in self.sets:
            c = mk('Y', '#byte')
            acc = []
            g = self.s.apply(f, [c])
            self.applied(g, None)
            rs = rets(g)
            for b in range(256):
                m = {c: I(b)}
                res = None
                for v, fin, fs in rs:
                    if all(holds(self.fold(subst(t, m)), x) is not False for t, x in fs.items()):
                        if any(holds(self.fold(subst(t, m)), x) is None for t, x in fs.items()):
                            raise Unsupported('byte predicate %s cannot be evaluated' % show(f)[:80])
                        y = self.fold(subst(v, m))
                        if y.k != 'I' or res is not None and res is not y:
                            raise Unsupported('byte predicate %s cannot be evaluated' % show(f)[:80])
                        res = y
                if res is None:
                    raise Unsupported('byte predicate %s may not return' % show(f)[:80])
                if res.a[0]:
                    acc.append(b)
            self.sets[f] = bytes(acc)
        return self.sets[f]

    def fold(self, t):
        return t

    def applied(self, g, case):
        """A function (its graph) that a parser runs on the value of an alternative."""

    def mapped(self, case, f, how):
        """Alternatives of case with its value mapped by f."""
        out = []
        u = f
        while u.k == 'U':
            u = u.a[0]
        if u.k == 'fn' and u.a[0] not in self.s.w.bodies:
            r = self.ctor(u, case.value)
            if r is None and u.a[0] in ('core::str::converts::from_utf8', 'alloc::string::String::from_utf8') and how == 'res':
                return self.utf8(case)
            if r is None:
                raise Unsupported('mapping by %s' % show(u))
            rs = [(r, {})]
        else:
            g = self.s.apply(f, [case.value])
            self.applied(g, case)
            rs = [(v, dict(fs)) for v, fs in outcomes(g)]
        for v, fs in rs:
            # that a text of ASCII characters is ASCII is no condition
            asc = {t: x for t, x in fs.items() if x in (0, 1) and t.k == 'ap' and t.a[0].endswith('::is_ascii') and self.within(t.a[1], bytes(range(128)), 0, None, case.atoms)}
            if 0 in asc.values():
                continue
            conds = self.addconds(case.conds, {t: x for t, x in fs.items() if t not in asc})
            if conds is None:
                continue
            if how in ('res', 'opt'):
                adt = RES if how == 'res' else OPTN
                good = 0 if how == 'res' else 1
                if v.k == 'A' and v.a[0] == adt:
                    if v.a[1] != good:
                        continue
                    v = v.a[2]
                else:
                    conds = self.addconds(conds, {discr_term(self.s.w, v): good})
                    v = proj(v, (good, 0))
            out.append(Case(case.atoms, v, conds))
        return out

    def within(self, v, cs, lo, hi, atoms):
        """Every byte of the text v is one of cs, and its length is lo to hi."""
        if v.k == 'S':
            return set(v.a[0]) <= set(cs) and len(v.a[0]) >= lo and (hi is None or len(v.a[0]) <= hi)
        for a in atoms:
            if a[0] == 'run' and a[-1] is v:
                return set(a[1]) <= set(cs) and a[2] >= lo and (hi is None or a[3] is not None and a[3] <= hi)
            if a[0] == 'inner' and self.within(v, cs, lo, hi, a[2]):
                return True
        if v.k == 'ap' and v.a[0] == 'out':
            try:
                alts = self.alts(v.a[1])
            except (Unsupported, Missing):
                return False
            return bool(alts) and all(self.within(c.value, cs, lo, hi, c.atoms) for c in alts)
        if v.k == 'ap' and v.a[0] in ('prefix', 'suffix') and lo == 0 and hi is None:
            return self.within(v.a[1], cs, 0, None, atoms)
        return False

    def ctor(self, u, v):
        """A tuple-variant constructor used as a function."""
        p = u.a[0]
        adt, _, var = p.rpartition('::')
        a = self.s.w.adts.get(adt)
        if a:
            for i, x in enumerate(a['v']):
                if x['n'] == var:
                    return A(adt, i, v)
        if p in self.s.w.adts:
            return A(p, 0, v)
        if p.endswith('Option::Some'):
            return A(OPTN, 1, v)
        return None

    def utf8(self, case):
        c = self.addconds(case.conds, {ap('is_utf8', case.value): 1}, case.atoms)
        return [Case(case.atoms, case.value, c)]

    def addconds(self, conds, fs, atoms=()):
        r = set(conds)
        for t, v in fs.items():
            h = holds(t, v)
            if h is False:
                return None
            if h is None:
                r.add((t, v))
        return None if contradictory(r) else frozenset(r)

    # ---- parsers
    def seq(self, parts, val):
        """parts: list of alternative lists; val(list of values) -> value."""
        out = []
        for combo in itertools.product(*parts):
            combo = [fresh(c) for c in combo]
            atoms = sum((c.atoms for c in combo), ())
            conds = frozenset().union(*[c.conds for c in combo])
            out.append(Case(atoms, val([c.value for c in combo]), conds))
            if len(out) > 4000:
                raise Unsupported('too many alternatives')
        return out

    def alts(self, p):
        r = self.memo.get(p)
        if r is None:
            r = self.memo[p] = self.alts1(p)
        return r

    def tup(self, p):
        if p.k == 'A' and p.a[0] == 'tuple':
            return list(p.a[2:])
        raise Unsupported('parser list ' + show(p)[:100])

    def alts1(self, p):
        while p.k == 'U':
            p = p.a[0]
        if p.k == 'fn':
            if p.a[0] in self.s.w.bodies:
                return self.of_fn(p.a[0])
            p = ap(p.a[0])
        if is_clo(p):
            return self.of_graph(self.s.apply(p, [mk('Y', '#data')]), mk('Y', '#data'))
        if p.k == 'S':
            return [Case([('lit', p.a[0], 'c')], p)]
        if not models.is_parser(p):
            raise Unsupported('parser ' + show(p)[:120])
        name, args = p.a[0], list(p.a[1:])
        mode = 's' if '::streaming::' in name else 'c'
        n = name.split('::')[-1]
        if n == 'alt':
            return [c for q in self.tup(args[0]) for c in self.alts(q)]
        if n == 'or':
            return [c for q in args for c in self.alts(q)]
        if n == 'map':
            return [x for c in self.alts(args[0]) for x in self.mapped(c, args[1], 'map')]
        if n == 'map_res':
            return [x for c in self.alts(args[0]) for x in self.mapped(c, args[1], 'res')]
        if n == 'map_opt':
            return [x for c in self.alts(args[0]) for x in self.mapped(c, args[1], 'opt')]
        if n == 'value':
            return [Case(c.atoms, args[0], c.conds) for c in self.alts(args[1])]
        if n == 'verify':
            out = []
            for c in self.alts(args[0]):
                g = self.s.apply(args[1], [c.value])
                self.applied(g, c)
                for v, fs in outcomes(g):
                    k = self.addconds(c.conds, dict(fs))
                    if k is not None:
                        k = self.addconds(k, {v: 1})
                    if k is not None:
                        out.append(Case(c.atoms, c.value, k))
            return out
        if n == 'opt':
            return [Case(c.atoms, A(OPTN, 1, c.value), c.conds) for c in self.alts(args[0])] + [Case([], A(OPTN, 0))]
        if n in ('tag', 'tag_no_case', 'char'):
            b = lit(args[0])
            if b is None or n == 'tag_no_case':
                raise Unsupported('parser ' + show(p)[:120])
            return [Case([('lit', b, mode)], S(b) if n == 'tag' else args[0])]
        if n == 'one_of':
            cs = lit(args[0])
            if cs is None or len(set(cs)) > 64:
                raise Unsupported('parser ' + show(p)[:120])
            return [Case([('lit', bytes([b]), mode)], I(b)) for b in sorted(set(cs))]
        if n in ('none_of', 'satisfy', 'anychar'):
            cs = bytes(range(256))
            if n == 'none_of':
                cs = lit(args[0])
                if cs is None:
                    raise Unsupported('parser ' + show(p)[:120])
                cs = bytes(b for b in range(256) if b not in set(cs))
            elif n == 'satisfy':
                cs = self.charset(args[0])
            c = newcap()
            return [Case([('run', cs, 1, 1, mode, c)], mk('sel', c, I(0)))]
        if n in ('take_while', 'take_while1', 'take_while_m_n', 'take_till', 'take_till1', 'is_a', 'is_not'):
            c = newcap()
            lo, hi = 0, None
            if n == 'take_while_m_n':
                lo, hi = ival(args[0]), ival(args[1])
                if lo is None or hi is None:
                    raise Unsupported('parser ' + show(p)[:120])
            elif n not in ('take_while', 'take_till'):
                lo = 1
            if n in ('is_a', 'is_not'):
                cs = lit(args[0])
                if cs is None:
                    raise Unsupported('parser ' + show(p)[:120])
                cs = bytes(sorted(set(cs)))
            else:
                cs = self.charset(args[-1])
            if n in ('take_till', 'take_till1', 'is_not'):
                cs = bytes(b for b in range(256) if b not in set(cs))
            return [Case([('run', cs, lo, hi, mode, c)], c)]
        if n in RUNS:
            c = newcap()
            cs, lo = RUNS[n]
            return [Case([('run', cs, lo, None, mode, c)], c)]
        if n == 'rest':
            c = newcap()
            return [Case([('run', bytes(range(256)), 0, None, 'c', c)], c)]
        if n in ('take_until', 'take_until1'):
            c = newcap()
            b = lit(args[0])
            if b is None:
                raise Unsupported('parser ' + show(p)[:120])
            return [Case([('until', b, 1 if n[-1] == '1' else 0, mode, c)], c)]
        if n == 'take':
            c = newcap()
            return [Case([('take', args[0], mode, c)], c)]
        if n in NUMS:
            c = newcap()
            return [Case([('num', n, mode, c)], c)]
        if n == 'preceded':
            return self.seq([self.alts(a) for a in args], lambda v: v[1])
        if n == 'terminated':
            return self.seq([self.alts(a) for a in args], lambda v: v[0])
        if n == 'delimited':
            return self.seq([self.alts(a) for a in args], lambda v: v[1])
        if n == 'separated_pair':
            return self.seq([self.alts(a) for a in args], lambda v: tup(v[0], v[2]))
        if n in ('pair', 'and'):
            return self.seq([self.alts(a) for a in args], lambda v: tup(*v))
        if n == 'tuple':
            return self.seq([self.alts(a) for a in self.tup(args[0])], lambda v: tup(*v))
        if n == 'all_consuming':
            return [Case(c.atoms + (('end',),), c.value, c.conds) for c in self.alts(args[0])]
        if n == 'not':
            return [Case([('not', tuple(self.alts(args[0])))], tup())]
        if n == 'peek':
            raise Unsupported('parser ' + show(p)[:120])
        if n == 'recognize' or n == 'consumed':
            out = []
            for c in self.alts(args[0]):
                t = text(c.atoms)
                if t is None:
                    raise Unsupported('parser ' + show(p)[:120])
                out.append(Case(c.atoms, t if n == 'recognize' else tup(t, c.value), c.conds))
            return out
        if n in ('context', 'cut'):
            return self.alts(args[-1])
        if n == 'into':
            return self.alts(args[0])
        if n == 'eof':
            return [Case([('end',)], S(b''))]
        if n == 'success':
            return [Case([], args[0])]
        if n == 'length_data':
            out = []
            for c in self.alts(args[0]):
                k = newcap()
                out.append(Case(c.atoms + (('take', c.value, 's', k),), k, c.conds))
            return out
        if n in ('map_parser', 'and_then'):
            out = []
            for c in self.alts(args[0]):
                for d in self.alts(args[1]):
                    d = fresh(d)
                    k = self.addconds(c.conds, dict(d.conds))
                    if k is not None:
                        out.append(Case(c.atoms + (('inner', c.value, d.atoms),), d.value, k))
            return out
        if n == 'many_till':
            c = newcap()
            return [Case([('many_till', tuple(self.alts(args[0])), tuple(self.alts(args[1])), c)], c)]
        raise Unsupported('parser ' + show(p)[:120])

    def of_fn(self, path):
        b = self.s.body(path)
        n = b.argc if hasattr(b, 'argc') else None
        g = self.s.fn(path)
        d = mk('Y', b.locals[1][1] or 'arg0')
        return self.of_graph(g, d)

    def of_graph(self, g, data):
        ps = []
        for evs, lab, fs in paths2(g, 3000):
            r = [ev for ev in evs if ev[0] == 'ret']
            if lab != 'ret' and not r:
                continue
            if not r:
                continue
            r = r[-1]
            ps.append((evs, r[:3] + (frozenset(fs | {(t, v) for t, v in r[3] if not any(x.k == 'P' for x in subterms(t))}),)))
        out = []
        seen = set()
        # fewer failed sub-parsers first: that is the order in which they are tried
        ps.sort(key=lambda x: sum(1 for ev in x[0] if ev[0] == 'parse' and not okparse(ev)))
        for evs, r in ps:
            v = r[1]
            if not (v.k == 'A' and v.a[0] == RES):
                raise Unsupported('parser function %s returns %s' % (g.e.rootname, show(v)[:100]))
            if v.a[1] != 0:
                continue
            v = v.a[2]
            rest, val = proj(v, (None, 0)), proj(v, (None, 1))
            good = []
            for ev in evs:
                if ev[0] == 'parse' and okparse(ev) and (ev[1], ev[2]) not in good:
                    good.append((ev[1], ev[2]))
            chain = []
            t = rest
            while t is not data:
                if t.k == 'ap' and t.a[0] == 'rest' and (t.a[1], t.a[2]) in good:
                    chain.append((t.a[1], t.a[2]))
                    t = t.a[2]
                else:
                    raise Unsupported('parser function %s: rest %s' % (g.e.rootname, show(rest)[:160]))
            chain.reverse()
            inner = [x for x in good if x not in chain]
            key = (val, rest, r[3], tuple(inner))
            if key in seen:
                continue
            seen.add(key)
            # choose an alternative per step, in order
            st = [((), {}, frozenset())]
            for P_, d in [x for x in good]:
                nx = []
                for atoms, m, conds in st:
                    Q = subst(P_, m)
                    for c in self.alts(Q):
                        c = fresh(c)
                        m2 = dict(m)
                        m2[ap('out', P_, d)] = c.value
                        if (P_, d) in chain or not c.atoms:
                            nx.append((atoms + c.atoms, m2, conds | c.conds))
                        else:
                            w = subst(d, m)
                            if w.k == 'Y' and w.a[0].startswith('#cap') or any(x.k == 'Y' and x.a[0].startswith('#cap') for x in subterms(w)):
                                nx.append((atoms + (('inner', w, c.atoms),), m2, conds | c.conds))
                            elif any(x is data for x in subterms(w)):
                                nx.append((atoms + (('peek', w, c.atoms),), m2, conds | c.conds))
                            else:
                                raise Unsupported('parser function %s parses %s' % (g.e.rootname, show(w)[:120]))
                st = nx
            for atoms, m, conds in st:
                k = self.addconds(conds, {subst2(t, m): x for t, x in r[3]})
                if k is not None:
                    out.append(Case(atoms, subst2(val, m), k))
        return out


def paths2(g, limit):
    """Entry-to-terminal paths, each loop entered at most twice: [(events, label, facts)]."""
    out = []
    st = [(g.entry, (), frozenset(), {})]
    while st:
        n, evs, fs, vis = st.pop()
        v = vis.get(n.id, 0)
        if v >= 2:
            continue
        vis2 = dict(vis)
        vis2[n.id] = v + 1
        for es, m, lab in n.out:
            f2 = fs
            for c in conditions(g, es, n, m):
                f2 = learn(g, f2, c)
                if f2 is None:
                    break
            if f2 is None:
                continue
            if m is None:
                out.append((evs + es, lab, f2))
                if len(out) > limit:
                    raise Unsupported('too many paths in ' + g.e.rootname)
            else:
                st.append((m, evs + es, f2, vis2))
    return out


def subst2(t, m):
    return subst(t, m)


def okparse(ev):
    d = ev[3]
    return d.k == 'A' and d.a[1] == 0


RUNS = {'digit0': (b'0123456789', 0), 'digit1': (b'0123456789', 1), 'alpha1': (models.BYTECLS['is_ascii_alphabetic'], 1),
        'alphanumeric1': (models.BYTECLS['is_ascii_alphanumeric'], 1), 'space0': (b'\t ', 0), 'space1': (b'\t ', 1)}
NUMS = ('be_u8', 'le_u8', 'u8', 'be_u16', 'le_u16', 'be_u32', 'le_u32')


def ival(t):
    return t.a[0] if t.k == 'I' else None


def lit(t):
    if t.k == 'S':
        return t.a[0]
    if t.k == 'I':
        return bytes([t.a[0]]) if t.a[0] < 128 else None
    if t.k == 'A' and t.a[0] == 'array' and all(x.k == 'I' for x in t.a[2:]):
        return bytes(x.a[0] for x in t.a[2:])
    if t.k == 'arr':
        return bytes(t.a[0])
    return None


def text(atoms):
    ps = []
    for a in atoms:
        if a[0] == 'lit':
            ps.append(S(a[1]))
        elif a[0] in ('run', 'take', 'until'):
            ps.append(a[-1])
        else:
            return None
    return models.cat(*ps)


def caps_of(atoms):
    out = []
    for a in atoms:
        if a[0] in ('run', 'take', 'until', 'num', 'many_till'):
            out.append(a[-1])
        elif a[0] in ('inner', 'peek'):
            out += caps_of(a[2])
    return out


def rename(case, m):
    def ra(a):
        return tuple(subst(x, m) if isinstance(x, Term) else tuple(ra(y) for y in x) if isinstance(x, tuple) and a[0] in ('inner', 'peek') else x for x in a)
    return Case([ra(a) for a in case.atoms], subst(case.value, m), {(subst(t, m), v) for t, v in case.conds})


def fresh(case):
    cs = caps_of(case.atoms)
    if not cs:
        return case
    return rename(case, {c: newcap() for c in cs})


ASCII = set(range(128))


def canon(case, modes=True):
    """Canonical form: captures numbered, adjacent literals merged, decided conditions dropped."""
    cs = caps_of(case.atoms)
    case = rename(case, {c: mk('Y', '#%d' % i) for i, c in enumerate(cs)})
    atoms = []
    for a in case.atoms:
        if a[0] == 'lit' and not modes:
            a = ('lit', a[1], 'c')
        if a[0] == 'run' and not modes:
            a = a[:4] + ('c',) + a[5:]
        if a[0] == 'run' and a[2] == a[3] == 0:
            continue
        if a[0] == 'lit' and atoms and atoms[-1][0] == 'lit' and atoms[-1][2] == a[2]:
            atoms[-1] = ('lit', atoms[-1][1] + a[1], a[2])
        else:
            atoms.append(a)
    ascii_caps = {a[-1] for a in atoms if a[0] == 'run' and set(a[1]) <= ASCII}
    for a in atoms:
        if a[0] == 'inner':
            ascii_caps |= {b[-1] for b in a[2] if b[0] == 'run' and set(b[1]) <= ASCII}
    conds = set()
    for t, v in case.conds:
        if t.k == 'ap' and t.a[0] == 'is_utf8' and t.a[1] in ascii_caps and v == 1:
            continue
        conds.add((t, v))
    return Case(atoms, case.value, conds)


def fixed(case, i):
    """The number of bytes of atom i if it can only be of one length, or None."""
    a = case.atoms[i]
    n = ival(a[1]) if a[0] == 'take' else a[2] if a[0] == 'run' and a[2] == a[3] else None
    if n is None and a[0] == 'run':
        # a run of any length, of which one is asked for: the same if the text cannot go on with more of it
        nx = case.atoms[i + 1] if i + 1 < len(case.atoms) else None
        if nx is not None and (nx[0] == 'end' or nx[0] == 'lit' and nx[1][0] not in a[1]):
            n = next((v for t, v in case.conds if t is length(a[-1]) and not isinstance(v, frozenset)), None)
            n = None if n is None or n < a[2] or a[3] is not None and n > a[3] else n
    return n if n is not None and 0 < n <= (1 if a[0] in ('run', 'take') and 's' in a[1:] else 16) else None


def bytecases(case):
    """A byte that is compared with a few values, as an alternative for each of them."""
    for i, a in enumerate(case.atoms):
        n = fixed(case, i)
        if n is not None:
            c = a[-1]
            if any(x is c for b in case.atoms[:i] + case.atoms[i + 1:] for y in b if isinstance(y, Term) for x in subterms(y)):
                continue
            dom = a[1] if a[0] == 'run' else range(256)
            used, sets = set(), []
            for j in range(n):
                b = mk('sel', c, I(j))
                fs = [(t, v) for t, v in case.conds if evalc(t, {b: 1}) is not None and any(x is b for x in subterms(t))]
                used.update(fs)
                sets.append(list(values(b, fs, dom)))
            size = 1
            for x in sets:
                size *= len(x)
            if size > 64:
                continue
            out = []
            for bs in itertools.product(*sets):
                m = {mk('sel', c, I(j)): I(b) for j, b in enumerate(bs)}
                m[length(c)] = I(n)
                m2 = {c: S(bytes(bs))}
                f = lambda t: subst(subst(t, m), m2)
                conds = [(f(t), v) for t, v in case.conds if (t, v) not in used]
                if any(holds(t, v) is False for t, v in conds):
                    continue
                out.append(Case(case.atoms[:i] + (('lit', bytes(bs), a[-2]),) + case.atoms[i + 1:], f(case.value), [x for x in conds if holds(*x) is None]))
            return [x for o in out for x in bytecases(o)]
        if a[0] != 'num' or a[1] not in ('be_u8', 'le_u8', 'u8'):
            continue
        c = a[-1]
        if any(x is c for b in case.atoms[:i] + case.atoms[i + 1:] for y in b if isinstance(y, Term) for x in subterms(y)):
            continue
        fs = [(t, v) for t, v in case.conds if evalc(t, {c: 1}) is not None]
        vs = list(values(c, fs, range(256)))
        if len(vs) > 16:
            continue
        out = []
        for n in vs:
            m = {c: I(n)}
            out.append(Case(case.atoms[:i] + (('lit', bytes([n]), a[2]),) + case.atoms[i + 1:], subst(case.value, m),
                            {(subst(t, m), v) for t, v in case.conds if (t, v) not in fs}))
        return [x for o in out for x in bytecases(o)]
    return [case]


def same(a, b):
    return a.atoms == b.atoms and a.value is b.value and a.conds == b.conds


# ---- prefix shadowing -----------------------------------------------------------------------------
def nfa(atoms):
    """[(charset or None(any), min, max)] per atom, or None if not a simple pattern."""
    out = []
    for a in atoms:
        if a[0] == 'lit':
            out += [(frozenset([b]), 1, 1) for b in a[1]]
        elif a[0] == 'run':
            out.append((frozenset(a[1]), a[2], a[3]))
        elif a[0] == 'end':
            pass
        elif a[0] == 'take' or a[0] == 'num':
            n = {'be_u8': 1, 'le_u8': 1, 'u8': 1, 'be_u16': 2, 'le_u16': 2, 'be_u32': 4, 'le_u32': 4}.get(a[1]) if a[0] == 'num' else ival(a[1])
            if n is None:
                return None
            out.append((frozenset(range(256)), n, n))
        else:
            return None
    # expand to single-step items
    items = []
    for cs, lo, hi in out:
        for i in range(lo):
            items.append((cs, False))
        if hi is None:
            items.append((cs, 'star'))
        else:
            for i in range(hi - lo):
                items.append((cs, 'opt'))
    return items


def closure(items, st):
    st = set(st)
    w = list(st)
    while w:
        i = w.pop()
        if i < len(items) and items[i][1] and i + 1 not in st:
            st.add(i + 1)
            w.append(i + 1)
    return frozenset(st)


def step_nfa(items, st, b):
    r = set()
    for i in st:
        if i < len(items) and b in items[i][0]:
            r.add(i if items[i][1] == 'star' else i + 1)
    return closure(items, r)


def shadows(a, b):
    """Some string matched by b has a prefix (or itself) matched by a: a, tried first, hides b."""
    x, y = nfa(a), nfa(b)
    if x is None or y is None:
        return None
    alphabet = set()
    reps = {}
    for bb in range(256):
        sig = tuple(bb in cs for cs, k in x) + tuple(bb in cs for cs, k in y)
        reps.setdefault(sig, bb)
    alphabet = list(reps.values())
    s0 = (closure(x, {0}), closure(y, {0}), len(x) in closure(x, {0}))
    seen, work = {s0}, [s0]
    while work:
        p, q, done = work.pop()
        if len(y) in q and done:
            return True
        for b_ in alphabet:
            q2 = step_nfa(y, q, b_)
            if not q2:
                continue
            p2 = step_nfa(x, p, b_)
            n = (p2, q2, done or len(x) in p2)
            if n not in seen:
                seen.add(n)
                work.append(n)
                if len(seen) > 20000:
                    return None
    return False


def shadowed(cases):
    """Pairs (i, j), i<j, where an earlier alternative can pre-empt a later one with a different meaning."""
    out = []
    for j, b in enumerate(cases):
        for i in range(j):
            a = cases[i]
            if same(canon(a), canon(b)):
                continue
            r = shadows(a.atoms, b.atoms)
            if r is not False:
                out.append((a, b, r))
    return out
