"""Hash-consed value terms (the Herbrand / value-numbering domain of the dataflow analysis)."""

_tab = {}


class Term(object):
    __slots__ = ('k', 'a', 'id', '_cells', '_atoms', '_sites')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.k = k
        t.a = a
        t.id = len(_tab)
        t._cells = t._atoms = t._sites = None
        _tab[key] = t
    return t


def I(n):
    return mk('I', int(n))


def S(b):
    return mk('S', bytes(b))


def A(name, var, *fields):
    return mk('A', name, var, *fields)


def R(cell, path=()):
    return mk('R', cell, path)


def ap(name, *args):
    return mk('ap', name, *args)


TRUE = I(1)
FALSE = I(0)
UNIT = A('tuple', 0)


def taken(t):
    """A message or bytes received: it exists once."""
    return t.k == 'r' and t.a[0].split(':')[-1] in ('msg', 'chunk', 'line') and ':' in t.a[0]


HOLDS = {}


def holds(t, path):
    """What was taken and how often it occurs in a value, outside the coroutine of that path."""
    r = HOLDS.get((t, path))
    if r is None:
        if taken(t):
            r = {t: 1}
        else:
            r = {}
            b = t
            while b.k == 'U':
                b = b.a[0]
            own = b.k == 'A' and b.a[0] == ('cor', path)
            st = [] if own else list(t.a) if t.k in ('A', 'U') or t.k == 'ap' and t.a[0] != 'len' else []
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    st.extend(x)
                elif isinstance(x, Term):
                    for y, n in holds(x, path).items():
                        r[y] = r.get(y, 0) + n
        HOLDS[t, path] = r
    return r


def subterms(t):
    """All sub-terms (each once), pre-order."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(reversed(x.a))
        elif isinstance(x, tuple):
            st.extend(reversed(x))


def _collect(t):
    cells, atoms, sites = set(), set(), set()
    for y in t.a:
        _coll2(y, cells, atoms, sites)
    if t.k == 'R':
        cells.add(t.a[0])
    elif t.k in ('Y', 'P'):
        atoms.add(t)
        if t.k == 'P':
            sites.add(t.a[0])
    elif t.k in ('r', 'el'):
        atoms.add(t)
        sites.add(t.a[-1])
    t._cells = frozenset(cells)
    t._atoms = frozenset(atoms)
    t._sites = frozenset(sites)


def _coll2(y, cells, atoms, sites):
    if isinstance(y, Term):
        if y._cells is None:
            _collect(y)
        cells |= y._cells
        atoms |= y._atoms
        sites |= y._sites
    elif isinstance(y, tuple):
        for z in y:
            _coll2(z, cells, atoms, sites)


def cells_of(t):
    if t._cells is None:
        _collect(t)
    return t._cells


def atoms_of(t):
    if t._atoms is None:
        _collect(t)
    return t._atoms


def sites_of(t):
    if t._sites is None:
        _collect(t)
    return t._sites


def short(p):
    if not isinstance(p, str):
        return str(p)
    return p.replace('plusendi::', '').replace('core::', '').replace('alloc::', '').replace('tokio::', '')


def show(t, d=0):
    if isinstance(t, tuple):
        return '(' + ','.join(show(x, d + 1) for x in t) + ')'
    if not isinstance(t, Term):
        return short(t)
    if d > 12:
        return '…'
    k, a = t.k, t.a
    if k == 'I':
        return str(a[0])
    if k == 'S':
        return repr(a[0])
    if k == 'A' and isinstance(a[0], tuple):
        return '%s{%s}(%s)' % (a[0][0], '::'.join(short(a[0][1]).split('::')[-3:]), ', '.join(show(x, d + 1) for x in a[2:]))
    if k == 'A':
        n = a[0] if isinstance(a[0], str) else str(a[0])
        return '%s#%s(%s)' % (short(n).split('::')[-1] if isinstance(a[0], str) else short(n), a[1], ', '.join(show(x, d + 1) for x in a[2:]))
    if k == 'R':
        c = a[0]
        if c[0] == 'D':
            s = '*' + show(c[1], d + 1)
        else:
            s = 'f%s._%s' % (str(hash(c[0]))[-3:], c[1])
        return '&%s%s' % (s, ''.join('.' + show(x, d + 1) for x in a[1]))
    if k == 'Y':
        return '$' + str(a[0])
    if k == 'F':
        return '%s.%s%s' % (show(a[0], d + 1), ('@%d.' % a[1]) if a[1] is not None else '', a[2])
    if k == 'D':
        return '*' + show(a[0], d + 1)
    if k == 'P':
        return 'φ%s:%s' % (str(hash(a[0]))[-3:], show(a[1], d + 1))
    if k == 'r':
        return '%s⟨%s⟩%s' % (short(a[0]), ', '.join(show(x, d + 1) for x in a[1])[:60], str(hash(a[2]))[-3:])
    if k == 'el':
        return 'el(%s)%s' % (show(a[0], d + 1), str(hash(a[1]))[-3:])
    if k == 'ap':
        return '%s(%s)' % (short(a[0]), ', '.join(show(x, d + 1) for x in a[1:]))
    if k == 'bin':
        return '(%s %s:%s %s)' % (show(a[2], d + 1), a[0], a[1], show(a[3], d + 1))
    if k == 'fn':
        return 'fn ' + short(a[0])
    return '%s(%s)' % (k, ', '.join(show(x, d + 1) for x in a))


# structural views ---------------------------------------------------------------------------

def field(t, var, i):
    """The value of field i (of variant var) of t."""
    if t.k == 'A':
        if 2 + i < len(t.a):
            return t.a[2 + i]
        return mk('F', t, var, i)
    if t.k == 'U':
        for (v, j), val in t.a[1]:
            if j == i and (v == var or v is None or var is None):
                return val
        return field(t.a[0], var, i)
    return mk('F', t, var, i)


def set_field(t, var, i, val, path=()):
    if t.k == 'A' and 2 + i < len(t.a):
        l = list(t.a)
        l[2 + i] = val
        return mk('A', *l)
    base, ups = (t.a[0], dict(t.a[1])) if t.k == 'U' else (t, {})
    ups[(var, i)] = val
    return mk('U', base, tuple(sorted(ups.items(), key=lambda x: (str(x[0])))))


def is_variant(t, name, var):
    return t.k == 'A' and t.a[0] == name and t.a[1] == var


OPT = 'core::option::Option'
RES = 'core::result::Result'
POLL = 'core::task::poll::Poll'
CF = 'core::ops::control_flow::ControlFlow'


def Some(x):
    return A(OPT, 1, x)


NONE = A(OPT, 0)


def Ok(x):
    return A(RES, 0, x)


def Err(x):
    return A(RES, 1, x)


def Ready(x):
    return A(POLL, 0, x)


PENDING = A(POLL, 1)


def tup(*xs):
    return A('tuple', 0, *xs)
