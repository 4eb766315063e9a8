"""Interprocedural, context-sensitive abstract interpretation of MIR in a value-numbering domain.

A node is (call stack, abstract store, branch facts).  Loop heads are widened: every storage leaf
that changes around the loop becomes a phi term whose incoming terms are recorded; the analysis
iterates until the heads are stable.  The result is a finite graph whose edges carry events (calls,
awaits, drops, assertions, branches), on which the per-property rules run."""
import re
import sys
from terms import *
from program import *

sys.setrecursionlimit(20000)
X = mk('X')
AWAIT = '<desugaring of `await` expression>'


class Unsupported(Exception):
    pass


def pointee(ty):
    """The type a reference type points to."""
    ty = ty.lstrip('&')
    if ty.startswith("'"):
        ty = ty.split(' ', 1)[1]
    return ty[4:] if ty.startswith('mut ') else ty


def asdyn(p, ty):
    """Pointer p to a value of type ty as a pointer to a trait object."""
    if p.k == 'R':
        return mk('R', p.a[0], p.a[1], 'dyn:' + ty)
    return mk('R', ('D', p), (), 'dyn:' + ty)


def dyn_of(p):
    """The type behind a pointer to a trait object, if known."""
    return p.a[2][4:] if p.k == 'R' and p.a[2].startswith('dyn:') else None


def ref(cell, path, m):
    if cell[0] == 'D' and not path:
        return cell[1]
    return mk('R', cell, path, m)


def is_cor(t):
    while t.k == 'U':
        t = t.a[0]
    return t.k == 'A' and isinstance(t.a[0], tuple) and t.a[0][0] == 'cor'


_hascor = {}


def has_cor(t):
    """t holds a coroutine."""
    r = _hascor.get(t.id)
    if r is None:
        if t.k == 'U':
            r = is_cor(t) or has_cor(t.a[0]) or any(has_cor(v) for f, v in t.a[1])
        elif t.k == 'A':
            r = is_cor(t) or any(isinstance(x, Term) and has_cor(x) for x in t.a[2:])
        else:
            r = False
        _hascor[t.id] = r
    return r


def is_clo(t):
    while t.k == 'U':
        t = t.a[0]
    return t.k == 'A' and isinstance(t.a[0], tuple) and t.a[0][0] == 'clo'


def proj(t, e):
    k = t.k
    if e[0] == 'sub':
        # part of a table
        return mk('ap', 'slice:range', t, e[1], e[2])
    if k == 'A':
        if e[0] == 'ix':
            if e[1].k == 'I' and t.a[0] == 'array' and 2 + e[1].a[0] < len(t.a):
                return t.a[2 + e[1].a[0]]
            return mk('sel', t, e[1])
        if e[0] == 's':
            return X
        if isinstance(e[0], str):
            return mk('pj', t, e)
        if 2 + e[1] < len(t.a):
            return t.a[2 + e[1]]
        return X
    if k == 'U':
        for (f, v) in t.a[1]:
            if f == e:
                return v
        if e[0] == 'ix':
            if e[1].k == 'I' and all(f[0] != 'ix' or f[1].k == 'I' for f, v in t.a[1]):
                return proj(t.a[0], e)
            return mk('sel', t, e[1])
        return proj(t.a[0], e)
    if k == 'X':
        return X
    if e[0] == 'ix':
        if k == 'ap' and e[1].k == 'I':
            if t.a[0] == 'slice:range' and t.a[2].k == 'I':
                return proj(t.a[1], ('ix', I(t.a[2].a[0] + e[1].a[0])))
            if t.a[0] == 'splice' and t.a[2].k == 'I':
                n = length(t.a[3])
                i = e[1].a[0] - t.a[2].a[0]
                if i < 0:
                    return proj(t.a[1], e)
                if n.k == 'I':
                    return proj(t.a[3], ('ix', I(i))) if i < n.a[0] else proj(t.a[1], e)
        if k == 'S' and e[1].k == 'I' and e[1].a[0] < len(t.a[0]):
            return I(t.a[0][e[1].a[0]])
        if k == 'arr' and e[1].k == 'I' and e[1].a[0] < len(t.a[0]):
            return I(t.a[0][e[1].a[0]])
        if k == 'rep':
            return t.a[0]
        if k == 'upd':
            if t.a[1] is e[1]:
                return t.a[2]
            if t.a[1].k == 'I' and e[1].k == 'I':
                return proj(t.a[0], e)
        return mk('sel', t, e[1])
    if e[0] == 's':
        return X
    if isinstance(e[0], str):
        return mk('pj', t, e)
    return mk('F', t, e[0], e[1])


def ukey(x):
    e = x[0]
    return (str(e[0]), e[1].id if isinstance(e[1], Term) else (e[1] if isinstance(e[1], int) else 0))


def uput(t, e, val):
    base, ups = (t.a[0], dict(t.a[1])) if t.k == 'U' else (t, {})
    if val.k == 'X' and e[0] == 's':
        ups.pop(e, None)
        if not ups:
            return base
    else:
        ups[e] = val
    return mk('U', base, tuple(sorted(ups.items(), key=ukey)))


def put(t, path, val):
    if not path:
        return val
    e = path[0]
    if e[0] == 'sub':
        if len(path) > 1 and path[1][0] == 'ix':
            return put(t, (('ix', binop('Add', 'usize', e[1], path[1][1])),) + path[2:], val)
        if len(path) > 1:
            val = put(proj(t, e), path[1:], val)
        return mk('ap', 'splice', t, e[1], val)
    if len(path) > 1:
        val = put(proj(t, e), path[1:], val)
    if t.k == 'A':
        if e[0] == 'ix':
            if t.a[0] == 'array' and e[1].k == 'I' and 2 + e[1].a[0] < len(t.a):
                l = list(t.a)
                l[2 + e[1].a[0]] = val
                return mk('A', *l)
            return mk('upd', t, e[1], val)
        if not isinstance(e[0], str) and 2 + e[1] < len(t.a):
            l = list(t.a)
            l[2 + e[1]] = val
            return mk('A', *l)
    if e[0] == 'ix':
        if t.k == 'U' or e[1].k == 'I' and t.k not in ('rep', 'upd', 'P'):
            if e[1].k == 'I' and (t.k != 'U' or all(f[1].k == 'I' for f, v in t.a[1] if f[0] == 'ix')):
                return uput(t, e, val)
        return mk('upd', t, e[1], val)
    return uput(t, e, val)


def sel(t, i):
    return proj(t, ('ix', i))


def upd(t, i, v):
    return put(t, (('ix', i),), v)


# ---------------------------------------------------------------------------------------------
W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
     'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128, 'bool': 1, 'char': 32}


def wrap(ty, n):
    w = W.get(ty)
    if w is None:
        return n
    n &= (1 << w) - 1
    if ty[0] == 'i' and n >> (w - 1):
        n -= 1 << w
    return n


def bnot(t):
    if t.k == 'I':
        return I(1 - t.a[0])
    if t.k == 'not':
        return t.a[0]
    return mk('not', t)


COMM = ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq')


def binop(op, ty, a, b):
    """Normalised binary operation at operand type ty (a string)."""
    if op == 'Ne':
        return bnot(binop('Eq', ty, a, b))
    if op == 'Gt':
        return binop('Lt', ty, b, a)
    if op == 'Ge':
        return bnot(binop('Lt', ty, a, b))
    if op == 'Le':
        return bnot(binop('Lt', ty, b, a))
    if a.k == 'I' and b.k == 'I':
        x, y = a.a[0], b.a[0]
        if op == 'Add':
            return I(wrap(ty, x + y))
        if op == 'Sub':
            return I(wrap(ty, x - y))
        if op == 'Mul':
            return I(wrap(ty, x * y))
        if op == 'Div' and y:
            return I(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
        if op == 'Rem' and y:
            return I(abs(x) % abs(y) * (1 if x >= 0 else -1))
        if op == 'BitAnd':
            return I(x & y)
        if op == 'BitOr':
            return I(x | y)
        if op == 'BitXor':
            return I(x ^ y)
        if op == 'Shl':
            return I(wrap(ty, x << y))
        if op == 'Shr':
            return I(x >> y)
        if op == 'Eq':
            return I(x == y)
        if op == 'Lt':
            return I(x < y)
    if op == 'Eq' and a is b:
        return TRUE
    if op == 'Lt' and a is b:
        return FALSE
    z = I(0)
    if op in ('Add', 'BitOr', 'BitXor') and a is z:
        return b
    if op in ('Add', 'Sub', 'BitOr', 'BitXor', 'Shl', 'Shr') and b is z:
        return a
    if op == 'Sub' and a is b or op == 'BitAnd' and (a is z or b is z):
        return z
    if op == 'Mul' and (a is I(1)):
        return b
    if op == 'Mul' and (b is I(1)):
        return a
    if op == 'BitAnd' and ty in W and ty[0] == 'u':
        m = I((1 << W[ty]) - 1)
        if b is m:
            return a
        if a is m:
            return b
    if op == 'Eq' and ty == 'bool':
        if b.k == 'I':
            return a if b.a[0] else bnot(a)
        if a.k == 'I':
            return b if a.a[0] else bnot(b)
    if op == 'BitXor' and ty == 'bool':
        return bnot(binop('Eq', ty, a, b))
    if op == 'BitAnd' and ty == 'bool':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
    if ty and ty[0] == 'u':
        # unsigned comparisons with 0 and 1
        if op == 'Lt' and b is z:
            return FALSE
        if op == 'Lt' and b is I(1):
            return binop('Eq', ty, a, z)
        if op == 'Lt' and a is z:
            return bnot(binop('Eq', ty, b, z))
    if op in COMM:
        if b.k == 'I' or (a.k != 'I' and a.id < b.id):
            pass
        else:
            a, b = b, a
    if op in ('Add', 'Sub') and b.k == 'I' and a.k == 'bin' and a.a[0] in ('Add', 'Sub') and a.a[1] == ty and a.a[3].k == 'I':
        c = (a.a[3].a[0] if a.a[0] == 'Add' else -a.a[3].a[0]) + (b.a[0] if op == 'Add' else -b.a[0])
        return binop('Add', ty, a.a[2], I(c)) if c >= 0 else binop('Sub', ty, a.a[2], I(-c))
    return mk('bin', op, ty, a, b)


def discr_term(world, t):
    u = t
    while u.k == 'U':
        u = u.a[0]
    if u.k == 'A':
        if isinstance(u.a[0], tuple):
            return I(u.a[1])
        return I(world.discr_of(u.a[0], u.a[1]))
    return mk('discr', t)


# ---------------------------------------------------------------------------------------------
class Ctx(object):
    """A mutable abstract state being transformed."""
    __slots__ = ('e', 'stack', 'store', 'facts', 'loops', 'events')

    def __init__(self, e, stack, store, facts, loops, events=None):
        self.e = e
        self.stack = stack
        self.store = store
        self.facts = facts
        self.loops = loops
        self.events = events if events is not None else []

    def fork(self):
        return Ctx(self.e, [list(f) for f in self.stack], dict(self.store), dict(self.facts), dict(self.loops), list(self.events))

    # ---- store
    def base(self, cell):
        t = self.store.get(cell)
        if t is None:
            return cell[1] if cell[0] == 'D' else X
        return t

    def load(self, cell, path=()):
        t = self.base(cell)
        for e in path:
            t = proj(t, e)
        return t

    def write(self, cell, path, val):
        if cell[0] == 'D' and cell[1].k == 'R':
            raise Unsupported('deref cell of a reference')
        if not path:
            self.store[cell] = val
        else:
            self.store[cell] = put(self.base(cell), path, val)

    def deref(self, t):
        """The value a pointer term points to."""
        if t.k == 'R':
            return self.load(t.a[0], t.a[1])
        d = self.store.get(('D', t))
        return d if d is not None else t

    def setref(self, p, val):
        if p.k == 'R':
            self.write(p.a[0], p.a[1], val)
        else:
            self.store[('D', p)] = val

    def sub(self, p, e):
        """Pointer to a component of *p."""
        if p.k == 'R':
            return mk('R', p.a[0], p.a[1] + (e,), p.a[2])
        return mk('R', ('D', p), (e,), 'm')

    def deep(self, t, d=0):
        """The value of t with references replaced by the values they point to."""
        if d > 40:
            return t
        k = t.k
        if k == 'R':
            return self.deep(self.load(t.a[0], t.a[1]), d + 1)
        if k == 'A':
            if len(t.a) == 2:
                return t
            return mk('A', t.a[0], t.a[1], *[self.deep(x, d + 1) for x in t.a[2:]])
        if k == 'U':
            return mk('U', self.deep(t.a[0], d + 1), tuple((f, self.deep(v, d + 1)) for f, v in t.a[1]))
        if k in ('I', 'S', 'fn', 'arr', 'X'):
            return t
        if ('D', t) in self.store:
            v = self.store[('D', t)]
            return v if v is t else self.deep(v, d + 1)
        if k == 'ap' and cells_of(t):
            return mk('ap', t.a[0], *[self.deep(x, d + 1) if isinstance(x, Term) else x for x in t.a[1:]])
        return t

    # ---- facts
    def known(self, t):
        """Constant value of an integer/boolean term under the facts, or None."""
        if t.k == 'I':
            return t.a[0]
        if t.k == 'not':
            v = self.known(t.a[0])
            return None if v is None else 1 - v
        f = self.facts.get(t)
        if isinstance(f, int):
            return f
        if t.k == 'ap' and t.a[0] == 'ovf' and t.a[2][0] == 'u' and t.a[1] in ('Add', 'Sub'):
            lo, hi = self.bounds(t.a[3])
            lo2, hi2 = self.bounds(t.a[4])
            if t.a[1] == 'Add' and hi is not None and hi2 is not None and hi + hi2 < 1 << W.get(t.a[2], 64):
                return 0
            if t.a[1] == 'Sub' and hi2 is not None and lo >= hi2:
                return 0
        if t.k == 'bin' and t.a[0] == 'Eq':
            a, b = t.a[2], t.a[3]
            if b.k == 'I':
                f = self.facts.get(a)
                if isinstance(f, int):
                    return int(f == b.a[0])
                if f is not None and b.a[0] in f:
                    return 0
        if t.k == 'bin' and t.a[0] == 'Lt' and t.a[1] and t.a[1][0] == 'i' and t.a[3].k == 'I' and t.a[3].a[0] <= 0:
            a = t.a[2]
            if a.k == 'ap' and a.a[0] == 'trunc' and a.a[1][0] == 'u' and W.get(a.a[1], 128) < W.get(t.a[1], 0):
                return 0             # a widened unsigned number
        if t.k == 'bin' and t.a[0] == 'Lt' and t.a[1] and t.a[1][0] == 'u':
            a, b = t.a[2], t.a[3]
            fa, fb = self.known(a), self.known(b)
            if fa is not None and fb is not None:
                return int(fa < fb)
            if fb == 0:
                return 0
            lo, hi = self.bounds(a)
            lo2, hi2 = self.bounds(b)
            if hi is not None and lo2 is not None and hi < lo2:
                return 1
            if lo is not None and hi2 is not None and lo >= hi2:
                return 0
        return None

    def bounds(self, t, d=0):
        """Simple syntactic bounds of an unsigned term."""
        if t.k == 'I':
            return t.a[0], t.a[0]
        v = self.facts.get(t)
        if isinstance(v, int):
            return v, v
        if d < 12:
            if t.k == 'bin' and t.a[0] == 'BitAnd':
                h = [self.bounds(x, d + 1)[1] for x in t.a[2:]]
                h = [x for x in h if x is not None]
                if h:
                    return 0, min(h)
            if t.k == 'bin' and t.a[0] == 'Rem' and t.a[3].k == 'I':
                return 0, t.a[3].a[0] - 1
            if t.k == 'ap' and t.a[0] == 'trunc':
                w = W.get(t.a[1], 64)
                h = self.bounds(t.a[2], d + 1)[1]
                return 0, (1 << w) - 1 if h is None or h >> w else h
            if t.k == 'bin' and t.a[0] in ('Add', 'Shl') and t.a[1] and t.a[1][0] == 'u':
                h = [self.bounds(x, d + 1)[1] for x in t.a[2:]]
                if None not in h and (h[1] < 128 or t.a[0] == 'Add'):
                    h = h[0] + h[1] if t.a[0] == 'Add' else h[0] << h[1]
                    if h >> W.get(t.a[1], 64) == 0:
                        return 0, h
            if t.k == 'bin' and t.a[0] in ('BitXor', 'BitOr') and t.a[1] and t.a[1][0] == 'u':
                h = [self.bounds(x, d + 1)[1] for x in t.a[2:]]
                if None not in h:
                    return 0, (1 << max(x.bit_length() for x in h)) - 1
                return 0, (1 << W.get(t.a[1], 64)) - 1
            if t.k == 'bin' and t.a[0] == 'Shr' and t.a[3].k == 'I':
                h = self.bounds(t.a[2], d + 1)[1]
                if h is None:
                    h = (1 << W.get(t.a[1], 64)) - 1
                return 0, h >> t.a[3].a[0]
        return 0, None

    def assume(self, t, v):
        """Add the fact t == v; False if it contradicts what is known."""
        v = int(v)
        k = self.known(t)
        if k is not None:
            return k == v
        if t.k == 'not':
            return self.assume(t.a[0], 1 - v)
        if t.k == 'bin' and t.a[0] == 'Eq' and t.a[3].k == 'I':
            if v:
                return self.assume(t.a[2], t.a[3].a[0])
            return self.assume_ne(t.a[2], [t.a[3].a[0]])
        if t.k == 'bin' and t.a[0] == 'BitAnd' and t.a[1] == 'bool' and v == 1:
            return self.assume(t.a[2], 1) and self.assume(t.a[3], 1)
        if t.k == 'bin' and t.a[0] == 'BitOr' and t.a[1] == 'bool' and v == 0:
            return self.assume(t.a[2], 0) and self.assume(t.a[3], 0)
        f = self.facts.get(t)
        if f is not None and v in f:
            return False
        self.facts[t] = v
        return True

    def assume_ne(self, t, vs):
        k = self.known(t)
        if k is not None:
            return k not in vs
        if t.k == 'bin' and t.a[1] and (t.a[0] in ('Lt', 'Eq') or t.a[1] == 'bool') or t.k == 'not':
            for v in vs:
                if v in (0, 1):
                    return self.assume(t, 1 - v)
        f = self.facts.get(t) or frozenset()
        f = frozenset(f) | frozenset(vs)
        lo, hi = self.bounds(t)
        if hi is not None and hi - lo < 16 and t.k != 'not':
            rest = [x for x in range(lo, hi + 1) if x not in f]
            if not rest:
                return False
            if len(rest) == 1:
                self.facts[t] = rest[0]
                return True
        self.facts[t] = f
        return True

    def ev(self, kind, *a):
        self.events.append((kind,) + a)

    @property
    def fid(self):
        return self.stack[-1][0]


class Node(object):
    __slots__ = ('id', 'key', 'ctx', 'out', 'kind', 'head', 'known', 'lands', 'lands_in')

    def __init__(self, i, key, ctx):
        self.id = i
        self.key = key
        self.ctx = ctx      # frozen state
        self.out = []       # (events, Node or None, label)
        self.kind = None    # terminal label: ret / panic / ...
        self.head = None
        self.lands, self.lands_in = {}, None


# library functions that panic on some arguments
PANICKY = re.compile(r'::(copy_from_slice|clone_from_slice|swap_remove|remove|insert|drain|swap|split_at|split_at_mut|split_off|chunks|chunks_exact|rchunks|windows|step_by|'
                     r'rotate_left|rotate_right|select_nth_unstable|borrow_mut|from_digit|copy_to_slice|copy_to_bytes|get_u8|get_i8|get_u16|get_u16_le|get_u32|get_u32_le|get_u64|'
                     r'put_bytes|splice|extract_if|swap_with_slice|div_euclid|rem_euclid|pow|isqrt|ilog2|ilog10|abs|next_power_of_two|block_on)$')
NOT_PANICKY = re.compile(r'(HashSet|HashMap|BTreeMap|BTreeSet|Option|option::|mem::|collections::(hash|btree)|sync::|task::|runtime)')


class Call(object):
    __slots__ = ('info', 'path', 'p', 'sp', 'block', 'fid', 'body', 'dty', 'site', 'aty', 'prog', 'dest')

    def ga(self, resolved=False):
        """Generic argument types (dicts) of the callee."""
        a = self.info.get('ra' if resolved and 'ra' in self.info else 'a', []) if self.info else []
        return [self.prog.types[x] if isinstance(x, int) else x for x in a]


class Engine(object):
    def __init__(self, world, models, opts=None):
        self.w = world
        self.models = models
        self.frames = []          # fid -> (parent, body, block, manual)
        self.fidx = {}
        self.opts = opts or {}
        self.maxnodes = self.opts.get('maxnodes', 60000)
        self.fninfo = {}
        self.spawned = {}
        self.unmodelled = {}
        self.inlined = set()
        self.promo = {}

    # ---- frames
    def frame(self, parent, body, block, manual):
        key = (parent, body.path, block, manual)
        f = self.fidx.get(key)
        if f is None:
            f = len(self.frames)
            self.fidx[key] = f
            self.frames.append((parent, body, block, manual))
        return f

    def body_of(self, fid):
        return self.frames[fid][1]

    def onstack(self, fid, path):
        n = 0
        while fid is not None:
            if self.frames[fid][1].path == path:
                n += 1
            fid = self.frames[fid][0]
        return n

    def fnchain(self, fid):
        r = []
        while fid is not None:
            r.append(self.frames[fid][1].path)
            fid = self.frames[fid][0]
        return r

    # ---- constants and operands
    def const(self, k, prog, body=None):
        kk = k['k']
        if kk == 'int':
            return I(int(k['v']))
        if kk in ('str', 'bytes'):
            return S(bytes(k['v']))
        if kk == 'intarr':
            t = prog.types[k['t']]
            et = prog.types[t['t']]['s'] if t['k'] == 'array' else 'u8'
            if et == 'u8':
                return S(bytes(k['v']))
            return mk('arr', tuple(k['v']), et)
        if kk == 'refto':
            return self.const(k['v'], prog, body)
        if kk == 'fn':
            return self.fnterm(k, prog)
        if kk == 'agg':
            t = prog.types[k['t']]
            fs = [self.const(x, prog, body) for x in k['f']]
            if t['k'] == 'adt':
                return A(t['p'], k['var'] or 0, *fs)
            if t['k'] == 'array':
                return mkarray(fs)
            return A('tuple', 0, *fs)
        if kk == 'zst':
            t = prog.types[k['t']]
            if t['k'] == 'adt':
                return A(t['p'], 0)
            if t['k'] == 'closure':
                return A(('clo', t['p']), 0)
            if t['k'] == 'coroutine':
                return A(('cor', t['p']), 0)
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'array':
                return A('array', 0)
            return mk('zst', t['s'])
        if kk == 'static':
            return mk('static', k['p'])
        if kk == 'promoted':
            return self.promoted(k['b'], k['i'])
        return mk('const', k.get('name') or k.get('s') or '?', prog.types[k['t']]['s'] if 't' in k else '')

    def fnterm(self, k, prog):
        p = k.get('r') or k['p']
        ga = tuple(prog.types[x]['s'] if isinstance(x, int) else str(x) for x in k.get('a', []))
        t = mk('fn', p, ga, k['p'])
        self.fninfo[t] = (k, prog)
        return t

    def promoted(self, b, i):
        key = (b, i)
        if key not in self.promo:
            body = self.w.bodies.get(b)
            if body is None or i >= len(body.promoted):
                raise Unsupported('promoted %s %d' % (b, i))
            pj = dict(body.promoted[i])
            pb = Body('%s#promoted%d' % (b, i), pj, body.prog)
            fid = self.frame(None, pb, 0, False)
            c = Ctx(self, [[fid, 0, None]], {}, {}, {})
            bb = pb.blocks[0]
            while True:
                for s in bb['s']:
                    self.stmt(c, pb, s)
                k = bb['t']
                if k['k'] == 'call' and k.get('t') is not None and len(k['a']) == 2 and k['f'].get('k', {}).get('p') == 'core::ops::range::RangeInclusive::<Idx>::new':
                    c.write((fid, k['d'][0]), (), mk('A', 'core::ops::range::RangeInclusive', 0, *([self.operand(c, pb, x) for x in k['a']] + [FALSE])))
                    bb = pb.blocks[k['t']]
                    continue
                break
            self.promo[key] = c.deep(c.load((fid, 0)))
        return self.promo[key]

    def opty(self, body, o):
        """Type dict of an operand."""
        T = body.prog.types
        if 'k' in o:
            return T[o['k']['t']] if 't' in o['k'] else {'k': '?', 's': '?'}
        p = o.get('c') or o.get('m')
        if p is None:
            return {'k': '?', 's': '?'}
        return self.placety(body, p)

    def placety(self, body, p):
        T = body.prog.types
        t = T[body.locals[p[0]][0]]
        for e in p[1]:
            if e[0] == '*':
                t = T[t['t']] if 't' in t else (T[t['a'][0]] if t.get('a') else {'k': '?', 's': '?'})
            elif e[0] == 'f':
                t = T[e[2]]
            elif e[0] in ('i', 'ci'):
                t = T[t['t']] if 't' in t else {'k': '?', 's': '?'}
        return t

    def resolve(self, c, body, p):
        cell, path = (c.stack[-1][0], p[0]), ()
        var = None
        for e in p[1]:
            k = e[0]
            if k == '*':
                t = c.load(cell, path)
                if t.k == 'R':
                    cell, path = t.a[0], t.a[1]
                else:
                    cell, path = ('D', t), ()
            elif k == 'v':
                var = e[1]
            elif k == 'f':
                if var is None and e[1] == 0 and (path == () and self.ispin(body, p[0]) and not any(x[0] == '*' for x in p[1][:1]) or c.load(cell, path).k == 'R'):
                    continue      # Pin and other pointer newtypes are the pointer
                if var is not None:
                    t = c.load(cell, path)
                    if is_cor(t):
                        b = t
                        while b.k == 'U':
                            b = b.a[0]
                        cb = self.w.bodies[b.a[0][1]]
                        path = path + (('s', cb.vf[var][e[1]]),)
                    else:
                        path = path + ((var, e[1]),)
                    var = None
                else:
                    path = path + ((None, e[1]),)
            elif k == 'i':
                path = path + (('ix', c.load((c.stack[-1][0], e[1]))),)
            elif k == 'ci':
                if len(e) > 3 and e[3]:
                    path = path + (('ixend', e[1]),)
                else:
                    path = path + (('ix', I(e[1])),)
            elif k == 'ss':
                path = path + (('ss', tuple(e[1:])),)
            else:
                pass
        return cell, path

    def ispin(self, body, l):
        t = body.prog.types[body.locals[l][0]]
        return t['k'] == 'adt' and t['p'] in ('core::pin::Pin', 'core::ptr::non_null::NonNull', 'alloc::boxed::Box', 'core::ptr::unique::Unique')

    def read(self, c, body, p, move=False):
        cell, path = self.resolve(c, body, p)
        t = c.load(cell, path)
        if move and cell[0] != 'D':
            if path and path[-1][0] == 's' or not path:
                c.write(cell, path, X)
        return t

    def operand(self, c, body, o):
        if 'c' in o:
            return self.read(c, body, o['c'])
        if 'm' in o:
            return self.read(c, body, o['m'], True)
        if 'k' in o:
            return self.const(o['k'], body.prog, body)
        return mk('rt', str(sorted(o.items())))

    # ---- statements
    def stmt(self, c, body, s):
        k = s[0]
        if k == '=':
            v = self.rvalue(c, body, s[2], s[1], s[3])
            cell, path = self.resolve(c, body, s[1])
            c.write(cell, path, v)
        elif k == 'sd':
            cell, path = self.resolve(c, body, s[1])
            c.write(cell, path, self.setdiscr(c, body, s, c.load(cell, path)))
        elif k == 'dead':
            c.store.pop((c.stack[-1][0], s[1]), None)
        elif k == 'live':
            c.store.pop((c.stack[-1][0], s[1]), None)

    def setdiscr(self, c, body, s, t):
        v = s[2]
        if t.k == 'A':
            return mk('A', t.a[0], v, *t.a[2:])
        if is_cor(t):
            return mk('U', mk('A', t.a[0].a[0], v, *t.a[0].a[2:]), t.a[1])
        ty = self.placety(body, s[1])
        if ty['k'] == 'adt' and self.w.adts.get(ty['p']):
            n = len(self.w.adts[ty['p']]['v'][v]['f'])
            return A(ty['p'], v, *[proj(t, (v, i)) for i in range(n)])
        return mk('setdiscr', t, v)

    def rvalue(self, c, body, r, dest, sp):
        k = r[0]
        if k == 'use':
            return self.operand(c, body, r[1])
        if k in ('ref', 'raw'):
            cell, path = self.resolve(c, body, r[2])
            if r[2][1] and r[2][1][-1][0] == '*' and 'dyn ' in self.placety(body, r[2])['s']:
                q = self.operand(c, body, {'c': [r[2][0], r[2][1][:-1]]})
                if dyn_of(q):
                    return q
            return ref(cell, path, 's' if r[1] in ('shared', 'const', 'fake') else 'm')
        if k == 'cast':
            return self.cast(c, body, r)
        if k == 'bin':
            a = self.operand(c, body, r[2])
            b = self.operand(c, body, r[3])
            ty = self.opty(body, r[2])['s']
            a, b = self.fold(c, a), self.fold(c, b)
            return self.bin(c, r[1], ty, a, b)
        if k == 'un':
            a = self.operand(c, body, r[2])
            if r[1] == 'Not':
                ty = self.opty(body, r[2])['s']
                if ty == 'bool':
                    return bnot(a)
                if a.k == 'I':
                    return I(wrap(ty, ~a.a[0]))
                return binop('BitXor', ty, a, I(wrap(ty, -1)))
            if r[1] == 'Neg':
                ty = self.opty(body, r[2])['s']
                return I(wrap(ty, -a.a[0])) if a.k == 'I' else binop('Sub', ty, I(0), a)
            if r[1] == 'PtrMetadata':
                return self.length(c, a)
            return ap('un:' + r[1], c.deep(a))
        if k == 'discr':
            cell, path = self.resolve(c, body, r[1])
            t = c.load(cell, path)
            if t.k == 'R':
                t = c.deep(t)
            return discr_term(self.w, t)
        if k == 'agg':
            ops = [self.operand(c, body, o) for o in r[2]]
            h = r[1]
            if h[0] == 'adt':
                if len(h) > 4 and h[4] is not None:
                    return mk('U', X, (((None, h[4]), ops[0]),))
                return A(h[1], h[2], *ops)
            if h[0] == 'tuple':
                return A('tuple', 0, *ops)
            if h[0] == 'array':
                return mkarray(ops)
            if h[0] == 'closure':
                return A(('clo', h[1]), 0, *ops)
            if h[0] == 'coroutine':
                return A(('cor', h[1]), 0, *ops)
            return A(str(h[0]), 0, *ops)
        if k == 'repeat':
            x = self.operand(c, body, r[1])
            n = r[2]
            if isinstance(n, int) and n <= 16:
                return mkarray([x] * n)
            return mk('rep', x, n)
        if k == 'len':
            cell, path = self.resolve(c, body, r[1])
            return self.length(c, c.load(cell, path))
        return ap('rv:' + k, *[mk('txt', str(x)) for x in r[1:]])

    def fold(self, c, t):
        """A compound term whose value is known from the branches taken is that constant."""
        if t.k == 'bin' or t.k == 'ap' and t.a[0] == 'ovf':
            v = c.known(t)
            if v is not None:
                return I(v)
        return t

    def length(self, c, t):
        t = c.deep(t)
        return length(t)

    def cast(self, c, body, r):
        a = self.operand(c, body, r[2])
        ck = r[1]
        to = body.prog.types[r[3]]
        if ck.startswith('IntToInt'):
            fr = self.opty(body, r[2])['s']
            return self.asbits(castint(fr, to['s'], a))
        if ck.startswith('Transmute') or ck.startswith('Ptr') or ck.startswith('BoxDeref') or ck.startswith('PointerCoercion'):
            if a.k == 'A' and a.a[0] == 'core::ptr::non_null::NonNull':
                return a.a[2]
            if 'Unsize' in ck and to['s'].startswith('&') and 'dyn ' in to['s']:
                fr = self.opty(body, r[2])['s']
                if fr.startswith('&') and 'dyn ' not in fr:
                    return asdyn(a, pointee(fr))
            return a
        return ap('cast:' + ck, mk('ty', to['s']), a)

    def bin(self, c, op, ty, a, b):
        if op.endswith('WithOverflow'):
            o = op[:-12]
            v = binop(o, ty, a, b)
            if a.k == 'I' and b.k == 'I':
                x, y = a.a[0], b.a[0]
                n = x + y if o == 'Add' else x - y if o == 'Sub' else x * y
                return tup(v, I(wrap(ty, n) != n))
            return tup(self.asbits(v), self.fold(c, ap('ovf', o, ty, a, b)))
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'):
            op = op[:-9]
        if op == 'Eq' or op == 'Ne':
            if a.k == 'A' or b.k == 'A' or a.k == 'R' or b.k == 'R':
                a, b = c.deep(a), c.deep(b)
        return self.asbits(binop(op, ty, a, b))

    def asbits(self, t):
        """Option 'bits': a term whose every bit is known is that constant."""
        if t.k in ('bin', 'ap') and self.opts.get('bits'):
            import bits
            v = bits.constant(t)
            if v is not None:
                return I(v)
        return t

    # ---- one block
    def exec_block(self, c):
        """Execute the block at the top of c's stack.  Yields (ctx, pred_fid, pred_block, label)."""
        fid, bi, dest = c.stack[-1]
        body = self.frames[fid][1]
        bb = body.blocks[bi]
        for s in bb['s']:
            self.stmt(c, body, s)
        t = bb['t']
        k = t['k']
        if k == 'goto' or k in ('false_edge', 'false_unwind'):
            c.stack[-1][1] = t['t']
            return [(c, fid, bi, None)]
        if k == 'switch':
            d = self.operand(c, body, t['d'])
            v = c.known(d)
            vs = [(int(x[0]), x[1]) for x in t['vs']]
            if v is not None:
                for x, b in vs:
                    if same_int(x, v):
                        c.stack[-1][1] = b
                        return [(c, fid, bi, None)]
                if t.get('o') is None:
                    return []
                c.stack[-1][1] = t['o']
                return [(c, fid, bi, None)]
            out = []
            isb = body.prog.types[t['dt']]['k'] == 'bool' if t.get('dt') is not None else False
            for x, b in vs:
                c2 = c.fork()
                if c2.assume(d, x):
                    c2.ev('branch', d, x)
                    c2.stack[-1][1] = b
                    out.append((c2, fid, bi, None))
            if t.get('o') is not None and not self.unreachable(body, t['o']):
                c2 = c.fork()
                if isb:
                    ok = c2.assume(d, 1)
                    c2.ev('branch', d, 1)
                else:
                    ok = c2.assume_ne(d, [x for x, b in vs])
                    c2.ev('branchne', d, tuple(x for x, b in vs))
                if ok:
                    c2.stack[-1][1] = t['o']
                    out.append((c2, fid, bi, None))
            return out
        if k == 'return':
            v = c.load((fid, 0))
            if len(c.stack) == 1:
                c.ev('ret', c.deep(v), tuple(sorted(((cell[1], c.deep(t)) for cell, t in c.store.items() if cell[0] == 'D' and cell[1].k == 'Y'), key=lambda x: x[0].id))
                     + tuple((mk('Y', cell[1]), c.deep(t)) for cell, t in c.store.items() if cell[0] == 'G' and cell[1][:1] == '#'), frozenset(c.facts.items()))
                if body.kind == 'coroutine' and v.k == 'A' and v.a[0] == POLL and v.a[1] == 1 and not self.frames[fid][3]:
                    return []
                return [(c, fid, bi, 'ret')]
            if body.kind == 'coroutine' and self.frames[fid][3] and v.k == 'A' and v.a[0] == POLL and v.a[1] == 0 and self.byhand(fid) == fid:
                c.ev('done', fid)
            c.stack.pop()
            for key in [x for x in c.loops if x[0] == fid]:
                del c.loops[key]
            pb = self.frames[fid][2]
            while isinstance(pb, tuple):
                pb = pb[1]
            if dest is not None:
                if v.k == 'R' and v.a[0][0] == fid and False:
                    pass
                c.write(dest[0], dest[1], v)
            if c.stack[-1][1] is None:
                return [(c, fid, bi, 'diverge')]
            return [(c, c.stack[-1][0], pb, None)]
        if k in ('unreachable', 'resume', 'terminate'):
            return []
        if k == 'drop':
            return self.drop(c, body, t, fid, bi)
        if k == 'assert':
            cond = self.operand(c, body, t['c'])
            v = c.known(cond)
            exp = 1 if t['e'] else 0
            if v is None or v != exp:
                ops = [self.operand(c, body, o) for o in t.get('ops') or [] if isinstance(o, dict)]
                c.ev('assert', t['msg'], bnot(cond) if not exp else cond, tuple(c.deep(o) for o in ops), self.where(fid, bi), v == 1 - exp)
            if v is not None and v != exp:
                return [(c, fid, bi, 'panic')]
            c.stack[-1][1] = t['t']
            if v is None and t['msg'] == 'bounds':
                if not c.assume(cond, exp):
                    return []
            return [(c, fid, bi, None)]
        if k == 'call':
            return self.call(c, body, t, fid, bi)
        if k == 'cdrop':
            c.stack[-1][1] = t['t']
            return [(c, fid, bi, None)]
        raise Unsupported('terminator %s in %s' % (k, body.path))

    def unreachable(self, body, b):
        bb = body.blocks[b]
        return bb['t']['k'] == 'unreachable'

    def where(self, fid, bi):
        b = self.frames[fid][1]
        sp = b.blocks[bi]['t'].get('sp')
        return (b.path, sp[0] if sp else '?', sp[1] if sp else 0, tuple(sp[2]) if sp else (), fid, bi)

    # ---- drop
    def drop(self, c, body, t, fid, bi):
        cell, path = self.resolve(c, body, t['p'])
        v = c.load(cell, path)
        ty = body.prog.types[t['ty']] if t.get('ty') is not None else self.placety(body, t['p'])
        c.stack[-1][1] = t['t']
        if v.k == 'X':
            return [(c, fid, bi, None)]
        glue = []
        self.glue(body.prog, ty, v, ref(cell, path, 'm'), c, glue, 0)
        c.ev('drop', c.deep(v) if not is_cor(v) else v, ty['s'], ref(cell, path, 'm'), self.where(fid, bi))
        if not glue:
            if cell[0] != 'D' and (not path or path[-1][0] == 's'):
                c.write(cell, path, X)
            return [(c, fid, bi, None)]
        # run the local Drop impls, outermost first
        par = fid
        for ptr, b in reversed(glue):
            nf = self.frame(par, b, ('drop', bi, len(glue)), True)
            if self.onstack(par, b.path):
                continue
            c.stack.append([nf, 0, None])
            c.store[(nf, 1)] = ptr
            self.inlined.add(b.path)
            par = nf
        return [(c, c.stack[-1][0], bi, None)]

    def glue(self, prog, ty, v, ptr, c, out, d):
        if d > 6:
            return
        k = ty['k']
        if k == 'adt':
            p = ty['p']
            b = self.drop_impl(p)
            if b is not None:
                out.append((ptr, b))
            fs = ty.get('f') or []
            a = self.w.adts.get(p)
            if a and a.get('local') and len(fs) == 1:
                for i, ft in enumerate(fs[0]):
                    self.glue(prog, prog.types[ft], proj(v, (None, i)), c.sub(ptr, (None, i)), c, out, d + 1)
            elif a and len(fs) > 1 and v.k == 'A' and v.a[0] == p and v.a[1] < len(fs):
                for i, ft in enumerate(fs[v.a[1]]):
                    self.glue(prog, prog.types[ft], proj(v, (v.a[1], i)), c.sub(ptr, (v.a[1], i)), c, out, d + 1)
        elif k == 'tuple':
            for i, ft in enumerate(ty['a']):
                self.glue(prog, prog.types[ft], proj(v, (None, i)), c.sub(ptr, (None, i)), c, out, d + 1)
        elif k in ('closure', 'coroutine'):
            if k == 'coroutine' and discr_term(self.w, v) is not I(0):
                return
            for i, ft in enumerate(ty['a']):
                self.glue(prog, prog.types[ft], proj(v, (None, i)), c.sub(ptr, (None, i)), c, out, d + 1)

    def drop_impl(self, adt):
        if not hasattr(self, '_drops'):
            self._drops = {}
            for pr in self.w.progs:
                for im in pr.impls:
                    if im['tr'] == 'core::ops::drop::Drop':
                        n = im['self'].split('<')[0]
                        for it in im['items']:
                            if it in self.w.bodies:
                                self._drops[n] = self.w.bodies[it]
        return self._drops.get(adt)

    # ---- calls
    def call(self, c, body, t, fid, bi):
        fo = t['f']
        ca = Call()
        ca.sp = t['sp']
        ca.block = bi
        ca.fid = fid
        ca.body = body
        ca.prog = body.prog
        ca.dty = body.prog.types[t['dt']] if t.get('dt') is not None else self.placety(body, t['d'])
        ca.aty = [body.prog.types[x] for x in t.get('at') or []]
        ca.site = (fid, bi)
        args = [self.operand(c, body, a) for a in t['a']]
        c.stack[-1][1] = t.get('t')
        dcell, dpath = self.resolve(c, body, t['d'])
        ca.dest = (dcell, dpath)
        if 'k' in fo and fo['k']['k'] == 'fn':
            ca.info = fo['k']
            ca.p = ca.info['p']
            ca.path = ca.info.get('r') or ca.p
            outs = self.invoke(c, ca, args)
        else:
            f = self.operand(c, body, fo)
            ca.info = None
            ca.p = ca.path = '?'
            outs = self.apply(c, ca, f, args)
        res = []
        for o in outs:
            kind, c2 = o[0], o[1]
            if kind == 'ret':
                if t.get('t') is None:
                    res.append((c2, fid, bi, 'diverge'))
                    continue
                if o[2] is not None:
                    c2.write(dcell, dpath, o[2])
                res.append((c2, fid, bi, None))
            elif kind == 'push':
                b, av, manual = o[2], o[3], o[4]
                nf = self.frame(fid, b, bi, self.frames[fid][3] or manual)
                c2.stack.append([nf, 0, (dcell, dpath)])
                for i, a in enumerate(av):
                    c2.store[(nf, i + 1)] = a
                self.inlined.add(b.path)
                res.append((c2, nf, None, None))
            elif kind == 'frames':
                # several bodies run one after the other, results ignored; the call's value is o[2]
                c2.write(dcell, dpath, o[2])
                par = fid
                for n, (b, av) in enumerate(reversed(o[3])):
                    nf = self.frame(par, b, ('seq', bi, n), self.frames[fid][3])
                    c2.stack.append([nf, 0, None])
                    for i, a in enumerate(av):
                        c2.store[(nf, i + 1)] = a
                    self.inlined.add(b.path)
                    par = nf
                res.append((c2, par, None, None))
            elif kind == 'term':
                res.append((c2, fid, bi, o[2]))
        return res

    def is_manual(self, ca):
        return self.frames[ca.fid][3] or AWAIT not in ca.sp[2]

    def push(self, c, ca, body, args, manual=False):
        """Outcome: inline a local body."""
        if body.path in self.opts.get('opaque', ()):
            return self.opaque(c, ca, body.path, args, False)
        if self.onstack(ca.fid, body.path):
            return self.opaque(c, ca, body.path, args)
        args = list(args)
        if body.kind == 'closure':
            env, rest = args[0], args[1:]
            rest = self.untuple(c, body, rest)
            t1 = body.prog.types[body.locals[1][0]]
            if t1['k'] == 'ref':
                if env.k != 'R':
                    if is_clo(env) or env.k in ('A', 'U'):
                        nf = self.frame(ca.fid, body, ca.block, self.frames[ca.fid][3] or manual)
                        cell = ('T', nf)
                        c.store[cell] = env
                        env = mk('R', cell, (), 'm')
            else:
                if env.k == 'R':
                    env = c.deref(env)
            args = [env] + rest
        return [('push', c, body, args, manual)]

    def untuple(self, c, body, rest):
        n = body.argc - 1
        if len(rest) == n:
            t = body.prog.types[body.locals[2][0]] if n else None
            if not (n == 1 and rest[0].k == 'A' and rest[0].a[0] == 'tuple' and (t['k'] != 'tuple' or len(t['a']) != len(rest[0].a) - 2)):
                return rest
        if len(rest) == 1:
            t = rest[0]
            return [proj(t, (None, i)) for i in range(n)]
        return rest

    def invoke(self, c, ca, args):
        w = self.w
        path, p = ca.path, ca.p
        m = self.models.get(path)
        if m is None and (path not in w.bodies or p in FORCED):
            m = self.models.get(p)
        if m is not None:
            r = m(self, c, ca, args)
            if r is not NotImplemented:
                return r
        if p in ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call',
                 'core::ops::async_function::AsyncFn::async_call'):
            return self.apply(c, ca, args[0], None, args[1])
        if path in w.bodies:
            b = w.bodies[path]
            if b.kind in ('fn', 'method', 'closure'):
                return self.push(c, ca, b, args)
            if b.kind == 'coroutine':
                return self.push(c, ca, b, args, AWAIT not in ca.sp[2])
        ct = w.ctors.get(path)
        if ct is not None and len(args) == ct[2]:
            return [('ret', c, A(ct[0], ct[1], *args))]
        # dynamic dispatch of unresolved trait methods on the receiver's value
        if ca.info is not None and ca.info.get('tr') and args:
            b = self.dispatch(c, ca, args)
            if b is not None:
                return self.push(c, ca, b, args)
        for pre, m in self.models.get('*', ()):
            if path.startswith(pre) or p.startswith(pre):
                r = m(self, c, ca, args)
                if r is not NotImplemented:
                    return r
        return self.opaque(c, ca, path, args)

    def dispatch(self, c, ca, args):
        v = args[0]
        ty = dyn_of(v)
        if ty is not None:
            for q in ('<%s as %s>::%s' % (ty, ca.info['tr'], ca.p.split('::')[-1]),):
                if q in self.w.bodies:
                    return self.w.bodies[q]
        if v.k == 'R':
            v = c.deref(v)
        while v.k == 'U':
            v = v.a[0]
        if v.k == 'A' and isinstance(v.a[0], str):
            m = ca.p.split('::')[-1]
            pre = '<' + v.a[0]
            if not hasattr(self, '_tri'):
                self._tri = {}
                for pr in self.w.progs:
                    for im in pr.impls:
                        for it in im['items']:
                            self._tri.setdefault((im['self'].split('<')[0], im['tr'], it.split('::')[-1]), it)
            it = self._tri.get((v.a[0], ca.info['tr'], m))
            if it in self.w.bodies:
                return self.w.bodies[it]
        return None

    def apply(self, c, ca, f, args, tupled=None, manual=False):
        """Call a callable value."""
        fv = f
        if fv.k == 'R':
            fv = c.deref(fv)
            if fv.k == 'R':
                return self.apply(c, ca, fv, args, tupled, manual)
        if is_clo(fv):
            b = fv
            while b.k == 'U':
                b = b.a[0]
            body = self.w.bodies.get(b.a[0][1])
            if body is None:
                return self.opaque(c, ca, b.a[0][1], [f] + (args or [tupled]))
            if args is None:
                args = [tupled]
                return self.push(c, ca, body, [f] + args, manual)
            return self.push(c, ca, body, [f, A('tuple', 0, *args)], manual)
        if args is None:
            if tupled.k == 'A' and tupled.a[0] == 'tuple':
                args = list(tupled.a[2:])
            else:
                n = self.arity(fv)
                args = [proj(tupled, (None, i)) for i in range(n)]
        if fv.k == 'fn' and fv not in self.fninfo and fv.a[0] in self.w.bodies:
            return self.push(c, ca, self.w.bodies[fv.a[0]], args)
        if fv.k == 'fn':
            info, prog = self.fninfo[fv]
            c2 = Call()
            c2.info, c2.prog = info, prog
            c2.p = info['p']
            c2.path = info.get('r') or c2.p
            c2.sp, c2.block, c2.fid, c2.body, c2.dty, c2.site, c2.aty = ca.sp, ca.block, ca.fid, ca.body, ca.dty, ca.site, []
            return self.invoke(c, c2, args)
        m = self.models.get('apply')
        if m:
            r = m(self, c, ca, fv, args)
            if r is not NotImplemented:
                return r
        return self.opaque(c, ca, 'apply', [f] + args)

    def arity(self, f):
        if f.k == 'fn' and f.a[0] in self.w.bodies:
            return self.w.bodies[f.a[0]].argc
        return 1

    PURE = ('core::', 'alloc::', 'nom::', 'bytes::', 'regex::', '<core::', '<alloc::', 'models::', 'std::collections::', '<std::collections::',
            '<[', '<str ', '<u', '<i', '<T as', '<F as', '<I as', '<&', '<nom', '<bytes', '<()')

    def is_pure(self, path):
        return path.startswith(self.PURE) and 'core::sync::atomic' not in path

    def opaque(self, c, ca, path, args, pure=None):
        """A call whose body is not analysed: deterministic functions of the (deep) argument values
        for core/alloc/nom/bytes, otherwise an event with a fresh result; arguments reachable by
        mutable reference are overwritten."""
        if pure is None:
            pure = self.is_pure(path)
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        dargs = tuple(c.deep(a) for a in args)
        res = ap(path, *dargs) if pure else mk('r', path, dargs, ca.site)
        if not pure:
            c.ev('call', path, tuple(args), dargs, res, self.where(ca.fid, ca.block))
        if PANICKY.search(path) and not NOT_PANICKY.search(path):
            c.ev('panics', path, dargs, self.where(ca.fid, ca.block))
        self.havoc(c, path, args, dargs, ca.site, pure)
        if ca.dty['k'] == 'never':
            c.ev('panic', path, dargs, self.where(ca.fid, ca.block))
            return [('term', c, 'panic')]
        return [('ret', c, res)]

    def havoc(self, c, path, args, dargs, site, pure):
        seen = set()

        def hv(t, tag):
            if t.k == 'R':
                if t.a[2] == 'm' and (t.a[0], t.a[1]) not in seen:
                    seen.add((t.a[0], t.a[1]))
                    v = c.load(t.a[0], t.a[1])
                    if v.k in ('A', 'U', 'R'):
                        for x in ([v] if v.k == 'R' else [y for y in subs(v)]):
                            hv(x, tag)
                    if v.k != 'R':
                        c.write(t.a[0], t.a[1], ap(path + '!' + str(tag), *dargs) if pure else mk('r', path + '!' + str(tag), dargs, site))
            elif t.k in ('A', 'U'):
                for x in subs(t):
                    hv(x, tag)
            elif t.k == 'Y' and str(t.a[0]).startswith('&mut'):
                c.store[('D', t)] = ap(path + '!' + str(tag), *dargs) if pure else mk('r', path + '!' + str(tag), dargs, site)

        for i, a in enumerate(args):
            hv(a, i)

    # ---- state normalisation
    def canon(self, c):
        """Garbage-collect c and return its canonical key."""
        w = self.w
        roots = {}
        store = c.store
        keep = {}
        n = len(c.stack)
        byf = {}
        for cell in store:
            byf.setdefault(cell[0], []).append(cell)
        for i, fr in enumerate(c.stack):
            fid, blk, dest = fr
            body = self.frames[fid][1]
            live, addr = body.live()
            lv = live[blk] if blk is not None else frozenset()
            for cell in byf.get(fid, ()):
                if cell[1] in lv or cell[1] in addr:
                    keep[cell] = store[cell]
            if dest is not None and dest[1] and dest[0] in store:
                keep[dest[0]] = store[dest[0]]
        for cell in byf.get('G', ()):
            keep[cell] = store[cell]
        dcells = byf.get('D', ())
        work = list(keep.values())
        atoms = set()
        done = set()
        pend = list(dcells)
        while True:
            while work:
                t = work.pop()
                if t.id in done:
                    continue
                done.add(t.id)
                atoms |= atoms_of(t)
                for cell in cells_of(t):
                    if cell in store and cell not in keep:
                        keep[cell] = store[cell]
                        work.append(store[cell])
            nxt = []
            for cell in pend:
                if cell in keep:
                    continue
                p = cell[1]
                pa = atoms_of(p)
                if p.k == 'Y' or all(a.k == 'Y' or a in atoms for a in pa):
                    keep[cell] = store[cell]
                    work.append(store[cell])
                else:
                    nxt.append(cell)
            pend = nxt
            if not work:
                break
        c.store = keep
        facts = {}
        for t, v in c.facts.items():
            if all(a.k == 'Y' or a in atoms for a in atoms_of(t)):
                facts[t] = v
        c.facts = facts
        stack = tuple((f[0], f[1], f[2]) for f in c.stack)
        return (stack, frozenset(keep.items()), frozenset(facts.items()), tuple(sorted(c.loops.items())))

    # ---- loops
    def in_loop(self, site, fid, blocks):
        f, b = site[0], site[1]
        if f == 'ext':
            return False
        while f is not None:
            if f == fid:
                if isinstance(b, tuple):
                    b = b[1]
                return b in blocks
            par, body, blk, m = self.frames[f]
            f, b = par, blk
        return False

    def suspended(self, c):
        """The coroutines that were polled and are not done, with their states."""
        out = []

        def go(cell, t, path, d):
            if is_cor(t):
                b = t
                while b.k == 'U':
                    b = b.a[0]
                if path and b.a[1] > 2:
                    out.append((cell, path, b.a[1]))
            if d > 8:
                return
            if t.k == 'U':
                for f, v in t.a[1]:
                    go(cell, v, path + (f,), d + 1)
                go(cell, t.a[0], path, d + 1) if t.a[0].k == 'U' else None
            elif t.k == 'A' and any(has_cor(x) for x in t.a[2:]):
                for i, x in enumerate(t.a[2:]):
                    go(cell, x, path + ((t.a[1], i),), d + 1)
        for cell, t in c.store.items():
            if has_cor(t):
                go(cell, t, (), 0)
        return out

    def byhand(self, fid):
        """The outermost coroutine around frame fid that is polled by hand, and so may be given up."""
        k = None
        while fid is not None:
            par, body, blk, manual = self.frames[fid]
            if manual and body.kind == 'coroutine':
                k = fid
            fid = par
        return k

    def kept(self, c, fid):
        """Where what was taken from a stream or queue is held outside the coroutine around frame fid that may
        be given up: (the coroutine's frame, {(what, in how many places)})."""
        k = self.byhand(fid)
        if k is None:
            return None
        path = self.frames[k][1].path
        out = {}
        for cell, t in c.store.items():
            if isinstance(cell[0], int) and self.byhand(cell[0]) == k:
                continue
            for x, n in holds(t, path).items():
                out[x] = out.get(x, 0) + n
        return k, frozenset(out.items())

    def partition(self, c, fid):
        body = self.frames[fid][1]
        r = []
        for l in body.bool_locals:
            t = c.store.get((fid, l))
            if t is not None and t.k == 'I':
                r.append((l, t.a[0]))
        once = []
        if body.vf is not None:
            p = c.store.get((fid, 1))
            # the coroutine's own storage
            q = self.cor_storage(c, fid)
            if q is not None and q.k == 'U':
                for (f, v) in q.a[1]:
                    if f[0] == 's' and f[1] in body.bool_saved and v.k == 'I':
                        r.append((f, v.a[0]))
                once = [(f, v) for f, v in q.a[1]]
        r += self.suspended(c)
        # a loop over a few constants (the branches of a select) is unrolled
        own = [(x[1], t) for x, t in c.store.items() if x[0] == fid and len(x) == 2]
        # so is a loop over an option: it runs at most once
        for l, t in own + once:
            if t.k == 'A' and t.a[0] == 'models::OnceIt' and t.a[2].k == 'A':
                r.append((l, 'once', t.a[2].a[1]))
            # and one over a few given tuples
            if t.k == 'A' and t.a[0] == 'it' and t.a[1] == 0 and t.a[3].k == 'I' and t.a[2].k == 'A' and t.a[2].a[0] == 'array' and len(t.a[2].a) <= 6 \
                    and all(x.k == 'A' and x.a[0] == 'tuple' for x in t.a[2].a[2:]):
                r.append((l, 'it', t.a[3].a[0]))
        small = lambda t: t.k == 'I' and isinstance(t.a[0], int) and 0 <= t.a[0] <= 4
        few = [(l, t.a[2].a[0], t.a[3].a[0]) for l, t in own if t.k == 'A' and str(t.a[0]).endswith('ops::range::Range') and all(map(small, t.a[2:4]))]
        if few:
            r += few + [(l, t.a[0]) for l, t in own if small(t)]
        return tuple(sorted(r, key=str))

    def cor_storage(self, c, fid):
        for t in c.store.values():
            if t.k == 'R' and t.a[0] in c.store:
                q = c.load(t.a[0], t.a[1])
                if is_cor(q):
                    b = q
                    while b.k == 'U':
                        b = b.a[0]
                    if b.a[0][1] == self.frames[fid][1].path:
                        return q
        return None

    def subst_loop(self, t, own, hk, cell, path, fid, blocks):
        """Replace leaves of t that depend on this loop's symbols by the head's phi."""
        phi = mk('P', hk, (cell, path))
        if t is phi:
            return t
        st = sites_of(t)
        if not any(self.in_loop(s, fid, blocks) for s in st):
            return t
        if t.k == 'A':
            return mk('A', t.a[0], t.a[1], *[self.subst_loop(x, own, hk, cell, path + ((t.a[1], i),), fid, blocks) for i, x in enumerate(t.a[2:])])
        if t.k == 'U' and (is_cor(t) or t.a[0].k in ('A', 'Y', 'F', 'X')):
            return mk('U', self.subst_loop(t.a[0], own, hk, cell, path + ('b',), fid, blocks),
                      tuple((f, self.subst_loop(v, own, hk, cell, path + (f,), fid, blocks)) for f, v in t.a[1]))
        if t.k == 'R':
            if not any(self.in_loop(s, fid, blocks) for s in sites_of(t)):
                return t
        return phi

    def join(self, a, b, hk, cell, path):
        if a is b:
            return a
        if a.k == 'X' or b.k == 'X':
            return X
        if a.k == 'A' and b.k == 'A' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            return mk('A', a.a[0], a.a[1], *[self.join(x, y, hk, cell, path + ((a.a[1], i),)) for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:]))])
        if is_cor(a) and is_cor(b) or a.k == 'U' and b.k == 'U':
            ab, au = (a.a[0], dict(a.a[1])) if a.k == 'U' else (a, {})
            bb, bu = (b.a[0], dict(b.a[1])) if b.k == 'U' else (b, {})
            if is_cor(a) or set(au) == set(bu):
                base = self.join(ab, bb, hk, cell, path + ('b',))
                ups = {}
                for f in sorted(set(au) | set(bu), key=lambda f: ukey((f, None))):
                    if f in au and f in bu or f[0] != 's':
                        v = self.join(au[f] if f in au else proj(ab, f), bu[f] if f in bu else proj(bb, f), hk, cell, path + (f,))
                        if v.k != 'X' or f[0] != 's':
                            ups[f] = v
                if not ups:
                    return base
                return mk('U', base, tuple(sorted(ups.items(), key=ukey)))
        return mk('P', hk, (cell, path))

    def record(self, j, s, hk, cell, path, kind):
        """Record the incoming term s at every phi of this head in j."""
        if j.k == 'P' and j.a[0] == hk and j.a[1] == (cell, path):
            self.phi.setdefault(j, set()).add((kind, s))
            self.cur[j] = s
            self.phifacts.setdefault((j, s), set()).add(self.landfacts)
            if s.k == 'R':
                v = self.landctx.deref(s)
                if v is not s and v.k != 'X':
                    self.phideref.setdefault((j, s), set()).add(v)
            return
        if j.k == 'A' and s.k == 'A' and len(j.a) == len(s.a):
            for i, (x, y) in enumerate(zip(j.a[2:], s.a[2:])):
                self.record(x, y, hk, cell, path + ((j.a[1], i),), kind)
        elif j.k == 'U':
            sb, su = (s.a[0], dict(s.a[1])) if s.k == 'U' else (s, {})
            self.record(j.a[0], sb, hk, cell, path + ('b',), kind)
            for f, v in j.a[1]:
                if f in su:
                    self.record(v, su[f], hk, cell, path + (f,), kind)
                elif f[0] != 's':
                    self.record(v, proj(sb, f), hk, cell, path + (f,), kind)

    def land(self, c, pred_fid, pred_blk):
        """Normalise a successor state; returns its node (creating or widening as needed)."""
        fid, blk, dest = c.stack[-1]
        body = self.frames[fid][1]
        loops = body.loops()
        # leave loops of this frame that do not contain blk
        for key in list(c.loops):
            if key[0] == fid and blk not in loops[key[1]]:
                del c.loops[key]
        if blk not in loops:
            key = self.canon(c)
            return self.node(key, c)
        blocks = loops[blk]
        back = pred_fid == fid and pred_blk in blocks and (fid, blk) in c.loops
        lim = self.opts.get('unroll')
        if lim:
            # loops decided by constants: no join, one node per iteration
            n = c.loops[(fid, blk)] + 1 if back else 0
            self.canon(c)
            if n >= lim or any(self.in_loop(s, fid, blocks) for t in list(c.store.values()) + list(c.facts) for s in sites_of(t)):
                raise Unsupported('the loop in %s is not decided by constants' % body.path)
            c.loops[(fid, blk)] = n
            return self.node(self.canon(c), c)
        if not back:
            c.loops.pop((fid, blk), None)
            key = self.canon(c)
            key = (tuple((f[0], f[1], f[2] and f[2][0]) for f in c.stack), key[3],
                   frozenset((cell, shape(t)) for cell, t in c.store.items()), self.partition(c, fid))
            inst = self.insts.get(key)
            if inst is None:
                inst = len(self.insts)
                self.insts[key] = inst
            c.loops[(fid, blk)] = inst
            kind = 'entry'
        else:
            inst = c.loops[(fid, blk)]
            self.canon(c)
            kind = 'back'
        part = self.partition(c, fid)
        hk = (fid, blk, inst, part)
        orig = None
        self.landfacts = frozenset(c.facts.items())
        self.landctx = Ctx(self, [], dict(c.store), {}, {})
        if back:
            orig = dict(c.store)
            ns = {}
            own = set()
            for cell, t in c.store.items():
                ns[cell] = self.subst_loop(t, own, hk, cell, (), fid, blocks)
            c.store = ns
            c.facts = {t: v for t, v in c.facts.items() if not any(self.in_loop(s, fid, blocks) for s in sites_of(t))}
        stackkey = tuple((f[0], f[1], f[2]) for f in c.stack)
        jk = (hk, stackkey)
        J = self.heads.get(jk)
        if J is None:
            J = (dict(c.store), dict(c.facts))
            self.heads[jk] = J
            changed = True
            self.changed = True
        else:
            js, jf = J
            if jf is None:
                # second phase: conditions are collected afresh for the stable loop variables
                jf = dict(c.facts)
                self.changed = True
            changed = False
            ns = {}
            for cell in js:
                # an absent pointee has the value it came with
                t = c.store.get(cell) or (cell[1] if cell[0] == 'D' else None)
                if t is not None:
                    n = self.join(js[cell], t, hk, cell, ())
                    ns[cell] = n
                    if n is not js[cell]:
                        changed = True
                else:
                    changed = True
            for cell, t in c.store.items():
                if cell[0] == 'D' and cell not in js and not any(self.in_loop(s, fid, blocks) for s in sites_of(cell[1])):
                    n = self.join(cell[1], t, hk, cell, ())
                    if n is not cell[1]:
                        ns[cell] = n
                        changed = True
            nf = {}
            for t, v in jf.items():
                u = c.facts.get(t)
                if u == v:
                    nf[t] = v
                else:
                    m = None
                    if u is not None:
                        if isinstance(v, frozenset) and isinstance(u, frozenset):
                            m = v & u
                        elif isinstance(v, frozenset) and u not in v:
                            m = v
                        elif isinstance(u, frozenset) and v not in u:
                            m = u
                    if m:
                        nf[t] = m
                    changed = changed or (m != v)
            if changed:
                self.changed = True
            J = (ns, nf)
            self.heads[jk] = J
        src = orig if orig is not None else c.store
        for cell, j in J[0].items():
            if cell in src:
                self.record(j, src[cell], hk, cell, (), kind)
            elif cell[0] == 'D':
                self.record(j, cell[1], hk, cell, (), kind)
        key = ('H', jk)
        n = self.nodes.get(key)
        c2 = Ctx(self, [list(f) for f in c.stack], dict(J[0]), dict(J[1]), dict(c.loops))
        if n is None:
            n = self.node(key, c2)
            n.head = hk
        elif changed:
            n.ctx = c2
            if n.id not in self.queued:
                self.queued.add(n.id)
                self.work.append(n)
        return n

    def node(self, key, c):
        n = self.nodes.get(key)
        if n is None:
            n = Node(len(self.nodes), key, Ctx(self, [list(f) for f in c.stack], c.store, c.facts, c.loops))
            self.nodes[key] = n
            self.queued.add(n.id)
            self.work.append(n)
            if len(self.nodes) > self.maxnodes:
                if self.opts.get('dump'):
                    from collections import Counter
                    h = Counter((self.frames[x.ctx.stack[-1][0]][1].path[-60:], x.ctx.stack[-1][1]) for x in self.nodes.values())
                    for x, y in h.most_common(25):
                        print(y, x)
                    self.dumpn = self.nodes
                raise Unsupported('state graph of %s exceeds %d nodes' % (self.rootname, self.maxnodes))
        return n

    def explore(self, root):
        """root: Ctx.  Returns the entry node of the stable graph."""
        self.insts = {}
        self.heads = {}
        self.rootname = self.frames[root.stack[0][0]][1].path
        phase = 0
        for rnd in range(20):
            self.nodes = {}
            self.work = []
            self.queued = set()
            self.phi = {}
            self.phifacts = {}
            self.phideref = {}
            self.changed = False
            self.cur = {}
            r = root.fork()
            entry = self.land(r, None, None)
            entry.lands_in = dict(self.cur) or None
            while self.work:
                n = self.work.pop()
                self.queued.discard(n.id)
                n.out = []
                n.lands = {}
                c = n.ctx.fork()
                c.events = []
                outs = self.exec_block(c)
                hops = 0
                while len(outs) == 1 and outs[0][3] is None and hops < 400:
                    # straight-line code: no node in between
                    c2, pf, pb, label = outs[0]
                    fid, blk, dest = c2.stack[-1]
                    loops = self.frames[fid][1].loops()
                    if blk is None or blk in loops:
                        break
                    for key in list(c2.loops):
                        if key[0] == fid and blk not in loops[key[1]]:
                            del c2.loops[key]
                    outs = self.exec_block(c2)
                    hops += 1
                for (c2, pf, pb, label) in outs:
                    evs = tuple(c2.events)
                    if label is not None:
                        n.out.append((evs, None, label))
                        continue
                    c2.events = []
                    self.cur = {}
                    m = self.land(c2, pf, pb)
                    n.lands[len(n.out)] = self.cur
                    n.out.append((evs, m, None))
            if not self.changed:
                if not self.heads or phase:
                    break
                phase = 1
                # second phase: without the loop variables that turned out to have one value
                g = Graph(self, entry, self.phi)
                self.heads = {k: ({('D', g.norm(c[1])) if c[0] == 'D' else c: g.norm(v) for c, v in st.items()}, None) for k, (st, fs) in self.heads.items()}
        else:
            raise Unsupported('no fixpoint for ' + self.rootname)
        g = Graph(self, entry, self.phi)
        return g


class Graph(object):
    def __init__(self, e, entry, phi):
        self.e = e
        self.entry = entry
        self.phi = phi
        seen, order = {entry.id}, [entry]
        for n in order:
            for evs, m, lab in n.out:
                if m is not None and m.id not in seen:
                    seen.add(m.id)
                    order.append(m)
        self.nodes = order
        self._norm()

    def _norm(self):
        """Replace phis that can only have one value by that value, in all events."""
        sub = {}
        while True:
            memo = {}
            ch = False
            for p, inc in self.phi.items():
                if p in sub:
                    continue
                vs = {rewrite(s, sub, memo) for k, s in inc}
                vs.discard(p)
                if len(vs) == 1:
                    v = vs.pop()
                    if p in subterms(v):
                        continue
                    sub[p] = v
                    ch = True
                    break
            if not ch:
                break
        # equal phis of one frame: same incoming set up to themselves
        self.sub = sub
        self.memo = {}
        self._pf = None
        if sub:
            for n in self.nodes:
                n.out = [(tuple(self.norm(ev) for ev in evs), m, lab) for evs, m, lab in n.out]
            self.phi = {p: {(k, self.norm(s)) for k, s in inc} for p, inc in self.phi.items() if p not in sub}

    def norm(self, t):
        return rewrite(t, self.sub, self.memo)

    def incoming(self, p):
        """[(incoming value, facts dict)] of a phi."""
        if self._pf is None:
            self._pf = {}
            for (j, s), fss in self.e.phifacts.items():
                if j in self.sub:
                    continue
                vals = self.e.phideref.get((j, s)) or (s,)
                for s2, fs in [(self.norm(v), fs) for v in vals for fs in fss]:
                    self._pf.setdefault(j, set()).add((s2, frozenset((self.norm(t), v) for t, v in fs)))
        return [(s, dict(fs)) for s, fs in self._pf.get(p, ())]

    def sources(self, t):
        """The values a term can have, phis replaced by what flows into them: [(value, facts or None)]."""
        out, seen, st = [], set(), [(t, None)]
        while st:
            x, fs = st.pop()
            if x.k == 'P':
                if x not in seen:
                    seen.add(x)
                    st += self.incoming(x)
            else:
                out.append((x, fs))
        return out

    def edges(self):
        for n in self.nodes:
            for evs, m, lab in n.out:
                yield n, evs, m, lab

    def transitions(self, limit=5000):
        """The graph as a transition system over its loop heads: [(head or entry, events, head or None, label,
        {phi of the target: its new value})] of every path that passes no other head."""
        out = []
        if self.entry.lands_in is not None:
            out.append((None, (), self.entry, None, {self.norm(p): self.norm(v) for p, v in self.entry.lands_in.items() if p not in self.sub}))
        for src in self.nodes:
            if src is not self.entry and not getattr(src, 'head', None):
                continue
            st = [(src, (), frozenset([src.id]))]
            while st:
                n, evs, seen = st.pop()
                for i, (es, m, lab) in enumerate(n.out):
                    if m is not None and not getattr(m, 'head', None):
                        if m.id in seen:
                            raise Unsupported('a loop without a head')
                        st.append((m, evs + es, seen | {m.id}))
                        continue
                    out.append((src, evs + es, m, lab, {p: self.norm(v) for p, v in n.lands.get(i, {}).items() if p not in self.sub}))
                    if len(out) > limit:
                        raise Unsupported('too many paths in ' + self.e.rootname)
        # the rounds of a loop that is unrolled are no loops
        for h in self.nodes:
            hk = getattr(h, 'head', None)
            if not hk or not any(len(x) == 3 and x[1] == 'it' for x in hk[3]) or any(x[0] is h and x[2] is h for x in out):
                continue
            ins = [x for x in out if x[2] is h]
            outs = [x for x in out if x[0] is h]
            out = [x for x in out if x[0] is not h and x[2] is not h]
            for a in ins:
                for b in outs:
                    f = lambda t: rewrite(t, a[4], {})
                    out.append((a[0], a[1] + f(b[1]), b[2], b[3], {p: f(v) for p, v in b[4].items()}))
            if len(out) > limit:
                raise Unsupported('too many paths in ' + self.e.rootname)
        return out


# trait methods whose model applies even when the method resolves to a local body
FORCED = {'core::future::future::Future::poll'}


def subs(v):
    if v.k == 'A':
        return [x for x in v.a[2:] if isinstance(x, Term)]
    if v.k == 'U':
        return subs(v.a[0]) + [x for f, x in v.a[1]]
    return []


def rewrite(t, sub, memo):
    """t (a term or a tuple of terms) with the phis in sub replaced."""
    if isinstance(t, Term):
        if not sub:
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.k == 'P':
            r = sub.get(t)
            r = t if r is None else rewrite(r, sub, memo)
        elif t.k in ('I', 'S', 'Y', 'fn', 'arr', 'X', 'txt', 'ty'):
            r = t
        elif not any(a.k == 'P' for a in atoms_all(t)):
            r = t
        else:
            a = tuple(rewrite(x, sub, memo) if isinstance(x, (Term, tuple)) else x for x in t.a)
            r = rebuild(t.k, a)
        memo[t.id] = r
        return r
    if isinstance(t, tuple):
        return tuple(rewrite(x, sub, memo) if isinstance(x, (Term, tuple)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(rewrite(x, sub, memo) for x in t)
    return t


def rebuild(k, a):
    if k == 'bin':
        return binop(*a)
    if k == 'F':
        return proj(a[0], (a[1], a[2]))
    if k == 'not':
        return bnot(a[0])
    if k == 'ap' and a[0] == 'len' and len(a) == 2:
        return length(a[1])
    if k == 'ap' and a[0] == 'inset' and a[2].k == 'I':
        return I(a[2].a[0] in a[1].a[0])
    if k == 'discr' and THEWORLD:
        return discr_term(THEWORLD[-1], a[0])
    return mk(k, *a)


THEWORLD = []


_aall = {}


def atoms_all(t):
    """phis anywhere in t, including inside results of calls and references."""
    r = _aall.get(t.id)
    if r is None:
        r = set()
        st = list(t.a)
        if t.k == 'P':
            r.add(t)
        while st:
            x = st.pop()
            if isinstance(x, Term):
                r |= atoms_all(x)
            elif isinstance(x, tuple):
                st.extend(x)
        r = _aall[t.id] = frozenset(r)
    return r


_shapes = {}


def shape(t, d=0):
    """The constructors of a value: loop entries of the same shape are joined."""
    if t.k == 'U':
        u = t
        while u.k == 'U':
            u = u.a[0]
        if not is_cor(u):
            return shape(u, d)
        return ('U', shape(t.a[0], d), tuple((f, shape(v, d + 1)) for f, v in t.a[1]))
    if t.k == 'A' and t.a[0] == 'it' and t.a[2].k == 'A' and t.a[2].a[0] == 'array' and len(t.a[2].a) <= 6:
        return ('it', len(t.a[2].a))     # over a few given values
    if t.k == 'A' and t.a[0] not in ('array', 'it') and d < 6:
        r = _shapes.get((t.id, d))
        if r is None:
            r = _shapes[(t.id, d)] = (t.a[0], t.a[1]) + tuple(shape(x, d + 1) for x in t.a[2:] if isinstance(x, Term))
        return r
    return '*' if t.k != 'X' else 'X'


def mkarray(ops):
    if ops and all(o.k == 'I' and 0 <= o.a[0] < 256 for o in ops):
        pass
    return A('array', 0, *ops)


def length(t):
    if t.k == 'S':
        return I(len(t.a[0]))
    if t.k == 'arr':
        return I(len(t.a[0]))
    if t.k == 'A' and t.a[0] == 'array':
        return I(len(t.a) - 2)
    if t.k == 'rep':
        return I(t.a[1]) if isinstance(t.a[1], int) else mk('const', t.a[1], 'usize') if t.a[1] else ap('len', t)
    if t.k in ('upd',):
        return length(t.a[0])
    if t.k == 'U':
        return length(t.a[0])
    if t.k == 'ap' and t.a[0] in ('overlay', 'splice', 'copy_within'):
        return length(t.a[1])
    if t.k == 'ap' and t.a[0] == 'slice:range':
        return binop('Sub', 'usize', t.a[3], t.a[2])
    if t.k == 'ap' and t.a[0] == 'seqcat':
        return binop('Add', 'usize', length(t.a[1]), length(t.a[2]))
    return ap('len', t)


def castint(fr, to, a):
    if fr == 'bool' or fr == to:
        return a
    if a.k == 'I':
        return I(wrap(to, a.a[0]))
    wf, wt = W.get(fr), W.get(to)
    if wf is None or wt is None:
        return ap('trunc', to, a) if wt else a
    if fr[0] == 'u' or fr == 'char':
        if wt > wf or (wt == wf and to[0] == 'u'):
            return a
        if to[0] == 'i' and wt >= wf:
            return ap('trunc', to, a)
    else:
        if to[0] == 'i' and wt >= wf:
            return a
        if wt > wf:
            if a.k == 'ap' and a.a[0] == 'trunc' and a.a[1][0] == 'u' and W.get(a.a[1], 128) < wf:
                return a             # not negative
            return ap('sext', to, fr, a)
    # narrowing: drop inner casts that keep at least as many bits
    while a.k == 'ap' and a.a[0] in ('trunc', 'sext') and W.get(a.a[1], 0) >= wt:
        a = a.a[2] if a.a[0] == 'trunc' else a.a[3]
    return ap('trunc', to, a)


def same_int(x, v):
    if x == v:
        return True
    if v < 0:
        for w in (8, 16, 32, 64, 128):
            if x == v + (1 << w):
                return True
    return False
