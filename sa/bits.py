"""Two abstract domains for byte arithmetic: bits as XORs of input bits, and sums modulo 256."""
from lib import *

W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i32': 32, 'i16': 16, 'i8': 8, 'bool': 1, 'u128': 128}
ONE = ('1',)


def width(t):
    if t.k == 'bin':
        return W.get(t.a[1])
    if t.k == 'ap' and t.a[0] == 'trunc':
        return W.get(t.a[1].a[0] if isinstance(t.a[1], Term) else t.a[1])


def sym(name, n):
    return [frozenset([(name, i)]) for i in range(n)]


def xor(a, b):
    n = max(len(a), len(b))
    a, b = pad(a, n), pad(b, n)
    return [x ^ y for x, y in zip(a, b)]


def pad(a, n):
    return a[:n] + [frozenset()] * (n - len(a))


def const(v, n):
    return [frozenset([ONE]) if v >> i & 1 else frozenset() for i in range(n)]


def linear(t, env):
    """Bits (least significant first) of t as XORs of the bits of env's terms, or None."""
    if t in env:
        return env[t]
    if t.k == 'I':
        return const(t.a[0], 64) if t.a[0] >= 0 else None
    if t.k == 'ap' and t.a[0] == 'trunc':
        a = linear(t.a[2], env)
        w = W.get(t.a[1].a[0] if isinstance(t.a[1], Term) else t.a[1])
        return None if a is None or w is None else pad(a[:w], w)
    if t.k == 'bin':
        op, ty = t.a[0], t.a[1]
        ty = ty.a[0] if isinstance(ty, Term) else ty
        w = W.get(ty)
        if w is None:
            return None
        a = linear(t.a[2], env)
        if a is None:
            return None
        a = pad(a, w)[:w]
        if op in ('Shl', 'Shr'):
            if t.a[3].k != 'I':
                return None
            k = t.a[3].a[0]
            return ([frozenset()] * k + a)[:w] if op == 'Shl' else pad(a[k:], w)
        if op in ('Rem', 'Div', 'Mul') and ty.startswith('u') and t.a[3].k == 'I' and t.a[3].a[0] > 0 and t.a[3].a[0] & (t.a[3].a[0] - 1) == 0:
            k = t.a[3].a[0].bit_length() - 1
            return pad(a[:k], w) if op == 'Rem' else pad(a[k:], w) if op == 'Div' else ([frozenset()] * k + a)[:w]
        b = linear(t.a[3], env)
        if b is None:
            return None
        b = pad(b, w)[:w]
        if op == 'BitXor':
            return xor(a, b)
        if op == 'BitAnd':
            out = []
            for x, y in zip(a, b):
                if not x or not y:
                    out.append(frozenset())
                elif x == {ONE}:
                    out.append(y)
                elif y == {ONE}:
                    out.append(x)
                else:
                    return None
            return out
        if op in ('BitOr', 'Add'):
            return None if any(x and y for x, y in zip(a, b)) else [x ^ y for x, y in zip(a, b)]
        return None
    if t.k == 'sel' and t.a[0].k == 'arr':
        tab = t.a[0].a[0]
        ix = linear(t.a[1], env)
        if ix is None:
            return None
        n = (len(tab) - 1).bit_length()
        if len(tab) != 1 << n or any(ix[n:]) or tab[0] != 0:
            return None
        out = [frozenset()] * 64
        for i in range(n):
            v = tab[1 << i]
            out = [o ^ ix[i] if v >> j & 1 else o for j, o in enumerate(out)]
        for x in range(len(tab)):      # the table must be linear
            v = 0
            for i in range(n):
                if x >> i & 1:
                    v ^= tab[1 << i]
            if v != tab[x]:
                return None
        return out
    return None


class Free(dict):
    """Environment in which every byte read from a symbol has bits of its own."""

    def __contains__(self, t):
        return t.k == 'ap' and t.a[0] == 'trunc' and t.a[2].k == 'Y'

    def __getitem__(self, t):
        return sym(t.id, W[t.a[1]])


FREE = Free()


def constant(t):
    """The value of t if none of its bits depends on the bytes it is made of, else None."""
    b = linear(t, FREE)
    if b is None or any(x and x != {ONE} for x in b):
        return None
    return sum(1 << i for i, x in enumerate(b) if x)


def crc_step(poly, acc, b):
    """One byte of a most-significant-bit-first 16-bit CRC over symbolic bits."""
    st = list(acc)
    for i in range(7, -1, -1):
        top = st[15] ^ b[i]
        st = [frozenset()] + st[:15]
        st = [x ^ top if poly >> j & 1 else x for j, x in enumerate(st)]
    return st


def is_crc(t, acc, elem, poly=0x1021):
    """t(acc, elem) is one step of the CRC."""
    a, e = sym('a', 16), sym('e', 8)
    got = linear(t, {acc: a, elem: e})
    if got is None:
        return False
    return pad(got, 16)[:16] == crc_step(poly, a, e) and not any(got[16:])


def mod256(t, sign=1, out=None):
    """t modulo 256 as {term: coefficient}: bytes are ('byte', x, k), sums over sequences ('sum', seq)."""
    if out is None:
        out = {}
    def add(k, n):
        out[k] = (out.get(k, 0) + n) % 256
        if not out[k]:
            del out[k]
    if t.k == 'I':
        add('1', sign * t.a[0])
    elif t.k == 'ap' and t.a[0] == 'trunc':
        mod256(t.a[2], sign, out)
    elif t.k == 'bin' and t.a[0] in ('Add', 'Sub'):
        mod256(t.a[2], sign, out)
        mod256(t.a[3], sign if t.a[0] == 'Add' else -sign, out)
    elif t.k == 'un' and t.a[0] == 'Neg' or t.k == 'ap' and t.a[0] in ('neg', 'wrapping_neg'):
        mod256(t.a[-1], -sign, out)
    elif t.k == 'un' and t.a[0] == 'Not':
        mod256(t.a[-1], -sign, out)
        add('1', -sign)
    elif t.k == 'bin' and t.a[0] == 'BitAnd' and any(x.k == 'I' and x.a[0] & 255 == 255 for x in (t.a[2], t.a[3])):
        mod256(t.a[3] if t.a[2].k == 'I' else t.a[2], sign, out)
    elif t.k == 'bin' and t.a[0] == 'Shr' and t.a[3].k == 'I' and t.a[3].a[0] % 8 == 0 and not arith(t.a[2]):
        add(('byte', t.a[2], t.a[3].a[0] // 8), sign)
    elif t.k == 'ap' and t.a[0] == 'fold':
        mod256(t.a[1], sign, out)
        b = mod256(t.a[2])
        if b.pop(('byte', ACC, 0), None) == 1 and set(b) == {('byte', ELEM, 0)}:
            n = b[('byte', ELEM, 0)]
            seq = t.a[3]
            if seq.k == 'A' and seq.a[0] == 'array':
                for x in seq.a[2:]:
                    mod256(x, sign * n, out)
            else:
                add(('sum', seq), sign * n)
        else:
            add(('byte', t, 0), sign)
    else:
        add(('byte', t, 0), sign)
    return out


def arith(t):
    return t.k == 'bin' and t.a[0] in ('Add', 'Sub', 'Mul')
