"""Reference semantics of library functions for the abstract interpretation.

Small total functions are modelled in Rust (/verif/models/lib.rs, lowered to MIR and inlined);
the rest here.  A model returns a list of outcomes; see Engine.call."""
import re
from engine import *

MODELS = {}
FUT = 'fut:'


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ret(c, v):
    return [('ret', c, v)]


# ---- models written in Rust ------------------------------------------------------------------
RUST = {
    'core::option::Option::<T>::': ('option_', 'map and_then ok_or ok_or_else unwrap_or unwrap_or_else map_or map_or_else or or_else filter is_some is_none is_some_and is_none_or as_mut as_ref take replace insert'),
    'core::result::Result::<T, E>::': ('result_', 'map map_err and_then or_else ok err is_ok is_err unwrap_or unwrap_or_else map_or map_or_else expect_err as_ref as_mut is_ok_and is_err_and'),
    'core::task::poll::Poll::<T>::': ('poll_', 'is_ready is_pending map'),
}
ALIAS = {
    'core::option::Option::<T>::unwrap': 'option_expect',
    'core::option::Option::<T>::expect': 'option_expect',
    'core::option::Option::<&T>::copied': 'option_copied',
    'core::option::Option::<&T>::cloned': 'option_copied',
    'core::option::Option::<&mut T>::copied': 'option_copied',
    'core::option::Option::<core::option::Option<T>>::flatten': 'option_flatten',
    'core::result::Result::<T, E>::unwrap': 'result_expect',
    'core::result::Result::<T, E>::expect': 'result_expect',
    '<core::option::Option<T> as core::ops::try_trait::Try>::branch': 'option_branch',
    '<core::result::Result<T, E> as core::ops::try_trait::Try>::branch': 'result_branch',
    'core::bool::<impl bool>::then': 'bool_then',
    'core::bool::<impl bool>::then_some': 'bool_then_some',
    'core::iter::traits::iterator::Iterator::fold': 'iter_fold',
    'core::iter::traits::iterator::Iterator::for_each': 'iter_for_each',
    'core::iter::traits::iterator::Iterator::any': 'iter_any',
    'core::iter::traits::iterator::Iterator::all': 'iter_all',
    'core::iter::traits::iterator::Iterator::count': 'iter_count',
    'core::iter::traits::iterator::Iterator::find': 'iter_find',
    'core::iter::traits::iterator::Iterator::find_map': 'iter_find_map',
    'core::iter::traits::iterator::Iterator::position': 'iter_position',
    'core::iter::traits::iterator::Iterator::last': 'iter_last',
    'core::iter::traits::iterator::Iterator::nth': 'iter_nth',
    'alloc::fmt::format': 'fmt_format',
}
for _t in ('u8', 'u16', 'u32', 'u64', 'usize'):
    for _n, _m in (('checked_add', 'ca'), ('checked_sub', 'cs'), ('saturating_add', 'sa'), ('saturating_sub', 'ss'), ('abs_diff', 'ad')):
        ALIAS['core::num::<impl %s>::%s' % (_t, _n)] = '%s_%s' % (_m, _t)
for pre, (mp, names) in RUST.items():
    for n in names.split():
        ALIAS.setdefault(pre + n, mp + n)


def rust(name):
    def m(e, c, ca, args):
        b = e.w.bodies['models::' + name]
        if len(args) > b.argc:
            args = args[:b.argc]
        return e.push(c, ca, b, args)
    return m


for k, v in ALIAS.items():
    MODELS[k] = rust(v)


@model('<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual')
def from_residual(e, c, ca, args):
    # `?` converts the error with From; the conversion is the identity when the types agree
    r = args[0]
    err = proj(r, (1, 0))
    fa = ca.ga(True)
    if len(fa) >= 3 and fa[1]['s'] == fa[2]['s']:
        return ret(c, Err(err))
    return ret(c, Err(ap('core::convert::From::from', c.deep(err))))


@model('<core::task::poll::Poll<core::result::Result<T, F>> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual')
def poll_residual(e, c, ca, args):
    return [('ret', c2, A('core::task::poll::Poll', 0, v)) for _, c2, v in from_residual(e, c, ca, args)]


@model('<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<!>>>::from_residual')
def opt_residual(e, c, ca, args):
    return ret(c, NONE)


# ---- identities -------------------------------------------------------------------------------
def ident(e, c, ca, args):
    return ret(c, args[0])


for n in ['core::pin::Pin::<Ptr>::new', 'core::pin::Pin::<Ptr>::new_unchecked', 'core::pin::Pin::<&\'a mut T>::get_unchecked_mut',
          'core::pin::Pin::<&\'a T>::get_ref', 'core::pin::Pin::<&\'a mut T>::get_mut', 'core::pin::Pin::<&mut T>::get_mut',
          '<F as core::future::into_future::IntoFuture>::into_future', 'core::future::into_future::IntoFuture::into_future',
          'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'alloc::string::String::into_boxed_str',
          'alloc::str::<impl str>::into_string', '<[u8] as nom::traits::AsBytes>::as_bytes', '<&[u8] as nom::traits::AsBytes>::as_bytes',
          '<[u8; N] as nom::traits::AsBytes>::as_bytes', 'nom::traits::AsBytes::as_bytes',
          'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut', 'core::convert::AsMut::as_mut',
          'alloc::string::String::into_bytes',
          '<bytes::bytes_mut::BytesMut as core::ops::deref::Deref>::deref', '<bytes::bytes_mut::BytesMut as core::ops::deref::DerefMut>::deref_mut',
          '<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
          '<alloc::string::String as core::ops::deref::Deref>::deref', '<alloc::string::String as core::ops::deref::DerefMut>::deref_mut', '<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref',
          'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'core::array::<impl [T; N]>::as_slice',
          'alloc::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::pin', 'core::hint::must_use', 'core::convert::identity',
          'core::iter::traits::collect::IntoIterator::into_iter!',
          'tracing::instrument::Instrument::instrument', 'tokio::task::coop::unconstrained::unconstrained',
          'core::mem::manually_drop::ManuallyDrop::<T>::new', 'bytes::bytes_mut::BytesMut::freeze', 'core::hint::black_box',
          'alloc::slice::<impl [T]>::into_vec']:
    MODELS[n] = ident


@model("alloc::borrow::Cow::<'_, B>::into_owned")
def into_owned(e, c, ca, args):
    v = args[0]
    if v.k == 'A' and v.a[0] == 'alloc::borrow::Cow':
        return ret(c, c.deref(v.a[2]) if v.a[1] == 0 else v.a[2])
    return ret(c, v)


@model('core::pin::Pin::<Ptr>::as_mut', 'core::pin::Pin::<Ptr>::as_ref', '<core::pin::Pin<Ptr> as core::ops::deref::Deref>::deref', '<core::pin::Pin<Ptr> as core::ops::deref::DerefMut>::deref_mut')
def pin_deref(e, c, ca, args):
    """&Pin<&mut T> -> &mut T: the pointer the pin is."""
    a = args[0]
    if a.k == 'R':
        t = c.load(a.a[0], a.a[1])
        if t.k == 'R':
            return ret(c, t)
        g = ca.ga()
        if g and g[0]['k'] == 'ref':
            return ret(c, t)
    return ret(c, a)


@model('core::str::converts::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked_mut', 'alloc::string::String::from_utf8_unchecked',
       'core::str::<impl str>::from_utf8_unchecked')
def utf8_unchecked(e, c, ca, args):
    c.ev('utf8', ca.p, c.deep(args[0]), e.where(ca.fid, ca.block))
    return ident(e, c, ca, args)


def deref_ident(e, c, ca, args):
    """By-value copy of the pointed-to value."""
    return ret(c, c.deref(args[0]))


for n in ['alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', 'alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned',
          'alloc::slice::<impl [T]>::to_vec', '<alloc::string::String as core::convert::From<&str>>::from', 'alloc::borrow::ToOwned::to_owned',
          'core::clone::Clone::clone', 'alloc::string::String::from_utf8_lossy', '<str as alloc::string::ToString>::to_string',
          '<alloc::string::String as alloc::string::ToString>::to_string', '<alloc::string::String as core::convert::From<alloc::boxed::Box<str>>>::from']:
    MODELS[n] = deref_ident


LIFE = re.compile(r"'\w+( mut)?")


def unlife(s):
    return LIFE.sub("'_\\1", s).replace("<'_>", '').replace("'_, ", '').replace("&'_ ", '&')


FROMIMPL = re.compile(r"^<(.*) as core::convert::From<(.*)>>::from$")


def from_impls(w):
    """The analysed crates' own `From` impls, by their types (lifetimes aside)."""
    if not hasattr(w, 'fromimpls'):
        w.fromimpls = {}
        for p, b in w.bodies.items():
            m = FROMIMPL.match(p)
            if m:
                w.fromimpls[(unlife(m.group(1)), unlife(m.group(2)))] = b
    return w.fromimpls


@model('core::convert::Into::into', 'core::convert::From::from')
def into(e, c, ca, args):
    g = ca.ga()
    if len(g) >= 2 and g[0]['s'] == g[1]['s']:
        return ret(c, args[0])
    if len(g) >= 2 and g[0]['s'] in W and g[1]['s'] in W:
        fr, to = (g[0]['s'], g[1]['s']) if ca.p.endswith('Into::into') else (g[1]['s'], g[0]['s'])
        return ret(c, castint(fr, to, c.deep(args[0])))
    # T: Into<U> through a local From impl of the concrete types
    if len(g) >= 2 and ca.p.endswith('Into::into'):
        b = from_impls(e.w).get((unlife(g[1]['s']), unlife(g[0]['s'])))
        if b is not None:
            return e.push(c, ca, b, args)
    if len(g) >= 2:
        fr, to = (g[0]['s'], g[1]['s']) if ca.p.endswith('Into::into') else (g[1]['s'], g[0]['s'])
        if to == 'alloc::string::String' and fr.endswith('str'):
            return deref_ident(e, c, ca, args)
        if to.startswith('alloc::borrow::Cow<'):
            if fr == 'alloc::string::String' or fr.startswith('alloc::vec::Vec<'):
                return ret(c, A('alloc::borrow::Cow', 1, args[0]))
            if fr.startswith('&'):
                return ret(c, A('alloc::borrow::Cow', 0, args[0]))
    return NotImplemented


INTCONV = re.compile(r"^core::convert::num::<impl core::convert::From<(\w+)> for (\w+)>::from$")
TRYCONV = re.compile(r"^core::convert::num::.*<impl core::convert::TryFrom<(\w+)> for (\w+)>::try_from$")


def intconv(e, c, ca, args):
    m = INTCONV.match(ca.path)
    if m and m.group(1) in W and m.group(2) in W:
        return ret(c, castint(m.group(1), m.group(2), c.deep(args[0])))
    m = TRYCONV.match(ca.path)
    if m and m.group(1) in W and m.group(2) in W:
        return tryconv(e, c, m.group(1), m.group(2), c.deep(args[0]))
    return NotImplemented


def tryconv(e, c, fr, to, x):
    lo, hi = limits(to)
    conds = []
    flo, fhi = limits(fr)
    if fhi > hi:
        conds.append(bnot(binop('Lt', fr, I(hi), x)))
    if flo < lo:
        conds.append(bnot(binop('Lt', fr, x, I(lo))))
    out, st = [], [c]
    for t in conds:
        nx = []
        for c1 in st:
            for b in (0, 1):
                c2 = c1.fork()
                if c2.assume(t, b):
                    c2.ev('branch', t, b)
                    if b:
                        nx.append(c2)
                    else:
                        out.append(('ret', c2, Err(ap('int_error', x))))
        st = nx
    return out + [('ret', c1, Ok(castint(fr, to, x))) for c1 in st]


def limits(ty):
    n = W[ty]
    if ty == 'bool':
        return 0, 1
    return (0, (1 << n) - 1) if ty[0] != 'i' else (-(1 << n - 1), (1 << n - 1) - 1)


@model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def try_into(e, c, ca, args):
    g = [x['s'] for x in ca.ga()]
    if len(g) >= 2 and g[0] in W and g[1] in W:
        fr, to = (g[0], g[1]) if ca.p.endswith('try_into') else (g[1], g[0])
        return tryconv(e, c, fr, to, c.deep(args[0]))
    return NotImplemented


@model('core::mem::replace')
def mem_replace(e, c, ca, args):
    v = c.deref(args[0])
    c.setref(args[0], args[1])
    return ret(c, v)


@model('core::mem::take')
def mem_take(e, c, ca, args):
    v = c.deref(args[0])
    c.setref(args[0], default_of(ca.dty['s']))
    return ret(c, v)


@model('core::mem::swap')
def mem_swap(e, c, ca, args):
    a, b = c.deref(args[0]), c.deref(args[1])
    c.setref(args[0], b)
    c.setref(args[1], a)
    return ret(c, UNIT)


@model('core::mem::drop')
def mem_drop(e, c, ca, args):
    return NotImplemented


def default_of(s):
    if s in W and s not in ('bool', 'char'):
        return I(0)
    if s == 'bool':
        return FALSE
    if s.startswith('core::option::Option'):
        return NONE
    if s.startswith(('alloc::vec::Vec', )):
        return A('array', 0)
    if s.startswith(('alloc::string::String', 'bytes::bytes_mut::BytesMut', '&str')):
        return S(b'')
    if 'HashSet' in s or 'BTreeSet' in s:
        return ap('set')
    if 'VecDeque' in s:
        return ap('queue')
    return ap('default', mk('ty', s))


@model('core::default::Default::default')
def default(e, c, ca, args):
    return ret(c, default_of(ca.dty['s']))


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def part_eq(e, c, ca, args):
    g = ca.ga()
    ts = g[0]['s'].lstrip('&') if g else '?'
    a, b = c.deep(args[0]), c.deep(args[1])
    if ca.path.startswith('core::cmp::impls') or ts in W or ts in ('str', '[u8]', 'alloc::string::String', '[T]', 'T', 'core::io::error::ErrorKind', 'std::io::error::ErrorKind') or ts.startswith('['):
        if ts not in W and not (g and (g[0]['k'] in ('array', 'slice', 'str') or ts in ('alloc::string::String', 'core::io::error::ErrorKind', 'T'))):
            # references to a local type: use its own PartialEq
            q = [x for x in e.w.bodies if x.startswith('<' + ts + ' as core::cmp::PartialEq>')]
            if q:
                return own_eq(e, c, ca, q[0], args)
        v = eqterm(ts, a, b)
        return ret(c, bnot(v) if ca.p.endswith('::ne') else v)
    if ca.path in e.w.bodies:
        return NotImplemented
    own = '<' + ts + ' as core::cmp::PartialEq>::eq'
    if ca.p.endswith('::ne') and own in e.w.bodies:
        return own_eq(e, c, ca, own, args)
    v = eqterm(ts, a, b)
    return ret(c, bnot(v) if ca.p.endswith('::ne') else v)


def own_eq(e, c, ca, path, args):
    """A local PartialEq: its `eq`, or the negation of it for `ne`."""
    if ca.p.endswith('::ne'):
        return e.push(c, ca, e.w.bodies['models::not_eq'], [args[0], args[1], mk('fn', path)])
    return e.push(c, ca, e.w.bodies[path], [args[0], args[1]])


def eqterm(ts, a, b):
    if a.k == 'S' and b.k == 'S':
        return I(a.a[0] == b.a[0])
    a, b = bytesval(a), bytesval(b)
    if a.k == 'A' and b.k == 'A' and a.a[0] == b.a[0] == OPT:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a) == 3:
            its = re.fullmatch(r'core::option::Option<&?(.*)>', ts)
            return eqterm(its.group(1) if its else '?', a.a[2], b.a[2])
    if a.k == 'A' and b.k == 'A' and a.a[0] == b.a[0] and isinstance(a.a[0], str) and len(a.a) == 2 and len(b.a) == 2:
        return I(a.a[1] == b.a[1])
    return binop('Eq', ts if ts in W else '?', a, b)


def bytesval(t):
    """Normalise arrays of constant bytes to byte strings."""
    if t.k == 'A' and t.a[0] == 'array' and all(x.k == 'I' and 0 <= x.a[0] < 256 for x in t.a[2:]):
        return S(bytes(x.a[0] for x in t.a[2:]))
    return t


# ---- integers -----------------------------------------------------------------------------------
def intop(op):
    def m(e, c, ca, args):
        ty = ca.path.split('<impl ')[1].split('>')[0]
        a, b = c.deep(args[0]), c.deep(args[1])
        return ret(c, binop(op, ty, a, castint('u32', ty, b) if op in ('Shl', 'Shr') and False else b))
    return m


def refop(op, assign):
    # arithmetic through references: checked as on the numbers themselves
    def m(e, c, ca, args):
        ts = ca.ga()[0]['s'].lstrip('&') if ca.ga() else '?'
        ts = ts.split(' ')[-1]
        if ts not in W:
            return NotImplemented
        a, b = c.deep(args[0]), c.deep(args[1])
        if op in ('Add', 'Sub', 'Mul'):
            o = ap('ovf', op, ts, a, b)
            if c.known(o) != 0:
                c.ev('assert', 'overflow:' + op, bnot(o), (a, b), e.where(ca.fid, ca.block), False)
        v = e.bin(c, op, ts, a, b)
        if assign:
            c.setref(args[0], v)
            return ret(c, UNIT)
        return ret(c, v)
    return m


for _op in ('Add', 'Sub', 'Mul'):
    MODELS['core::ops::arith::%s::%s' % (_op, _op.lower())] = refop(_op, False)
    MODELS['core::ops::arith::%sAssign::%s_assign' % (_op, _op.lower())] = refop(_op, True)
for _op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
    MODELS['core::ops::bit::%s::%s' % (_op, _op.lower())] = refop(_op, False)
    MODELS['core::ops::bit::%sAssign::%s_assign' % (_op, _op.lower())] = refop(_op, True)


for ty in W:
    p = 'core::num::<impl %s>::' % ty
    for n, op in (('wrapping_add', 'Add'), ('wrapping_sub', 'Sub'), ('wrapping_mul', 'Mul'), ('wrapping_shl', 'Shl'), ('wrapping_shr', 'Shr')):
        MODELS[p + n] = intop(op)

    def neg(e, c, ca, args):
        ty = ca.path.split('<impl ')[1].split('>')[0]
        a = c.deep(args[0])
        return ret(c, I(wrap(ty, -a.a[0])) if a.k == 'I' else binop('Sub', ty, I(0), a))
    MODELS[p + 'wrapping_neg'] = neg

    def ovf(op):
        def m(e, c, ca, args):
            ty = ca.path.split('<impl ')[1].split('>')[0]
            return ret(c, e.bin(c, op + 'WithOverflow', ty, c.deep(args[0]), c.deep(args[1])))
        return m
    for n, op in (('overflowing_add', 'Add'), ('overflowing_sub', 'Sub'), ('overflowing_mul', 'Mul')):
        MODELS[p + n] = ovf(op)

    def lebytes(end):
        def m(e, c, ca, args):
            ty = ca.path.split('<impl ')[1].split('>')[0]
            n = W[ty] // 8
            x = c.deep(args[0])
            bs = [castint(ty, 'u8', binop('Shr', ty, x, I(8 * i))) for i in range(n)]
            if end == 'be':
                bs.reverse()
            return ret(c, A('array', 0, *bs))
        return m
    MODELS[p + 'to_le_bytes'] = lebytes('le')
    MODELS[p + 'to_ne_bytes'] = lebytes('le')
    MODELS[p + 'to_be_bytes'] = lebytes('be')

    def frombytes(end):
        def m(e, c, ca, args):
            ty = ca.path.split('<impl ')[1].split('>')[0]
            n = W[ty] // 8
            v = c.deep(args[0])
            r = I(0)
            for i in range(n):
                x = castint('u8', ty, proj(v, ('ix', I(i if end == 'le' else n - 1 - i))))
                x = binop('Shl', ty, x, I(8 * i)) if i else x
                r = x if r is I(0) else binop('BitOr', ty, r, x)
            return ret(c, r)
        return m
    MODELS[p + 'from_le_bytes'] = frombytes('le')
    MODELS[p + 'from_ne_bytes'] = frombytes('le')
    MODELS[p + 'from_be_bytes'] = frombytes('be')

    def rot(left):
        def m(e, c, ca, args):
            ty = ca.path.split('<impl ')[1].split('>')[0]
            n = W[ty]
            x, k = c.deep(args[0]), c.deep(args[1])
            if k.k != 'I' or ty[0] == 'i':
                return NotImplemented
            k = k.a[0] % n if left else -k.a[0] % n
            if not k:
                return ret(c, x)
            return ret(c, binop('BitOr', ty, binop('Shl', ty, x, I(k)), binop('Shr', ty, x, I(n - k))))
        return m
    MODELS[p + 'rotate_left'] = rot(True)
    MODELS[p + 'rotate_right'] = rot(False)

    def swapb(e, c, ca, args):
        ty = ca.path.split('<impl ')[1].split('>')[0]
        n = W[ty] // 8
        x, r = c.deep(args[0]), I(0)
        for i in range(n):
            b = castint('u8', ty, castint(ty, 'u8', binop('Shr', ty, x, I(8 * i))))
            b = binop('Shl', ty, b, I(8 * (n - 1 - i)))
            r = b if r is I(0) else binop('BitOr', ty, r, b)
        return ret(c, r)
    MODELS[p + 'swap_bytes'] = swapb

    def minmax(which):
        def m(e, c, ca, args):
            ts = ca.dty['s']
            if ts not in W:
                return NotImplemented
            a, b = c.deep(args[0]), c.deep(args[1])
            out = []
            lt = binop('Lt', ts, b, a)
            for v in (0, 1):
                c2 = c.fork()
                if c2.assume(lt, v):
                    c2.ev('branch', lt, v)
                    out.append(('ret', c2, (b if v else a) if which == 'min' else (a if v else b)))
            return out
        return m
MODELS['core::cmp::Ord::min'] = MODELS['core::cmp::min'] = minmax('min')
MODELS['core::cmp::Ord::max'] = MODELS['core::cmp::max'] = minmax('max')

BYTECLS = {
    'is_ascii_digit': b'0123456789',
    'is_ascii_uppercase': bytes(range(65, 91)),
    'is_ascii_lowercase': bytes(range(97, 123)),
    'is_ascii_alphabetic': bytes(range(65, 91)) + bytes(range(97, 123)),
    'is_ascii_alphanumeric': b'0123456789' + bytes(range(65, 91)) + bytes(range(97, 123)),
    'is_ascii_graphic': bytes(range(33, 127)),
    'is_ascii_whitespace': b'\t\n\x0c\r ',
    'is_ascii': bytes(range(128)),
    'is_ascii_control': bytes(range(32)) + b'\x7f',
    'is_ascii_hexdigit': b'0123456789abcdefABCDEF',
    'is_ascii_punctuation': bytes(x for x in range(33, 127) if not chr(x).isalnum()),
}


def bytecls(bs):
    s = S(bytes(sorted(bs)))

    def m(e, c, ca, args):
        x = c.deep(args[0])
        if x.k == 'I':
            return ret(c, I(x.a[0] in s.a[0]))
        return ret(c, ap('inset', s, x))
    return m


PREDS = {'nom::character::is_digit': b'0123456789', 'nom::character::is_alphanumeric': BYTECLS['is_ascii_alphanumeric'],
         'nom::character::is_alphabetic': BYTECLS['is_ascii_alphabetic'], 'nom::character::is_space': b' \t'}
for n, bs in BYTECLS.items():
    PREDS['core::num::<impl u8>::' + n] = bs
    MODELS['core::num::<impl u8>::' + n] = MODELS['core::char::methods::<impl char>::' + n] = bytecls(bs)
MODELS['nom::character::is_digit'] = bytecls(b'0123456789')
MODELS['nom::character::is_alphanumeric'] = bytecls(BYTECLS['is_ascii_alphanumeric'])
MODELS['nom::character::is_alphabetic'] = bytecls(BYTECLS['is_ascii_alphabetic'])
MODELS['nom::character::is_space'] = bytecls(b' \t')


@model('core::num::nonzero::NonZero::<T>::get')
def nz_get(e, c, ca, args):
    return ret(c, ap('nz', args[0]) if args[0].k != 'ap' or args[0].a[0] != 'mknz' else args[0].a[1])


@model('core::num::nonzero::NonZero::<T>::new')
def nz_new(e, c, ca, args):
    x = args[0]
    ts = ca.ga()[0]['s'] if ca.ga() else '?'
    z = binop('Eq', ts, x, I(0))
    out = []
    for v in (0, 1):
        c2 = c.fork()
        if c2.assume(z, v):
            c2.ev('branch', z, v)
            out.append(('ret', c2, NONE if v else Some(ap('mknz', x))))
    return out


def nzval(x):
    return x.a[1] if x.k == 'ap' and x.a[0] == 'mknz' else ap('nz', x)


@model(*['core::num::nonzero::NonZero::<%s>::checked_add' % t for t in ('u8', 'u16', 'u32', 'u64', 'usize')])
def nz_checked_add(e, c, ca, args):
    m = re.search(r'NonZero<(\w+)>', ca.dty['s'])
    if not m:
        return NotImplemented
    ts, x = m.group(1), nzval(args[0])
    o = ap('ovf', 'Add', ts, x, args[1])
    out = []
    for v in (0, 1):
        c2 = c.fork()
        if c2.assume(o, v):
            c2.ev('branch', o, v)
            out.append(('ret', c2, NONE if v else Some(ap('mknz', binop('Add', ts, x, args[1])))))
    return out


@model('core::net::socket_addr::SocketAddr::new', '<core::net::socket_addr::SocketAddr as core::convert::From<(I, u16)>>::from')
def socket_addr(e, c, ca, args):
    """An address is its host and port."""
    if len(args) == 2:
        return ret(c, A('tuple', 0, *args))
    return ret(c, args[0])


def whole_addr(v):
    return v.k == 'A' and v.a[0] == 'tuple' and len(v.a) == 4


@model('core::net::socket_addr::SocketAddr::port', 'core::net::socket_addr::SocketAddr::ip')
def socket_part(e, c, ca, args):
    v = c.deep(args[0])
    if not whole_addr(v):
        return NotImplemented
    return ret(c, v.a[3] if ca.path.endswith('port') else v.a[2])


@model('core::net::socket_addr::SocketAddr::set_port', 'core::net::socket_addr::SocketAddr::set_ip')
def socket_set(e, c, ca, args):
    v = c.deref(args[0])
    if not whole_addr(v):
        return NotImplemented
    c.setref(args[0], A('tuple', 0, v.a[2], args[1]) if ca.path.endswith('port') else A('tuple', 0, args[1], v.a[3]))
    return ret(c, UNIT)


# ---- sequences ------------------------------------------------------------------------------------
@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len', 'alloc::vec::Vec::<T, A>::len',
       'bytes::bytes_mut::BytesMut::len', 'alloc::collections::vec_deque::VecDeque::<T, A>::len', 'bytes::buf::buf_impl::Buf::remaining')
def seq_len(e, c, ca, args):
    return ret(c, length(c.deep(args[0])))


@model('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty', 'alloc::vec::Vec::<T, A>::is_empty',
       'bytes::bytes_mut::BytesMut::is_empty', 'alloc::collections::vec_deque::VecDeque::<T, A>::is_empty')
def seq_empty(e, c, ca, args):
    return ret(c, binop('Eq', 'usize', length(c.deep(args[0])), I(0)))


def cat(*parts):
    out = []
    for p in parts:
        p = bytesval(p)
        xs = list(p.a[1:]) if p.k == 'ap' and p.a[0] == 'cat' else [p]
        for x in xs:
            if x.k == 'S':
                if not x.a[0]:
                    continue
                if out and out[-1].k == 'S':
                    out[-1] = S(out[-1].a[0] + x.a[0])
                    continue
            out.append(x)
    if not out:
        return S(b'')
    return out[0] if len(out) == 1 else ap('cat', *out)


def append(c, p, x):
    v = c.deref(p)
    n = 0
    while v.k == 'A' and v.a[0] == 'fmtr' and n < 5:
        p = v.a[2]
        v = c.deref(p)
        n += 1
    c.setref(p, cat(v, x))


@model('alloc::string::String::new', 'alloc::string::String::with_capacity', 'bytes::bytes_mut::BytesMut::new', 'bytes::bytes_mut::BytesMut::with_capacity')
def str_new(e, c, ca, args):
    return ret(c, S(b''))


@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity')
def vec_new(e, c, ca, args):
    return ret(c, A('array', 0))


@model('alloc::vec::from_elem')
def from_elem(e, c, ca, args):
    return ret(c, ap('filled', args[0], args[1]))


@model('alloc::vec::Vec::<T, A>::resize')
def vec_resize(e, c, ca, args):
    v = c.deref(args[0])
    if not (v.k == 'A' and v.a[0] == 'array' and len(v.a) == 2):
        return NotImplemented
    c.setref(args[0], ap('filled', args[2], args[1]))
    return ret(c, UNIT)


@model('alloc::vec::Vec::<T, A>::push')
def vec_push(e, c, ca, args):
    v = c.deref(args[0])
    x = args[1]
    if v.k == 'A' and v.a[0] == 'array':
        n = mk('A', *(v.a + (x,)))
    else:
        n = ap('push', v, x)
    c.ev('push', v, c.deep(x), e.where(ca.fid, ca.block))
    c.setref(args[0], n)
    return ret(c, UNIT)


@model('alloc::string::String::clear', 'bytes::bytes_mut::BytesMut::clear')
def str_clear(e, c, ca, args):
    c.ev('bufop', 'clear', c.deep(args[0]), I(0), e.where(ca.fid, ca.block))
    c.setref(args[0], S(b''))
    return ret(c, UNIT)


@model('<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign', '<alloc::string::String as core::ops::arith::Add<&str>>::add')
def str_add(e, c, ca, args):
    if ca.path.endswith('add_assign'):
        return push_str(e, c, ca, args)
    return ret(c, cat(c.deep(args[0]), c.deep(args[1])))


@model('alloc::vec::Vec::<T, A>::clear')
def vec_clear(e, c, ca, args):
    c.setref(args[0], A('array', 0))
    return ret(c, UNIT)


@model('alloc::string::String::push_str', 'bytes::bytes_mut::BytesMut::extend_from_slice', 'bytes::buf::buf_mut::BufMut::put_slice',
       'alloc::vec::Vec::<T, A>::extend_from_slice', 'bytes::buf::buf_mut::BufMut::put')
def push_str(e, c, ca, args):
    x = c.deep(args[1])
    v, w = c.deep(args[0]), x
    append(c, args[0], x)
    while w.k == 'ap' and w.a[0] in ('prefix', 'suffix'):
        w = w.a[1]
    if w.k == 'r' and w.a[0].endswith(':chunk') or w.k == 'ap' and w.a[0] == 'overlay':
        c.ev('bufop', 'append', v, x, e.where(ca.fid, ca.block))
    return ret(c, UNIT)


@model('alloc::string::String::push', 'bytes::buf::buf_mut::BufMut::put_u8')
def push_char(e, c, ca, args):
    x = args[1]
    append(c, args[0], S(chr(x.a[0]).encode()) if x.k == 'I' else ap('char', x))
    return ret(c, UNIT)


def islen_minus(v, at):
    """at == len(v) - len(d): returns d."""
    if at.k == 'bin' and at.a[0] == 'Sub' and at.a[2] is length(v):
        b = at.a[3]
        if b.k == 'ap' and b.a[0] == 'len':
            return b.a[1]
    return None


def suffix(v, at):
    if at is I(0):
        return v
    if v.k == 'S' and at.k == 'I':
        return S(v.a[0][at.a[0]:])
    return ap('suffix', v, at)


def prefix(v, at):
    if at is I(0):
        return S(b'')
    if v.k == 'ap' and v.a[0] == 'overlay' and at is ap('len', v.a[2]):
        return v.a[2]
    return ap('prefix', v, at)


@model('bytes::bytes_mut::BytesMut::split_off', 'alloc::vec::Vec::<T, A>::split_off')
def split_off(e, c, ca, args):
    v = c.deep(args[0])
    at = c.deep(args[1])
    c.setref(args[0], prefix(v, at))
    c.ev('bufop', 'suffix-out', v, at, e.where(ca.fid, ca.block))
    return ret(c, suffix(v, at))


@model('bytes::bytes_mut::BytesMut::split_to')
def split_to(e, c, ca, args):
    v = c.deep(args[0])
    at = c.deep(args[1])
    c.setref(args[0], suffix(v, at))
    c.ev('bufop', 'suffix', v, at, e.where(ca.fid, ca.block))
    return ret(c, prefix(v, at))


@model('bytes::bytes_mut::BytesMut::split')
def bm_split(e, c, ca, args):
    v = c.deep(args[0])
    c.setref(args[0], S(b''))
    c.ev('bufop', 'clear', v, I(0), e.where(ca.fid, ca.block))
    return ret(c, v)


@model('bytes::buf::buf_impl::Buf::advance')
def advance(e, c, ca, args):
    v = c.deep(args[0])
    at = c.deep(args[1])
    c.setref(args[0], suffix(v, at))
    c.ev('bufop', 'suffix', v, at, e.where(ca.fid, ca.block))
    return ret(c, UNIT)


@model('bytes::bytes_mut::BytesMut::truncate', 'alloc::vec::Vec::<T, A>::truncate', 'alloc::string::String::truncate')
def truncate(e, c, ca, args):
    v, at = c.deep(args[0]), c.deep(args[1])
    c.setref(args[0], S(b'') if at is I(0) else prefix(v, at))
    c.ev('bufop', 'clear' if at is I(0) else 'prefix', v, at, e.where(ca.fid, ca.block))
    return ret(c, UNIT)


RNG = {'core::ops::range::RangeFull': 'full', 'core::ops::range::RangeFrom': 'from', 'core::ops::range::Range': 'range', 'core::ops::range::RangeTo': 'to',
       'core::ops::range::RangeInclusive': 'incl', 'core::ops::range::RangeToInclusive': 'toincl'}


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def index(e, c, ca, args):
    i = args[1]
    if i.k == 'A' and i.a[0] in RNG:
        k = RNG[i.a[0]]
        v = c.deep(args[0])
        f = [c.deep(x) for x in i.a[2:]]
        where = e.where(ca.fid, ca.block)
        if k == 'full':
            return ret(c, args[0])
        c.ev('slice', v, k, tuple(f), where)
        if ca.p.endswith('index_mut'):
            if 'for [T; N]' not in ca.path or args[0].k != 'R' or k not in ('from', 'to', 'range'):
                return NotImplemented
            n = e.length(c, v)
            lo, hi = (f[0], n) if k == 'from' else (I(0), f[0]) if k == 'to' else f
            return ret(c, c.sub(args[0], ('sub', lo, hi)))
        if k == 'from':
            return ret(c, suffix(v, f[0]))
        if k == 'to':
            return ret(c, prefix(v, f[0]))
        return ret(c, ap('slice:' + k, v, *f))
    if i.k == 'A':
        return NotImplemented
    v = c.deep(args[0])
    lt = binop('Lt', 'usize', i, length(v))
    if c.known(lt) is None:
        c.ev('assert', 'bounds', lt, (length(v), i), e.where(ca.fid, ca.block), False)
        c.assume(lt, 1)
    elif c.known(lt) == 0:
        c.ev('assert', 'bounds', lt, (length(v), i), e.where(ca.fid, ca.block), True)
        return [('term', c, 'panic')]
    return ret(c, c.sub(args[0], ('ix', i)))


@model('core::slice::<impl [T]>::get_mut', 'core::slice::<impl [T]>::get')
def slice_get(e, c, ca, args):
    i = args[1]
    if i.k == 'A':
        return NotImplemented
    v = c.deep(args[0])
    lt = binop('Lt', 'usize', i, length(v))
    out = []
    for b in (0, 1):
        c2 = c.fork()
        if c2.assume(lt, b):
            c2.ev('branch', lt, b)
            out.append(('ret', c2, Some(c2.sub(args[0], ('ix', i))) if b else NONE))
    return out


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def slice_first(e, c, ca, args):
    return slice_get(e, c, ca, [args[0], I(0)])


def split_end(first):
    def m(e, c, ca, args):
        v = c.deep(args[0])
        z = binop('Lt', 'usize', I(0), length(v))
        if first:
            return step0(c, z, lambda c2: tup(c2.sub(args[0], ('ix', I(0))), suffix(v, I(1))))
        return step0(c, z, lambda c2: tup(ap('last', v), prefix(v, binop('Sub', 'usize', length(v), I(1)))))
    return m


def step0(c, cond, yes):
    out = []
    for b in (0, 1):
        c2 = c.fork()
        if c2.assume(cond, b):
            c2.ev('branch', cond, b)
            out.append(('ret', c2, Some(yes(c2)) if b else NONE))
    return out


MODELS['core::slice::<impl [T]>::split_first'] = split_end(True)
MODELS['core::slice::<impl [T]>::split_last'] = split_end(False)


@model('core::slice::<impl [T]>::split_at', 'core::str::<impl str>::split_at')
def split_at(e, c, ca, args):
    v, at = c.deep(args[0]), c.deep(args[1])
    c.ev('slice', v, 'to', (at,), e.where(ca.fid, ca.block))
    return ret(c, tup(prefix(v, at), suffix(v, at)))


@model('core::slice::<impl [T]>::ends_with', 'core::str::<impl str>::ends_with')
def ends_with(e, c, ca, args):
    return ret(c, ap('ends_with', c.deep(args[0]), bytesval(c.deep(args[1]))))


@model('core::slice::<impl [T]>::last')
def slice_last(e, c, ca, args):
    v = c.deep(args[0])
    z = binop('Eq', 'usize', length(v), I(0))
    out = []
    for b in (0, 1):
        c2 = c.fork()
        if c2.assume(z, b):
            c2.ev('branch', z, b)
            out.append(('ret', c2, NONE if b else Some(ap('last', v))))
    return out


# ---- iterators -----------------------------------------------------------------------------------
ITER = 'it'     # A('it', mode, src, pos): mode 0 yields values, 1 yields mutable references (src is a pointer)


def it(src, pos=I(0)):
    return A(ITER, 0, src, pos)


def is_iter(v):
    return v.k == 'A' and isinstance(v.a[0], str) and (v.a[0] == ITER or v.a[0].startswith('it:') or v.a[0] in RNG or v.a[0] in (
        'models::MapIt', 'models::Enumerate', 'models::Zip', 'models::Filter', 'models::TakeIt', 'models::Chain', 'models::TakeWhile', 'models::MapWhile',
        'models::FilterMap', 'models::Inspect', 'models::OnceIt', 'models::RepeatIt', 'models::FromFn', 'models::Successors'))


@model('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(e, c, ca, args):
    v = args[0]
    if is_iter(v):
        return ret(c, v)
    if v.k == 'R' and is_iter(c.deref(v)):
        return ret(c, v)         # &mut I
    g = ca.ga()
    if g and g[0]['s'].startswith('core::option::Option<') or ca.path.startswith('<core::option::Option<T> as'):
        return ret(c, A('models::OnceIt', 0, v))
    if '&\'a mut' in ca.path or (g and g[0]['k'] == 'ref' and g[0].get('m')):
        if v.k == 'R' or '&\'a mut' in ca.path:
            return ret(c, A(ITER, 1, v, I(0)))
    if v.k == 'R':
        return ret(c, it(c.deep(v)))
    return ret(c, it(c.deep(v)))


@model('core::slice::<impl [T]>::iter', 'core::str::<impl str>::bytes')
def slice_iter(e, c, ca, args):
    return ret(c, it(c.deep(args[0])))


@model('core::str::<impl str>::chars')
def str_chars(e, c, ca, args):
    return ret(c, it(ap('chars', c.deep(args[0]))))


@model('core::str::<impl str>::contains')
def str_contains(e, c, ca, args):
    f = args[1]
    if not is_clo(f):
        return NotImplemented
    return e.push(c, ca, e.w.bodies['models::str_any'], [it(ap('chars', c.deep(args[0]))), f])


@model('core::str::<impl str>::make_ascii_uppercase', 'core::str::<impl str>::make_ascii_lowercase')
def make_ascii(e, c, ca, args):
    c.setref(args[0], ap('alloc::str::<impl str>::to_ascii_' + ca.p.rsplit('_', 1)[1], c.deep(args[0])))
    return ret(c, UNIT)


@model('core::slice::<impl [T]>::iter_mut')
def slice_iter_mut(e, c, ca, args):
    return ret(c, A(ITER, 1, args[0], I(0)))


@model('alloc::vec::Vec::<T, A>::drain')
def vec_drain(e, c, ca, args):
    i = args[1]
    if i.k != 'A' or RNG.get(i.a[0]) != 'full':
        return NotImplemented
    v = c.deep(args[0])
    c.setref(args[0], A('array', 0))
    c.ev('bufop', 'drain', v, I(0), e.where(ca.fid, ca.block))
    return ret(c, it(v))


@model('core::iter::traits::exact_size::ExactSizeIterator::len', 'core::slice::iter::Iter::len', 'core::slice::iter::IterMut::len')
def it_len(e, c, ca, args):
    v = itval(c, args[0])
    if v.k != 'A' or v.a[0] != ITER:
        return NotImplemented
    s = v.a[2]
    return ret(c, e.bin(c, 'Sub', 'usize', e.length(c, c.deep(s) if s.k == 'R' else s), v.a[3]))


def itval(c, v):
    return v if v.k != 'R' else c.deref(v)


@model('core::iter::traits::iterator::Iterator::copied', 'core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::by_ref',
       'core::iter::traits::iterator::Iterator::fuse')
def it_ident(e, c, ca, args):
    if ca.p.endswith('by_ref') or is_iter(itval(c, args[0])):
        return ret(c, args[0])
    return NotImplemented


@model('core::iter::traits::iterator::Iterator::map')
def it_map(e, c, ca, args):
    return ret(c, A('models::MapIt', 0, args[0], args[1]))


@model('core::iter::traits::iterator::Iterator::filter')
def it_filter(e, c, ca, args):
    return ret(c, A('models::Filter', 0, args[0], args[1]))


def it_wrap(adt, *more):
    def m(e, c, ca, args):
        return ret(c, A(adt, 0, *(tuple(args) + more)))
    return m


ITN = 'core::iter::traits::iterator::Iterator::'
MODELS[ITN + 'take_while'] = it_wrap('models::TakeWhile', FALSE)
MODELS[ITN + 'map_while'] = it_wrap('models::MapWhile')
MODELS[ITN + 'filter_map'] = it_wrap('models::FilterMap')
MODELS[ITN + 'inspect'] = it_wrap('models::Inspect')
MODELS['core::iter::sources::repeat::repeat'] = it_wrap('models::RepeatIt')
MODELS['core::iter::sources::from_fn::from_fn'] = it_wrap('models::FromFn')
MODELS['core::iter::sources::successors::successors'] = it_wrap('models::Successors')


@model('core::iter::sources::once::once')
def it_once(e, c, ca, args):
    return ret(c, A('models::OnceIt', 0, Some(args[0])))


@model('core::iter::sources::empty::empty')
def it_empty(e, c, ca, args):
    return ret(c, it(A('array', 0)))


def by_result(name):
    def m(e, c, ca, args):
        d = ca.dty['s']
        k = 'result' if d.startswith(RES) else 'option' if d.startswith('core::option::Option') else None
        if k is None:
            return NotImplemented
        return e.push(c, ca, e.w.bodies['models::%s_%s' % (name, k)], args)
    return m


MODELS[ITN + 'try_fold'] = by_result('iter_try_fold')
MODELS[ITN + 'try_for_each'] = by_result('iter_try_for_each')


@model(ITN + 'sum')
def it_sum(e, c, ca, args):
    b = e.w.bodies.get('models::iter_sum_' + ca.dty['s'])
    return NotImplemented if b is None else e.push(c, ca, b, args)


@model('core::iter::traits::iterator::Iterator::enumerate')
def it_enum(e, c, ca, args):
    return ret(c, A('models::Enumerate', 0, args[0], I(0)))


@model('core::iter::traits::iterator::Iterator::zip')
def it_zip(e, c, ca, args):
    j = args[1]
    if not is_iter(j):
        j = it(c.deep(j))
    return ret(c, A('models::Zip', 0, args[0], j))


@model('core::iter::traits::iterator::Iterator::take')
def it_take(e, c, ca, args):
    return ret(c, A('models::TakeIt', 0, args[0], args[1]))


@model('core::iter::traits::iterator::Iterator::chain')
def it_chain(e, c, ca, args):
    j = args[1]
    if not is_iter(j):
        j = it(c.deep(j))
    a, b = whole(args[0]), whole(j)
    if a is not None and b is not None:
        return ret(c, it(seqcat(a, b)))
    return ret(c, A('models::Chain', 0, Some(args[0]), j))


def seqcat(a, b):
    """One sequence after another."""
    xs = [[I(y) for y in x.a[0]] if x.k == 'S' else list(x.a[2:]) if x.k == 'A' and x.a[0] == 'array' else None for x in (a, b)]
    if None not in xs:
        return A('array', 0, *(xs[0] + xs[1]))
    return ap('seqcat', a, b)


def maps_to(e, f, arg):
    """What a closure without captures returns for arg, if that is one value."""
    while f.k == 'U':
        f = f.a[0]
    if not is_clo(f) or len(f.a) > 2 or f.a[0][1] not in e.w.bodies:
        return None
    b = e.w.bodies[f.a[0][1]]
    e2 = Engine(e.w, dict(MODELS), {})
    c = root(e2, b, None)
    fid = c.stack[0][0]
    env = f
    if b.prog.types[b.locals[1][0]]['k'] == 'ref':
        c.store[('G', 'env')] = f
        env = mk('R', ('G', 'env'), (), 'm')
    c.store[(fid, 1)] = env
    c.store[(fid, 2)] = arg
    vs = {ev[1] for n, evs, m, lab in e2.explore(c).edges() for ev in evs if ev[0] == 'ret'}
    return vs.pop() if len(vs) == 1 else None


@model('core::iter::traits::iterator::Iterator::flat_map')
def it_flat_map(e, c, ca, args):
    s = whole(args[0])
    if s is None:
        return NotImplemented
    x = mk('Y', '#elem')
    v = maps_to(e, args[1], x)
    if v is None or v is not x and whole(v) is not x:
        return NotImplemented
    return ret(c, it(ap('flat', s)))


@model('core::iter::traits::iterator::Iterator::step_by')
def it_step(e, c, ca, args):
    return ret(c, A('it:step', 0, args[0], args[1]))


@model('core::iter::traits::iterator::Iterator::rev')
def it_rev(e, c, ca, args):
    return ret(c, A('it:rev', 0, args[0]))


def whole(v):
    """The sequence an un-advanced plain iterator yields, or None."""
    if v.k == 'A' and v.a[0] == ITER and v.a[1] == 0 and v.a[3] is I(0):
        return v.a[2]
    return None


@model('core::iter::traits::iterator::Iterator::flatten')
def it_flatten(e, c, ca, args):
    s = whole(args[0])
    if s is not None:
        if s.k == 'A' and s.a[0] == 'array' and all(x.k == 'A' and x.a[0] == OPT for x in s.a[2:]):
            return ret(c, it(A('array', 0, *[x.a[2] for x in s.a[2:] if x.a[1] == 1])))
        return ret(c, it(ap('flat', s)))
    return ret(c, it(ap('flat', c.deep(args[0]))))


@model('core::iter::traits::iterator::Iterator::skip')
def it_skip(e, c, ca, args):
    s = whole(args[0])
    if s is not None:
        return ret(c, it(suffix(s, args[1])))
    return ret(c, it(ap('skip', c.deep(args[0]), args[1])))


@model('core::iter::traits::iterator::Iterator::collect')
def it_collect(e, c, ca, args):
    v = args[0]
    s = whole(v)
    d = ca.dty['s']
    if d.startswith('alloc::vec::Vec'):
        if s is not None:
            return ret(c, s)
        if is_iter(v):
            return e.push(c, ca, e.w.bodies['models::iter_collect_vec'], [v])
    if s is not None:
        return ret(c, ap('collect', mk('ty', d.split('<')[0]), s))
    return NotImplemented


@model('core::iter::traits::collect::Extend::extend')
def it_extend(e, c, ca, args):
    v = args[1]
    if not is_iter(v):
        g = ca.ga()
        if g and g[-1]['s'].startswith('core::option::Option<'):
            return e.push(c, ca, e.w.bodies['models::option_extend_vec'], [args[0], v])
        v = it(c.deep(v))
    return e.push(c, ca, e.w.bodies['models::iter_extend_vec'], [args[0], v])


def elem(src, pos):
    return proj(src, ('ix', pos))


def step(c, cond, yes, no=None):
    out = []
    for b in (0, 1):
        c2 = c.fork()
        if c2.assume(cond, b):
            c2.ev('branch', cond, b)
            if b:
                out.append(('ret', c2, Some(yes(c2))))
            else:
                if no:
                    no(c2)
                out.append(('ret', c2, NONE))
    return out


@model('core::iter::traits::iterator::Iterator::next')
def it_next(e, c, ca, args):
    p = args[0]
    v = c.deref(p)
    n = 0
    while v.k == 'R' and n < 4:
        p, v = v, c.deref(v)
        n += 1
    if v.k != 'A' or not isinstance(v.a[0], str):
        return NotImplemented
    k = v.a[0]
    if k == ITER:
        src, pos = v.a[2], v.a[3]
        sv = c.deep(src) if v.a[1] else src
        lt = binop('Lt', 'usize', pos, length(sv))

        def yes(c2):
            c2.write(*path_of(c2, p, (0 if v.a[1] == 0 else 1, 1)), val=binop('Add', 'usize', pos, I(1)))
            if v.a[1]:
                return c2.sub(src, ('ix', pos))
            return elem(sv, pos)
        return step(c, lt, yes)
    RU = {'models::MapIt': 'map_next', 'models::Enumerate': 'enumerate_next', 'models::Zip': 'zip_next', 'models::Filter': 'filter_next',
          'models::TakeIt': 'take_next', 'models::Chain': 'chain_next', 'models::TakeWhile': 'take_while_next', 'models::MapWhile': 'map_while_next',
          'models::FilterMap': 'filter_map_next', 'models::Inspect': 'inspect_next', 'models::OnceIt': 'once_next', 'models::RepeatIt': 'repeat_next',
          'models::FromFn': 'from_fn_next', 'models::Successors': 'successors_next'}
    if k in RU:
        return e.push(c, ca, e.w.bodies['models::' + RU[k]], [p])
    if k in RNG:
        ty = rangety(ca)
        lo = v.a[2]
        if RNG[k] == 'range':
            def yes(c2):
                c2.write(*path_of(c2, p, (0, 0)), val=binop('Add', ty, lo, I(1)))
                return lo
            return step(c, binop('Lt', ty, lo, v.a[3]), yes)
        if RNG[k] == 'from':
            c.write(*path_of(c, p, (0, 0)), val=binop('Add', ty, lo, I(1)))
            return ret(c, Some(lo))
        if RNG[k] == 'incl':
            hi, ex = v.a[3], v.a[4]

            # lo <= hi and not exhausted; the exhausted flag is folded into lo = hi + 1 (mathematical integers)
            def yes(c2):
                c2.write(*path_of(c2, p, (0, 0)), val=binop('Add', ty, lo, I(1)))
                return lo
            return step(c, bnot(binop('Lt', ty, hi, lo)), yes)
    if k == 'it:rev':
        i = v.a[2]
        if i.k == 'A' and i.a[0] in RNG and RNG[i.a[0]] in ('range', 'incl'):
            ty = rangety(ca)
            lo, hi = i.a[2], i.a[3]
            if RNG[i.a[0]] == 'range':
                def yes(c2):
                    n = binop('Sub', ty, hi, I(1))
                    c2.write(*path_of(c2, p, (0, 0), (0, 1)), val=n)
                    return n
                return step(c, binop('Lt', ty, lo, hi), yes)

            def yes(c2):
                c2.write(*path_of(c2, p, (0, 0), (0, 1)), val=binop('Sub', ty, hi, I(1)))
                return hi
            return step(c, bnot(binop('Lt', ty, hi, lo)), yes)
        if i.k == 'A' and i.a[0] == ITER and i.a[1] == 0:
            c.write(*path_of(c, p), val=it(ap('rev', i.a[2])))
            return it_next(e, c, ca, args)
    if k == 'it:step':
        i = v.a[2]
        if i.k == 'A' and RNG.get(i.a[0]) == 'from':
            ty = rangety(ca)
            lo = i.a[2]
            c.write(*path_of(c, p, (0, 0), (0, 0)), val=binop('Add', ty, lo, v.a[3]))
            return ret(c, Some(lo))
        if i.k == 'A' and RNG.get(i.a[0]) == 'range':
            ty = rangety(ca)
            lo = i.a[2]

            def yes(c2):
                c2.write(*path_of(c2, p, (0, 0), (0, 0)), val=binop('Add', ty, lo, v.a[3]))
                return lo
            return step(c, binop('Lt', ty, lo, i.a[3]), yes)
    return NotImplemented


def rangety(ca):
    s = ca.dty['s']
    if s.startswith('core::option::Option<'):
        t = s[len('core::option::Option<'):-1]
        if t in W:
            return t
    g = ca.ga()
    for x in g:
        for t in W:
            if x['s'] == t or x['s'].endswith('<%s>' % t):
                return t
    return 'int'


def path_of(c, p, *es):
    if p.k == 'R':
        return p.a[0], p.a[1] + tuple(es)
    return ('D', p), tuple(es)


@model('core::ops::range::RangeInclusive::<Idx>::new')
def range_incl(e, c, ca, args):
    return ret(c, A('core::ops::range::RangeInclusive', 0, args[0], args[1], FALSE))


@model('core::ops::range::RangeInclusive::<Idx>::contains', 'core::ops::range::Range::<Idx>::contains')
def range_contains(e, c, ca, args):
    v = c.deep(args[0])
    g = ca.ga()
    ts = g[0]['s'] if g else '?'
    if v.k != 'A' or v.a[0] not in RNG or ts not in W:
        return NotImplemented
    x, lo, hi = c.deep(args[1]), c.deep(v.a[2]), c.deep(v.a[3])
    out = []
    below = binop('Lt', ts, x, lo)
    over = bnot(binop('Lt', ts, x, hi)) if v.a[0].endswith('::Range') else binop('Lt', ts, hi, x)
    for b in (1, 0):
        c2 = c.fork()
        if not c2.assume(below, b):
            continue
        c2.ev('branch', below, b)
        if b:
            out.append(('ret', c2, FALSE))
            continue
        for o in (1, 0):
            c3 = c2.fork()
            if c3.assume(over, o):
                c3.ev('branch', over, o)
                out.append(('ret', c3, I(1 - o)))
    return out


@model('core::slice::<impl [T]>::copy_within')
def copy_within(e, c, ca, args):
    v = c.deep(args[0])
    r = c.deep(args[1])
    c.ev('slice', v, 'copy_within', (r, args[2]), e.where(ca.fid, ca.block))
    c.setref(args[0], ap('copy_within', v, r, c.deep(args[2])))
    return ret(c, UNIT)


@model('core::slice::<impl [T]>::fill')
def slice_fill(e, c, ca, args):
    n = e.length(c, c.deep(args[0]))
    if n.k != 'I':
        return NotImplemented
    c.setref(args[0], mk('rep', c.deep(args[1]), n.a[0]))
    return ret(c, UNIT)


@model('core::slice::<impl [T]>::swap')
def slice_swap(e, c, ca, args):
    v, i, j = c.deep(args[0]), c.deep(args[1]), c.deep(args[2])
    for x in (i, j):
        ok = binop('Lt', 'usize', x, length(v))
        if c.known(ok) != 1:
            c.ev('assert', 'bounds', ok, (length(v), x), e.where(ca.fid, ca.block), False)
            if not c.assume(ok, 1):
                return []
    c.setref(args[0], upd(upd(v, i, sel(v, j)), j, sel(v, i)))
    return ret(c, UNIT)


# ---- queues and sets ------------------------------------------------------------------------------
@model('alloc::collections::vec_deque::VecDeque::<T>::with_capacity', 'alloc::collections::vec_deque::VecDeque::<T>::new')
def q_new(e, c, ca, args):
    return ret(c, ap('queue'))


def q_push(which):
    def m(e, c, ca, args):
        v = c.deref(args[0])
        c.ev('q', which, v, c.deep(args[1]), e.where(ca.fid, ca.block))
        c.setref(args[0], ap('q:' + which, v, args[1]))
        return ret(c, UNIT)
    return m


def q_pop(which):
    def m(e, c, ca, args):
        v = c.deref(args[0])
        z = binop('Eq', 'usize', length(v), I(0))

        def yes(c2):
            x = mk('r', 'q:' + which, (v,), ca.site)
            c2.ev('q', which, v, x, e.where(ca.fid, ca.block))
            c2.setref(args[0], ap('q:rest:' + which, v))
            return x
        return step(c, bnot(z), yes)
    return m


Q = 'alloc::collections::vec_deque::VecDeque::<T, A>::'
MODELS[Q + 'push_back'] = q_push('push_back')
MODELS[Q + 'push_front'] = q_push('push_front')
MODELS[Q + 'pop_front'] = q_pop('pop_front')
MODELS[Q + 'pop_back'] = q_pop('pop_back')


@model('std::collections::hash::set::HashSet::<T>::new')
def set_new(e, c, ca, args):
    return ret(c, ap('set'))


@model('std::collections::hash::set::HashSet::<T, S, A>::insert', 'std::collections::hash::set::HashSet::<T, S, A>::remove')
def set_insert(e, c, ca, args):
    op = ca.path.split('::')[-1]
    v = c.deref(args[0])
    x = c.deep(args[1])
    c.setref(args[0], ap('set:' + op, v, x))
    return ret(c, ap('set:contains', v, x))


@model('std::collections::hash::set::HashSet::<T, S, A>::contains')
def set_contains(e, c, ca, args):
    return ret(c, ap('set:contains', c.deep(args[0]), c.deep(args[1])))


@model('std::collections::hash::set::HashSet::<T, S, A>::get')
def set_get(e, c, ca, args):
    # Some(the equal element) exactly if the set contains it
    has = ap('set:contains', c.deep(args[0]), c.deep(args[1]))
    out = []
    for v in (0, 1):
        c2 = c.fork()
        if c2.assume(has, v):
            c2.ev('branch', has, v)
            out.append(('ret', c2, Some(ap('set:element', c2.deep(args[0]), c2.deep(args[1]))) if v else NONE))
    return out


# ---- formatting ------------------------------------------------------------------------------------
@model('core::fmt::Arguments::<\'a>::new')
def fmt_args(e, c, ca, args):
    return ret(c, A('fmtargs', 0, c.deep(args[0]), c.deref(args[1])))


@model('core::fmt::Arguments::<\'a>::from_str', 'core::fmt::Arguments::<\'a>::from_str_nonconst')
def fmt_args_str(e, c, ca, args):
    return ret(c, A('fmtargs', 1, c.deep(args[0])))


def new_arg(kind):
    def m(e, c, ca, args):
        g = ca.ga()
        return ret(c, A('fmtarg', 0, mk('txt', kind), args[0], mk('ty', g[-1]['s'] if g else '?')))
    return m


for k in ('display', 'debug', 'upper_hex', 'lower_hex', 'binary', 'octal', 'pointer', 'lower_exp'):
    MODELS['core::fmt::rt::Argument::<\'_>::new_' + k] = new_arg(k)


def decode_template(t):
    """[bytes | (argindex, plain)]"""
    out, i, n = [], 0, 0
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(bytes(t[i:i + b]))
            i += b
        elif b == 0x80:
            l = t[i] | t[i + 1] << 8
            i += 2
            out.append(bytes(t[i:i + l]))
            i += l
        elif b == 0xc0:
            out.append((n, True))
            n += 1
        else:
            plain = b & 7 == 0 and b & 48 == 0
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                n = t[i] | t[i + 1] << 8
                i += 2
            out.append((n, plain))
            n += 1
    return out


STRTY = ('str', 'alloc::string::String', 'alloc::borrow::Cow<\'_, str>', 'alloc::boxed::Box<str>')


def display_body(e, ty):
    t = ty
    while t.startswith('&'):
        t = t.lstrip('&')
        if t.startswith("'"):
            t = t.split(' ', 1)[1]
        if t.startswith('mut '):
            t = t[4:]
    q = '<%s as core::fmt::Display>::fmt' % t
    if q in e.w.bodies:
        return t, e.w.bodies[q]
    base = t.split('<')[0]
    if not hasattr(e, '_disp'):
        e._disp = {}
        for pr in e.w.progs:
            for im in pr.impls:
                if im['tr'] == 'core::fmt::Display':
                    for x in im['items']:
                        if x in e.w.bodies:
                            e._disp[im['self'].split('<')[0]] = e.w.bodies[x]
    return t, e._disp.get(base)


def peel(c, ty, p):
    """ty with its leading references removed, and p dereferenced as many times."""
    while ty.startswith('&'):
        p = c.deref(p)
        ty = ty[1:]
        if ty.startswith("'"):
            ty = ty.split(' ', 1)[1]
        if ty.startswith('mut '):
            ty = ty[4:]
    if ty.startswith('dyn ') and dyn_of(p):
        return peel(c, dyn_of(p), p)
    return ty, p


def leaf(t, v):
    v = bytesval(v)
    if t in STRTY:
        return v
    if v.k == 'I' and t in W and t not in ('bool', 'char'):
        return S(str(v.a[0]).encode())
    if v.k == 'I' and t == 'char':
        return S(chr(v.a[0]).encode())
    return ap('disp', mk('ty', t), v)


@model('core::fmt::Formatter::<\'a>::write_fmt', 'core::fmt::Write::write_fmt', 'core::fmt::write')
def write_fmt(e, c, ca, args):
    f, a = args[0], args[1]
    if a.k == 'R':
        a = c.deref(a)
    if a.k != 'A' or a.a[0] != 'fmtargs':
        append(c, f, ap('fmt?', c.deep(a)))
        return ret(c, Ok(UNIT))
    if a.a[1] == 1:
        append(c, f, a.a[2])
        return ret(c, Ok(UNIT))
    t = a.a[2]
    arr = a.a[3]
    tb = bytesval(t)
    if tb.k != 'S':
        append(c, f, ap('fmt?', c.deep(a)))
        return ret(c, Ok(UNIT))
    # a Formatter that forwards to f
    cell = ('T', ca.fid, 'fmtr', ca.block)
    fv = c.deref(f)
    if fv.k == 'A' and fv.a[0] == 'fmtr':
        fp = f
    else:
        c.store[cell] = A('fmtr', 0, f)
        fp = mk('R', cell, (), 'm')
    frames = []
    pend = []
    for pc in decode_template(tb.a[0]):
        if isinstance(pc, bytes):
            x = S(pc)
        else:
            fa = proj(arr, ('ix', I(pc[0])))
            if fa.k == 'R':
                fa = c.deref(fa)
            kind, p, ty = fa.a[2].a[0], fa.a[3], fa.a[4].a[0]
            if kind == 'display' and pc[1]:
                ty, p = peel(c, ty, p)
                t, b = display_body(e, ty)
                if b is not None:
                    frames.append((b, p))
                    continue
                # generic T: dispatch on the value
                v = c.deep(p)
                u = v
                while u.k == 'U':
                    u = u.a[0]
                if u.k == 'A' and isinstance(u.a[0], str):
                    t2, b = display_body(e, u.a[0])
                    if b is not None:
                        frames.append((b, p))
                        continue
                x = leaf(t, v)
            else:
                x = ap('fmt:' + kind + ('' if pc[1] else ':opts'), c.deep(p))
        frames.append(x)
    if all(isinstance(x, Term) for x in frames):
        for x in frames:
            append(c, f, x)
        return ret(c, Ok(UNIT))
    fl = []
    for x in frames:
        if isinstance(x, Term):
            fl.append((e.w.bodies['models::fmt_piece'], [fp, A('lit', 0, x)]))
        else:
            fl.append((x[0], [x[1], fp]))
    return [('frames', c, Ok(UNIT), fl)]


@model('core::fmt::Formatter::<\'a>::write_str', 'core::fmt::Write::write_str')
def write_str(e, c, ca, args):
    append(c, args[0], c.deep(args[1]))
    return ret(c, Ok(UNIT))


@model('core::fmt::Formatter::<\'a>::write_char', 'core::fmt::Write::write_char')
def write_char(e, c, ca, args):
    x = args[1]
    append(c, args[0], S(chr(x.a[0]).encode()) if x.k == 'I' else ap('char', x))
    return ret(c, Ok(UNIT))


@model('core::fmt::Display::fmt', 'core::fmt::Formatter::<\'a>::pad')
def disp_fmt(e, c, ca, args):
    if ca.p.endswith('pad'):
        append(c, args[0], c.deep(args[1]))
        return ret(c, Ok(UNIT))
    g = ca.ga()
    ty = g[0]['s'] if g else '?'
    v = args[0]
    d = c.deref(v)
    if d.k == 'A' and d.a[0] == 'lit':
        append(c, args[1], d.a[2])
        return ret(c, Ok(UNIT))
    ty, v = peel(c, ty, v)
    t, b = display_body(e, ty)
    if b is not None:
        return e.push(c, ca, b, [v] + args[1:])
    dv = c.deep(v)
    u = dv
    while u.k == 'U':
        u = u.a[0]
    if u.k == 'A' and isinstance(u.a[0], str):
        t2, b = display_body(e, u.a[0])
        if b is not None:
            return e.push(c, ca, b, [v] + args[1:])
    append(c, args[1], leaf(t, dv))
    return ret(c, Ok(UNIT))


@model('alloc::string::ToString::to_string')
def to_string(e, c, ca, args):
    g = ca.ga()
    ty = (g[0]['s'] if g else '?').lstrip('&')
    if ty in STRTY:
        return ret(c, c.deep(args[0]))
    cell = ('T', ca.fid, 'ts', ca.block)
    t, b = display_body(e, ty)
    if b is None:
        return ret(c, leaf(t, c.deep(args[0])))
    if getattr(ca, 'dest', None) is None:
        return e.push(c, ca, e.w.bodies['models::to_string'], args)
    # the Display implementation writes to the string the call yields
    ty2, p = peel(c, g[0]['s'], args[0])
    c.store[cell] = A('fmtr', 0, mk('R', ca.dest[0], ca.dest[1], 'm'))
    return [('frames', c, S(b''), [(b, [p, mk('R', cell, (), 'm')])])]


def fmt_opaque(e, c, ca, args):
    return ret(c, Ok(UNIT) if ca.dty['s'].startswith('core::result') else ap(ca.path, *[c.deep(a) for a in args[1:]]))


# ---- tracing: disabled (a diagnostic has no effect on the state the rules speak about) ---------------
def level_le(e, c, ca, args):
    if 'tracing_core' not in ca.path:
        return NotImplemented
    if e.opts.get('trace'):
        return ret(c, mk('r', 'tracing-enabled', (), ca.site))
    return ret(c, FALSE)


MODELS['core::cmp::PartialOrd::le'] = level_le


def tracing_pure(e, c, ca, args):
    """Diagnostics: no effect on program state; the arguments have been evaluated already."""
    return ret(c, mk('r', ca.path, (), ca.site))


# ---- tasks, channels, futures -----------------------------------------------------------------------
def fut(name):
    def m(e, c, ca, args):
        return ret(c, A(FUT + name, 0, *args))
    return m


FUTS = {
    'tokio::net::tcp::stream::TcpStream::connect': 'tcp_connect',
    'tokio::net::tcp::stream::TcpStream::readable': 'readable',
    'tokio::net::tcp::stream::TcpStream::writable': 'writable',
    'tokio::net::tcp::stream::TcpStream::ready': 'ready',
    'tokio::sync::mpsc::bounded::Receiver::<T>::recv': 'recv',
    'tokio::sync::mpsc::bounded::Sender::<T>::send': 'mpsc_send',
    'tokio::sync::mpsc::bounded::Sender::<T>::reserve': 'mpsc_reserve',
    'tokio::sync::mpsc::bounded::Sender::<T>::reserve_owned': 'mpsc_reserve',
    'tokio::sync::mpsc::unbounded::UnboundedReceiver::<T>::recv': 'recv',
    'tokio::sync::watch::Receiver::<T>::changed': 'changed',
    'tokio::sync::watch::Receiver::<T>::wait_for': 'wait_for',
    'tokio::io::util::async_read_ext::AsyncReadExt::read_buf': 'read_buf',
    'tokio::io::util::async_read_ext::AsyncReadExt::read': 'read',
    'tokio::io::util::async_write_ext::AsyncWriteExt::write_all': 'write_all',
    'tokio::io::util::async_write_ext::AsyncWriteExt::write': 'write',
    'tokio::io::util::async_write_ext::AsyncWriteExt::flush': 'flush',
    'tokio::io::util::async_write_ext::AsyncWriteExt::shutdown': 'shutdown',
    'tokio::io::util::async_buf_read_ext::AsyncBufReadExt::read_line': 'read_line',
    'tokio::future::poll_fn::poll_fn': 'poll_fn',
    'core::future::poll_fn::poll_fn': 'poll_fn',
    'core::future::ready::ready': 'ready_now',
    'tokio::time::timeout::timeout': 'timeout',
    'tokio::time::sleep::sleep': 'sleep',
    'tokio::time::driver::sleep::sleep': 'sleep',
    'tokio::time::driver::sleep::sleep_until': 'sleep',
    'tokio::time::sleep::sleep_until': 'sleep',
    'tokio::task::yield_now::yield_now': 'yield_now',
}
for k, v in FUTS.items():
    MODELS[k] = fut(v)


def completions(e, c, ca, name, v, fv):
    """Outcomes of a library future that completes: [(ctx, value)]."""
    args = v.a[2:]
    dargs = tuple(c.deep(a) for a in args)
    where = e.where(ca.fid, ca.block)

    def R_(tag, *x):
        return mk('r', name + ':' + tag, dargs + tuple(x), ca.site)

    out = []

    def done(res, evres=None, f=None):
        c2 = c.fork()
        byhand(e, c2, ca, 'had')
        if f:
            f(c2)
        c2.ev('io', name, dargs, res, where)
        out.append((c2, res))

    if name in ('readable', 'writable', 'changed', 'flush', 'shutdown', 'ready'):
        done(Ok(UNIT if name != 'ready' else R_('ok')))
        done(Err(R_('err')))
    elif name == 'tcp_connect':
        done(Ok(R_('ok')))
        done(Err(R_('err')))
    elif name == 'recv':
        done(Some(R_('msg')))
        done(NONE)
    elif name == 'mpsc_reserve':
        done(Ok(ap('permit', dargs[0])))
        done(Err(R_('err')))
    elif name in ('mpsc_send', 'write_all'):
        done(Ok(UNIT))
        done(Err(R_('err')))
    elif name == 'write':
        done(Ok(R_('n')))
        done(Err(R_('err')))
    elif name == 'read_buf':
        chunk = R_('chunk')
        done(Ok(ap('len', chunk)), f=lambda c2: append(c2, args[1], chunk))
        done(Err(R_('err')))
    elif name == 'read':
        chunk = R_('chunk')
        done(Ok(ap('len', chunk)), f=lambda c2: overlay(c2, args[1], chunk))
        done(Err(R_('err')))
    elif name == 'read_line':
        done(Ok(R_('n')), f=lambda c2: append(c2, args[1], R_('line')))
        done(Err(R_('err')))
    elif name == 'wait_for':
        done(Ok(R_('ok')))
        done(Err(R_('err')))
    elif name == 'ready_now':
        out.append((c, v.a[2]))
    elif name in ('sleep', 'yield_now'):
        done(UNIT)
    elif name == 'timeout':
        x = args[1]
        # what is given up may have written some of its bytes
        cut = x.k == 'A' and x.a[0] == FUT + 'write_all'
        done(Err(R_('elapsed')), f=lambda c2: c2.ev('io', 'write', tuple(c2.deep(y) for y in x.a[2:]), Ok(R_('some')), where) if cut else None)
        if x.k == 'A' and isinstance(x.a[0], str) and x.a[0].startswith(FUT) and x.a[0] != FUT + 'poll_fn':
            out += [(c2, Ok(y)) for c2, y in completions(e, c, ca, x.a[0][len(FUT):], x, fv)]
        else:
            done(Ok(R_('out')))
    else:
        done(R_('out'))
    return out


def byhand(e, c, ca, what):
    """Inside a coroutine that may be given up: what is held outside it before something is taken ('had') or
    waited for ('kept')."""
    k = e.kept(c, ca.fid)
    if k is not None:
        c.ev(what, *k)


@model('core::future::future::Future::poll')
def poll(e, c, ca, args):
    p = args[0]
    v = c.deref(p)
    n = 0
    while v.k == 'R' and n < 6:
        p, v = v, c.deref(v)
        n += 1
    manual = e.is_manual(ca)
    if is_cor(v):
        b = v
        while b.k == 'U':
            b = b.a[0]
        body = e.w.bodies.get(b.a[0][1])
        if body is not None:
            return e.push(c, ca, body, [p] + args[1:], manual and AWAIT not in ca.sp[2])
    if v.k == 'A' and isinstance(v.a[0], str) and v.a[0].startswith(FUT):
        name = v.a[0][len(FUT):]
        if name == 'poll_fn':
            return e.apply(c, ca, v.a[2], [args[1]], None, True)
        out = [('ret', c2, Ready(x)) for c2, x in completions(e, c, ca, name, v, p)]
        if manual:
            c2 = c.fork()
            byhand(e, c2, ca, 'kept')
            c2.ev('pending', name, tuple(c.deep(a) for a in v.a[2:]), e.where(ca.fid, ca.block))
            out.append(('ret', c2, PENDING))
        return out
    if v.k == 'ap' and v.a[0] == 'rx':
        ch = v.a[1]
        out = []
        where = e.where(ca.fid, ca.block)
        for res in (Ok(mk('r', 'oneshot:msg', (ch,), ca.site)), Err(mk('r', 'oneshot:closed', (ch,), ca.site))):
            c2 = c.fork()
            byhand(e, c2, ca, 'had')
            c2.ev('io', 'oneshot_recv', (v,), res, where)
            out.append(('ret', c2, Ready(res)))
        if manual:
            c2 = c.fork()
            byhand(e, c2, ca, 'kept')
            c2.ev('pending', 'oneshot_recv', (v,), where)
            out.append(('ret', c2, PENDING))
        return out
    if ca.path in e.w.bodies and e.w.bodies[ca.path].kind != 'coroutine':
        return NotImplemented
    # dispatch of a local Future impl on the value
    if ca.info is not None:
        b = e.dispatch(c, ca, [p])
        if b is not None:
            return e.push(c, ca, b, [p] + args[1:], manual)
    # an unknown future: some result, when ready
    rty = ca.dty
    dv = c.deep(v)
    out = []
    where = e.where(ca.fid, ca.block)
    ty = ca.dty['s']
    if 'Poll<core::result::Result<' in ty:
        rs = [Ok(mk('r', 'poll:ok', (dv,), ca.site)), Err(mk('r', 'poll:err', (dv,), ca.site))]
    else:
        rs = [mk('r', 'poll:out', (dv,), ca.site)]
    for res in rs:
        c2 = c.fork()
        c2.ev('io', 'future', (dv,), res, where)
        out.append(('ret', c2, Ready(res)))
    if manual:
        c2 = c.fork()
        byhand(e, c2, ca, 'kept')
        c2.ev('pending', 'future', (dv,), where)
        out.append(('ret', c2, PENDING))
    return out


@model('tokio::task::spawn::spawn', 'tokio::runtime::handle::Handle::spawn', 'tokio::task::local::spawn_local')
def spawn(e, c, ca, args):
    f = c.deep(args[0])
    c.ev('spawn', f, e.where(ca.fid, ca.block))
    return ret(c, mk('r', 'spawn', (f,), ca.site))


@model("tokio::sync::mpsc::bounded::Permit::<'_, T>::send", "tokio::sync::mpsc::bounded::Permit::<'a, T>::send", 'tokio::sync::mpsc::bounded::OwnedPermit::<T>::send')
def permit_send(e, c, ca, args):
    """Room was waited for before: the value is sent now."""
    p = c.deep(args[0])
    if p.k != 'ap' or p.a[0] != 'permit':
        return NotImplemented
    c.ev('io', 'mpsc_send', (p.a[1], c.deep(args[1])), Ok(UNIT), e.where(ca.fid, ca.block))
    return ret(c, p.a[1] if 'Owned' in ca.path else UNIT)


def chan(kind):
    def m(e, c, ca, args):
        ch = mk('r', kind + '_channel', tuple(c.deep(a) for a in args), ca.site)
        c.ev('chan', kind, ch, e.where(ca.fid, ca.block))
        return ret(c, tup(ap('tx', ch), ap('rx', ch)))
    return m


MODELS['tokio::sync::mpsc::bounded::channel'] = chan('mpsc')
MODELS['tokio::sync::oneshot::channel'] = chan('oneshot')
MODELS['tokio::sync::watch::channel'] = chan('watch')


@model('tokio::sync::watch::Sender::<T>::subscribe')
def w_subscribe(e, c, ca, args):
    # a receiver of the same channel, which has seen its present value
    tx = c.deep(args[0])
    return ret(c, ap('rx', tx.a[1]) if tx.k == 'ap' and tx.a[0] == 'tx' else ap('rx', ap('of', tx)))


@model('tokio::sync::oneshot::Sender::<T>::send')
def os_send(e, c, ca, args):
    tx = c.deep(args[0])
    x = c.deep(args[1])
    res = mk('r', 'oneshot_send', (tx, x), ca.site)
    c.ev('io', 'oneshot_send', (tx, x), res, e.where(ca.fid, ca.block))
    return ret(c, res)


@model('tokio::sync::watch::Sender::<T>::send_replace', 'tokio::sync::watch::Sender::<T>::send')
def w_send(e, c, ca, args):
    tx = c.deep(args[0])
    x = c.deep(args[1])
    n = ca.path.split('::')[-1]
    res = mk('r', 'watch_' + n, (tx, x), ca.site)
    c.ev('io', 'watch_' + n, (tx, x), res, e.where(ca.fid, ca.block))
    return ret(c, res)


@model('tokio::sync::watch::Receiver::<T>::borrow', 'tokio::sync::watch::Receiver::<T>::borrow_and_update')
def w_borrow(e, c, ca, args):
    n = ca.path.split('::')[-1]
    rx = c.deep(args[0])
    res = mk('r', 'watch_value', (rx,), ca.site)
    c.ev('io', 'watch_' + n, (rx,), res, e.where(ca.fid, ca.block))
    return ret(c, A('guard', 0, res))


@model('<tokio::sync::watch::Ref<\'_, T> as core::ops::deref::Deref>::deref')
def w_ref(e, c, ca, args):
    return ret(c, c.sub(args[0], (0, 0)) if args[0].k == 'R' else proj(args[0], (0, 0)))


def overlay(c, p, chunk):
    """A slice whose beginning was overwritten by what was read."""
    v = c.deep(p)
    while v.k == 'ap' and v.a[0] == 'overlay':
        v = v.a[1]
    c.setref(p, ap('overlay', v, chunk))


@model('tokio::net::tcp::stream::TcpStream::try_read')
def try_read(e, c, ca, args):
    s, b = c.deep(args[0]), c.deep(args[1])
    chunk = mk('r', 'try_read:chunk', (s, b), ca.site)
    where = e.where(ca.fid, ca.block)
    c1 = c.fork()
    overlay(c1, args[1], chunk)
    ok = Ok(ap('len', chunk))
    c1.ev('io', 'try_read', (s, b), ok, where)
    c2 = c.fork()
    er = Err(mk('r', 'try_read:err', (s,), ca.site))
    c2.ev('io', 'try_read', (s, b), er, where)
    return [('ret', c1, ok), ('ret', c2, er)]


@model('tokio::net::tcp::stream::TcpStream::try_read_buf')
def try_read_buf(e, c, ca, args):
    s, b = c.deep(args[0]), c.deep(args[1])
    chunk = mk('r', 'try_read_buf:chunk', (s, b), ca.site)
    where = e.where(ca.fid, ca.block)
    c1 = c.fork()
    append(c1, args[1], chunk)
    ok = Ok(ap('len', chunk))
    c1.ev('io', 'try_read_buf', (s, b), ok, where)
    c2 = c.fork()
    er = Err(mk('r', 'try_read_buf:err', (s,), ca.site))
    c2.ev('io', 'try_read_buf', (s, b), er, where)
    return [('ret', c1, ok), ('ret', c2, er)]


@model('core::io::error::Error::kind', 'std::io::error::Error::kind')
def err_kind(e, c, ca, args):
    return ret(c, ap('kind', c.deep(args[0])))


@model('alloc::io::error::<impl core::io::error::Error>::new', 'std::io::error::Error::new', 'core::io::error::Error::new')
def err_new(e, c, ca, args):
    return ret(c, ap('io_error', c.deep(args[0]), c.deep(args[1])))


# ---- nom --------------------------------------------------------------------------------------------
NOMCTOR = ('nom::',)


def is_parser(t):
    return t.k == 'ap' and isinstance(t.a[0], str) and t.a[0].startswith('nom::')


def fn_mentions(w, t):
    """Function paths a parser term can run."""
    out = set()
    for x in subterms(t):
        if x.k == 'fn':
            out.add(x.a[0])
            out |= w.mentions(x.a[0])
        elif x.k == 'A' and isinstance(x.a[0], tuple) and x.a[0][0] == 'clo':
            out |= w.mentions(x.a[0][1])
        elif x.k == 'ap':
            out.add(x.a[0])
    return out


ERR = 'nom::internal::Err'


def parse_outcomes(e, c, ca, p, d, where):
    ms = fn_mentions(e.w, p)
    kinds = [('Error', 1)]
    if any('::streaming::' in m or m.startswith('nom::multi::length_') for m in ms):
        kinds.append(('Incomplete', 0))
    if any(m.endswith('::cut') for m in ms):
        kinds.append(('Failure', 2))
    out = []
    c1 = c.fork()
    ok = Ok(tup(ap('rest', p, d), ap('out', p, d)))
    c1.ev('parse', p, d, ok, where)
    out.append(('ret', c1, ok))
    for n, v in kinds:
        c2 = c.fork()
        er = Err(A(ERR, v, ap('perr', p, d) if v else ap('needed', p, d)))
        c2.ev('parse', p, d, er, where)
        out.append(('ret', c2, er))
    return out


@model('apply')
def apply_parser(e, c, ca, f, args):
    if is_parser(f) and len(args) == 1:
        return parse_outcomes(e, c, ca, f, c.deep(args[0]), e.where(ca.fid, ca.block))
    if f.k in ('Y', 'F') and e.opts.get('symfn'):
        return ret(c, ap('call', c.deep(f), *[c.deep(a) for a in args]))
    return NotImplemented


@model('nom::internal::Parser::parse')
def parser_parse(e, c, ca, args):
    return e.apply(c, ca, args[0], [args[1]])


def direct_nom(names):
    """nom functions that are parsers themselves: f(data)."""
    def m(e, c, ca, args):
        if len(args) == 1:
            return parse_outcomes(e, c, ca, ap(ca.path), c.deep(args[0]), e.where(ca.fid, ca.block))
        return NotImplemented
    return m


for mod in ('streaming', 'complete'):
    for n in ('be_u8', 'le_u8', 'le_u16', 'le_u32', 'be_u16', 'be_u32', 'u8'):
        MODELS['nom::number::%s::%s' % (mod, n)] = direct_nom(n)
    for n in ('digit0', 'digit1', 'alpha1', 'alphanumeric1', 'space0', 'space1', 'crlf', 'newline'):
        MODELS['nom::character::%s::%s' % (mod, n)] = direct_nom(n)
MODELS['nom::combinator::rest'] = direct_nom('rest')


@model('nom::combinator::fail')
def nom_fail(e, c, ca, args):
    return ret(c, Err(A(ERR, 1, ap('perr', ap('nom::combinator::fail'), c.deep(args[0])))))



@model('nom::internal::Err::<E>::is_incomplete')
def is_incomplete(e, c, ca, args):
    v = c.deref(args[0])
    d = discr_term(e.w, v)
    return ret(c, binop('Eq', 'isize', d, I(0)))


@model('nom::internal::Err::<E>::map')
def nom_err_map(e, c, ca, args):
    v = args[0]
    if v.k == 'A' and v.a[0] == ERR:
        if v.a[1] == 0:
            return ret(c, v)
        return ret(c, A(ERR, v.a[1], ap('map_err', c.deep(args[1]), v.a[2])))
    return ret(c, ap('nom::internal::Err::map', c.deep(v), c.deep(args[1])))


@model('<core::result::Result<(I, O), nom::internal::Err<E>> as nom::internal::Finish<I, O, E>>::finish', 'nom::internal::Finish::finish')
def finish(e, c, ca, args):
    v = args[0]
    if v.k == 'A' and v.a[0] == RES:
        if v.a[1] == 0:
            return ret(c, v)
        x = v.a[2]
        if x.k == 'A' and x.a[0] == ERR:
            if x.a[1] == 0:
                c.ev('panic', 'nom::Finish::finish on Incomplete', (c.deep(x),), e.where(ca.fid, ca.block))
                return [('term', c, 'panic')]
            return ret(c, Err(x.a[2]))
    return NotImplemented


@model('<nom::internal::Err<nom::error::Error<&[u8]>>>::to_owned', 'nom::internal::Err::<nom::error::Error<&[u8]>>::to_owned')
def nom_to_owned(e, c, ca, args):
    v = args[0]
    if v.k == 'R':
        v = c.deref(v)
    return ret(c, v)


# std::str::from_utf8: fails or returns the same bytes as str
@model('core::str::converts::from_utf8', 'alloc::string::String::from_utf8')
def from_utf8(e, c, ca, args):
    v = c.deep(args[0])
    t = ap('is_utf8', v)
    out = []
    for b in (1, 0):
        c2 = c.fork()
        if c2.assume(t, b):
            c2.ev('branch', t, b)
            out.append(('ret', c2, Ok(args[0]) if b else Err(ap('utf8_error', v))))
    return out


def radix(e, c, ca, args):
    ty = ca.path.split('<impl ')[1].split('>')[0]
    s, r = c.deep(args[0]), c.deep(args[1])
    t = ap('is_number', mk('ty', ty), s, r)
    out = []
    for b in (1, 0):
        c2 = c.fork()
        if c2.assume(t, b):
            c2.ev('branch', t, b)
            out.append(('ret', c2, Ok(ap('number', mk('ty', ty), s, r)) if b else Err(ap('number_error', mk('ty', ty), s, r))))
    return out


for ty in W:
    MODELS['core::num::<impl %s>::from_str_radix' % ty] = radix


@model('core::str::<impl str>::parse')
def str_parse(e, c, ca, args):
    g = ca.ga()
    ty = g[-1]['s'] if g else '?'
    if ty not in W or ty in ('bool', 'char'):
        return NotImplemented
    ca2 = ca
    s = c.deep(args[0])
    t = ap('is_number', mk('ty', ty), s, I(10))
    out = []
    for b in (1, 0):
        c2 = c.fork()
        if c2.assume(t, b):
            c2.ev('branch', t, b)
            out.append(('ret', c2, Ok(ap('number', mk('ty', ty), s, I(10))) if b else Err(ap('number_error', mk('ty', ty), s, I(10)))))
    return out


MODELS['*'] = [
    ('core::convert::num', intconv), ('tracing', tracing_pure), ('<tracing', tracing_pure), ('core::fmt::builders', fmt_opaque), ('core::fmt::Formatter', fmt_opaque), ('core::fmt::Debug', fmt_opaque),
]


# ---- roots ------------------------------------------------------------------------------------------
def root(e, body, args=None, manual=False):
    fid = e.frame(None, body, None, manual)
    c = Ctx(e, [[fid, 0, None]], {}, {}, {})
    for i in range(body.argc):
        if args is not None and i < len(args) and args[i] is not None:
            c.store[(fid, i + 1)] = args[i]
        else:
            c.store[(fid, i + 1)] = mk('Y', body.locals[i + 1][1] or 'arg%d' % i)
    return c


def root_cor(e, value):
    """Analyse a coroutine value (an async block with its captures) from its start."""
    b = value
    while b.k == 'U':
        b = b.a[0]
    body = e.w.bodies[b.a[0][1]]
    fid = e.frame(None, body, None, False)
    c = Ctx(e, [[fid, 0, None]], {}, {}, {})
    cell = ('G', body.path)
    c.store[cell] = value
    c.store[(fid, 1)] = mk('R', cell, (), 'm')
    c.store[(fid, 2)] = mk('Y', 'cx')
    return c


@model('tokio::util::rand::thread_rng_n', 'tokio::macros::support::thread_rng_n')
def _(e, c, ca, args):
    """The branch a select looks at first."""
    n = args[0]
    if n.k != 'I' or not 0 < n.a[0] <= 4:
        return NotImplemented
    r = []
    for k in range(n.a[0]):
        r += ret(c.fork(), I(k))
    return r
