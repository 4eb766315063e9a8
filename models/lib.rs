//! Reference semantics of the small library functions the analysed code is built from.  These are
//! never executed: the driver lowers them to MIR and the analysis inlines them at call sites.
#![allow(dead_code, unused, clippy::all)]
use core::ops::ControlFlow;
use core::task::Poll;

// ---- Option
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, e: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e()) } }
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, d: F) -> T { match o { Some(x) => x, None => d() } }
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn option_or<T>(o: Option<T>, d: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => d } }
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, d: F) -> Option<T> { match o { Some(x) => Some(x), None => d() } }
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn option_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn option_as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn option_copied<'a, T: Copy>(o: Option<&'a T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn option_expect<T>(o: Option<T>) -> T { match o { Some(x) => x, None => unwrap_failed() } }
pub fn option_branch<T>(o: Option<T>) -> ControlFlow<Option<core::convert::Infallible>, T> { match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) } }
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> { core::mem::replace(o, None) }
pub fn option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { core::mem::replace(o, Some(v)) }
pub fn option_insert<T>(o: &mut Option<T>, v: T) { *o = Some(v) }
pub fn option_unzip_none() {}

// ---- Result
pub fn result_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn result_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn result_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn result_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn result_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn result_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn result_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn result_expect<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => unwrap_failed() } }
pub fn result_expect_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => unwrap_failed(), Err(e) => e } }
pub fn result_as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn result_as_mut<T, E>(o: &mut Result<T, E>) -> Result<&mut T, &mut E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn result_branch<T, E>(o: Result<T, E>) -> ControlFlow<Result<core::convert::Infallible, E>, T> { match o { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) } }
pub fn result_from_residual<T, E, F: From<E>>(r: Result<core::convert::Infallible, E>) -> Result<T, F> { match r { Ok(_) => loop {}, Err(e) => Err(From::from(e)) } }
pub fn result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn result_is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
pub fn unwrap_failed() -> ! { panic!() }

// ---- Poll / bool
pub fn poll_is_ready<T>(p: &Poll<T>) -> bool { match p { Poll::Ready(_) => true, Poll::Pending => false } }
pub fn poll_is_pending<T>(p: &Poll<T>) -> bool { match p { Poll::Ready(_) => false, Poll::Pending => true } }
pub fn poll_map<T, U, F: FnOnce(T) -> U>(p: Poll<T>, f: F) -> Poll<U> { match p { Poll::Ready(x) => Poll::Ready(f(x)), Poll::Pending => Poll::Pending } }
pub fn not_eq<A, B, F: Fn(A, B) -> bool>(a: A, b: B, f: F) -> bool { !f(a, b) }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }

// ---- iterators
pub struct MapIt<I, F> { pub i: I, pub f: F }
pub fn map_next<B, I: Iterator, F: FnMut(I::Item) -> B>(m: &mut MapIt<I, F>) -> Option<B> { match m.i.next() { Some(x) => Some((m.f)(x)), None => None } }
pub struct Enumerate<I> { pub i: I, pub n: usize }
pub fn enumerate_next<I: Iterator>(m: &mut Enumerate<I>) -> Option<(usize, I::Item)> { match m.i.next() { Some(x) => { let n = m.n; m.n = n.wrapping_add(1); Some((n, x)) }, None => None } }
pub struct Zip<I, J> { pub i: I, pub j: J }
pub fn zip_next<I: Iterator, J: Iterator>(m: &mut Zip<I, J>) -> Option<(I::Item, J::Item)> { match m.i.next() { Some(x) => match m.j.next() { Some(y) => Some((x, y)), None => None }, None => None } }
pub struct Filter<I, F> { pub i: I, pub f: F }
pub fn filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(m: &mut Filter<I, F>) -> Option<I::Item> { loop { match m.i.next() { Some(x) => if (m.f)(&x) { return Some(x) }, None => return None } } }
pub struct TakeIt<I> { pub i: I, pub n: usize }
pub fn take_next<I: Iterator>(m: &mut TakeIt<I>) -> Option<I::Item> { if m.n == 0 { None } else { m.n = m.n.wrapping_sub(1); m.i.next() } }
pub struct Chain<I, J> { pub i: Option<I>, pub j: J }
pub fn chain_next<I: Iterator, J: Iterator<Item = I::Item>>(m: &mut Chain<I, J>) -> Option<I::Item> {
    if let Some(i) = &mut m.i { match i.next() { Some(x) => return Some(x), None => {} } m.i = None; }
    m.j.next()
}
pub fn iter_fold<A, I: Iterator, F: FnMut(A, I::Item) -> A>(mut i: I, a: A, mut f: F) -> A { let mut a = a; loop { match i.next() { Some(x) => a = f(a, x), None => return a } } }
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut i: I, mut f: F) { loop { match i.next() { Some(x) => f(x), None => return } } }
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { loop { match i.next() { Some(x) => if f(x) { return true }, None => return false } } }
pub fn str_any<I: Iterator, F: FnMut(I::Item) -> bool>(mut i: I, mut f: F) -> bool { loop { match i.next() { Some(x) => if f(x) { return true }, None => return false } } }
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool { loop { match i.next() { Some(x) => if !f(x) { return false }, None => return true } } }
pub fn iter_collect_vec<I: Iterator>(mut i: I) -> Vec<I::Item> { let mut v = Vec::new(); loop { match i.next() { Some(x) => v.push(x), None => return v } } }
pub fn iter_extend_vec<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut i: I) { loop { match i.next() { Some(x) => v.push(x), None => return } } }
pub fn option_extend_vec<T>(v: &mut Vec<T>, o: Option<T>) { match o { Some(x) => v.push(x), None => {} } }
pub fn iter_count<I: Iterator>(mut i: I) -> usize { let mut n = 0usize; loop { match i.next() { Some(_) => n = n.wrapping_add(1), None => return n } } }

pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> { loop { match i.next() { Some(x) => if f(&x) { return Some(x) }, None => return None } } }
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(i: &mut I, mut f: F) -> Option<B> { loop { match i.next() { Some(x) => if let Some(y) = f(x) { return Some(y) }, None => return None } } }
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> { let mut n = 0usize; loop { match i.next() { Some(x) => { if f(x) { return Some(n) } n = n.wrapping_add(1) }, None => return None } } }
pub fn iter_try_fold_result<I: Iterator, A, E, F: FnMut(A, I::Item) -> Result<A, E>>(i: &mut I, a: A, mut f: F) -> Result<A, E> { let mut a = a; loop { match i.next() { Some(x) => match f(a, x) { Ok(y) => a = y, Err(e) => return Err(e) }, None => return Ok(a) } } }
pub fn iter_try_fold_option<I: Iterator, A, F: FnMut(A, I::Item) -> Option<A>>(i: &mut I, a: A, mut f: F) -> Option<A> { let mut a = a; loop { match i.next() { Some(x) => match f(a, x) { Some(y) => a = y, None => return None }, None => return Some(a) } } }
pub fn iter_try_for_each_result<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(i: &mut I, mut f: F) -> Result<(), E> { loop { match i.next() { Some(x) => match f(x) { Ok(_) => {}, Err(e) => return Err(e) }, None => return Ok(()) } } }
pub fn iter_try_for_each_option<I: Iterator, F: FnMut(I::Item) -> Option<()>>(i: &mut I, mut f: F) -> Option<()> { loop { match i.next() { Some(x) => match f(x) { Some(_) => {}, None => return None }, None => return Some(()) } } }
pub fn iter_last<I: Iterator>(mut i: I) -> Option<I::Item> { let mut l = None; loop { match i.next() { Some(x) => l = Some(x), None => return l } } }
pub fn iter_nth<I: Iterator>(i: &mut I, n: usize) -> Option<I::Item> { let mut k = n; loop { match i.next() { Some(x) => { if k == 0 { return Some(x) } k = k.wrapping_sub(1) }, None => return None } } }
pub struct TakeWhile<I, F> { pub i: I, pub f: F, pub done: bool }
pub fn take_while_next<I: Iterator, F: FnMut(&I::Item) -> bool>(m: &mut TakeWhile<I, F>) -> Option<I::Item> { if m.done { return None } match m.i.next() { Some(x) => if (m.f)(&x) { Some(x) } else { m.done = true; None }, None => None } }
pub struct MapWhile<I, F> { pub i: I, pub f: F }
pub fn map_while_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(m: &mut MapWhile<I, F>) -> Option<B> { match m.i.next() { Some(x) => (m.f)(x), None => None } }
pub struct FilterMap<I, F> { pub i: I, pub f: F }
pub fn filter_map_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(m: &mut FilterMap<I, F>) -> Option<B> { loop { match m.i.next() { Some(x) => if let Some(y) = (m.f)(x) { return Some(y) }, None => return None } } }
pub struct Inspect<I, F> { pub i: I, pub f: F }
pub fn inspect_next<I: Iterator, F: FnMut(&I::Item)>(m: &mut Inspect<I, F>) -> Option<I::Item> { match m.i.next() { Some(x) => { (m.f)(&x); Some(x) }, None => None } }
pub struct OnceIt<T> { pub x: Option<T> }
pub fn once_next<T>(m: &mut OnceIt<T>) -> Option<T> { core::mem::replace(&mut m.x, None) }
pub struct RepeatIt<T> { pub x: T }
pub fn repeat_next<T: Copy>(m: &mut RepeatIt<T>) -> Option<T> { Some(m.x) }
pub struct FromFn<F> { pub f: F }
pub fn from_fn_next<T, F: FnMut() -> Option<T>>(m: &mut FromFn<F>) -> Option<T> { (m.f)() }
pub struct Successors<T, F> { pub x: Option<T>, pub f: F }
pub fn successors_next<T, F: FnMut(&T) -> Option<T>>(m: &mut Successors<T, F>) -> Option<T> { match core::mem::replace(&mut m.x, None) { Some(x) => { m.x = (m.f)(&x); Some(x) }, None => None } }
macro_rules! sums { ($($n:ident $t:ty),*) => { $( pub fn $n<I: Iterator<Item = $t>>(mut i: I) -> $t { let mut n: $t = 0; loop { match i.next() { Some(x) => n = n + x, None => return n } } } )* } }
sums!(iter_sum_u8 u8, iter_sum_u16 u16, iter_sum_u32 u32, iter_sum_u64 u64, iter_sum_usize usize, iter_sum_i32 i32);
macro_rules! ints { ($($t:ident $ca:ident $cs:ident $sa:ident $ss:ident $ad:ident $cl:ident),*) => { $(
pub fn $ca(a: $t, b: $t) -> Option<$t> { let (x, o) = a.overflowing_add(b); if o { None } else { Some(x) } }
pub fn $cs(a: $t, b: $t) -> Option<$t> { if b <= a { Some(a.wrapping_sub(b)) } else { None } }
pub fn $sa(a: $t, b: $t) -> $t { let (x, o) = a.overflowing_add(b); if o { <$t>::MAX } else { x } }
pub fn $ss(a: $t, b: $t) -> $t { if b <= a { a.wrapping_sub(b) } else { 0 } }
pub fn $ad(a: $t, b: $t) -> $t { if b <= a { a.wrapping_sub(b) } else { b.wrapping_sub(a) } }
)* } }
ints!(u8 ca_u8 cs_u8 sa_u8 ss_u8 ad_u8 cl_u8, u16 ca_u16 cs_u16 sa_u16 ss_u16 ad_u16 cl_u16, u32 ca_u32 cs_u32 sa_u32 ss_u32 ad_u32 cl_u32, u64 ca_u64 cs_u64 sa_u64 ss_u64 ad_u64 cl_u64, usize ca_usize cs_usize sa_usize ss_usize ad_usize cl_usize);

// ---- formatting
pub fn fmt_piece<T: core::fmt::Display>(f: &mut core::fmt::Formatter<'_>, x: &T) -> core::fmt::Result { core::fmt::Display::fmt(x, f) }
pub fn fmt_format(a: core::fmt::Arguments<'_>) -> String { let mut s = String::new(); let _ = core::fmt::Write::write_fmt(&mut s, a); s }
pub fn to_string<T: core::fmt::Display>(x: &T) -> String { let mut s = String::new(); let _ = core::fmt::Write::write_fmt(&mut s, format_args!("{}", x)); s }
