//! Arrays of elements, results and errors with unusual layouts.
use crate::cases::*;
use crate::drive::*;
use crate::world::*;
use funcmap::*;
use std::convert::Infallible;
use std::mem::ManuallyDrop;
use symrt::*;

/// a layout for a token
pub trait Wrap<T> { fn wrap(t: T) -> Self; fn unwrap(self) -> T; }
pub struct Plain<T>(T);
#[repr(align(64))]
pub struct Aligned<T>(T);
pub struct Large<T>([u64; 40], T, [u8; 7]);
pub struct Heap<T>(Box<T>);
pub struct Niche<T>(Option<Box<T>>);
pub struct Mixed<T>(bool, T, char);
/// one byte with a drop glue; the value lives in a side table
pub struct Tiny<T: El>(u8, std::marker::PhantomData<T>);
static mut SIDE: [u64; MAXT] = [0; MAXT];
impl<T> Wrap<T> for Plain<T> { fn wrap(t: T) -> Self { Plain(t) } fn unwrap(self) -> T { self.0 } }
impl<T> Wrap<T> for Aligned<T> { fn wrap(t: T) -> Self { Aligned(t) } fn unwrap(self) -> T { check(&self as *const Self as usize % 64 == 0, "misaligned element"); self.0 } }
impl<T> Wrap<T> for Large<T> {
    fn wrap(t: T) -> Self { let mut a = [0; 40]; for i in 0..40 { a[i] = i as u64 * 3; } Large(a, t, [9; 7]) }
    fn unwrap(self) -> T { for i in 0..40 { check(self.0[i] == i as u64 * 3, "[drop] element corrupted"); } check(self.2 == [9; 7], "[drop] element corrupted"); self.1 }
}
impl<T> Wrap<T> for Heap<T> { fn wrap(t: T) -> Self { Heap(Box::new(t)) } fn unwrap(self) -> T { *self.0 } }
impl<T> Wrap<T> for Niche<T> { fn wrap(t: T) -> Self { Niche(Some(Box::new(t))) } fn unwrap(self) -> T { match self.0 { Some(b) => *b, None => { check(false, "[drop] element corrupted"); stop() } } } }
impl<T> Wrap<T> for Mixed<T> { fn wrap(t: T) -> Self { Mixed(true, t, 'x') } fn unwrap(self) -> T { check(self.0 & (self.2 == 'x'), "[drop] element corrupted"); self.1 } }
impl<const K: u8> Wrap<Tok<K>> for Tiny<Tok<K>> {
    fn wrap(t: Tok<K>) -> Self { let t = ManuallyDrop::new(t); unsafe { SIDE[t.id] = t.v }; Tiny(t.id as u8, std::marker::PhantomData) }
    fn unwrap(self) -> Tok<K> { let i = ManuallyDrop::new(self).0 as usize; Tok { id: i, v: unsafe { SIDE[i] } } }
}
impl<T: El> Drop for Tiny<T> { fn drop(&mut self) { let i = self.0 as usize; drop(Tok::<9> { id: i, v: 0 }) } }

/// token kinds only differ in their tag, so one wrapper layout serves all of them
macro_rules! spec {
    ($name:ident, $n:literal, $a:ident, $b:ident, $e:ident) => {
        pub struct $name;
        impl $name {
            fn try_<Fo: FnMut(A) -> Result<B, E>>(c: [A; $n], mut f: Fo) -> Result<[B; $n], E> {
                let c: [$a<A>; $n] = c.map(<$a<A> as Wrap<A>>::wrap);
                let r: Result<[$b<B>; $n], $e<E>> = c.try_func_map(|x| match f(x.unwrap()) { Ok(b) => Ok($b::wrap(b)), Err(e) => Err($e::wrap(e)) });
                match r { Ok(v) => Ok(v.map(|x| x.unwrap())), Err(e) => Err(e.unwrap()) }
            }
            fn inf_<Fo: FnMut(A) -> B>(c: [A; $n], mut f: Fo) -> [B; $n] {
                let c: [$a<A>; $n] = c.map(<$a<A> as Wrap<A>>::wrap);
                let r: [$b<B>; $n] = c.func_map(|x| $b::wrap(f(x.unwrap())));
                r.map(|x| x.unwrap())
            }
        }
        impl Spec for $name {
            type IA = [A; $n];
            type OB = [B; $n];
            const N: usize = $n;
            fn mk(x: &mut Xs<A>) -> [A; $n] { std::array::from_fn(|i| x.take(i)) }
            fn go<Fo: FnMut(A) -> B>(c: [A; $n], f: Fo) -> [B; $n] { Self::inf_(c, f) }
            fn tgo<Fo: FnMut(A) -> Result<B, E>>(c: [A; $n], f: Fo) -> Result<[B; $n], E> { Self::try_(c, f) }
            fn rd(c: [B; $n], o: &mut Out<B>) { for t in c { o.t(t); } }
        }
    };
}
spec!(AlPl3, 3, Aligned, Plain, Plain);
spec!(PlAl3, 3, Plain, Aligned, Plain);
spec!(AlAl2, 2, Aligned, Aligned, Aligned);
spec!(LaLa3, 3, Large, Large, Large);
spec!(LaTi4, 4, Large, Tiny, Tiny);
spec!(TiLa4, 4, Tiny, Large, Tiny);
spec!(TiTi5, 5, Tiny, Tiny, Large);
spec!(HeHe3, 3, Heap, Heap, Heap);
spec!(HePl4, 4, Heap, Plain, Heap);
spec!(PlNi3, 3, Plain, Niche, Niche);
spec!(NiMi3, 3, Niche, Mixed, Plain);
spec!(MiTi1, 1, Mixed, Tiny, Aligned);
spec!(TiHe7, 7, Tiny, Heap, Niche);
spec!(LaHe0, 0, Large, Heap, Plain);

// ---- zero-sized elements: only their number can be observed

static mut ZL: [i64; 3] = [0; 3];
/// zero-sized, counted
pub struct Z<const K: usize>(());
impl<const K: usize> Z<K> { fn new() -> Self { unsafe { ZL[K] += 1 }; Z(()) } }
impl<const K: usize> Drop for Z<K> { fn drop(&mut self) { unsafe { ZL[K] -= 1; check(ZL[K] >= 0, "[drop] zero-sized value dropped twice"); } } }
fn zero_left() { for k in 0..3 { check(unsafe { ZL[k] } == 0, "[drop] zero-sized value leaked"); } }

/// zero-sized elements, results and errors, any outcome of any call
pub fn zst<const N: usize>() {
    expect_reach(if N == 0 { 1 } else { 7 });
    heap_mark();
    let mut calls = 0usize;
    let mut stopped = 0;
    let u = catch(|| {
        let a: [Z<0>; N] = std::array::from_fn(|_| Z::new());
        let r = a.try_func_map(|_a| {
            check(stopped == 0, "[first-error] closure called again after it failed");
            calls += 1;
            check(calls <= N, "[once] closure called too often");
            let o = u8s();
            if o & 2 != 0 { stopped = 2; panic_now() }
            if o & 1 != 0 { stopped = 1; Err(Z::<2>::new()) } else { Ok(Z::<1>::new()) }
        });
        check(r.is_err() == (stopped == 1), "[try] wrong outcome");
        if N == 0 { check(r.is_ok(), "[empty] mapping an empty array failed"); }
        if r.is_ok() { check(unsafe { ZL[1] } == N as i64, "[drop] results missing"); check(calls == N, "[once] closure not called once per element"); }
        reach(r.is_err() as u32);
    });
    check(u == (stopped == 2), "[panic] panic swallowed or invented");
    if u { reach(2); }
    zero_left();
    leak_check("[drop] allocation not released");
}
pub fn zst_inf<const N: usize>() {
    expect_reach(if N == 0 { 1 } else { 3 });
    heap_mark();
    let mut calls = 0usize;
    let mut stopped = false;
    let u = catch(|| {
        let a: [Z<0>; N] = std::array::from_fn(|_| Z::new());
        let r = a.func_map(|_a| { calls += 1; check(calls <= N, "[once] closure called too often"); if u8s() & 1 != 0 { stopped = true; panic_now() } Z::<1>::new() });
        check(unsafe { ZL[1] } == N as i64, "[drop] results missing");
        drop(r);
    });
    check(u == stopped, "[panic] panic swallowed or invented");
    reach(u as u32);
    zero_left();
    leak_check("[drop] allocation not released");
}
/// results that cannot exist: every call fails or panics
pub fn no_result<const N: usize>() {
    expect_reach(if N == 0 { 1 } else { 6 });
    heap_mark();
    let mut calls = 0usize;
    let mut out = 0;
    let u = catch(|| {
        let xs: [A; N] = std::array::from_fn(|_| A::new(u64s()));
        let r: Result<[Infallible; N], E> = xs.try_func_map(|a| { drop(a); calls += 1; if u8s() & 1 != 0 { out = 2; panic_now() } out = 1; Err(E::new(7)) });
        match r {
            Ok(_) => { check(N == 0, "[empty] array of values that cannot exist"); reach(0); }
            Err(e) => { check(N > 0, "[empty] mapping an empty array failed"); check_eq(e.v, 7, "[first-error] error changed"); reach(1); }
        }
    });
    check(u == (out == 2), "[panic] panic swallowed or invented");
    check(calls == (N > 0) as usize, "[empty] wrong number of calls");
    if u { reach(2); }
    settle();
}
/// errors that cannot exist
pub fn no_error<const N: usize>() {
    expect_reach(if N == 0 { 1 } else { 3 });
    heap_mark();
    let mut panicked = false;
    let u = catch(|| {
        let xs: [A; N] = std::array::from_fn(|_| A::new(u64s()));
        let mut want = [0; N];
        let mut k = 0;
        let r: Result<[B; N], Infallible> = xs.try_func_map(|a| { let v = a.v ^ 5; want[k] = v; k += 1; if u8s() & 1 != 0 { panicked = true; panic_now() } Ok(B::new(v)) });
        match r { Ok(bs) => for i in 0..N { check_eq(bs[i].v, want[i], "[map] wrong result"); }, Err(e) => match e {} }
    });
    check(u == panicked, "[panic] panic swallowed or invented");
    reach(u as u32);
    settle();
}
/// an empty array of elements that cannot exist, and of anything else
pub fn empty() {
    expect_reach(1);
    heap_mark();
    {
        let a: [Infallible; 0] = [];
        let r: Result<[A; 0], E> = a.try_func_map(|_| { check(false, "[empty] closure called for an empty array"); Err(E::new(0)) });
        check(r.is_ok(), "[empty] mapping an empty array failed");
        let a: [Large<A>; 0] = [];
        let r: Result<[&'static str; 0], Heap<E>> = a.try_func_map(|_| { check(false, "[empty] closure called for an empty array"); Err(Heap::wrap(E::new(0))) });
        check(r.is_ok(), "[empty] mapping an empty array failed");
        let a: [Aligned<A>; 0] = [];
        let r: Result<[std::num::NonZeroU8; 0], ()> = a.try_func_map(|_| { check(false, "[empty] closure called for an empty array"); Err(()) });
        check(r.is_ok(), "[empty] mapping an empty array failed");
        let a: [Box<A>; 0] = [];
        let r: [&'static u8; 0] = a.func_map(|_| { check(false, "[empty] closure called for an empty array"); &0 });
        check(r.len() == 0, "[empty] mapping an empty array failed");
    }
    settle();
    reach(0);
}
/// small plain values: booleans, characters, references, non-zero integers
pub fn niches() {
    expect_reach(3);
    let v: [u8; 3] = [u8s(), u8s(), u8s()];
    let fail = u8s();
    let mut k = 0u8;
    let r: Result<[Option<std::num::NonZeroU8>; 3], bool> = v.try_func_map(|x| { k += 1; if k == fail { Err(x & 1 == 1) } else { Ok(std::num::NonZeroU8::new(x)) } });
    match r {
        Ok(a) => {
            check((fail == 0) | (fail > 3), "[try] success although the closure failed");
            for i in 0..3 { check_eq(match a[i] { Some(x) => x.get(), None => 0 } as u64, v[i] as u64, "[map] wrong result"); }
            reach(0);
        }
        Err(e) => {
            check((fail >= 1) & (fail <= 3), "[try] failure although the closure did not fail");
            check_eq(e as u64, (v[fail as usize - 1] & 1) as u64, "[first-error] wrong error");
            reach(1);
        }
    }
}

// ---- several parameters of one library type

macro_rules! commute {
    ($fname:ident, $msg:literal, |$x:ident, $y:ident| $mk:expr, $h1:ty, $h2:ty, |$r1:ident, $r2:ident| $cmp:expr) => {
        /// mappings over different parameters commute
        pub fn $fname() {
            expect_reach(1);
            heap_mark();
            {
                let (va, vx) = ([u64s(), u64s()], [u64s(), u64s()]);
                assume((va[0] < va[1]) & (vx[0] < vx[1]));
                let fa = |t: A| B::new(uf(1, t.v));
                let fx = |t: X| D::new(uf(2, t.v));
                let c = choice(4);
                let mk = || { let ($x, $y) = ((A::new(va[0]), A::new(va[1])), (X::new(vx[0]), X::new(vx[1]))); let k = c; $mk(k, $x, $y) };
                let $r1 = mk().func_map_over::<TypeParam<0>, _>(fa).func_map_over::<TypeParam<1>, _>(fx);
                let $r2 = mk().func_map_over::<TypeParam<1>, _>(fx).func_map_over::<TypeParam<0>, _>(fa);
                $cmp
            }
            settle();
            reach(0);
        }
    };
}
fn eq2(a: u64, b: u64) { check_eq(a, b, "[commute] mappings over different parameters do not commute") }
fn no() { check(false, "[commute] mappings over different parameters do not commute") }
commute!(comm_result_, "", |x, y| |k: u32, x: (A, A), y: (X, X)| if k & 1 == 0 { Ok::<A, X>(x.0) } else { Err(y.0) }, _, _,
    |p, q| match (p, q) { (Ok(a), Ok(b)) => eq2(a.v, b.v), (Err(a), Err(b)) => eq2(a.v, b.v), _ => no() });
commute!(comm_flow_, "", |x, y| |k: u32, x: (A, A), y: (X, X)| if k & 1 == 0 { std::ops::ControlFlow::<A, X>::Break(x.0) } else { std::ops::ControlFlow::Continue(y.0) }, _, _,
    |p, q| { use std::ops::ControlFlow::*; match (p, q) { (Break(a), Break(b)) => eq2(a.v, b.v), (Continue(a), Continue(b)) => eq2(a.v, b.v), _ => no() } });
#[cfg(feature = "alloc")]
commute!(comm_btree_, "", |x, y| |k: u32, x: (A, A), y: (X, X)| { let mut m = std::collections::BTreeMap::<A, X>::new(); if k & 1 != 0 { m.insert(x.0, y.0); } if k & 2 != 0 { m.insert(x.1, y.1); } m }, _, _,
    |p, q| { check(p.len() == q.len(), "[commute] mappings over different parameters do not commute"); let mut j = q.into_iter(); for (a, b) in p { match j.next() { Some((c, d)) => { eq2(a.v, c.v); eq2(b.v, d.v); } None => no() } } });
#[cfg(feature = "std")]
commute!(comm_hash_, "", |x, y| |k: u32, x: (A, A), y: (X, X)| { let mut m = std::collections::HashMap::<A, X>::new(); if k & 1 != 0 { m.insert(x.0, y.0); } else if k & 2 != 0 { m.insert(x.1, y.1); } m }, _, _,
    |p, q| { check(p.len() == q.len(), "[commute] mappings over different parameters do not commute"); let mut j = q.into_iter(); for (a, b) in p { match j.next() { Some((c, d)) => { eq2(a.v, c.v); eq2(b.v, d.v); } None => no() } } });
