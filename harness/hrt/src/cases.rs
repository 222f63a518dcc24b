//! One `Case` per foreign type that funcmap implements the traits for.
use crate::world::*;
use funcmap::*;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::*;
use std::marker::PhantomData;
use std::ops::{Bound, ControlFlow, Range, RangeFrom, RangeInclusive, RangeTo, RangeToInclusive};
use std::task::Poll;
use symrt::*;

#[cfg(not(feature = "deep"))]
pub const MAXN: u32 = 3;
#[cfg(feature = "deep")]
pub const MAXN: u32 = 4;

pub const NOSHAPE: u32 = 99;

pub trait Case {
    type C<T: El>;
    const KIND: Kind;
    /// does the container need strictly ascending distinct elements to be built canonically?
    const SORTED: bool = false;
    /// (shape, number of elements)
    fn shape() -> (u32, usize);
    fn build<T: El>(shape: u32, xs: &mut Xs<T>) -> Self::C<T>;
    fn fm<T: El, U: El, F: FnMut(T) -> U>(c: Self::C<T>, f: F) -> Self::C<U>;
    fn tfm<T: El, U: El, Er, F: FnMut(T) -> Result<U, Er>>(c: Self::C<T>, f: F) -> Result<Self::C<U>, Er>;
    fn fm_over<T: El, U: El, F: FnMut(T) -> U>(c: Self::C<T>, f: F) -> Self::C<U>;
    fn tfm_over<T: El, U: El, Er, F: FnMut(T) -> Result<U, Er>>(c: Self::C<T>, f: F) -> Result<Self::C<U>, Er>;
    /// take the container apart; returns its shape
    fn read<T: El>(c: Self::C<T>, o: &mut Out<T>) -> u32;
}

macro_rules! case {
    ($([$feat:literal])? $name:ident, $ty:ty, $p:literal, $kind:expr, $sorted:expr, $shape:expr, |$bs:ident, $bx:ident| $build:expr, |$rc:ident, $ro:ident| $read:expr) => {
        $(#[cfg(feature = $feat)])?
        pub struct $name;
        $(#[cfg(feature = $feat)])?
        impl Case for $name {
            type C<T: El> = $ty;
            const KIND: Kind = $kind;
            const SORTED: bool = $sorted;
            fn shape() -> (u32, usize) { $shape }
            #[allow(unused_variables)]
            fn build<T: El>($bs: u32, $bx: &mut Xs<T>) -> $ty { $build }
            fn fm<T: El, U: El, F: FnMut(T) -> U>(c: Self::C<T>, f: F) -> Self::C<U> { FuncMap::<T, U, TypeParam<$p>>::func_map(c, f) }
            fn tfm<T: El, U: El, Er, F: FnMut(T) -> Result<U, Er>>(c: Self::C<T>, f: F) -> Result<Self::C<U>, Er> { TryFuncMap::<T, U, TypeParam<$p>>::try_func_map(c, f) }
            fn fm_over<T: El, U: El, F: FnMut(T) -> U>(c: Self::C<T>, f: F) -> Self::C<U> { c.func_map_over::<TypeParam<$p>, _>(f) }
            fn tfm_over<T: El, U: El, Er, F: FnMut(T) -> Result<U, Er>>(c: Self::C<T>, f: F) -> Result<Self::C<U>, Er> { c.try_func_map_over::<TypeParam<$p>, _, _>(f) }
            #[allow(unused_variables)]
            fn read<T: El>($rc: $ty, $ro: &mut Out<T>) -> u32 { $read }
        }
    };
}

fn upto() -> (u32, usize) { (0, choice(MAXN + 1) as usize) }
fn variants(ns: &[usize]) -> (u32, usize) { let k = choice(ns.len() as u32); (k, ns[k as usize]) }
/// shape = front + 8 * back, for partially consumed iterators
fn part() -> (u32, usize) {
    let n = choice(MAXN + 1);
    let f = choice(n + 1);
    let b = choice(n - f + 1);
    (f + 8 * b, n as usize)
}
fn part_front() -> (u32, usize) { let n = choice(MAXN + 1); let f = choice(n + 1); (f, n as usize) }
fn drain<I: DoubleEndedIterator>(it: &mut I, s: u32) { for _ in 0..s & 7 { drop(it.next()); } for _ in 0..s >> 3 { drop(it.next_back()); } }
fn drain_front<I: Iterator>(it: &mut I, s: u32) { for _ in 0..s & 7 { drop(it.next()); } }

macro_rules! arr { ($($name:ident $n:literal),*) => { $(
    case!($name, [T; $n], 0, Kind::Seq, false, (0, $n), |s, x| std::array::from_fn(|i| x.take(i)), |c, o| { for t in c { o.t(t); } 0 });
)* } }
arr!(Arr0 0, Arr1 1, Arr2 2, Arr3 3, Arr4 4, Arr6 6, Arr8 8);

case!(BoundC, Bound<T>, 0, Kind::Seq, false, variants(&[1, 1, 0]),
    |s, x| match s { 0 => Bound::Included(x.take(0)), 1 => Bound::Excluded(x.take(0)), _ => Bound::Unbounded },
    |c, o| match c { Bound::Included(t) => { o.t(t); 0 } Bound::Excluded(t) => { o.t(t); 1 } Bound::Unbounded => 2 });
case!(CellC, Cell<T>, 0, Kind::Seq, false, (0, 1), |s, x| Cell::new(x.take(0)), |c, o| { o.t(c.into_inner()); 0 });
case!(RefCellC, RefCell<T>, 0, Kind::Seq, false, (0, 1), |s, x| RefCell::new(x.take(0)), |c, o| { o.t(c.into_inner()); 0 });
case!(UnsafeCellC, UnsafeCell<T>, 0, Kind::Seq, false, (0, 1), |s, x| UnsafeCell::new(x.take(0)), |c, o| { o.t(c.into_inner()); 0 });
case!(Flow0, ControlFlow<T, X>, 0, Kind::Seq, false, variants(&[1, 0]),
    |s, x| match s { 0 => ControlFlow::Break(x.take(0)), _ => ControlFlow::Continue(aux()) },
    |c, o| match c { ControlFlow::Break(t) => { o.t(t); 0 } ControlFlow::Continue(x) => { aux_back(&x); 1 } });
case!(Flow1, ControlFlow<X, T>, 1, Kind::Seq, false, variants(&[1, 0]),
    |s, x| match s { 0 => ControlFlow::Continue(x.take(0)), _ => ControlFlow::Break(aux()) },
    |c, o| match c { ControlFlow::Continue(t) => { o.t(t); 0 } ControlFlow::Break(x) => { aux_back(&x); 1 } });
case!(OptionC, Option<T>, 0, Kind::Seq, false, variants(&[1, 0]),
    |s, x| match s { 0 => Some(x.take(0)), _ => None }, |c, o| match c { Some(t) => { o.t(t); 0 } None => 1 });
case!(OptionIter, std::option::IntoIter<T>, 0, Kind::Seq, false, variants(&[1, 1, 0]),
    |s, x| { let mut i = match s { 2 => None, _ => Some(x.take(0)) }.into_iter(); if s == 1 { drop(i.next()); } i },
    |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(PhantomC, PhantomData<T>, 0, Kind::Seq, false, (0, 0), |s, x| PhantomData, |c, o| 0);
case!(PollC, Poll<T>, 0, Kind::Seq, false, variants(&[1, 0]),
    |s, x| match s { 0 => Poll::Ready(x.take(0)), _ => Poll::Pending }, |c, o| match c { Poll::Ready(t) => { o.t(t); 0 } Poll::Pending => 1 });
case!(RangeC, Range<T>, 0, Kind::Seq, false, (0, 2), |s, x| x.take(0)..x.take(1), |c, o| { o.t(c.start); o.t(c.end); 0 });
case!(RangeFromC, RangeFrom<T>, 0, Kind::Seq, false, (0, 1), |s, x| x.take(0).., |c, o| { o.t(c.start); 0 });
case!(RangeInclC, RangeInclusive<T>, 0, Kind::Seq, false, (0, 2), |s, x| x.take(0)..=x.take(1), |c, o| { let (a, b) = c.into_inner(); o.t(a); o.t(b); 0 });
case!(RangeToC, RangeTo<T>, 0, Kind::Seq, false, (0, 1), |s, x| ..x.take(0), |c, o| { o.t(c.end); 0 });
case!(RangeToInclC, RangeToInclusive<T>, 0, Kind::Seq, false, (0, 1), |s, x| ..=x.take(0), |c, o| { o.t(c.end); 0 });
case!(Result0, Result<T, X>, 0, Kind::Seq, false, variants(&[1, 0]),
    |s, x| match s { 0 => Ok(x.take(0)), _ => Err(aux()) }, |c, o| match c { Ok(t) => { o.t(t); 0 } Err(x) => { aux_back(&x); 1 } });
case!(Result1, Result<X, T>, 1, Kind::Seq, false, variants(&[1, 0]),
    |s, x| match s { 0 => Err(x.take(0)), _ => Ok(aux()) }, |c, o| match c { Err(t) => { o.t(t); 0 } Ok(x) => { aux_back(&x); 1 } });
case!(ResultIter, std::result::IntoIter<T>, 0, Kind::Seq, false, variants(&[1, 1, 0]),
    |s, x| { let mut i = match s { 2 => Err(()), _ => Ok(x.take(0)) }.into_iter(); if s == 1 { drop(i.next()); } i },
    |c, o| { for t in c { o.t(t); } NOSHAPE });

// alloc
case!(["alloc"] BoxC, Box<T>, 0, Kind::Seq, false, (0, 1), |s, x| Box::new(x.take(0)), |c, o| { o.t(*c); 0 });
case!(["alloc"] VecC, Vec<T>, 0, Kind::Seq, false, { let n = choice(MAXN + 1); (choice(2), n as usize) },
    |s, x| { let mut v = Vec::with_capacity(x.n + s as usize); for i in 0..x.n { v.push(x.take(i)); } v }, |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(["alloc"] VecIter, std::vec::IntoIter<T>, 0, Kind::Seq, false, part(),
    |s, x| { let mut v = Vec::with_capacity(x.n); for i in 0..x.n { v.push(x.take(i)); } let mut i = v.into_iter(); drain(&mut i, s); i }, |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(["alloc"] DequeC, VecDeque<T>, 0, Kind::Seq, false, { let n = choice(MAXN + 1); (choice(n + 1), n as usize) },
    |s, x| { let mut v = VecDeque::with_capacity(MAXN as usize); for i in s as usize..x.n { v.push_back(x.take(i)); } for i in (0..s as usize).rev() { v.push_front(x.take(i)); } v },
    |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(["alloc"] DequeIter, vec_deque::IntoIter<T>, 0, Kind::Seq, false, part(),
    |s, x| { let mut v = VecDeque::with_capacity(MAXN as usize); for i in 1.min(x.n)..x.n { v.push_back(x.take(i)); } if x.n > 0 { v.push_front(x.take(0)); } let mut i = v.into_iter(); drain(&mut i, s); i },
    |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(["alloc"] ListC, LinkedList<T>, 0, Kind::Seq, false, upto(),
    |s, x| { let mut v = LinkedList::new(); for i in 0..x.n { v.push_back(x.take(i)); } v }, |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(["alloc"] ListIter, linked_list::IntoIter<T>, 0, Kind::Seq, false, part(),
    |s, x| { let mut v = LinkedList::new(); for i in 0..x.n { v.push_back(x.take(i)); } let mut i = v.into_iter(); drain(&mut i, s); i }, |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(["alloc"] HeapC, BinaryHeap<T>, 0, Kind::Heap, false, upto(),
    |s, x| { let mut v = BinaryHeap::new(); for i in 0..x.n { v.push(x.take(i)); } v },
    |c, o| { let mut c = c; while let Some(t) = c.pop() { o.t(t); } NOSHAPE });
case!(["alloc"] HeapIter, binary_heap::IntoIter<T>, 0, Kind::Bag, false, part_front(),
    |s, x| { let mut v = BinaryHeap::new(); for i in 0..x.n { v.push(x.take(i)); } let mut i = v.into_iter(); drain_front(&mut i, s); i }, |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(["alloc"] SetC, BTreeSet<T>, 0, Kind::OrdSet, true, upto(),
    |s, x| { let mut v = BTreeSet::new(); for i in 0..x.n { v.insert(x.take(i)); } v }, |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(["alloc"] SetIter, btree_set::IntoIter<T>, 0, Kind::OrdSet, true, part(),
    |s, x| { let mut v = BTreeSet::new(); for i in 0..x.n { v.insert(x.take(i)); } let mut i = v.into_iter(); drain(&mut i, s); i }, |c, o| { for t in c { o.t(t); } NOSHAPE });
fn pairup<T: El>(t: &T, p: &X) { w().partner[t.id()] = p.id; }
case!(["alloc"] MapC0, BTreeMap<T, X>, 0, Kind::OrdKeys, true, upto(),
    |s, x| { let mut v = BTreeMap::new(); for i in 0..x.n { let t = x.take(i); let p = aux(); pairup(&t, &p); v.insert(t, p); } v }, |c, o| { for (t, p) in c { o.tp(t, p); } NOSHAPE });
case!(["alloc"] MapIter0, btree_map::IntoIter<T, X>, 0, Kind::OrdKeys, true, part(),
    |s, x| { let mut v = BTreeMap::new(); for i in 0..x.n { let t = x.take(i); let p = aux(); pairup(&t, &p); v.insert(t, p); } let mut i = v.into_iter(); drain(&mut i, s); i }, |c, o| { for (t, p) in c { o.tp(t, p); } NOSHAPE });
case!(["alloc"] MapC1, BTreeMap<X, T>, 1, Kind::Seq, false, upto(),
    |s, x| { let mut v = BTreeMap::new(); for i in 0..x.n { let t = x.take(i); let p = aux(); pairup(&t, &p); v.insert(p, t); } v }, |c, o| { for (p, t) in c { o.tp(t, p); } NOSHAPE });
case!(["alloc"] MapIter1, btree_map::IntoIter<X, T>, 1, Kind::Seq, false, part(),
    |s, x| { let mut v = BTreeMap::new(); for i in 0..x.n { let t = x.take(i); let p = aux(); pairup(&t, &p); v.insert(p, t); } let mut i = v.into_iter(); drain(&mut i, s); i }, |c, o| { for (p, t) in c { o.tp(t, p); } NOSHAPE });
// std
case!(["std"] HSetC, HashSet<T>, 0, Kind::HashSet, true, upto(),
    |s, x| { let mut v = HashSet::new(); for i in 0..x.n { v.insert(x.take(i)); } v }, |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(["std"] HSetIter, hash_set::IntoIter<T>, 0, Kind::HashSet, true, part_front(),
    |s, x| { let mut v = HashSet::new(); for i in 0..x.n { v.insert(x.take(i)); } let mut i = v.into_iter(); drain_front(&mut i, s); i }, |c, o| { for t in c { o.t(t); } NOSHAPE });
case!(["std"] HMapC0, HashMap<T, X>, 0, Kind::HashKeys, true, upto(),
    |s, x| { let mut v = HashMap::new(); for i in 0..x.n { let t = x.take(i); let p = aux(); pairup(&t, &p); v.insert(t, p); } v }, |c, o| { for (t, p) in c { o.tp(t, p); } NOSHAPE });
case!(["std"] HMapIter0, hash_map::IntoIter<T, X>, 0, Kind::HashKeys, true, part_front(),
    |s, x| { let mut v = HashMap::new(); for i in 0..x.n { let t = x.take(i); let p = aux(); pairup(&t, &p); v.insert(t, p); } let mut i = v.into_iter(); drain_front(&mut i, s); i }, |c, o| { for (t, p) in c { o.tp(t, p); } NOSHAPE });
case!(["std"] HMapC1, HashMap<X, T>, 1, Kind::HashVals, false, upto(),
    |s, x| { let mut v = HashMap::new(); for i in 0..x.n { let t = x.take(i); let p = aux(); pairup(&t, &p); v.insert(p, t); } v }, |c, o| { for (p, t) in c { o.tp(t, p); } NOSHAPE });
case!(["std"] HMapIter1, hash_map::IntoIter<X, T>, 1, Kind::HashVals, false, part_front(),
    |s, x| { let mut v = HashMap::new(); for i in 0..x.n { let t = x.take(i); let p = aux(); pairup(&t, &p); v.insert(p, t); } let mut i = v.into_iter(); drain_front(&mut i, s); i }, |c, o| { for (p, t) in c { o.tp(t, p); } NOSHAPE });
// ---- several parameters and hashers of the caller
/// maps to the standard hasher and back, so that the case's type stays the same
#[derive(Default, Clone)]
pub struct BH;
pub struct H0(u64);
impl std::hash::BuildHasher for BH { type Hasher = H0; fn build_hasher(&self) -> H0 { H0(3) } }
impl std::hash::Hasher for H0 { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31) + *x as u64; } } }
macro_rules! hcase {
    ($name:ident, $ty:ty, $std:ident, $p:literal, $kind:expr, |$bx:ident| $build:expr, |$rc:ident, $ro:ident| $read:expr) => {
        #[cfg(feature = "std")]
        pub struct $name;
        #[cfg(feature = "std")]
        impl Case for $name {
            type C<T: El> = $ty;
            const KIND: Kind = $kind;
            const SORTED: bool = true;
            fn shape() -> (u32, usize) { upto() }
            fn build<T: El>(_: u32, $bx: &mut Xs<T>) -> $ty { $build }
            fn fm<T: El, U: El, F: FnMut(T) -> U>(c: Self::C<T>, f: F) -> Self::C<U> { FuncMap::<T, U, TypeParam<$p>>::func_map(c, f).into_iter().collect() }
            fn tfm<T: El, U: El, Er, F: FnMut(T) -> Result<U, Er>>(c: Self::C<T>, f: F) -> Result<Self::C<U>, Er> { Ok(TryFuncMap::<T, U, TypeParam<$p>>::try_func_map(c, f)?.into_iter().collect()) }
            fn fm_over<T: El, U: El, F: FnMut(T) -> U>(c: Self::C<T>, f: F) -> Self::C<U> { c.func_map_over::<TypeParam<$p>, _>(f).into_iter().collect() }
            fn tfm_over<T: El, U: El, Er, F: FnMut(T) -> Result<U, Er>>(c: Self::C<T>, f: F) -> Result<Self::C<U>, Er> { Ok(c.try_func_map_over::<TypeParam<$p>, _, _>(f)?.into_iter().collect()) }
            fn read<T: El>($rc: $ty, $ro: &mut Out<T>) -> u32 { $read; NOSHAPE }
        }
    };
}
hcase!(HMapS0, HashMap<T, X, BH>, HashMap, 0, Kind::HashKeys, |x| { let mut v = HashMap::with_hasher(BH); for i in 0..x.n { let t = x.take(i); let p = aux(); pairup(&t, &p); v.insert(t, p); } v }, |c, o| for (t, p) in c { o.tp(t, p); });
hcase!(HMapS1, HashMap<X, T, BH>, HashMap, 1, Kind::HashVals, |x| { let mut v = HashMap::with_hasher(BH); for i in 0..x.n { let t = x.take(i); let p = aux(); pairup(&t, &p); v.insert(p, t); } v }, |c, o| for (p, t) in c { o.tp(t, p); });
hcase!(HSetS, HashSet<T, BH>, HashSet, 0, Kind::HashSet, |x| { let mut v = HashSet::with_hasher(BH); for i in 0..x.n { v.insert(x.take(i)); } v }, |c, o| for t in c { o.t(t); });
