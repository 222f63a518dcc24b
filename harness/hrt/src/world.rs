//! The observation log: every element the code under test handles is a token
//! with an identity and a symbolic value; births, drops, closure calls and
//! closure results are recorded and checked.
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use symrt::*;

pub const MAXT: usize = 96;
pub const MAXC: usize = 16;

pub struct World {
    pub born: usize,
    pub live: [bool; MAXT],
    pub kind: [u8; MAXT],
    /// closure call log
    pub calls: usize,
    pub arg_id: [usize; MAXC],
    pub arg_v: [u64; MAXC],
    pub ret_id: [usize; MAXC],
    pub ret_v: [u64; MAXC],
    pub failed: bool,
    pub err_id: usize,
    pub err_v: u64,
    pub panicked: bool,
    /// inputs in expected call order
    pub n_in: usize,
    pub in_id: [usize; MAXC],
    pub in_v: [u64; MAXC],
    /// identity of the unmapped partner (key or value) of an input, by input id
    pub partner: [usize; MAXT],
    pub aux: usize,
    pub aux_seen: usize,
    pub aux_ctr: u64,
}
pub static mut W: World = World {
    born: 0, live: [false; MAXT], kind: [0; MAXT], calls: 0, arg_id: [0; MAXC], arg_v: [0; MAXC], ret_id: [0; MAXC], ret_v: [0; MAXC],
    failed: false, err_id: 0, err_v: 0, panicked: false, n_in: 0, in_id: [0; MAXC], in_v: [0; MAXC], partner: [0; MAXT], aux: 0, aux_seen: 0, aux_ctr: 0,
};
pub fn w() -> &'static mut World { unsafe { &mut *std::ptr::addr_of_mut!(W) } }

/// A token of kind K: 0 = input, 1 = closure result, 2 = second-stage result,
/// 3 = component that is not mapped, 4 = error
pub struct Tok<const K: u8> { pub id: usize, pub v: u64 }

impl<const K: u8> Tok<K> {
    pub fn new(v: u64) -> Self {
        let w = w();
        let id = w.born;
        if id >= MAXT { panic!("token table full"); }
        w.born += 1;
        w.live[id] = true;
        w.kind[id] = K;
        Tok { id, v }
    }
}
impl<const K: u8> Drop for Tok<K> {
    fn drop(&mut self) {
        let w = w();
        check(self.id < w.born, "drop of something that was never created");
        check(w.live[self.id], "[drop] value dropped twice");
        w.live[self.id] = false;
    }
}
impl<const K: u8> PartialEq for Tok<K> { fn eq(&self, o: &Self) -> bool { self.v == o.v } }
impl<const K: u8> Eq for Tok<K> {}
impl<const K: u8> PartialOrd for Tok<K> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<const K: u8> Ord for Tok<K> {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.v < o.v { Ordering::Less } else if self.v == o.v { Ordering::Equal } else { Ordering::Greater }
    }
}
// one bucket: a legal (if poor) hash, independent of the symbolic value
impl<const K: u8> Hash for Tok<K> { fn hash<H: Hasher>(&self, h: &mut H) { 7u8.hash(h) } }

pub type A = Tok<0>;
pub type B = Tok<1>;
pub type D = Tok<2>;
pub type X = Tok<3>;
pub type E = Tok<4>;

pub trait El: Ord + Hash { fn id(&self) -> usize; fn v(&self) -> u64; }
impl<const K: u8> El for Tok<K> { fn id(&self) -> usize { self.id } fn v(&self) -> u64 { self.v } }

/// an unmapped component
pub fn aux() -> X {
    let w = w();
    w.aux += 1;
    let v = w.aux_ctr;
    w.aux_ctr += 1;
    X::new(v)
}
pub fn aux_back(x: &X) {
    let w = w();
    check(w.live[x.id], "[drop] unmapped component handed out after drop");
    w.aux_seen += 1;
}

/// up to MAXC elements, in order
pub struct Xs<T> { pub n: usize, pub a: [Option<T>; MAXC] }
impl<T> Xs<T> {
    pub fn new() -> Self { Xs { n: 0, a: [const { None }; MAXC] } }
    pub fn push(&mut self, t: T) { self.a[self.n] = Some(t); self.n += 1; }
    pub fn take(&mut self, i: usize) -> T { match self.a[i].take() { Some(t) => t, None => panic!("harness: element taken twice") } }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Seq, Bag, Heap, OrdSet, HashSet, OrdKeys, HashKeys, HashVals }

/// Collects what an output contains.
pub struct Out<T> { pub n: usize, pub t: [Option<T>; MAXC], pub pair: [usize; MAXC], pub pv: [u64; MAXC] }
impl<T> Out<T> {
    pub fn new() -> Self { Out { n: 0, t: [const { None }; MAXC], pair: [usize::MAX; MAXC], pv: [0; MAXC] } }
    pub fn t(&mut self, t: T) { self.t[self.n] = Some(t); self.n += 1; }
    pub fn tp(&mut self, t: T, p: X) { aux_back(&p); self.pair[self.n] = p.id; self.pv[self.n] = p.v; self.t(t); }
    pub fn at(&self, i: usize) -> &T { match &self.t[i] { Some(t) => t, None => panic!("harness: no such element") } }
}
