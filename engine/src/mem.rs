//! Memory objects with per-byte definedness and symbolic contents.
use crate::ir::{PVal, Val};
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x1000_0000_0000;
pub const HEAP_SHIFT: u32 = 26;
pub const STACK_BASE: u64 = 0x2000_0000_0000;
pub const STACK_SHIFT: u32 = 22;
pub const STACK_END: u64 = 0x7000_0000_0000;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub live: bool,
    pub readonly: bool,
    pub bytes: Vec<u8>,
    pub st: Vec<u8>, // 0 undef, 1 concrete, 2 symbolic, 3 partially undefined
    pub sym: BTreeMap<u32, (T, u32, u8)>,
}

impl Obj {
    pub fn new(base: u64, size: u64, align: u64) -> Obj {
        Obj { base, size, align, live: true, readonly: false, bytes: vec![0; size as usize], st: vec![0; size as usize], sym: BTreeMap::new() }
    }
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if self.sym.is_empty() { return; }
        let ks: Vec<u32> = self.sym.range(off as u32..(off + n) as u32).map(|(k, _)| *k).collect();
        for k in ks { self.sym.remove(&k); }
    }
    pub fn fill(&mut self, off: usize, n: usize, v: Option<u8>) {
        self.clear_sym(off, n);
        for i in off..off + n {
            match v { Some(b) => { self.bytes[i] = b; self.st[i] = 1; } None => self.st[i] = 0 }
        }
    }
    pub fn store(&mut self, ar: &mut Arena, off: usize, n: usize, v: &Val, w: u32) {
        match v {
            Val::C(x) => {
                self.clear_sym(off, n);
                let mut x = *x;
                for i in off..off + n { self.bytes[i] = x as u8; self.st[i] = 1; x >>= 8; }
            }
            Val::T(t) => {
                self.clear_sym(off, n);
                let t = if w as usize != n * 8 { ar.zext(*t, n as u32 * 8) } else { *t };
                for i in 0..n { self.put_sym(ar, off + i, t, i as u32, 0); }
            }
            Val::P(p) => {
                self.clear_sym(off, n);
                let um = p.1;
                for i in 0..n {
                    let m = (um >> (8 * i)) as u8;
                    if m == 0xff { self.st[off + i] = 0; continue; }
                    match p.0 {
                        PVal::C(c) if m == 0 => { self.bytes[off + i] = (c >> (8 * i)) as u8; self.st[off + i] = 1; }
                        PVal::C(c) => { let t = ar.cst(c, n as u32 * 8); self.put_sym(ar, off + i, t, i as u32, m); }
                        PVal::T(t) => { let t = if ar.w(t) as usize != n * 8 { ar.zext(t, n as u32 * 8) } else { t }; self.put_sym(ar, off + i, t, i as u32, m); }
                    }
                }
            }
            Val::Undef => self.fill(off, n, None),
            Val::Agg(_) => unreachable!(),
        }
    }
    fn put_sym(&mut self, ar: &mut Arena, at: usize, t: T, idx: u32, um: u8) {
        if um == 0 {
            let b = ar.extract(t, idx * 8, 8);
            if let Some(c) = ar.as_const(b) { self.bytes[at] = c as u8; self.st[at] = 1; return; }
        }
        self.st[at] = if um == 0 { 2 } else { 3 };
        self.sym.insert(at as u32, (t, idx, um));
    }
    /// little-endian load of n bytes (n <= 16)
    pub fn load(&self, ar: &mut Arena, off: usize, n: usize) -> Val {
        let st = &self.st[off..off + n];
        if st.iter().all(|&s| s == 1) {
            let mut x = 0u128;
            for i in (0..n).rev() { x = (x << 8) | self.bytes[off + i] as u128; }
            return Val::C(x);
        }
        if st.iter().all(|&s| s == 0) { return Val::Undef; }
        // whole symbolic term fast path
        if st[0] == 2 {
            let (t, i0, _) = self.sym[&(off as u32)];
            if i0 == 0 && ar.w(t) as usize == n * 8 && (1..n).all(|k| st[k] == 2 && { let e = self.sym[&((off + k) as u32)]; e.0 == t && e.1 == k as u32 }) {
                return Val::T(t);
            }
        }
        let mut um = 0u128;
        let mut acc: Option<T> = None;
        let mut i = n;
        while i > 0 {
            i -= 1;
            let b = match st[i] {
                0 => { um |= 0xffu128 << (8 * i); ar.cst(0, 8) }
                1 => ar.cst(self.bytes[off + i] as u128, 8),
                _ => {
                    let (t, idx, m) = self.sym[&((off + i) as u32)];
                    um |= (m as u128) << (8 * i);
                    ar.extract(t, idx * 8, 8)
                }
            };
            acc = Some(match acc { None => b, Some(h) => ar.concat(h, b) });
        }
        let t = acc.unwrap();
        mkval(ar, t, um)
    }
}
pub fn mkval(ar: &Arena, t: T, um: u128) -> Val {
    let w = ar.w(t);
    if um & mask(w) == mask(w) { return Val::Undef; }
    match (ar.as_const(t), um) {
        (Some(c), 0) => Val::C(c),
        (None, 0) => Val::T(t),
        (Some(c), _) => Val::P(Rc::new((PVal::C(c), um))),
        (None, _) => Val::P(Rc::new((PVal::T(t), um))),
    }
}
