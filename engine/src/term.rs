//! Hash-consed bit-vector terms with local simplification and concrete evaluation.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    // predicates (width 1)
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, T, T),
    Concat(T, T),       // (hi, lo)
    Extract(u32, T),    // lo bit offset; width from node width
    Zext(T),
    Sext(T),
    Ite(T, T, T),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else if w == 0 { 0 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub struct Arena {
    pub nodes: Vec<(Node, u32)>,
    map: HashMap<(Node, u32), T>,
    pub nvars: u32,
    pub var_w: Vec<u32>,
}

pub fn eval_bin(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
    }
}

pub fn is_pred(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![], map: HashMap::new(), nvars: 0, var_w: vec![] }
    }
    pub fn w(&self, t: T) -> u32 { self.nodes[t as usize].1 }
    pub fn n(&self, t: T) -> Node { self.nodes[t as usize].0 }
    fn mk(&mut self, n: Node, w: u32) -> T {
        if let Some(&t) = self.map.get(&(n, w)) { return t; }
        let t = self.nodes.len() as T;
        self.nodes.push((n, w));
        self.map.insert((n, w), t);
        t
    }
    pub fn cst(&mut self, v: u128, w: u32) -> T { self.mk(Node::Const(v & mask(w)), w) }
    pub fn as_const(&self, t: T) -> Option<u128> {
        if let Node::Const(v) = self.n(t) { Some(v) } else { None }
    }
    pub fn var(&mut self, w: u32) -> T {
        let id = self.nvars;
        self.nvars += 1;
        self.var_w.push(w);
        self.mk(Node::Var(id), w)
    }
    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let rw = if is_pred(op) { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(eval_bin(op, x, y, w), rw);
        }
        // canonical order: constant on the right for commutative operators
        let (a, b, ca, cb) = if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
            (b, a, cb, ca)
        } else { (a, b, ca, cb) };
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let (Some(y), Node::Bin(Op::Add, x, c)) = (cb, self.n(a)) {
                    if let Some(cv) = self.as_const(c) {
                        let k = self.cst(cv.wrapping_add(y), w);
                        return self.bin(Op::Add, x, k);
                    }
                }
            }
            Op::Sub => {
                if a == b { return self.cst(0, w); }
                if let Some(y) = cb {
                    let k = self.cst(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => {
                if cb == Some(0) { return self.cst(0, w); }
                if cb == Some(1) { return a; }
            }
            Op::And => {
                if cb == Some(0) { return self.cst(0, w); }
                if cb == Some(m) { return a; }
                if a == b { return a; }
                // low mask -> zext(extract)
                if let Some(y) = cb {
                    if y != 0 && (y & (y + 1)) == 0 {
                        let k = 128 - y.leading_zeros();
                        let e = self.extract(a, 0, k);
                        return self.zext(e, w);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) { return a; }
                if cb == Some(m) { return self.cst(m, w); }
                if a == b { return a; }
                // disjoint halves: shl/zext patterns become concat
                if let Some(t) = self.or_as_concat(a, b, w) { return t; }
            }
            Op::Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if w == 1 && cb == Some(1) { return self.not(a); }
            }
            Op::Shl => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    if s >= w as u128 { return self.cst(0, w); }
                    let lo = self.extract(a, 0, w - s as u32);
                    let z = self.cst(0, s as u32);
                    return self.concat(lo, z);
                }
            }
            Op::LShr => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    if s >= w as u128 { return self.cst(0, w); }
                    let hi = self.extract(a, s as u32, w - s as u32);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    if s < w as u128 {
                        let hi = self.extract(a, s as u32, w - s as u32);
                        return self.sext(hi, w);
                    }
                }
            }
            Op::Eq => {
                if a == b { return self.cst(1, 1); }
                if w == 1 {
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { return self.not(a); }
                }
                if let Some(y) = cb {
                    match self.n(a) {
                        Node::Zext(x) => {
                            let xw = self.w(x);
                            if y > mask(xw) { return self.cst(0, 1); }
                            let k = self.cst(y, xw);
                            return self.bin(Op::Eq, x, k);
                        }
                        Node::Sext(x) => {
                            let xw = self.w(x);
                            let lowv = y & mask(xw);
                            if (sx(lowv, xw) as u128) & m != y { return self.cst(0, 1); }
                            let k = self.cst(lowv, xw);
                            return self.bin(Op::Eq, x, k);
                        }
                        Node::Ite(c, p, q) => {
                            match (self.as_const(p), self.as_const(q)) {
                                (Some(pv), Some(qv)) => {
                                    return match (pv == y, qv == y) {
                                        (true, true) => self.cst(1, 1),
                                        (true, false) => c,
                                        (false, true) => self.not(c),
                                        (false, false) => self.cst(0, 1),
                                    };
                                }
                                (Some(pv), None) if pv != y => {
                                    let nc = self.not(c);
                                    let e = self.bin(Op::Eq, q, b);
                                    return self.and1(nc, e);
                                }
                                (None, Some(qv)) if qv != y => {
                                    let e = self.bin(Op::Eq, p, b);
                                    return self.and1(c, e);
                                }
                                _ => {}
                            }
                        }
                        Node::Bin(Op::Add, x, c) => {
                            if let Some(cv) = self.as_const(c) {
                                let k = self.cst(y.wrapping_sub(cv), w);
                                return self.bin(Op::Eq, x, k);
                            }
                        }
                        Node::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            if self.as_const(l).is_some() || self.as_const(h).is_some() {
                                let kl = self.cst(y, lw);
                                let kh = self.cst(y >> lw, hw);
                                let e1 = self.bin(Op::Eq, l, kl);
                                let e2 = self.bin(Op::Eq, h, kh);
                                return self.and1(e1, e2);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Op::Ult => {
                if a == b { return self.cst(0, 1); }
                if cb == Some(0) { return self.cst(0, 1); }
                if cb == Some(1) { let z = self.cst(0, w); return self.bin(Op::Eq, a, z); }
                if ca == Some(m) { return self.cst(0, 1); }
                if let (Some(y), Node::Zext(x)) = (cb, self.n(a)) {
                    if y > mask(self.w(x)) { return self.cst(1, 1); }
                    let k = self.cst(y, self.w(x));
                    return self.bin(Op::Ult, x, k);
                }
                if let (Some(y), Node::Zext(x)) = (ca, self.n(b)) {
                    if y >= mask(self.w(x)) { return self.cst(0, 1); }
                    let k = self.cst(y, self.w(x));
                    return self.bin(Op::Ult, k, x);
                }
            }
            Op::Ule => {
                if a == b { return self.cst(1, 1); }
                let s = self.bin(Op::Ult, b, a);
                return self.not(s);
            }
            Op::Slt => { if a == b { return self.cst(0, 1); } }
            Op::Sle => {
                if a == b { return self.cst(1, 1); }
                let s = self.bin(Op::Slt, b, a);
                return self.not(s);
            }
            _ => {}
        }
        self.mk(Node::Bin(op, a, b), rw)
    }
    fn or_as_concat(&mut self, a: T, b: T, w: u32) -> Option<T> {
        // a = zext(x) and b = concat(y, 0_k) with width(x) <= k (or the other way round)
        for (p, q) in [(a, b), (b, a)] {
            if let (Node::Zext(x), Node::Concat(y, z)) = (self.n(p), self.n(q)) {
                if self.as_const(z) == Some(0) && self.w(x) <= self.w(z) {
                    let zw = self.w(z);
                    let lo = self.zext(x, zw);
                    return Some(self.concat(y, lo));
                }
            }
            if let (Some(c), Node::Concat(y, z)) = (self.as_const(p), self.n(q)) {
                let zw = self.w(z);
                if self.as_const(z) == Some(0) && c <= mask(zw) {
                    let lo = self.cst(c, zw);
                    return Some(self.concat(y, lo));
                }
            }
            if let (Some(c), Node::Zext(x)) = (self.as_const(p), self.n(q)) {
                let xw = self.w(x);
                if xw < w && c & mask(xw) == 0 {
                    let hi = self.cst(c >> xw, w - xw);
                    return Some(self.concat(hi, x));
                }
            }
            // zext(concat(y,0_k)) | zext(x)
            if let (Node::Zext(x), Node::Zext(yc)) = (self.n(p), self.n(q)) {
                if let Node::Concat(y, z) = self.n(yc) {
                    if self.as_const(z) == Some(0) && self.w(x) <= self.w(z) {
                        let zw = self.w(z);
                        let lo = self.zext(x, zw);
                        let c = self.concat(y, lo);
                        return Some(self.zext(c, w));
                    }
                }
            }
        }
        None
    }
    pub fn not(&mut self, a: T) -> T {
        if let Some(v) = self.as_const(a) { return self.cst(v ^ 1, 1); }
        let one = self.cst(1, 1);
        if let Node::Bin(Op::Xor, x, y) = self.n(a) {
            if y == one { return x; }
        }
        self.mk(Node::Bin(Op::Xor, a, one), 1)
    }
    pub fn and1(&mut self, a: T, b: T) -> T { self.bin(Op::And, a, b) }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (hw, lw) = (self.w(hi), self.w(lo));
        if hw == 0 { return lo; }
        if lw == 0 { return hi; }
        if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(lo)) {
            return self.cst((h << lw) | l, hw + lw);
        }
        if self.as_const(hi) == Some(0) { return self.zext(lo, hw + lw); }
        if let (Node::Extract(lh, x), Node::Extract(ll, y)) = (self.n(hi), self.n(lo)) {
            if x == y && lh == ll + lw { return self.extract(x, ll, hw + lw); }
        }
        // concat(extract(h..), concat(extract, rest))
        if let Node::Concat(m, r) = self.n(lo) {
            if let (Node::Extract(lh, x), Node::Extract(lm, y)) = (self.n(hi), self.n(m)) {
                if x == y && lh == lm + self.w(m) {
                    let e = { let ww = hw + self.w(m); self.extract(x, lm, ww) };
                    return self.concat(e, r);
                }
            }
        }
        self.mk(Node::Concat(hi, lo), hw + lw)
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        match self.n(a) {
            Node::Const(v) => self.cst(v >> lo, w),
            Node::Extract(l2, x) => self.extract(x, lo + l2, w),
            Node::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw { self.cst(0, w) }
                else if lo + w <= xw { self.extract(x, lo, w) }
                else { let e = self.extract(x, lo, xw - lo); self.zext(e, w) }
            }
            Node::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw { self.extract(x, lo, w) }
                else { self.mk(Node::Extract(lo, a), w) }
            }
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { self.extract(h, lo - lw, w) }
                else if lo + w <= lw { self.extract(l, lo, w) }
                else {
                    let el = self.extract(l, lo, lw - lo);
                    let eh = self.extract(h, 0, w - (lw - lo));
                    self.concat(eh, el)
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                self.bin(op, ex, ey)
            }
            Node::Ite(c, x, y) => {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                self.ite(c, ex, ey)
            }
            _ => self.mk(Node::Extract(lo, a), w),
        }
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.n(a) {
            Node::Const(v) => self.cst(v, w),
            Node::Zext(x) => self.zext(x, w),
            _ => self.mk(Node::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.n(a) {
            Node::Const(v) => self.cst(sx(v, aw) as u128, w),
            Node::Zext(x) => self.zext(x, w),
            Node::Sext(x) => self.sext(x, w),
            _ => self.mk(Node::Sext(a), w),
        }
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.as_const(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let nc = self.not(c); return self.and1(nc, b); }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, a); }
                _ => {}
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    /// Evaluate under a model (variables missing from the model read as 0).
    pub fn eval(&self, t: T, model: &HashMap<u32, u128>, memo: &mut HashMap<T, u128>) -> u128 {
        if let Some(&v) = memo.get(&t) { return v; }
        // iterative post-order
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if memo.contains_key(&x) { continue; }
            let (n, w) = self.nodes[x as usize];
            let kids: [Option<T>; 3] = match n {
                Node::Const(_) | Node::Var(_) => [None; 3],
                Node::Bin(_, a, b) | Node::Concat(a, b) => [Some(a), Some(b), None],
                Node::Extract(_, a) | Node::Zext(a) | Node::Sext(a) => [Some(a), None, None],
                Node::Ite(c, a, b) => [Some(c), Some(a), Some(b)],
            };
            if !done {
                stack.push((x, true));
                for k in kids.into_iter().flatten() {
                    if !memo.contains_key(&k) { stack.push((k, false)); }
                }
                continue;
            }
            let g = |k: T| memo[&k];
            let v = match n {
                Node::Const(v) => v,
                Node::Var(id) => model.get(&id).copied().unwrap_or(0) & mask(w),
                Node::Bin(op, a, b) => eval_bin(op, g(a), g(b), self.w(a)),
                Node::Concat(a, b) => (g(a) << self.w(b)) | g(b),
                Node::Extract(lo, a) => (g(a) >> lo) & mask(w),
                Node::Zext(a) => g(a),
                Node::Sext(a) => (sx(g(a), self.w(a)) as u128) & mask(w),
                Node::Ite(c, a, b) => if g(c) != 0 { g(a) } else { g(b) },
            };
            memo.insert(x, v);
        }
        memo[&t]
    }
}
