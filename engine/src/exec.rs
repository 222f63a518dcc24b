//! Symbolic execution of LLVM IR with unwinding, path forking and solver-discharged checks.
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Solver};
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub enum Stop {
    Split(T),
    Viol(String),
    End,          // path finished normally
    Infeasible,   // assumption failed
    Error(String),
}
type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bb: u32,
    pub ip: usize,
    pub regs: Vec<Val>,
    pub sp: usize,
    pub catch: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Vec<Rc<Obj>>,
    pub stack: Vec<(u64, Rc<Obj>)>,
    pub next_slot: u64,
    pub globs: BTreeMap<u32, Rc<Obj>>,
    pub pc: Vec<T>,
    pub model: Rc<HashMap<u32, u128>>,
    pub memo: HashMap<T, u128>,
    pub decided: HashMap<T, u128>,
    pub inputs: Vec<(String, T, bool)>,
    pub ufs: Vec<(u32, T, T)>,
    pub reached: u64,
    pub expect: u64,
    pub mark: usize,
    pub finished: bool,
    pub steps: u64,
    pub allowleak: bool,
}

pub struct Violation { pub msg: String, pub trace: Vec<String>, pub inputs: Vec<(String, u128)> }

pub struct Engine {
    pub m: Module,
    pub ar: Arena,
    pub solver: Solver,
    pub gcache: HashMap<u32, Rc<Obj>>,
    pub special: HashMap<u32, Sp>,
    pub executed: BTreeSet<u32>,
    pub intrinsics: BTreeSet<String>,
    pub work: Vec<State>,
    pub violations: Vec<Violation>,
    pub vseen: BTreeSet<String>,
    pub paths: u64,
    pub steps: u64,
    pub forks: u64,
    pub infeasible: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub checks_trivial: u64,
    pub reached: u64,
    pub expect: u64,
    pub unwinds: u64,
    pub samples: Vec<Vec<(String, u128)>>,
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: Instant,
    pub trace: bool,
    /// only checks whose message carries one of these tags are evaluated
    pub tags: Option<Vec<String>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sp {
    No,
    SymBits, SymChoice, SymAssume, SymCheck, SymReach, SymExpect, SymUf, SymPanic, SymTry, SymCheckEq, SymMark, SymLeak, SymDone, SymFail, SymTrace, SymNew,
    Alloc, AllocZ, Dealloc, Realloc, Malloc, Calloc, Free, CRealloc, PosixMemalign,
    Panic, Abort, Memcmp, Bcmp, Strlen, Memcpy, Memset, GetRandom, RandKeys, Llvm, NoBody, Nop0,
}

fn classify(name: &str, has_body: bool) -> Sp {
    if let Some(s) = name.strip_prefix("sym_") {
        match s {
            "bits" => return Sp::SymBits, "choice" => return Sp::SymChoice, "assume" => return Sp::SymAssume,
            "check" => return Sp::SymCheck, "check_eq" => return Sp::SymCheckEq, "reach" => return Sp::SymReach, "expect_reach" => return Sp::SymExpect,
            "uf" => return Sp::SymUf, "panic" => return Sp::SymPanic, "try" => return Sp::SymTry,
            "heap_mark" => return Sp::SymMark, "leak_check" => return Sp::SymLeak, "done" => return Sp::SymDone,
            "fail" => return Sp::SymFail, "trace" => return Sp::SymTrace, "concrete" => return Sp::SymNew, _ => {}
        }
    }
    if name.starts_with("llvm.") { return Sp::Llvm; }
    match name {
        "malloc" => return Sp::Malloc, "calloc" => return Sp::Calloc, "free" => return Sp::Free, "realloc" => return Sp::CRealloc,
        "posix_memalign" => return Sp::PosixMemalign, "memcmp" => return Sp::Memcmp, "bcmp" => return Sp::Bcmp, "strlen" => return Sp::Strlen,
        "memcpy" | "memmove" => return Sp::Memcpy, "memset" => return Sp::Memset, "getrandom" => return Sp::GetRandom, "abort" => return Sp::Abort,
        "rust_begin_unwind" => return Sp::Panic, "__rust_alloc" => return Sp::Alloc, "__rust_dealloc" => return Sp::Dealloc,
        "__rust_realloc" => return Sp::Realloc, "__rust_alloc_zeroed" => return Sp::AllocZ,
        _ => {}
    }
    // v0-mangled shims: ..._7___rustc12___rust_alloc
    if name.starts_with("_R") && name.contains("___rustc") {
        if name.ends_with("12___rust_alloc") { return Sp::Alloc; }
        if name.ends_with("14___rust_dealloc") { return Sp::Dealloc; }
        if name.ends_with("14___rust_realloc") { return Sp::Realloc; }
        if name.ends_with("19___rust_alloc_zeroed") { return Sp::AllocZ; }
        if name.ends_with("17rust_begin_unwind") { return Sp::Panic; }
        if name.ends_with("no_alloc_shim_is_unstable_v2") { return Sp::Nop0; }
    }
    if name.starts_with("_ZN4core9panicking") {
        if name.contains("9panic_fmt17h") { return Sp::Panic; }
        if name.contains("panic_nounwind") || name.contains("panic_cannot_unwind") || name.contains("panic_in_cleanup") { return Sp::Abort; }
    }
    if name.starts_with("_ZN3std9panicking") && (name.contains("rust_panic_with_hook") || name.contains("rust_panic_without_hook") || name.contains("begin_panic") || name.contains("resume_unwind")) { return Sp::Panic; }
    if name.starts_with("_ZN3std7process5abort") || name.contains("18handle_alloc_error17h") || name.contains("rust_abort") { return Sp::Abort; }
    if name.contains("hashmap_random_keys") { return Sp::RandKeys; }
    if has_body { Sp::No } else { Sp::NoBody }
}

fn viol<X>(m: impl Into<String>) -> R<X> { Err(Stop::Viol(m.into())) }
fn err<X>(m: impl Into<String>) -> R<X> { Err(Stop::Error(m.into())) }

enum Flow { Next, Stay }

pub fn demangle(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut parts = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut l = 0usize;
            while i < b.len() && b[i].is_ascii_digit() { l = l * 10 + (b[i] - b'0') as usize; i += 1; }
            if i + l > r.len() { return n.to_string(); }
            parts.push(&r[i..i + l]);
            i += l;
        }
        if let Some(l) = parts.last() { if l.len() == 17 && l.starts_with('h') { parts.pop(); } }
        let mut s = parts.join("::");
        for (a, b) in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$C$", ","), ("$RF$", "&"), ("$BP$", "*"), ("$u5b$", "["), ("$u5d$", "]"), ("$u3b$", ";"), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$u27$", "'"), ("$u2b$", "+"), ("..", "::")] {
            s = s.replace(a, b);
        }
        return s.replace("_<", "<");
    }
    n.to_string()
}

impl Engine {
    pub fn new_state(&mut self, entry: u32) -> R<State> {
        let f = self.m.func(entry).map_err(Stop::Error)?;
        self.executed.insert(entry);
        Ok(State {
            frames: vec![Frame { regs: vec![Val::Undef; f.nregs as usize], f, bb: 0, ip: 0, sp: 0, catch: false }],
            heap: vec![], stack: vec![], next_slot: 0, globs: BTreeMap::new(), pc: vec![], model: Rc::new(HashMap::new()), memo: HashMap::new(),
            decided: HashMap::new(), inputs: vec![], ufs: vec![], reached: 0, expect: 0, mark: 0, finished: false, steps: 0, allowleak: false,
        })
    }
    pub fn input_vars(&self, s: &State) -> Vec<(T, u32)> {
        // every variable created so far on this path is an input or auxiliary variable: collect them from inputs
        s.inputs.iter().filter_map(|(_, t, _)| if let Node::Var(id) = self.ar.n(*t) { Some((*t, id)) } else { None }).collect()
    }
    fn eval_model(&self, s: &mut State, t: T) -> u128 { let m = s.model.clone(); self.ar.eval(t, &m, &mut s.memo) }
    fn concrete_inputs(&self, s: &State, model: &HashMap<u32, u128>) -> Vec<(String, u128)> {
        let mut memo = HashMap::new();
        s.inputs.iter().filter(|(_, _, user)| *user).map(|(n, t, _)| (n.clone(), self.ar.eval(*t, model, &mut memo))).collect()
    }
    fn in_scope(&self, id: &str) -> bool {
        match &self.tags { None => true, Some(t) => !id.starts_with('[') || t.iter().any(|t| id.starts_with(t.as_str())) }
    }
    fn stack_trace(&self, s: &State) -> Vec<String> { s.frames.iter().rev().take(12).map(|f| demangle(&f.f.name)).collect() }
    fn record(&mut self, s: &State, msg: String, model: &HashMap<u32, u128>) {
        if !self.vseen.insert(msg.clone()) || self.violations.len() >= 16 { return; }
        let v = Violation { msg, trace: self.stack_trace(s), inputs: self.concrete_inputs(s, model) };
        self.violations.push(v);
    }

    pub fn run(&mut self, entry: u32) -> Result<(), String> {
        let s = match self.new_state(entry) { Ok(s) => s, Err(Stop::Error(e)) => return Err(e), _ => unreachable!() };
        self.work.push(s);
        while let Some(mut s) = self.work.pop() {
            let mut n = 0u32;
            loop {
                n += 1;
                if n & 0xffff == 0 && Instant::now() > self.deadline { return Err(format!("time limit reached after {} paths", self.paths)); }
                s.steps += 1;
                self.steps += 1;
                if s.steps > self.max_steps { return Err(format!("step limit reached in {:?}", self.stack_trace(&s))); }
                match self.step(&mut s) {
                    Ok(()) => {}
                    Err(Stop::Split(t)) => {
                        let v = self.eval_model(&mut s, t);
                        let w = self.ar.w(t);
                        let k = self.ar.cst(v, w);
                        let eq = self.ar.bin(Op::Eq, t, k);
                        let ne = self.ar.not(eq);
                        let vars = self.input_vars(&s);
                        let (r, model) = self.solver.check(&self.ar, &s.pc, Some(ne), &vars);
                        if r == Res::Sat {
                            self.forks += 1;
                            if self.forks > self.max_paths { return Err("path limit reached".into()); }
                            let mut o = s.clone();
                            o.pc.push(ne);
                            o.model = Rc::new(model);
                            o.memo = HashMap::new();
                            if w == 1 { o.decided.insert(t, v ^ 1); }
                            self.work.push(o);
                            s.pc.push(eq);
                        }
                        s.decided.insert(t, v);
                    }
                    Err(Stop::Viol(msg)) => {
                        self.paths += 1;
                        let model = s.model.clone();
                        self.record(&s, msg, &model);
                        break;
                    }
                    Err(Stop::End) => {
                        self.paths += 1;
                        self.reached |= s.reached;
                        self.expect |= s.expect;
                        // the solver confirms that the path is feasible; its model is a sample input
                        let vars = self.input_vars(&s);
                        let (r, model) = self.solver.check(&self.ar, &s.pc, None, &vars);
                        if r == Res::Unsat { return Err("internal: completed path is infeasible".into()); }
                        if !s.finished { self.record(&s, "path ended without reaching sym_done".into(), &model); }
                        if self.samples.len() < 3 { let i = self.concrete_inputs(&s, &model); self.samples.push(i); }
                        break;
                    }
                    Err(Stop::Infeasible) => { self.infeasible += 1; break; }
                    Err(Stop::Error(e)) => return Err(format!("{e}\n  at {}", self.stack_trace(&s).join("\n     "))),
                }
            }
        }
        Ok(())
    }

    // ---------- values ----------
    fn opd(s: &State, o: &Opd) -> Val {
        match o { Opd::Reg(r) => s.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(v) => v.clone() }
    }
    fn set(s: &mut State, r: u32, v: Val) { s.frames.last_mut().unwrap().regs[r as usize] = v; }
    fn term(&mut self, v: &Val, w: u32) -> R<T> {
        match v {
            Val::C(c) => Ok(self.ar.cst(*c, w)),
            Val::T(t) => Ok(*t),
            Val::P(_) | Val::Undef => viol("use of uninitialised value"),
            Val::Agg(_) => err("aggregate where scalar expected"),
        }
    }
    fn wrap(&self, t: T) -> Val { match self.ar.as_const(t) { Some(c) => Val::C(c), None => Val::T(t) } }
    fn parts(&mut self, v: &Val, w: u32) -> R<(T, u128)> {
        match v {
            Val::C(c) => Ok((self.ar.cst(*c, w), 0)),
            Val::T(t) => Ok((*t, 0)),
            Val::Undef => Ok((self.ar.cst(0, w), mask(w))),
            Val::P(p) => Ok((match p.0 { PVal::C(c) => self.ar.cst(c, w), PVal::T(t) => t }, p.1)),
            Val::Agg(_) => err("aggregate where scalar expected"),
        }
    }
    fn conc_t(&mut self, s: &State, t: T) -> R<u128> {
        if let Some(c) = self.ar.as_const(t) { return Ok(c); }
        if let Some(&v) = s.decided.get(&t) { return Ok(v); }
        Err(Stop::Split(t))
    }
    fn conc(&mut self, s: &State, v: &Val, what: &str) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::T(t) => self.conc_t(s, *t),
            Val::Undef | Val::P(_) => viol(format!("use of uninitialised value as {what}")),
            Val::Agg(_) => err("aggregate where scalar expected"),
        }
    }
    fn conco(&mut self, s: &State, o: &Opd, what: &str) -> R<u128> { let v = Self::opd(s, o); self.conc(s, &v, what) }

    fn lanes(v: &Val, n: usize) -> Vec<Val> {
        match v { Val::Agg(a) => a.to_vec(), Val::Undef => vec![Val::Undef; n], _ => panic!("lanes of scalar") }
    }
    fn bin(&mut self, s: &State, op: BinOp, fl: u8, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vect(n, e) = ty {
            let (x, y) = (Self::lanes(a, *n as usize), Self::lanes(b, *n as usize));
            let mut o = vec![];
            for i in 0..*n as usize { o.push(self.bin(s, op, fl, e, &x[i], &y[i])?); }
            return Ok(Val::Agg(Rc::new(o)));
        }
        let w = ty.width();
        if let (Val::C(x), Val::C(y)) = (a, b) { return self.bin_c(op, fl, *x, *y, w); }
        let und = |v: &Val| matches!(v, Val::Undef | Val::P(_));
        if und(a) || und(b) {
            let (ta, ua) = self.parts(a, w)?;
            let (tb, ub) = self.parts(b, w)?;
            match op {
                BinOp::And | BinOp::Or | BinOp::Xor => {
                    let o = match op { BinOp::And => Op::And, BinOp::Or => Op::Or, _ => Op::Xor };
                    let t = self.ar.bin(o, ta, tb);
                    let mut um = ua | ub;
                    // a defined absorbing bit on one side defines the result
                    if op != BinOp::Xor {
                        for (t, u) in [(ta, ua), (tb, ub)] {
                            if let Some(c) = self.ar.as_const(t) {
                                let absorb = if op == BinOp::And { !c } else { c } & !u & mask(w);
                                um &= !absorb;
                            }
                        }
                    }
                    // value bits that are undefined are masked to 0 so that they never leak into defined bits
                    return Ok(mkval(&self.ar, t, um & mask(w)));
                }
                BinOp::Shl | BinOp::LShr if ub == 0 => {
                    let sh = self.conc_t(s, tb)?;
                    if sh >= w as u128 { return Ok(Val::Undef); }
                    let o = if op == BinOp::Shl { Op::Shl } else { Op::LShr };
                    let t = self.ar.bin(o, ta, tb);
                    let um = if op == BinOp::Shl { ua << sh } else { ua >> sh } & mask(w);
                    return Ok(mkval(&self.ar, t, um));
                }
                BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem if ub != 0 => return viol("division by an uninitialised value"),
                _ => return Ok(Val::Undef),
            }
        }
        let ta = self.term(a, w)?;
        let tb = self.term(b, w)?;
        let o = match op {
            BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor,
            BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
        };
        match op {
            BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem => {
                let z = self.ar.cst(0, w);
                let e = self.ar.bin(Op::Eq, tb, z);
                if self.conc_t(s, e)? == 1 { return viol("division by zero"); }
                if matches!(op, BinOp::SDiv | BinOp::SRem) {
                    let mn = self.ar.cst(1u128 << (w - 1), w);
                    let m1 = self.ar.cst(u128::MAX, w);
                    let e1 = self.ar.bin(Op::Eq, ta, mn);
                    let e2 = self.ar.bin(Op::Eq, tb, m1);
                    let e = self.ar.and1(e1, e2);
                    if self.conc_t(s, e)? == 1 { return viol("signed division overflow"); }
                }
            }
            BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                let lim = self.ar.cst(w as u128, w);
                let ok = self.ar.bin(Op::Ult, tb, lim);
                if (w as u128) <= mask(w) && self.conc_t(s, ok)? == 0 { return Ok(Val::Undef); }
            }
            _ => {}
        }
        let t = self.ar.bin(o, ta, tb);
        Ok(self.wrap(t))
    }
    fn bin_c(&mut self, op: BinOp, fl: u8, x: u128, y: u128, w: u32) -> R<Val> {
        let m = mask(w);
        let (sxx, sy) = (sx(x, w), sx(y, w));
        let fits = |v: i128| sx(v as u128 & m, w) == v;
        Ok(Val::C(match op {
            BinOp::Add => {
                let r = x.wrapping_add(y) & m;
                if fl & F_NUW != 0 && r < x { return Ok(Val::Undef); }
                if fl & F_NSW != 0 && w < 128 && !fits(sxx + sy) { return Ok(Val::Undef); }
                r
            }
            BinOp::Sub => {
                if fl & F_NUW != 0 && y > x { return Ok(Val::Undef); }
                if fl & F_NSW != 0 && w < 128 && !fits(sxx - sy) { return Ok(Val::Undef); }
                x.wrapping_sub(y) & m
            }
            BinOp::Mul => {
                if fl & F_NUW != 0 && x.checked_mul(y).map_or(true, |v| v > m) { return Ok(Val::Undef); }
                if fl & F_NSW != 0 && w <= 64 && !fits(sxx * sy) { return Ok(Val::Undef); }
                x.wrapping_mul(y) & m
            }
            BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                if y == 0 { return viol("division by zero"); }
                if matches!(op, BinOp::SDiv | BinOp::SRem) && sy == -1 && x == 1u128 << (w - 1) { return viol("signed division overflow"); }
                eval_bin(match op { BinOp::UDiv => Op::UDiv, BinOp::URem => Op::URem, BinOp::SDiv => Op::SDiv, _ => Op::SRem }, x, y, w)
            }
            BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                if y >= w as u128 { return Ok(Val::Undef); }
                let r = eval_bin(match op { BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, _ => Op::AShr }, x, y, w);
                if op == BinOp::Shl && fl & F_NUW != 0 && r >> y != x { return Ok(Val::Undef); }
                r
            }
            BinOp::And => x & y,
            BinOp::Or => { if fl & F_DISJOINT != 0 && x & y != 0 { return Ok(Val::Undef); } x | y }
            BinOp::Xor => x ^ y,
        }))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vect(n, e) = ty {
            let (x, y) = (Self::lanes(a, *n as usize), Self::lanes(b, *n as usize));
            let mut o = vec![];
            for i in 0..*n as usize { o.push(self.icmp(p, e, &x[i], &y[i])?); }
            return Ok(Val::Agg(Rc::new(o)));
        }
        let w = ty.width();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (i, j) = (sx(x, w), sx(y, w));
            return Ok(Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => i > j, Pred::Sge => i >= j, Pred::Slt => i < j, Pred::Sle => i <= j } as u128));
        }
        let (ta, ua) = self.parts(a, w)?;
        let (tb, ub) = self.parts(b, w)?;
        if ua | ub != 0 {
            if matches!(p, Pred::Eq | Pred::Ne) {
                if let (Some(x), Some(y)) = (self.ar.as_const(ta), self.ar.as_const(tb)) {
                    if (x ^ y) & !(ua | ub) & mask(w) != 0 { return Ok(Val::C((p == Pred::Ne) as u128)); }
                }
            }
            return Ok(Val::Undef);
        }
        let t = match p {
            Pred::Eq => self.ar.bin(Op::Eq, ta, tb),
            Pred::Ne => { let e = self.ar.bin(Op::Eq, ta, tb); self.ar.not(e) }
            Pred::Ult => self.ar.bin(Op::Ult, ta, tb),
            Pred::Ule => self.ar.bin(Op::Ule, ta, tb),
            Pred::Ugt => self.ar.bin(Op::Ult, tb, ta),
            Pred::Uge => self.ar.bin(Op::Ule, tb, ta),
            Pred::Slt => self.ar.bin(Op::Slt, ta, tb),
            Pred::Sle => self.ar.bin(Op::Sle, ta, tb),
            Pred::Sgt => self.ar.bin(Op::Slt, tb, ta),
            Pred::Sge => self.ar.bin(Op::Sle, tb, ta),
        };
        Ok(self.wrap(t))
    }
    fn to_bits(&mut self, v: &Val, ty: &Ty) -> R<(T, u128)> {
        match ty {
            Ty::Vect(n, e) => {
                let l = Self::lanes(v, *n as usize);
                let ew = e.bits() as u32;
                let mut acc: Option<T> = None;
                let mut um = 0u128;
                for i in (0..*n as usize).rev() {
                    let (t, u) = self.to_bits(&l[i], e)?;
                    um = (um << ew) | u;
                    acc = Some(match acc { None => t, Some(h) => self.ar.concat(h, t) });
                }
                Ok((acc.unwrap(), um))
            }
            _ => self.parts(v, ty.width()),
        }
    }
    fn from_bits(&mut self, t: T, um: u128, ty: &Ty) -> Val {
        match ty {
            Ty::Vect(n, e) => {
                let ew = e.bits() as u32;
                let mut o = vec![];
                for i in 0..*n as u32 {
                    let x = self.ar.extract(t, i * ew, ew);
                    o.push(self.from_bits(x, (um >> (i * ew)) & mask(ew), e));
                }
                Val::Agg(Rc::new(o))
            }
            _ => mkval(&self.ar, t, um),
        }
    }
    fn cast(&mut self, k: CastK, fl: u8, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if k == CastK::Bit {
            if from.is_agg() || to.is_agg() { let (t, u) = self.to_bits(v, from)?; return Ok(self.from_bits(t, u, to)); }
            return Ok(v.clone());
        }
        if let (Ty::Vect(n, e), Ty::Vect(_, e2)) = (from, to) {
            let x = Self::lanes(v, *n as usize);
            let mut o = vec![];
            for l in &x { o.push(self.cast(k, fl, e, e2, l)?); }
            return Ok(Val::Agg(Rc::new(o)));
        }
        let (w, w2) = (from.width(), to.width());
        match v {
            Val::C(c) => Ok(match k {
                CastK::Trunc => {
                    if fl & F_NUW != 0 && c & !mask(w2) != 0 { return Ok(Val::Undef); }
                    Val::C(c & mask(w2))
                }
                CastK::Sext => Val::C(sx(*c, w) as u128 & mask(w2)),
                _ => Val::C(*c),
            }),
            Val::Undef if k != CastK::Zext => Ok(Val::Undef),
            _ => {
                let (t, um) = self.parts(v, w)?;
                Ok(match k {
                    CastK::Trunc => { let x = self.ar.extract(t, 0, w2); mkval(&self.ar, x, um & mask(w2)) }
                    CastK::Zext => { let x = self.ar.zext(t, w2); mkval(&self.ar, x, um) }
                    _ => { let x = self.ar.sext(t, w2); let u = if um & (1u128 << (w - 1)) != 0 { um | (mask(w2) & !mask(w)) } else { um }; mkval(&self.ar, x, u) }
                })
            }
        }
    }
    fn select(&mut self, s: &State, ct: &Ty, ty: &Ty, c: &Val, a: &Val, b: &Val) -> R<Val> {
        if let (Ty::Vect(n, ce), Ty::Vect(_, e)) = (ct, ty) {
            let (cl, x, y) = (Self::lanes(c, *n as usize), Self::lanes(a, *n as usize), Self::lanes(b, *n as usize));
            let mut o = vec![];
            for i in 0..*n as usize { o.push(self.select(s, ce, e, &cl[i], &x[i], &y[i])?); }
            return Ok(Val::Agg(Rc::new(o)));
        }
        match c {
            Val::C(v) => Ok(if *v != 0 { a.clone() } else { b.clone() }),
            Val::T(t) => {
                if let Some(&v) = s.decided.get(t) { return Ok(if v != 0 { a.clone() } else { b.clone() }); }
                if let (Ty::Int(w), Val::C(_) | Val::T(_), Val::C(_) | Val::T(_)) = (ty, a, b) {
                    let (x, y) = (self.term(a, *w)?, self.term(b, *w)?);
                    let r = self.ar.ite(*t, x, y);
                    return Ok(self.wrap(r));
                }
                Err(Stop::Split(*t))
            }
            _ => Ok(Module::undef(ty)),
        }
    }

    // ---------- memory ----------
    fn global_obj(&mut self, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&id) { return Ok(o.clone()); }
        let (ty, init, name) = { let g = &self.m.globals[id as usize]; (g.ty.clone(), g.init.clone(), g.name.clone()) };
        let base = self.m.glob_addr(id);
        let align = self.m.globals[id as usize].align;
        let mut o = Obj::new(base, ty.size(), align);
        match init {
            None => return err(format!("access to external global @{name}")),
            Some(txt) => {
                let mut c = Cur::new(&txt);
                let v = self.m.konst(&mut c, &ty).map_err(|e| Stop::Error(format!("initialiser of @{name}: {e}")))?;
                self.put_val(&mut o, 0, &ty, &v);
            }
        }
        o.readonly = self.m.globals[id as usize].constant;
        let o = Rc::new(o);
        self.gcache.insert(id, o.clone());
        Ok(o)
    }
    fn put_val(&mut self, o: &mut Obj, off: usize, ty: &Ty, v: &Val) {
        if ty.is_agg() {
            let (offs, _) = ty.layout();
            if let Val::Agg(a) = v { for (i, x) in a.iter().enumerate() { let e = ty.elem(i); self.put_val(o, off + offs[i] as usize, &e, x); } }
            else { o.fill(off, ty.size() as usize, None); }
        } else {
            o.store(&mut self.ar, off, ty.store_size() as usize, v, ty.width());
        }
    }
    fn describe(&self, addr: u64) -> String {
        if addr < 0x10000 { format!("null/dangling address {addr:#x}") } else { format!("address {addr:#x}") }
    }
    /// find object and check the access; returns the offset
    fn locate(&mut self, s: &State, addr: u64, n: u64, write: bool, what: &str) -> R<(Loc, usize)> {
        let (loc, o): (Loc, &Rc<Obj>) = if addr >= STACK_BASE && addr < STACK_END {
            let slot = (addr - STACK_BASE) >> STACK_SHIFT;
            match s.stack.binary_search_by_key(&slot, |e| e.0) {
                Ok(i) => (Loc::Stack(i), &s.stack[i].1),
                Err(_) => return viol(format!("{what}: dangling stack pointer")),
            }
        } else if addr >= HEAP_BASE && addr < STACK_BASE {
            let i = ((addr - HEAP_BASE) >> HEAP_SHIFT) as usize;
            if i >= s.heap.len() { return viol(format!("{what}: wild heap pointer")); }
            (Loc::Heap(i), &s.heap[i])
        } else if addr >= GLOB_BASE && addr < HEAP_BASE {
            let id = ((addr - GLOB_BASE) >> GLOB_SHIFT) as u32;
            if id as usize >= self.m.globals.len() { return viol(format!("{what}: wild global pointer")); }
            if !s.globs.contains_key(&id) { self.global_obj(id)?; }
            let o = match s.globs.get(&id) { Some(o) => o, None => &self.gcache[&id] };
            (Loc::Glob(id), o)
        } else {
            return viol(format!("{what}: invalid pointer ({})", self.describe(addr)));
        };
        if !o.live { return viol(format!("{what}: use after free")); }
        let off = addr.wrapping_sub(o.base);
        if addr < o.base || off > o.size || o.size - off < n { return viol(format!("{what}: out of bounds (offset {}, size {}, object size {})", off as i64, n, o.size)); }
        if write && o.readonly { return viol(format!("{what}: write to constant memory")); }
        Ok((loc, off as usize))
    }
    fn obj<'b>(&'b self, s: &'b State, l: Loc) -> &'b Rc<Obj> {
        match l { Loc::Stack(i) => &s.stack[i].1, Loc::Heap(i) => &s.heap[i], Loc::Glob(g) => s.globs.get(&g).unwrap_or_else(|| &self.gcache[&g]) }
    }
    fn obj_mut<'b>(gc: &HashMap<u32, Rc<Obj>>, s: &'b mut State, l: Loc) -> &'b mut Obj {
        match l {
            Loc::Stack(i) => Rc::make_mut(&mut s.stack[i].1),
            Loc::Heap(i) => Rc::make_mut(&mut s.heap[i]),
            Loc::Glob(g) => Rc::make_mut(s.globs.entry(g).or_insert_with(|| gc[&g].clone())),
        }
    }
    fn load(&mut self, s: &State, ty: &Ty, addr: u64, align: u64) -> R<Val> {
        if addr % align.max(1) != 0 { return viol("misaligned load"); }
        let n = ty.store_size();
        if n == 0 { return Ok(if ty.is_agg() { Module::undef(ty) } else { Val::Undef }); }
        let (l, off) = self.locate(s, addr, n, false, "load")?;
        let o = self.obj(s, l).clone();
        Ok(self.load_from(&o, off, ty))
    }
    fn load_from(&mut self, o: &Obj, off: usize, ty: &Ty) -> Val {
        if ty.is_agg() {
            let (offs, _) = ty.layout();
            return Val::Agg(Rc::new((0..ty.count()).map(|i| { let e = ty.elem(i); self.load_from(o, off + offs[i] as usize, &e) }).collect()));
        }
        let n = ty.store_size() as usize;
        let w = ty.width();
        let v = o.load(&mut self.ar, off, n);
        if w as usize == n * 8 { return v; }
        match v {
            Val::C(c) => Val::C(c & mask(w)),
            Val::Undef => Val::Undef,
            v => { let (t, um) = self.parts(&v, n as u32 * 8).ok().unwrap(); let x = self.ar.extract(t, 0, w); mkval(&self.ar, x, um & mask(w)) }
        }
    }
    fn store(&mut self, s: &mut State, ty: &Ty, addr: u64, v: &Val, align: u64) -> R<()> {
        if addr % align.max(1) != 0 { return viol("misaligned store"); }
        let n = ty.store_size();
        if n == 0 { return Ok(()); }
        let (l, off) = self.locate(s, addr, n, true, "store")?;
        if ty.is_agg() {
            let mut o = self.obj(s, l).as_ref().clone();
            self.put_val(&mut o, off, ty, v);
            *Self::obj_mut(&self.gcache, s, l) = o;
        } else {
            let w = ty.width();
            let o = Self::obj_mut(&self.gcache, s, l);
            o.store(&mut self.ar, off, n as usize, v, w);
        }
        Ok(())
    }
    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64, overlap_ok: bool) -> R<()> {
        if n == 0 { return Ok(()); }
        let (ls, so) = self.locate(s, src, n, false, "memcpy source")?;
        let (ld, d) = self.locate(s, dst, n, true, "memcpy destination")?;
        if !overlap_ok && src != dst && src < dst.wrapping_add(n) && dst < src.wrapping_add(n) { return viol("memcpy with overlapping ranges"); }
        let n = n as usize;
        let o = self.obj(s, ls).clone();
        let syms: Vec<(u32, (T, u32, u8))> = if o.sym.is_empty() { vec![] } else { o.sym.range(so as u32..(so + n) as u32).map(|(k, v)| (*k - so as u32 + d as u32, *v)).collect() };
        let t = Self::obj_mut(&self.gcache, s, ld);
        t.clear_sym(d, n);
        t.bytes[d..d + n].copy_from_slice(&o.bytes[so..so + n]);
        t.st[d..d + n].copy_from_slice(&o.st[so..so + n]);
        for (k, v) in syms { t.sym.insert(k, v); }
        Ok(())
    }
    fn alloc_heap(&mut self, s: &mut State, size: u64, align: u64, zero: bool) -> R<u64> {
        if align == 0 || !align.is_power_of_two() { return viol("allocation with invalid alignment"); }
        if size > 1 << 24 { return err(format!("allocation of {size} bytes exceeds the engine's limit")); }
        let i = s.heap.len() as u64;
        let pad = if align < SLOT_PAD { SLOT_PAD + align } else { align };
        let base = HEAP_BASE + (i << HEAP_SHIFT) + pad;
        let mut o = Obj::new(base, size, align);
        if zero { o.fill(0, size as usize, Some(0)); }
        s.heap.push(Rc::new(o));
        Ok(base)
    }
    fn heap_obj(&self, s: &State, p: u64, what: &str) -> R<usize> {
        if p < HEAP_BASE || p >= STACK_BASE { return viol(format!("{what}: pointer was not allocated ({})", self.describe(p))); }
        let i = ((p - HEAP_BASE) >> HEAP_SHIFT) as usize;
        if i >= s.heap.len() || s.heap[i].base != p { return viol(format!("{what}: not the start of an allocation")); }
        if !s.heap[i].live { return viol(format!("{what}: double free")); }
        Ok(i)
    }
    fn dealloc(&mut self, s: &mut State, p: u64, lay: Option<(u64, u64)>) -> R<()> {
        let i = self.heap_obj(s, p, "dealloc")?;
        if let Some((sz, al)) = lay {
            if s.heap[i].size != sz || s.heap[i].align != al { return viol(format!("dealloc: layout mismatch (allocated size {} align {}, freed with size {sz} align {al})", s.heap[i].size, s.heap[i].align)); }
        }
        let o = Rc::make_mut(&mut s.heap[i]);
        o.live = false;
        o.bytes = vec![];
        o.st = vec![];
        o.sym.clear();
        Ok(())
    }

    // ---------- control ----------
    fn goto(&mut self, s: &mut State, to: u32) -> R<()> {
        let fr = s.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let from = fr.bb;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = match inc.iter().find(|(_, p)| *p == from) { Some((o, _)) => o, None => return err("phi without incoming edge") };
                let v = match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() };
                vals.push((*d, v));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }
    /// complete the call instruction at the top frame's ip with a result
    fn finish_call(&mut self, s: &mut State, v: Option<Val>) -> R<()> {
        let f = s.frames.last().unwrap().f.clone();
        let (bb, ip) = { let fr = s.frames.last().unwrap(); (fr.bb, fr.ip) };
        match &f.blocks[bb as usize].insts[ip] {
            Inst::Call(c) => {
                if let (Some(d), Some(v)) = (c.dst, v) { Self::set(s, d, v); }
                match c.invoke { Some((n, _)) => self.goto(s, n)?, None => s.frames.last_mut().unwrap().ip += 1 }
                Ok(())
            }
            _ => err("return to a non-call"),
        }
    }
    /// start/continue unwinding: the top frame's current instruction raised
    fn unwind(&mut self, s: &mut State) -> R<()> {
        loop {
            let (f, bb, ip, catch) = { let fr = s.frames.last().unwrap(); (fr.f.clone(), fr.bb, fr.ip, fr.catch) };
            if let Inst::Call(c) = &f.blocks[bb as usize].insts[ip] {
                if let Some((_, u)) = c.invoke { return self.goto(s, u); }
                if c.nounwind { return viol("panic escapes a nounwind call (process abort)"); }
            }
            if f.nounwind { return viol(format!("panic escapes a nounwind function (process abort): {}", demangle(&f.name))); }
            // pop
            let fr = s.frames.pop().unwrap();
            s.stack.truncate(fr.sp);
            if s.frames.is_empty() { return viol("harness entry unwound"); }
            if catch { return self.finish_call(s, Some(Val::C(1))); }
        }
    }
    fn push_frame(&mut self, s: &mut State, fid: u32, args: Vec<Val>, catch: bool) -> R<()> {
        let f = self.m.func(fid).map_err(Stop::Error)?;
        self.executed.insert(fid);
        if s.frames.len() > 2000 { return err("call depth limit"); }
        let mut regs = vec![Val::Undef; f.nregs as usize];
        if args.len() < f.params.len() { return err("argument count mismatch"); }
        for ((r, _), v) in f.params.iter().zip(args) { regs[*r as usize] = v; }
        let sp = s.stack.len();
        s.frames.push(Frame { f, bb: 0, ip: 0, regs, sp, catch });
        Ok(())
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let f = s.frames.last().unwrap().f.clone();
        let (bb, ip) = { let fr = s.frames.last().unwrap(); (fr.bb as usize, fr.ip) };
        let ins = match f.blocks[bb].insts.get(ip) { Some(i) => i, None => return err("fell off block") };
        if self.trace { eprintln!("{} %{} {:?}", demangle(&f.name), f.blocks[bb].name, ins); }
        match self.inst(s, ins)? {
            Flow::Next => s.frames.last_mut().unwrap().ip += 1,
            Flow::Stay => {}
        }
        Ok(())
    }
    fn inst(&mut self, s: &mut State, ins: &Inst) -> R<Flow> {
        match ins {
            Inst::Bin(d, op, fl, ty, a, b) => { let (x, y) = (Self::opd(s, a), Self::opd(s, b)); let v = self.bin(s, *op, *fl, ty, &x, &y)?; Self::set(s, *d, v); }
            Inst::Icmp(d, p, ty, a, b) => { let (x, y) = (Self::opd(s, a), Self::opd(s, b)); let v = self.icmp(*p, ty, &x, &y)?; Self::set(s, *d, v); }
            Inst::Cast(d, k, fl, from, to, a) => { let x = Self::opd(s, a); let v = self.cast(*k, *fl, from, to, &x)?; Self::set(s, *d, v); }
            Inst::Load(d, ty, p, al) => { let a = self.conco(s, p, "a load address")? as u64; let v = self.load(s, ty, a, *al)?; Self::set(s, *d, v); }
            Inst::Store(ty, v, p, al) => { let a = self.conco(s, p, "a store address")? as u64; let v = Self::opd(s, v); self.store(s, ty, a, &v, *al)?; }
            Inst::Gep(d, p, off, idx) => {
                let base = Self::opd(s, p);
                if let (Val::C(b), true) = (&base, idx.is_empty()) { Self::set(s, *d, Val::C((*b as u64).wrapping_add(*off) as u128)); return Ok(Flow::Next); }
                let mut acc = base;
                if *off != 0 { acc = self.bin(s, BinOp::Add, 0, &Ty::Int(64), &acc, &Val::C(*off as u128))?; }
                for (scale, w, o) in idx {
                    let v = Self::opd(s, o);
                    let v = if *w < 64 { self.cast(CastK::Sext, 0, &Ty::Int(*w), &Ty::Int(64), &v)? } else { v };
                    let v = self.bin(s, BinOp::Mul, 0, &Ty::Int(64), &v, &Val::C(*scale as u128))?;
                    acc = self.bin(s, BinOp::Add, 0, &Ty::Int(64), &acc, &v)?;
                }
                Self::set(s, *d, acc);
            }
            Inst::Alloca(d, sz, cnt, al) => {
                let n = match cnt { Some((_, o)) => self.conco(s, o, "an alloca size")? as u64, None => 1 };
                let size = sz * n;
                if size > 1 << 20 { return err("alloca too large"); }
                let slot = s.next_slot;
                s.next_slot += 1;
                let base = STACK_BASE + (slot << STACK_SHIFT) + SLOT_PAD + if *al < SLOT_PAD { *al } else { 0 };
                s.stack.push((slot, Rc::new(Obj::new(base, size, *al))));
                Self::set(s, *d, Val::C(base as u128));
            }
            Inst::Call(c) => return self.call(s, c),
            Inst::Select(d, ct, ty, c, a, b) => { let (c, x, y) = (Self::opd(s, c), Self::opd(s, a), Self::opd(s, b)); let v = self.select(s, ct, ty, &c, &x, &y)?; Self::set(s, *d, v); }
            Inst::Extract(d, a, ix) => {
                let mut v = Self::opd(s, a);
                for i in ix { v = match v { Val::Agg(l) => l[*i as usize].clone(), Val::Undef => Val::Undef, _ => return err("extractvalue of scalar") }; }
                Self::set(s, *d, v);
            }
            Inst::Insert(d, ty, a, b, ix) => {
                let v = Self::opd(s, a);
                let x = Self::opd(s, b);
                let r = ins_val(&v, ty, x, ix);
                Self::set(s, *d, r);
            }
            Inst::ExtractEl(d, ty, a, i) => {
                let v = Self::lanes(&Self::opd(s, a), ty.count());
                let k = self.conco(s, i, "an element index")? as usize;
                Self::set(s, *d, v.get(k).cloned().unwrap_or(Val::Undef));
            }
            Inst::InsertEl(d, ty, a, b, i) => {
                let mut v = Self::lanes(&Self::opd(s, a), ty.count());
                let k = self.conco(s, i, "an element index")? as usize;
                if k < v.len() { v[k] = Self::opd(s, b); }
                Self::set(s, *d, Val::Agg(Rc::new(v)));
            }
            Inst::Shuffle(d, ty, a, b, mk) => {
                let n = ty.count();
                let x = Self::lanes(&Self::opd(s, a), n);
                let y = Self::lanes(&Self::opd(s, b), n);
                let o = mk.iter().map(|k| match k { Some(k) if (*k as usize) < n => x[*k as usize].clone(), Some(k) => y[*k as usize - n].clone(), None => Val::Undef }).collect();
                Self::set(s, *d, Val::Agg(Rc::new(o)));
            }
            Inst::Br(t) => { self.goto(s, *t)?; return Ok(Flow::Stay); }
            Inst::CondBr(c, a, b) => { let v = self.conco(s, c, "a branch condition")?; self.goto(s, if v != 0 { *a } else { *b })?; return Ok(Flow::Stay); }
            Inst::Switch(_, o, d, cases) => {
                let v = Self::opd(s, o);
                let mut to = *d;
                match v {
                    Val::C(c) => for (k, t) in cases { if *k == c { to = *t; break; } },
                    Val::T(t) => {
                        let w = self.ar.w(t);
                        if let Some(&c) = s.decided.get(&t) { for (k, l) in cases { if *k == c { to = *l; break; } } }
                        else {
                            for (k, l) in cases {
                                let kk = self.ar.cst(*k, w);
                                let e = self.ar.bin(Op::Eq, t, kk);
                                if self.conc_t(s, e)? == 1 { to = *l; break; }
                            }
                        }
                    }
                    _ => return viol("switch on uninitialised value"),
                }
                self.goto(s, to)?;
                return Ok(Flow::Stay);
            }
            Inst::Ret(_, o) => {
                let v = o.as_ref().map(|o| Self::opd(s, o));
                let fr = s.frames.pop().unwrap();
                s.stack.truncate(fr.sp);
                if s.frames.is_empty() { return Err(Stop::End); }
                let v = if fr.catch { Some(Val::C(0)) } else { v };
                self.finish_call(s, v)?;
                return Ok(Flow::Stay);
            }
            Inst::Unreachable => return viol("reached unreachable code (undefined behaviour)"),
            Inst::Landing(d, cleanup, cl) => {
                let mut sel = 0u128;
                let mut matched = *cleanup;
                for c in cl { match c { Clause::Catch => { sel = 1; matched = true; break; } Clause::Filter => { sel = mask(32); matched = true; break; } } }
                if !matched { return err("landingpad without matching clause"); }
                Self::set(s, *d, Val::Agg(Rc::new(vec![Val::C(0x0e0e_0000), Val::C(sel)])));
            }
            Inst::Resume(_) => { self.unwind_resume(s)?; return Ok(Flow::Stay); }
            Inst::Freeze(d, ty, o) => {
                let v = Self::opd(s, o);
                let v = self.freeze(s, ty, v);
                Self::set(s, *d, v);
            }
            Inst::Rmw(d, k, ty, p, v) => {
                let a = self.conco(s, p, "an atomic address")? as u64;
                let old = self.load(s, ty, a, ty.size())?;
                let x = Self::opd(s, v);
                let bop = |o| Some(o);
                let op = match k.as_str() { "add" => bop(BinOp::Add), "sub" => bop(BinOp::Sub), "and" => bop(BinOp::And), "or" => bop(BinOp::Or), "xor" => bop(BinOp::Xor), "xchg" => None, o => return err(format!("atomicrmw {o}")) };
                let new = match op { Some(o) => self.bin(s, o, 0, ty, &old, &x)?, None => x };
                self.store(s, ty, a, &new, ty.size())?;
                Self::set(s, *d, old);
            }
            Inst::CmpXchg(d, ty, p, e, n) => {
                let a = self.conco(s, p, "an atomic address")? as u64;
                let old = self.load(s, ty, a, ty.size())?;
                let (e, n) = (Self::opd(s, e), Self::opd(s, n));
                let c = self.icmp(Pred::Eq, ty, &old, &e)?;
                let eq = self.conc(s, &c, "a cmpxchg comparison")?;
                if eq == 1 { self.store(s, ty, a, &n, ty.size())?; }
                Self::set(s, *d, Val::Agg(Rc::new(vec![old, Val::C(eq)])));
            }
            Inst::Fence => {}
            Inst::Unsupported(m) => return err(format!("unsupported instruction: {m}")),
        }
        Ok(Flow::Next)
    }
    fn freeze(&mut self, s: &mut State, ty: &Ty, v: Val) -> Val {
        match v {
            Val::Undef if ty.is_agg() => { let u = Module::undef(ty); self.freeze(s, ty, u) }
            Val::Agg(a) => Val::Agg(Rc::new(a.iter().enumerate().map(|(i, x)| { let e = ty.elem(i); self.freeze(s, &e, x.clone()) }).collect())),
            Val::Undef => { let t = self.fresh(s, "freeze", ty.width(), false); Val::T(t) }
            Val::P(p) => {
                let w = ty.width();
                let x = self.fresh(s, "freeze", w, false);
                let t = match p.0 { PVal::C(c) => self.ar.cst(c, w), PVal::T(t) => t };
                let um = self.ar.cst(p.1, w);
                let dm = self.ar.cst(!p.1, w);
                let a = self.ar.bin(Op::And, x, um);
                let b = self.ar.bin(Op::And, t, dm);
                let r = self.ar.bin(Op::Or, a, b);
                self.wrap(r)
            }
            v => v,
        }
    }
    fn fresh(&mut self, s: &mut State, name: &str, w: u32, user: bool) -> T {
        let t = self.ar.var(w);
        s.inputs.push((name.to_string(), t, user));
        t
    }
    fn unwind_resume(&mut self, s: &mut State) -> R<()> {
        // leave the current frame, continue in the caller
        let fr = s.frames.pop().unwrap();
        if fr.f.nounwind { return viol(format!("panic escapes a nounwind function (process abort): {}", demangle(&fr.f.name))); }
        s.stack.truncate(fr.sp);
        if s.frames.is_empty() { return viol("harness entry unwound"); }
        if fr.catch { return self.finish_call(s, Some(Val::C(1))); }
        self.unwind(s)
    }
    fn call(&mut self, s: &mut State, c: &CallI) -> R<Flow> {
        let fid = match &c.callee {
            Callee::Func(f) => *f,
            Callee::Ptr(o) => {
                let a = self.conco(s, o, "a function pointer")? as u64;
                if a < FUNC_BASE || a >= GLOB_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 { return viol(format!("call through invalid function pointer {a:#x}")); }
                ((a - FUNC_BASE) / 16) as u32
            }
            Callee::Asm => { self.finish_call(s, Some(Val::Undef))?; return Ok(Flow::Stay); }
        };
        if c.byval { return err("byval argument"); }
        let sp = match self.special.get(&fid) { Some(x) => *x, None => { let e = &self.m.funcs[fid as usize]; let x = classify(&e.name, e.span.is_some()); self.special.insert(fid, x); x } };
        let args: Vec<Val> = c.args.iter().map(|(_, o)| Self::opd(s, o)).collect();
        if sp == Sp::No { self.push_frame(s, fid, args, false)?; return Ok(Flow::Stay); }
        self.special_call(s, c, fid, sp, args)
    }
    fn special_call(&mut self, s: &mut State, c: &CallI, fid: u32, sp: Sp, args: Vec<Val>) -> R<Flow> {
        let mut ret: Option<Val> = None;
        macro_rules! a { ($i:expr) => { self.conc(s, &args[$i], "a call argument")? } }
        match sp {
            Sp::SymBits => {
                let n = a!(0) as u32;
                let v = self.fresh(s, &format!("bits{n}"), n, true);
                let t = self.ar.zext(v, 64);
                ret = Some(Val::T(t));
            }
            Sp::SymChoice => {
                let n = a!(0);
                // The fork point re-executes this instruction, so the fresh variable is kept in `decided`-style pending list.
                let key = s.inputs.iter().rposition(|(nm, _, _)| nm == "choice?");
                let v = match key {
                    Some(i) => s.inputs[i].1,
                    None => {
                        let v = self.ar.var(32);
                        s.inputs.push(("choice?".into(), v, true));
                        let k = self.ar.cst(n, 32);
                        let lt = self.ar.bin(Op::Ult, v, k);
                        if n == 0 { return Err(Stop::Infeasible); }
                        if self.ar.as_const(lt) != Some(1) { s.pc.push(lt); }
                        // model default 0 < n holds
                        v
                    }
                };
                let x = self.conc_t(s, v)?;
                let i = s.inputs.iter().rposition(|(nm, _, _)| nm == "choice?").unwrap();
                s.inputs[i].0 = "choice".into();
                ret = Some(Val::C(x));
            }
            Sp::SymAssume => {
                match &args[0] {
                    Val::C(0) => return Err(Stop::Infeasible),
                    Val::C(_) => {}
                    v => {
                        let t = self.term(v, 1)?;
                        if self.eval_model(s, t) == 1 { s.pc.push(t); }
                        else {
                            let vars = self.input_vars(s);
                            let (r, m) = self.solver.check(&self.ar, &s.pc, Some(t), &vars);
                            if r == Res::Sat {
                                s.pc.push(t);
                                s.model = Rc::new(m);
                                s.memo = HashMap::new();
                            }
                        }
                    }
                }
            }
            Sp::SymCheck => {
                let id = { let (p, n) = (a!(1) as u64, a!(2) as u64); self.read_str(s, p, n)? };
                if !self.in_scope(&id) { self.finish_call(s, None)?; return Ok(Flow::Stay); }
                self.checks += 1;
                match &args[0] {
                    Val::C(1) => { self.checks_trivial += 1; }
                    Val::C(_) => {
                        self.checks_trivial += 1;
                        let m = s.model.clone();
                        self.record(s, id.clone(), &m);
                    }
                    Val::T(t) => {
                        self.checks_solver += 1;
                        let t = *t;
                        let nt = self.ar.not(t);
                        let vars = self.input_vars(s);
                        let (r, m) = self.solver.check(&self.ar, &s.pc, Some(nt), &vars);
                        if r == Res::Sat {
                            let m2 = m.clone();
                            self.record(s, id.clone(), &m2);
                            // continue where the check holds, if anywhere
                            let (r, m) = self.solver.check(&self.ar, &s.pc, Some(t), &vars);
                            if r == Res::Sat {
                                s.pc.push(t);
                                s.model = Rc::new(m);
                                s.memo = HashMap::new();
                            }
                        }
                    }
                    _ => return viol(format!("{id} (uninitialised value)")),
                }
            }
            Sp::SymCheckEq => {
                // value comparison: always put to the solver
                let id = { let (p, n) = (a!(2) as u64, a!(3) as u64); self.read_str(s, p, n)? };
                if !self.in_scope(&id) { self.finish_call(s, None)?; return Ok(Flow::Stay); }
                self.checks += 1;
                for v in &args[..2] { if !matches!(v, Val::C(_) | Val::T(_)) { return viol(format!("{id} (uninitialised value)")); } }
                let (x, y) = (self.term(&args[0], 64)?, self.term(&args[1], 64)?);
                if self.ar.as_const(x).is_some() && self.ar.as_const(y).is_some() {
                    self.checks_trivial += 1;
                    if x != y { let m = s.model.clone(); self.record(s, id, &m); }
                } else {
                    self.checks_solver += 1;
                    let vars = self.input_vars(s);
                    let (r, m) = self.solver.differ(&self.ar, &s.pc, x, y, &vars);
                    if r == Res::Sat {
                        self.record(s, id, &m);
                        let t = self.ar.bin(Op::Eq, x, y);
                        let (r, m) = self.solver.check(&self.ar, &s.pc, Some(t), &vars);
                        if r == Res::Sat {
                            s.pc.push(t);
                            s.model = Rc::new(m);
                            s.memo = HashMap::new();
                        }
                    }
                }
            }
            Sp::SymReach => { let id = a!(0); s.reached |= 1 << id; }
            Sp::SymExpect => { let m = a!(0) as u64; s.expect |= m; self.expect |= m; }
            Sp::SymUf => {
                let fidn = a!(0) as u32;
                let x = self.term(&args[1], 64)?;
                let found = s.ufs.iter().find(|(f, y, _)| *f == fidn && *y == x).map(|e| e.2);
                let r = match found {
                    Some(r) => { let nm = format!("uf{fidn}"); s.inputs.push((nm, r, true)); r }
                    None => {
                        let r = self.fresh(s, &format!("uf{fidn}"), 64, true);
                        let Node::Var(rid) = self.ar.n(r) else { unreachable!() };
                        let xv = self.eval_model(s, x);
                        let prev: Vec<(T, T)> = s.ufs.iter().filter(|e| e.0 == fidn).map(|e| (e.1, e.2)).collect();
                        let mut val = None;
                        for (y, ry) in prev {
                            let e = self.ar.bin(Op::Eq, x, y);
                            let ne = self.ar.not(e);
                            let er = self.ar.bin(Op::Eq, r, ry);
                            let cl = self.ar.bin(Op::Or, ne, er);
                            if self.ar.as_const(cl) != Some(1) { s.pc.push(cl); }
                            if self.eval_model(s, y) == xv { val = Some(self.eval_model(s, ry)); }
                        }
                        if let Some(v) = val { let mut m = (*s.model).clone(); m.insert(rid, v); s.model = Rc::new(m); s.memo.remove(&r); s.memo = HashMap::new(); }
                        s.ufs.push((fidn, x, r));
                        r
                    }
                };
                ret = Some(self.wrap(r));
            }
            Sp::SymPanic | Sp::Panic => {
                self.unwinds += 1;
                if sp == Sp::Panic && c.nounwind { return viol("panic in a nounwind context"); }
                self.unwind(s)?;
                return Ok(Flow::Stay);
            }
            Sp::SymTry => {
                let a = a!(0) as u64;
                if a < FUNC_BASE || a >= GLOB_BASE { return err("sym_try on invalid function"); }
                self.push_frame(s, ((a - FUNC_BASE) / 16) as u32, vec![args[1].clone()], true)?;
                return Ok(Flow::Stay);
            }
            Sp::SymMark => s.mark = s.heap.len(),
            Sp::SymLeak => {
                let id = { let (p, n) = (a!(0) as u64, a!(1) as u64); self.read_str(s, p, n)? };
                if !self.in_scope(&id) { self.finish_call(s, None)?; return Ok(Flow::Stay); }
                let leaks: Vec<String> = s.heap[s.mark..].iter().filter(|o| o.live).map(|o| format!("{} bytes", o.size)).collect();
                self.checks += 1;
                self.checks_trivial += 1;
                if !leaks.is_empty() { return viol(format!("{id}: {} leaked", leaks.join(", "))); }
            }
            Sp::SymDone => s.finished = true,
            Sp::SymFail => return viol("sym_fail"),
            Sp::SymTrace => { eprintln!("trace {:?}", args.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>()); }
            Sp::SymNew => { let v = a!(0); ret = Some(Val::C(v)); }
            Sp::Alloc => { let (n, al) = (a!(0) as u64, a!(1) as u64); if n == 0 { return viol("zero-size allocation request"); } ret = Some(Val::C(self.alloc_heap(s, n, al, false)? as u128)); }
            Sp::AllocZ => { let (n, al) = (a!(0) as u64, a!(1) as u64); ret = Some(Val::C(self.alloc_heap(s, n, al, true)? as u128)); }
            Sp::Dealloc => { let (p, n, al) = (a!(0) as u64, a!(1) as u64, a!(2) as u64); self.dealloc(s, p, Some((n, al)))?; }
            Sp::Realloc => {
                let (p, on, al, n) = (a!(0) as u64, a!(1) as u64, a!(2) as u64, a!(3) as u64);
                let i = self.heap_obj(s, p, "realloc")?;
                if s.heap[i].size != on || s.heap[i].align != al { return viol("realloc: layout mismatch"); }
                let q = self.alloc_heap(s, n, al, false)?;
                self.copy(s, q, p, on.min(n), false)?;
                self.dealloc(s, p, None)?;
                ret = Some(Val::C(q as u128));
            }
            Sp::Malloc => { let n = a!(0) as u64; ret = Some(Val::C(self.alloc_heap(s, n, 16, false)? as u128)); }
            Sp::Calloc => { let n = (a!(0) * a!(1)) as u64; ret = Some(Val::C(self.alloc_heap(s, n, 16, true)? as u128)); }
            Sp::Free => { let p = a!(0) as u64; if p != 0 { self.dealloc(s, p, None)?; } }
            Sp::CRealloc => {
                let (p, n) = (a!(0) as u64, a!(1) as u64);
                let q = self.alloc_heap(s, n, 16, false)?;
                if p != 0 { let i = self.heap_obj(s, p, "realloc")?; let on = s.heap[i].size; self.copy(s, q, p, on.min(n), false)?; self.dealloc(s, p, None)?; }
                ret = Some(Val::C(q as u128));
            }
            Sp::PosixMemalign => {
                let (pp, al, n) = (a!(0) as u64, a!(1) as u64, a!(2) as u64);
                let q = self.alloc_heap(s, n, al, false)?;
                self.store(s, &Ty::Ptr, pp, &Val::C(q as u128), 8)?;
                ret = Some(Val::C(0));
            }
            Sp::Abort => return viol(format!("process abort via {}", demangle(&self.m.funcs[fid as usize].name))),
            Sp::Bcmp | Sp::Memcmp => {
                let (p, q, n) = (a!(0) as u64, a!(1) as u64, a!(2) as u64);
                let one = self.ar.cst(1, 32);
                let m1 = self.ar.cst(u128::MAX, 32);
                let mut acc = self.ar.cst(0, 32);
                let w8 = Ty::Int(8);
                for i in (0..n).rev() {
                    let x = self.load(s, &w8, p + i, 1)?;
                    let y = self.load(s, &w8, q + i, 1)?;
                    let (x, y) = (self.term(&x, 8)?, self.term(&y, 8)?);
                    let e = self.ar.bin(Op::Eq, x, y);
                    let lt = self.ar.bin(Op::Ult, x, y);
                    let d = self.ar.ite(lt, m1, one);
                    acc = self.ar.ite(e, acc, d);
                }
                ret = Some(self.wrap(acc));
            }
            Sp::Strlen => {
                let p = a!(0) as u64;
                let mut n = 0;
                loop { let v = self.load(s, &Ty::Int(8), p + n, 1)?; if self.conc(s, &v, "strlen byte")? == 0 { break; } n += 1; }
                ret = Some(Val::C(n as u128));
            }
            Sp::Memcpy => { let (d, q, n) = (a!(0) as u64, a!(1) as u64, a!(2) as u64); self.copy(s, d, q, n, true)?; ret = Some(Val::C(d as u128)); }
            Sp::Memset => { let d = a!(0) as u64; let n = a!(2) as u64; self.memset(s, d, &args[1].clone(), n)?; ret = Some(Val::C(d as u128)); }
            Sp::GetRandom => {
                let (p, n) = (a!(0) as u64, a!(1) as u64);
                self.memset(s, p, &Val::C(0x5a), n)?;
                ret = Some(Val::C(n as u128));
            }
            Sp::RandKeys => ret = Some(Val::Agg(Rc::new(vec![Val::C(0x0123_4567_89ab_cdef), Val::C(0x0fed_cba9_8765_4321)]))),
            Sp::Llvm => { let name = self.m.funcs[fid as usize].name.clone(); ret = self.intrinsic(s, &name, c, &args)?; self.intrinsics.insert(name.split('.').take(3).collect::<Vec<_>>().join(".")); }
            Sp::Nop0 => {}
            Sp::NoBody => return err(format!("call to external function @{}", self.m.funcs[fid as usize].name)),
            Sp::No => unreachable!(),
        }
        self.finish_call(s, ret)?;
        Ok(Flow::Stay)
    }
    fn read_str(&mut self, s: &State, p: u64, n: u64) -> R<String> {
        let mut o = vec![];
        for i in 0..n { let v = self.load(s, &Ty::Int(8), p + i, 1)?; o.push(self.conc(s, &v, "a message")? as u8); }
        Ok(String::from_utf8_lossy(&o).into_owned())
    }
    fn memset(&mut self, s: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (l, off) = self.locate(s, d, n, true, "memset")?;
        match v {
            Val::C(b) => Self::obj_mut(&self.gcache, s, l).fill(off, n as usize, Some(*b as u8)),
            Val::Undef => Self::obj_mut(&self.gcache, s, l).fill(off, n as usize, None),
            v => { let v = v.clone(); for i in 0..n as usize { let o = Self::obj_mut(&self.gcache, s, l); o.store(&mut self.ar, off + i, 1, &v, 8); } }
        }
        Ok(())
    }
    fn intrinsic(&mut self, s: &mut State, name: &str, c: &CallI, args: &[Val]) -> R<Option<Val>> {
        let base = {
            let p: Vec<&str> = name.split('.').collect();
            // strip trailing type suffixes
            let mut k = p.len();
            while k > 2 && { let x = p[k - 1]; (x.starts_with('i') && x[1..].parse::<u32>().is_ok()) || (x.starts_with('p') && x[1..].parse::<u32>().is_ok()) || (x.starts_with('v') && x[1..].chars().next().map_or(false, |c| c.is_ascii_digit())) } { k -= 1; }
            p[1..k].join(".")
        };
        let ty = c.ret.clone();
        if let Ty::Vect(n, e) = &ty {
            // lane-wise intrinsics
            if matches!(base.as_str(), "umin" | "umax" | "smin" | "smax" | "ctpop" | "bswap" | "abs" | "uadd.sat" | "usub.sat") {
                let mut o = vec![];
                for i in 0..*n as usize {
                    let la: Vec<Val> = args.iter().map(|a| match a { Val::Agg(v) => v[i].clone(), v => v.clone() }).collect();
                    o.push(self.scalar_intr(s, &base, e, &la, e.width())?.unwrap());
                }
                return Ok(Some(Val::Agg(Rc::new(o))));
            }
        }
        match base.as_str() {
            "memcpy" | "memmove" | "memcpy.inline" => {
                let n = self.conc(s, &args[2], "a memcpy size")? as u64;
                if n == 0 { return Ok(None); }
                let d = self.conc(s, &args[0], "a memcpy destination")? as u64;
                let q = self.conc(s, &args[1], "a memcpy source")? as u64;
                self.copy(s, d, q, n, base == "memmove")?;
                Ok(None)
            }
            "memset" => {
                let n = self.conc(s, &args[2], "a memset size")? as u64;
                if n == 0 { return Ok(None); }
                let d = self.conc(s, &args[0], "a memset destination")? as u64;
                self.memset(s, d, &args[1].clone(), n)?;
                Ok(None)
            }
            "lifetime.start" | "lifetime.end" => {
                let p = match args.last().unwrap() { Val::C(p) => *p as u64, _ => return Ok(None) };
                let slot = p.wrapping_sub(STACK_BASE) >> STACK_SHIFT;
                if let Ok(i) = s.stack.binary_search_by_key(&slot, |e| e.0) {
                    let o = Rc::make_mut(&mut s.stack[i].1);
                    if o.base == p { let n = o.size as usize; o.fill(0, n, None); }
                }
                Ok(None)
            }
            "assume" => {
                match &args[0] {
                    Val::C(0) => viol("assume(false) reached (undefined behaviour)"),
                    Val::C(_) => Ok(None),
                    Val::T(t) => if self.conc_t(s, *t)? == 0 { viol("assume(false) reached (undefined behaviour)") } else { Ok(None) },
                    _ => viol("assume on an uninitialised value"),
                }
            }
            "experimental.noalias.scope.decl" | "dbg.value" | "dbg.declare" | "prefetch" | "invariant.start" | "invariant.end" | "sideeffect" | "donothing" => Ok(Some(Val::C(0))),
            "trap" | "ubsantrap" | "debugtrap" => viol("trap reached (process abort)"),
            "threadlocal.address" => Ok(Some(args[0].clone())),
            "is.constant" => Ok(Some(Val::C(0))),
            "expect" => Ok(Some(args[0].clone())),
            "objectsize" => Ok(Some(Val::C(mask(ty.width())))),
            "ptrmask" => { let t = Ty::Int(64); Ok(Some(self.bin(s, BinOp::And, 0, &t, &args[0], &args[1])?)) }
            "launder.invariant.group" | "strip.invariant.group" => Ok(Some(args[0].clone())),
            _ => self.scalar_intr(s, &base, &ty, args, c.args[0].0.width())?.map(Some).ok_or_else(|| Stop::Error(format!("unsupported intrinsic {name}"))),
        }
    }
    fn scalar_intr(&mut self, s: &State, base: &str, ty: &Ty, args: &[Val], argw: u32) -> R<Option<Val>> {
        let und = args.iter().any(|a| matches!(a, Val::Undef | Val::P(_)));
        // width of the operands
        let w = match base { "ucmp" | "scmp" => argw, _ => match ty { Ty::Struct(_, e) => e[0].width(), t => t.width() } };
        Ok(Some(match base {
            "umin" | "umax" | "smin" | "smax" => {
                if und { return Ok(Some(Val::Undef)); }
                let (x, y) = (self.term(&args[0], w)?, self.term(&args[1], w)?);
                let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                let lt = self.ar.bin(op, x, y);
                let r = if base.ends_with("min") { self.ar.ite(lt, x, y) } else { self.ar.ite(lt, y, x) };
                self.wrap(r)
            }
            "abs" => {
                if und { return Ok(Some(Val::Undef)); }
                let x = self.term(&args[0], w)?;
                let z = self.ar.cst(0, w);
                let n = self.ar.bin(Op::Sub, z, x);
                let lt = self.ar.bin(Op::Slt, x, z);
                let r = self.ar.ite(lt, n, x);
                self.wrap(r)
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                if und { return Ok(Some(Module::undef(ty))); }
                let (x, y) = (self.term(&args[0], w)?, self.term(&args[1], w)?);
                if w * 2 > 128 { if self.ar.as_const(x).is_none() || self.ar.as_const(y).is_none() { return err("wide overflow op"); } }
                let signed = base.starts_with('s');
                let op = match &base[1..4] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                let r = self.ar.bin(op, x, y);
                let w2 = if op == Op::Mul { w * 2 } else { w + 1 };
                let (wx, wy, wr) = if signed { (self.ar.sext(x, w2), self.ar.sext(y, w2), self.ar.sext(r, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2), self.ar.zext(r, w2)) };
                let full = self.ar.bin(op, wx, wy);
                let e = self.ar.bin(Op::Eq, full, wr);
                let o = self.ar.not(e);
                Val::Agg(Rc::new(vec![self.wrap(r), self.wrap(o)]))
            }
            "uadd.sat" | "usub.sat" => {
                if und { return Ok(Some(Val::Undef)); }
                let (x, y) = (self.term(&args[0], w)?, self.term(&args[1], w)?);
                let r = if base == "uadd.sat" {
                    let z = self.ar.bin(Op::Add, x, y);
                    let ov = self.ar.bin(Op::Ult, z, x);
                    let m = self.ar.cst(u128::MAX, w);
                    self.ar.ite(ov, m, z)
                } else {
                    let z = self.ar.bin(Op::Sub, x, y);
                    let ov = self.ar.bin(Op::Ult, x, y);
                    let m = self.ar.cst(0, w);
                    self.ar.ite(ov, m, z)
                };
                self.wrap(r)
            }
            "ucmp" | "scmp" => {
                if und { return Ok(Some(Val::Undef)); }
                // operand width: parse from terms; constants default to 64 and are masked already
                let (x, y) = (self.term(&args[0], w)?, self.term(&args[1], w)?);
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let rw = ty.width();
                let lt = self.ar.bin(op, x, y);
                let gt = self.ar.bin(op, y, x);
                let (m1, one, z) = (self.ar.cst(u128::MAX, rw), self.ar.cst(1, rw), self.ar.cst(0, rw));
                let r = self.ar.ite(gt, one, z);
                let r = self.ar.ite(lt, m1, r);
                self.wrap(r)
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                if und { return Ok(Some(Val::Undef)); }
                let x = self.conc(s, &args[0], "a bit-counting operand")?;
                Val::C(match base {
                    "ctpop" => x.count_ones() as u128,
                    "ctlz" => { if x == 0 && matches!(args.get(1), Some(Val::C(1))) { return Ok(Some(Val::Undef)); } if x == 0 { w as u128 } else { (w - (128 - x.leading_zeros())) as u128 } }
                    "cttz" => { if x == 0 && matches!(args.get(1), Some(Val::C(1))) { return Ok(Some(Val::Undef)); } if x == 0 { w as u128 } else { x.trailing_zeros() as u128 } }
                    "bswap" => { let n = w / 8; let mut r = 0u128; for i in 0..n { r |= ((x >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); } r }
                    _ => x.reverse_bits() >> (128 - w),
                })
            }
            "fshl" | "fshr" => {
                if und { return Ok(Some(Val::Undef)); }
                let sh = (self.conc(s, &args[2], "a funnel shift amount")? % w as u128) as u32;
                let (x, y) = (self.term(&args[0], w)?, self.term(&args[1], w)?);
                if w > 64 { let (a, b) = (self.conc_t(s, x)?, self.conc_t(s, y)?); let r = if sh == 0 { if base == "fshl" { a } else { b } } else if base == "fshl" { (a << sh) | (b >> (w - sh)) } else { (a << (w - sh)) | (b >> sh) }; return Ok(Some(Val::C(r & mask(w)))); }
                let cc = self.ar.concat(x, y);
                let lo = if base == "fshl" { w - sh } else { sh };
                let r = self.ar.extract(cc, lo, w);
                self.wrap(r)
            }
            _ => return Ok(None),
        }))
    }
}

#[derive(Clone, Copy)]
pub enum Loc { Stack(usize), Heap(usize), Glob(u32) }

fn ins_val(v: &Val, ty: &Ty, x: Val, ix: &[u32]) -> Val {
    if ix.is_empty() { return x; }
    let mut l = match v { Val::Agg(a) => a.to_vec(), _ => (0..ty.count()).map(|i| Module::undef(&ty.elem(i))).collect() };
    let i = ix[0] as usize;
    l[i] = ins_val(&l[i].clone(), &ty.elem(i), x, &ix[1..]);
    Val::Agg(Rc::new(l))
}
