//! SMT solver over a pipe (z3 -in or cvc5 --incremental), incremental along the DFS path.
use crate::term::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: Vec<bool>,
    stack: Vec<T>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: Duration,
    buf: String,
    pub name: String,
}

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Res { Sat, Unsat }

impl Solver {
    pub fn new(cmd: &str, timeout_ms: u64) -> Self {
        let mut parts = cmd.split_whitespace();
        let prog = parts.next().unwrap();
        let mut child = Command::new(prog).args(parts)
            .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null())
            .spawn().unwrap_or_else(|e| crate::die(&format!("cannot start solver {cmd}: {e}")));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver { child, inp, out, defined: vec![], stack: vec![], queries: 0, sat: 0, unsat: 0, time: Duration::ZERO, buf: String::new(), name: cmd.to_string() };
        s.buf.push_str("(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n");
        if prog.contains("z3") { s.buf.push_str(&format!("(set-option :timeout {timeout_ms})\n")); }
        else { s.buf.push_str("(set-logic QF_BV)\n"); }
        s
    }
    fn emit(&mut self, ar: &Arena, t: T) {
        // define nodes bottom-up
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.defined.len() < ar.nodes.len() { self.defined.resize(ar.nodes.len(), false); }
            if self.defined[x as usize] { continue; }
            let (n, w) = ar.nodes[x as usize];
            if !done {
                stack.push((x, true));
                match n {
                    Node::Const(_) | Node::Var(_) => {}
                    Node::Bin(_, a, b) | Node::Concat(a, b) => { stack.push((a, false)); stack.push((b, false)); }
                    Node::Extract(_, a) | Node::Zext(a) | Node::Sext(a) => stack.push((a, false)),
                    Node::Ite(c, a, b) => { stack.push((a, false)); stack.push((b, false)); stack.push((c, false)); }
                }
                continue;
            }
            self.defined[x as usize] = true;
            use std::fmt::Write;
            match n {
                Node::Var(_) => writeln!(self.buf, "(declare-const t{x} (_ BitVec {w}))").unwrap(),
                _ => {
                    let body = match n {
                        Node::Const(v) => format!("(_ bv{v} {w})"),
                        Node::Var(_) => unreachable!(),
                        Node::Bin(op, a, b) => {
                            let o = match op {
                                Op::Add => "bvadd", Op::Sub => "bvsub", Op::Mul => "bvmul", Op::UDiv => "bvudiv",
                                Op::SDiv => "bvsdiv", Op::URem => "bvurem", Op::SRem => "bvsrem", Op::Shl => "bvshl",
                                Op::LShr => "bvlshr", Op::AShr => "bvashr", Op::And => "bvand", Op::Or => "bvor",
                                Op::Xor => "bvxor", Op::Eq => "=", Op::Ult => "bvult", Op::Ule => "bvule",
                                Op::Slt => "bvslt", Op::Sle => "bvsle",
                            };
                            if is_pred(op) { format!("(ite ({o} t{a} t{b}) #b1 #b0)") } else { format!("({o} t{a} t{b})") }
                        }
                        Node::Concat(a, b) => format!("(concat t{a} t{b})"),
                        Node::Extract(lo, a) => format!("((_ extract {} {lo}) t{a})", lo + w - 1),
                        Node::Zext(a) => format!("((_ zero_extend {}) t{a})", w - ar.w(a)),
                        Node::Sext(a) => format!("((_ sign_extend {}) t{a})", w - ar.w(a)),
                        Node::Ite(c, a, b) => format!("(ite (= t{c} #b1) t{a} t{b})"),
                    };
                    writeln!(self.buf, "(define-fun t{x} () (_ BitVec {w}) {body})").unwrap();
                }
            }
        }
    }
    fn flush(&mut self) {
        let b = std::mem::take(&mut self.buf);
        if self.inp.write_all(b.as_bytes()).and_then(|_| self.inp.flush()).is_err() {
            crate::die("solver pipe closed");
        }
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        match self.out.read_line(&mut l) {
            Ok(0) | Err(_) => crate::die("solver died"),
            _ => {}
        }
        l
    }
    fn sync(&mut self, ar: &Arena, pc: &[T]) {
        let mut common = 0;
        while common < self.stack.len() && common < pc.len() && self.stack[common] == pc[common] { common += 1; }
        if self.stack.len() > common {
            let k = self.stack.len() - common;
            self.buf.push_str(&format!("(pop {k})\n"));
            self.stack.truncate(common);
        }
        for &t in &pc[common..] {
            self.emit(ar, t);
            self.buf.push_str(&format!("(push 1)\n(assert (= t{t} #b1))\n"));
            self.stack.push(t);
        }
    }
    /// Is pc /\ extra satisfiable?  On sat, returns the model of all variables in `vars`.
    pub fn check(&mut self, ar: &Arena, pc: &[T], extra: Option<T>, vars: &[(T, u32)]) -> (Res, HashMap<u32, u128>) {
        self.check2(ar, pc, extra, None, vars)
    }
    /// Is pc /\ x != y satisfiable?
    pub fn differ(&mut self, ar: &Arena, pc: &[T], x: T, y: T, vars: &[(T, u32)]) -> (Res, HashMap<u32, u128>) { self.check2(ar, pc, None, Some((x, y)), vars) }
    fn check2(&mut self, ar: &Arena, pc: &[T], extra: Option<T>, ne: Option<(T, T)>, vars: &[(T, u32)]) -> (Res, HashMap<u32, u128>) {
        let t0 = Instant::now();
        self.queries += 1;
        self.sync(ar, pc);
        if let Some(e) = extra {
            self.emit(ar, e);
            self.buf.push_str(&format!("(push 1)\n(assert (= t{e} #b1))\n"));
        }
        if let Some((x, y)) = ne {
            self.emit(ar, x);
            self.emit(ar, y);
            self.buf.push_str(&format!("(push 1)\n(assert (not (= t{x} t{y})))\n"));
        }
        for &(v, _) in vars { self.emit(ar, v); }
        self.buf.push_str("(check-sat)\n");
        self.flush();
        let l = self.line();
        let mut model = HashMap::new();
        let r = match l.trim() {
            "sat" => {
                self.sat += 1;
                for chunk in vars.chunks(64) {
                    self.buf.push_str("(get-value (");
                    for (v, _) in chunk { self.buf.push_str(&format!("t{v} ")); }
                    self.buf.push_str("))\n");
                    self.flush();
                    let mut txt = String::new();
                    let mut depth = 0i32;
                    loop {
                        let l = self.line();
                        for c in l.chars() { if c == '(' { depth += 1 } else if c == ')' { depth -= 1 } }
                        txt.push_str(&l);
                        if depth <= 0 { break; }
                    }
                    if txt.contains("error") { crate::die(&format!("solver error: {txt}")); }
                    // tokens: (tN #x..) / (tN #b..) / (tN (_ bvK w))
                    let toks: Vec<&str> = txt.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
                    let mut vals: HashMap<T, u128> = HashMap::new();
                    let mut i = 0;
                    while i < toks.len() {
                        let t: T = match toks[i].strip_prefix('t').and_then(|s| s.parse().ok()) { Some(t) => t, None => crate::die(&format!("bad model: {txt}")) };
                        i += 1;
                        let v = if let Some(h) = toks[i].strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap() }
                            else if let Some(b) = toks[i].strip_prefix("#b") { u128::from_str_radix(b, 2).unwrap() }
                            else if toks[i] == "_" { i += 1; let v = toks[i].strip_prefix("bv").unwrap().parse().unwrap(); i += 1; v }
                            else { crate::die(&format!("bad model value: {txt}")) };
                        i += 1;
                        vals.insert(t, v);
                    }
                    for (v, id) in chunk { model.insert(*id, vals[v]); }
                }
                Res::Sat
            }
            "unsat" => { self.unsat += 1; Res::Unsat }
            other => crate::die(&format!("solver answered {other:?} (timeout or error): inconclusive")),
        };
        if extra.is_some() || ne.is_some() { self.buf.push_str("(pop 1)\n"); }
        self.time += t0.elapsed();
        (r, model)
    }
}
impl Drop for Solver {
    fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); }
}
