//! Textual LLVM IR: whole-module index plus lazy per-function parsing.
use crate::term::mask;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Fp(u32),
    Arr(u64, Rc<Ty>),
    Vect(u64, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Meta,
}

pub fn align_up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::Ptr => 8,
            Ty::Fp(w) => (*w as u64 / 8).max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Vect(n, t) => (n * t.bits() / 8).next_power_of_two().max(1),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, e) => e.iter().map(|t| t.align()).max().unwrap_or(1),
            _ => 1,
        }
    }
    /// bit size of scalars / vectors
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Fp(w) => *w as u64,
            Ty::Vect(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    /// number of bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vect(..) => (self.bits() + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(_) => align_up(self.store_size(), self.align()),
            Ty::Ptr => 8,
            Ty::Fp(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vect(..) => align_up(self.store_size(), self.align()),
            Ty::Struct(..) => self.layout().1,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(packed, e) => {
                let mut off = 0;
                let mut offs = vec![];
                for t in e.iter() {
                    if !packed { off = align_up(off, t.align()); }
                    offs.push(off);
                    off += t.size();
                }
                if !packed { off = align_up(off, self.align()); }
                (offs, off)
            }
            Ty::Arr(n, t) | Ty::Vect(n, t) => {
                let s = t.size();
                ((0..*n).map(|i| i * s).collect(), s * n)
            }
            _ => (vec![0], self.size()),
        }
    }
    pub fn width(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Fp(w) => *w, _ => 0 }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(_, e) => e[i].clone(),
            Ty::Arr(_, t) | Ty::Vect(_, t) => (**t).clone(),
            _ => panic!("elem of scalar"),
        }
    }
    pub fn count(&self) -> usize {
        match self { Ty::Struct(_, e) => e.len(), Ty::Arr(n, _) | Ty::Vect(n, _) => *n as usize, _ => 0 }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vect(..)) }
}

/// A runtime value. `P` carries a mask of undefined bits.
#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    T(u32),
    P(Rc<(PVal, u128)>),
    Undef,
    Agg(Rc<Vec<Val>>),
}
#[derive(Clone, Debug)]
pub enum PVal { C(u128), T(u32) }

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, Zext, Sext, Bit }

pub const F_NUW: u8 = 1;
pub const F_NSW: u8 = 2;
pub const F_EXACT: u8 = 4;
pub const F_DISJOINT: u8 = 8;
pub const F_NNEG: u8 = 16;

#[derive(Debug)]
pub enum Callee { Func(u32), Ptr(Opd), Asm }

#[derive(Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub nounwind: bool,
    pub invoke: Option<(u32, u32)>,
    pub byval: bool,
}

#[derive(Debug)]
pub enum Clause { Catch, Filter, }

#[derive(Debug)]
pub enum Inst {
    Bin(u32, BinOp, u8, Ty, Opd, Opd),
    Icmp(u32, Pred, Ty, Opd, Opd),
    Cast(u32, CastK, u8, Ty, Ty, Opd),
    Load(u32, Ty, Opd, u64),
    Store(Ty, Opd, Opd, u64),
    Gep(u32, Opd, u64, Vec<(u64, u32, Opd)>),
    Alloca(u32, u64, Option<(u32, Opd)>, u64),
    Call(Box<CallI>),
    Select(u32, Ty, Ty, Opd, Opd, Opd),
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractEl(u32, Ty, Opd, Opd),
    InsertEl(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<Option<u32>>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opd>),
    Unreachable,
    Landing(u32, bool, Vec<Clause>),
    Resume(Opd),
    Freeze(u32, Ty, Opd),
    Rmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Fence,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(Opd, u32)>)>,
    pub insts: Vec<Inst>,
    pub name: String,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<(u32, Ty)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub nounwind: bool,
}

pub struct FuncEntry {
    pub name: String,
    pub span: Option<(usize, usize)>, // byte range of text from "define" to closing "}"
    pub decl: String,                 // declare line, if any
    pub parsed: Option<Rc<Func>>,
    pub weak_decl: bool,
}
pub struct GlobalEntry {
    pub name: String,
    pub init: Option<String>,
    pub ty: Ty,
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub text: Rc<String>,
    pub funcs: Vec<FuncEntry>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<GlobalEntry>,
    pub gmap: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub nounwind_groups: HashSet<u32>,
}

pub const FUNC_BASE: u64 = 0x0400_0000_0000;
pub const GLOB_BASE: u64 = 0x0800_0000_0000;
pub const GLOB_SHIFT: u32 = 24;
pub const SLOT_PAD: u64 = 0x2000;

type PR<X> = Result<X, String>;

pub struct Cur<'a> { pub s: &'a [u8], pub i: usize }

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self { Cur { s: s.as_bytes(), i: 0 } }
    pub fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() { self.i += 1; } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    pub fn rest(&self) -> &'a str { std::str::from_utf8(&self.s[self.i..]).unwrap_or("<non-utf8>") }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { false }
    }
    pub fn expect(&mut self, t: &str) -> PR<()> {
        if self.eat(t) { Ok(()) } else { Err(format!("expected {t:?} at {:?}", self.rest().chars().take(80).collect::<String>())) }
    }
    /// peek an identifier-like word
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_' || self.s[j] == b'.') { j += 1; }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    pub fn take_word(&mut self) -> &'a str { let w = self.word(); self.i += w.len(); w }
    pub fn eat_word(&mut self, t: &str) -> bool { if self.word() == t { self.i += t.len(); true } else { false } }
    /// name following % or @ (already consumed)
    pub fn name(&mut self) -> PR<String> {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while j < self.s.len() && self.s[j] != b'"' { j += 1; }
            self.i = j + 1;
            return Ok(std::str::from_utf8(&self.s[st..j]).unwrap().to_string());
        }
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"-$._".contains(&self.s[self.i])) { self.i += 1; }
        if st == self.i { return Err(format!("name expected at {:?}", self.rest())); }
        Ok(std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string())
    }
    pub fn int(&mut self) -> PR<i128> {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && self.s[self.i] == b'-' { self.i += 1; }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        if let Ok(v) = t.parse::<i128>() { return Ok(v); }
        t.parse::<u128>().map(|v| v as i128).map_err(|_| format!("int expected at {:?}", self.rest().chars().take(60).collect::<String>()))
    }
    pub fn skip_parens(&mut self) -> PR<()> {
        self.expect("(")?;
        let mut d = 1;
        while d > 0 {
            if self.i >= self.s.len() { return Err("unbalanced parens".into()); }
            match self.s[self.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
        }
        Ok(())
    }
}

impl Module {
    pub fn load(path: &str) -> PR<Module> {
        let text = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
        let text = String::from_utf8(text).map_err(|_| "IR not UTF-8".to_string())?;
        let mut m = Module { text: Rc::new(String::new()), funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), types: HashMap::new(), nounwind_groups: HashSet::new() };
        let mut pos = 0;
        let bytes = text.as_bytes();
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut tlines: Vec<(usize, usize)> = vec![];
        while pos < bytes.len() {
            let end = memchr(b'\n', bytes, pos);
            let line = &text[pos..end];
            if line.starts_with("define ") {
                // find the closing line "}"
                let mut p = end + 1;
                loop {
                    let e = memchr(b'\n', bytes, p);
                    if &text[p..e] == "}" { p = e; break; }
                    if e >= bytes.len() { return Err("unterminated function".into()); }
                    p = e + 1;
                }
                let name = Self::func_name(line)?;
                m.add_func(name, Some((pos, p)), "");
                pos = p + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = Self::func_name(line)?;
                m.add_func(name, None, line);
            } else if line.starts_with('@') {
                glines.push((pos, end));
            } else if line.starts_with('%') {
                tlines.push((pos, end));
            } else if let Some(r) = line.strip_prefix("attributes #") {
                let n: u32 = r.split(' ').next().unwrap().parse().map_err(|_| "attributes")?;
                if r.split_whitespace().any(|w| w == "nounwind") { m.nounwind_groups.insert(n); }
            }
            pos = end + 1;
        }
        // named types (possibly referring to each other: iterate)
        for _ in 0..4 {
            for &(a, b) in &tlines {
                let mut c = Cur::new(&text[a..b]);
                c.expect("%")?;
                let n = c.name()?;
                c.expect("=")?;
                c.expect("type")?;
                if c.eat("opaque") { m.types.insert(n, Ty::Void); continue; }
                if let Ok(t) = m.ty(&mut c) { m.types.insert(n, t); }
            }
        }
        for &(a, b) in &glines { let l = &text[a..b]; m.add_global(l)?; }
        m.text = Rc::new(text);
        Ok(m)
    }
    fn func_name(line: &str) -> PR<String> {
        // first '@' outside quotes and parens
        let b = line.as_bytes();
        let mut i = 0;
        let mut d = 0;
        while i < b.len() {
            match b[i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'@' if d == 0 => { let mut c = Cur { s: b, i: i + 1 }; return c.name(); }
                _ => {}
            }
            i += 1;
        }
        Err(format!("no function name in {line}"))
    }
    fn add_func(&mut self, name: String, span: Option<(usize, usize)>, decl: &str) {
        let id = self.funcs.len() as u32;
        self.fmap.insert(name.clone(), id);
        self.funcs.push(FuncEntry { weak_decl: decl.contains("extern_weak"), name, span, decl: decl.to_string(), parsed: None });
    }
    fn add_global(&mut self, line: &str) -> PR<()> {
        let mut c = Cur::new(line);
        c.expect("@")?;
        let name = c.name()?;
        c.expect("=")?;
        let mut constant = false;
        let mut external = false;
        loop {
            let w = c.word();
            match w {
                "global" => { c.take_word(); break; }
                "constant" => { c.take_word(); constant = true; break; }
                "alias" => { // alias TYPE, ptr @target
                    c.take_word();
                    let _ = self.ty(&mut c)?;
                    c.expect(",")?;
                    c.expect("ptr")?;
                    c.expect("@")?;
                    let t = c.name()?;
                    if let Some(&f) = self.fmap.get(&t) { self.fmap.insert(name, f); }
                    else if let Some(&g) = self.gmap.get(&t) { self.gmap.insert(name, g); }
                    return Ok(());
                }
                "external" | "extern_weak" => { external = true; c.take_word(); }
                "" => return Err(format!("bad global: {line}")),
                _ => { c.take_word(); if c.peek() == b'(' { c.skip_parens()?; } }
            }
        }
        let ty = self.ty(&mut c)?;
        let rest = c.rest();
        let align = line.rfind(", align ").and_then(|p| line[p + 8..].split(|ch: char| !ch.is_ascii_digit()).next().unwrap().parse().ok()).unwrap_or(ty.align());
        let id = self.globals.len() as u32;
        self.gmap.insert(name.clone(), id);
        self.globals.push(GlobalEntry { name, init: if external { None } else { Some(rest.to_string()) }, ty, align, constant });
        Ok(())
    }
    pub fn glob_addr(&self, id: u32) -> u64 {
        let al = self.globals[id as usize].align.max(1);
        // deliberately not over-aligned
        GLOB_BASE + ((id as u64) << GLOB_SHIFT) + SLOT_PAD + if al < SLOT_PAD { al } else { 0 }
    }
    pub fn func_addr(id: u32) -> u64 { FUNC_BASE + (id as u64) * 16 }
    pub fn sym_addr(&self, name: &str) -> PR<u64> {
        if let Some(&f) = self.fmap.get(name) {
            let e = &self.funcs[f as usize];
            if e.span.is_none() && e.weak_decl { return Ok(0); }
            return Ok(Self::func_addr(f));
        }
        if let Some(&g) = self.gmap.get(name) { return Ok(self.glob_addr(g)); }
        Err(format!("unknown symbol @{name}"))
    }

    pub fn ty(&self, c: &mut Cur) -> PR<Ty> {
        let mut t = match c.peek() {
            b'{' => { c.expect("{")?; Ty::Struct(false, Rc::new(self.ty_list(c, "}")?)) }
            b'<' => {
                c.expect("<")?;
                if c.peek() == b'{' { c.expect("{")?; let l = self.ty_list(c, "}")?; c.expect(">")?; Ty::Struct(true, Rc::new(l)) }
                else { let n = c.int()? as u64; c.expect("x")?; let e = self.ty(c)?; c.expect(">")?; Ty::Vect(n, Rc::new(e)) }
            }
            b'[' => { c.expect("[")?; let n = c.int()? as u64; c.expect("x")?; let e = self.ty(c)?; c.expect("]")?; Ty::Arr(n, Rc::new(e)) }
            b'%' => { c.expect("%")?; let n = c.name()?; self.types.get(&n).cloned().ok_or(format!("unknown type %{n}"))? }
            _ => {
                let w = c.take_word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "half" => Ty::Fp(16), "float" => Ty::Fp(32), "double" => Ty::Fp(64), "x86_fp80" => Ty::Fp(80), "fp128" => Ty::Fp(128),
                    "metadata" | "label" | "token" => Ty::Meta,
                    _ => if let Some(n) = w.strip_prefix('i').and_then(|s| s.parse().ok()) { Ty::Int(n) }
                         else { return Err(format!("type expected at {w:?} {:?}", c.rest().chars().take(60).collect::<String>())) }
                }
            }
        };
        // function type used at a call: `void (ptr, ...)`
        let save = c.i;
        if c.peek() == b'(' && !matches!(t, Ty::Meta) {
            // only treat as a function type if followed by @ or % after the parens
            let s2 = c.i;
            if c.skip_parens().is_ok() && matches!(c.peek(), b'@' | b'%') && s2 != c.i { let _ = &mut t; } else { c.i = save; }
        }
        Ok(t)
    }
    fn ty_list(&self, c: &mut Cur, close: &str) -> PR<Vec<Ty>> {
        let mut v = vec![];
        if c.eat(close) { return Ok(v); }
        loop {
            v.push(self.ty(c)?);
            if c.eat(close) { return Ok(v); }
            c.expect(",")?;
        }
    }
    pub fn zero(t: &Ty) -> Val {
        if t.is_agg() { Val::Agg(Rc::new((0..t.count()).map(|i| Self::zero(&t.elem(i))).collect())) } else { Val::C(0) }
    }
    pub fn konst(&self, c: &mut Cur, t: &Ty) -> PR<Val> {
        match c.peek() {
            b'@' => { c.expect("@")?; let n = c.name()?; return Ok(Val::C(self.sym_addr(&n)? as u128)); }
            b'-' | b'0'..=b'9' => {
                if let Ty::Fp(_) = t {
                    // hex (0x..) or decimal double
                    let st = c.i;
                    while c.i < c.s.len() && !b", )]}>".contains(&c.s[c.i]) { c.i += 1; }
                    let txt = std::str::from_utf8(&c.s[st..c.i]).unwrap();
                    let bits64 = if let Some(h) = txt.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|e| e.to_string())? } else { txt.parse::<f64>().map_err(|e| e.to_string())?.to_bits() };
                    return Ok(Val::C(if *t == Ty::Fp(64) { bits64 as u128 } else if *t == Ty::Fp(32) { (f64::from_bits(bits64) as f32).to_bits() as u128 } else { return Err("fp const".into()) }));
                }
                let v = c.int()?; return Ok(Val::C(v as u128 & mask(t.width())));
            }
            b'{' | b'[' | b'<' => {
                let open = c.peek();
                if open == b'<' { c.expect("<")?; if c.peek() == b'{' { c.expect("{")?; } } else { c.i += 1; }
                let mut v = vec![];
                loop {
                    match c.peek() { b'}' => { c.expect("}")?; if open == b'<' { c.expect(">")?; } break; } b']' | b'>' => { c.i += 1; break; } _ => {} }
                    let et = self.ty(c)?;
                    v.push(self.konst(c, &et)?);
                    c.eat(",");
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let w = c.take_word();
        match w {
            "true" => Ok(Val::C(1)),
            "false" | "null" | "none" => Ok(Val::C(0)),
            "undef" | "poison" => Ok(if t.is_agg() { Val::Agg(Rc::new((0..t.count()).map(|i| Self::undef(&t.elem(i))).collect())) } else { Val::Undef }),
            "zeroinitializer" => Ok(Self::zero(t)),
            "c" => {
                c.expect("\"")?;
                let mut v = vec![];
                loop {
                    let b = c.s[c.i];
                    c.i += 1;
                    if b == b'"' { break; }
                    if b == b'\\' {
                        if c.s[c.i] == b'\\' { v.push(Val::C(b'\\' as u128)); c.i += 1; continue; }
                        let h = std::str::from_utf8(&c.s[c.i..c.i + 2]).unwrap();
                        v.push(Val::C(u8::from_str_radix(h, 16).map_err(|e| e.to_string())? as u128));
                        c.i += 2;
                    } else { v.push(Val::C(b as u128)); }
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            "splat" => {
                c.expect("(")?;
                let et = self.ty(c)?;
                let v = self.konst(c, &et)?;
                c.expect(")")?;
                Ok(Val::Agg(Rc::new(vec![v; t.count()])))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                c.expect("(")?;
                let et = self.ty(c)?;
                let v = self.konst(c, &et)?;
                c.expect("to")?;
                let tt = self.ty(c)?;
                c.expect(")")?;
                match v { Val::C(x) => Ok(Val::C(x & mask(tt.width()))), v => Ok(v) }
            }
            "add" | "sub" | "xor" | "mul" => {
                while matches!(c.word(), "nuw" | "nsw") { c.take_word(); }
                c.expect("(")?;
                let et = self.ty(c)?;
                let a = self.konst(c, &et)?;
                c.expect(",")?;
                let et = self.ty(c)?;
                let b = self.konst(c, &et)?;
                c.expect(")")?;
                match (a, b) {
                    (Val::C(a), Val::C(b)) => Ok(Val::C(mask(et.width()) & match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b })),
                    _ => Err("constant expression".into()),
                }
            }
            "getelementptr" => {
                loop { match c.word() { "inbounds" | "nuw" | "nusw" => { c.take_word(); } "inrange" => { c.take_word(); c.skip_parens()?; } _ => break } }
                c.expect("(")?;
                let bt = self.ty(c)?;
                c.expect(",")?;
                let pt = self.ty(c)?;
                let b = self.konst(c, &pt)?;
                let mut addr = match b { Val::C(x) => x as u64, _ => return Err("gep const".into()) };
                let mut cur = bt;
                let mut first = true;
                while c.eat(",") {
                    let it = self.ty(c)?;
                    let iv = match self.konst(c, &it)? { Val::C(x) => crate::term::sx(x, it.width()), _ => return Err("gep const idx".into()) };
                    if first { addr = addr.wrapping_add((cur.size() as i128 * iv) as u64); first = false; }
                    else { let offs = cur.layout().0; addr = addr.wrapping_add(match &cur { Ty::Struct(..) => offs[iv as usize], _ => (cur.elem(0).size() as i128 * iv) as u64 }); cur = cur.elem(iv.max(0) as usize); }
                }
                c.expect(")")?;
                Ok(Val::C(addr as u128))
            }
            _ => Err(format!("constant expected at {w:?} {:?}", c.rest().chars().take(60).collect::<String>())),
        }
    }
    pub fn undef(t: &Ty) -> Val {
        if t.is_agg() { Val::Agg(Rc::new((0..t.count()).map(|i| Self::undef(&t.elem(i))).collect())) } else { Val::Undef }
    }

    pub fn func(&mut self, id: u32) -> PR<Rc<Func>> {
        if let Some(f) = &self.funcs[id as usize].parsed { return Ok(f.clone()); }
        let (a, b) = self.funcs[id as usize].span.ok_or_else(|| format!("function @{} has no body", self.funcs[id as usize].name))?;
        let text = self.text.clone();
        let f = Rc::new(FP { m: self, regs: HashMap::new(), nregs: 0, blocks: HashMap::new() }.parse(id, &text[a..b])?);
        self.funcs[id as usize].parsed = Some(f.clone());
        Ok(f)
    }
}

fn memchr(c: u8, b: &[u8], from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c { i += 1; }
    i
}

struct FP<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
}

fn strip_comment(l: &str) -> &str {
    // comments only follow code after " ;" outside quotes
    let b = l.as_bytes();
    let mut q = false;
    for i in 0..b.len() {
        match b[i] { b'"' => q = !q, b';' if !q => return &l[..i], _ => {} }
    }
    l
}

impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 {
        if let Some(&r) = self.regs.get(&n) { return r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn blk(&mut self, n: &str) -> PR<u32> { self.blocks.get(n).copied().ok_or(format!("unknown block {n}")) }
    fn opd(&mut self, c: &mut Cur, t: &Ty) -> PR<Opd> {
        if c.peek() == b'%' { c.expect("%")?; let n = c.name()?; return Ok(Opd::Reg(self.reg(n))); }
        if c.word() == "asm" { return Err("inline asm".into()); }
        Ok(Opd::K(self.m.konst(c, t)?))
    }
    fn label(&mut self, c: &mut Cur) -> PR<u32> {
        c.expect("label")?;
        c.expect("%")?;
        let n = c.name()?;
        self.blk(&n)
    }
    fn attrs(&mut self, c: &mut Cur) -> PR<bool> {
        // parameter / return attributes; returns true if byval seen
        let mut byval = false;
        loop {
            let w = c.word();
            match w {
                "align" | "dereferenceable" | "dereferenceable_or_null" => { c.take_word(); if c.peek() == b'(' { c.skip_parens()?; } else { c.int()?; } }
                "noundef" | "zeroext" | "signext" | "inreg" | "noalias" | "nocapture" | "nonnull" | "readonly" | "writeonly" | "readnone" | "returned"
                | "immarg" | "swiftself" | "allocptr" | "allocalign" | "noext" | "nofree" | "nest" | "dead_on_unwind" | "writable" | "nofpclass" => { c.take_word(); if w == "nofpclass" { c.skip_parens()?; } }
                "sret" | "byval" | "byref" | "elementtype" | "range" | "captures" | "initializes" | "preallocated" | "inalloca" => {
                    if w == "byval" { byval = true; }
                    c.take_word();
                    c.skip_parens()?;
                }
                _ => return Ok(byval),
            }
        }
    }
    fn parse(mut self, id: u32, text: &str) -> PR<Func> {
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        let name = Module::func_name(head)?;
        // parameters: the paren right after the name
        let np = { let q = format!("@\"{name}\"("); match head.find(&q) { Some(p) => p + q.len() - 1, None => { let q = format!("@{name}("); head.find(&q).ok_or("head")? + q.len() - 1 } } };
        let mut c = Cur::new(head);
        c.i = np;
        c.expect("(")?;
        let mut params = vec![];
        let mut auto = 0;
        if !c.eat(")") {
            loop {
                if c.eat("...") { c.expect(")")?; break; }
                let t = self.m.ty(&mut c)?;
                if self.attrs(&mut c)? { return Err(format!("byval parameter in {name}")); }
                let n = if c.peek() == b'%' { c.expect("%")?; c.name()? } else { let n = format!("{auto}"); n };
                auto += 1;
                let r = self.reg(n);
                params.push((r, t));
                if c.eat(")") { break; }
                c.expect(",")?;
            }
        }
        let tail = c.rest().to_string();
        let nounwind = self.has_nounwind(&tail);
        // logical lines grouped in blocks
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut first = true;
        let mut pend: Option<String> = None;
        for l in lines {
            if l.starts_with(';') || l.is_empty() { continue; }
            if l == "}" { break; }
            let b0 = l.as_bytes()[0];
            if b0 != b' ' {
                // label
                let l2 = strip_comment(l).trim_end();
                let n = l2.strip_suffix(':').ok_or(format!("label? {l}"))?;
                let n = n.trim_matches('"').to_string();
                if let Some(p) = pend.take() { blocks.last_mut().unwrap().1.push(p); }
                blocks.push((n, vec![]));
                first = false;
                continue;
            }
            if first { blocks.push((format!("{}", params.len()), vec![])); first = false; }
            let t = strip_comment(l);
            let tr = t.trim();
            if tr.is_empty() { continue; }
            // continuation lines
            let is_cont = match &pend {
                Some(p) => {
                    let in_switch = p.trim_start().starts_with("switch ") && !p.contains(']');
                    in_switch || tr.starts_with("to label ") || (t.starts_with("          ") && (tr == "cleanup" || tr.starts_with("catch ") || tr.starts_with("filter ")))
                }
                None => false,
            };
            if is_cont { let p = pend.as_mut().unwrap(); p.push(' '); p.push_str(tr); }
            else { if let Some(p) = pend.take() { blocks.last_mut().unwrap().1.push(p); } pend = Some(tr.to_string()); }
        }
        if let Some(p) = pend.take() { blocks.last_mut().unwrap().1.push(p); }
        for (i, (n, _)) in blocks.iter().enumerate() { self.blocks.insert(n.clone(), i as u32); }
        let mut out = vec![];
        for (n, ls) in &blocks {
            let mut b = Block { phis: vec![], insts: vec![], name: n.clone() };
            for l in ls {
                if let Err(e) = self.inst(l, &mut b) {
                    // reported only if execution reaches it
                    if l.contains("= phi ") { return Err(format!("in @{name}: {e}: {l}")); }
                    b.insts.push(Inst::Unsupported(format!("in @{name}: {e}: {l}")));
                }
            }
            out.push(b);
        }
        Ok(Func { name, id, params, nregs: self.nregs, blocks: out, nounwind })
    }
    fn has_nounwind(&self, tail: &str) -> bool {
        for w in tail.split_whitespace() {
            if w == "nounwind" { return true; }
            if let Some(n) = w.strip_prefix('#') { if let Ok(n) = n.trim_end_matches(',').parse() { if self.m.nounwind_groups.contains(&n) { return true; } } }
        }
        false
    }
    fn inst(&mut self, l: &str, b: &mut Block) -> PR<()> {
        let mut c = Cur::new(l);
        let mut dst = u32::MAX;
        if c.peek() == b'%' {
            c.expect("%")?;
            let n = c.name()?;
            c.expect("=")?;
            dst = self.reg(n);
        }
        let m = self.m;
        let op = c.take_word();
        let ins = match op {
            "phi" => {
                let t = m.ty(&mut c)?;
                let mut v = vec![];
                loop {
                    c.expect("[")?;
                    let o = self.opd(&mut c, &t)?;
                    c.expect(",")?;
                    c.expect("%")?;
                    let n = c.name()?;
                    c.expect("]")?;
                    v.push((o, self.blk(&n)?));
                    if !c.eat(",") || c.peek() == b'!' { break; }
                }
                b.phis.push((dst, v));
                return Ok(());
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let mut fl = 0;
                loop {
                    match c.word() { "nuw" => fl |= F_NUW, "nsw" => fl |= F_NSW, "exact" => fl |= F_EXACT, "disjoint" => fl |= F_DISJOINT, _ => break }
                    c.take_word();
                }
                let t = m.ty(&mut c)?;
                let x = self.opd(&mut c, &t)?;
                c.expect(",")?;
                let y = self.opd(&mut c, &t)?;
                let o = match op { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor };
                Inst::Bin(dst, o, fl, t, x, y)
            }
            "icmp" => {
                c.eat_word("samesign");
                let p = match c.take_word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, o => return Err(format!("icmp {o}")) };
                let t = m.ty(&mut c)?;
                let x = self.opd(&mut c, &t)?;
                c.expect(",")?;
                let y = self.opd(&mut c, &t)?;
                Inst::Icmp(dst, p, t, x, y)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" => {
                let mut fl = 0;
                loop { match c.word() { "nuw" => fl |= F_NUW, "nsw" => fl |= F_NSW, "nneg" => fl |= F_NNEG, _ => break } c.take_word(); }
                let t = m.ty(&mut c)?;
                let x = self.opd(&mut c, &t)?;
                c.expect("to")?;
                let t2 = m.ty(&mut c)?;
                let k = match op { "trunc" => CastK::Trunc, "zext" => CastK::Zext, "sext" => CastK::Sext, "bitcast" => CastK::Bit, _ => if t2.bits() < t.bits() { CastK::Trunc } else { CastK::Zext } };
                Inst::Cast(dst, k, fl, t, t2, x)
            }
            "load" => {
                while matches!(c.word(), "atomic" | "volatile") { c.take_word(); }
                let t = m.ty(&mut c)?;
                c.expect(",")?;
                let pt = m.ty(&mut c)?;
                let p = self.opd(&mut c, &pt)?;
                let al = self.align_suffix(&mut c, t.align())?;
                Inst::Load(dst, t, p, al)
            }
            "store" => {
                while matches!(c.word(), "atomic" | "volatile") { c.take_word(); }
                let t = m.ty(&mut c)?;
                let v = self.opd(&mut c, &t)?;
                c.expect(",")?;
                let pt = m.ty(&mut c)?;
                let p = self.opd(&mut c, &pt)?;
                let al = self.align_suffix(&mut c, t.align())?;
                Inst::Store(t, v, p, al)
            }
            "getelementptr" => {
                loop { match c.word() { "inbounds" | "nuw" | "nusw" => { c.take_word(); } "inrange" => { c.take_word(); c.skip_parens()?; } _ => break } }
                let bt = m.ty(&mut c)?;
                c.expect(",")?;
                let pt = m.ty(&mut c)?;
                if pt != Ty::Ptr { return Err("vector gep".into()); }
                let p = self.opd(&mut c, &pt)?;
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = bt;
                let mut firsti = true;
                while c.eat(",") {
                    if c.peek() == b'!' { break; }
                    let it = m.ty(&mut c)?;
                    let io = self.opd(&mut c, &it)?;
                    let (scale, next) = if firsti { firsti = false; (cur.size(), cur.clone()) } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &io { Opd::K(Val::C(k)) => *k as usize, _ => return Err("gep struct".into()) };
                                off = off.wrapping_add(cur.layout().0[k]);
                                cur = cur.elem(k);
                                continue;
                            }
                            _ => (cur.elem(0).size(), cur.elem(0)),
                        }
                    };
                    match &io {
                        Opd::K(Val::C(k)) => off = off.wrapping_add((crate::term::sx(*k, it.width()) as u64).wrapping_mul(scale)),
                        _ => idx.push((scale, it.width(), io)),
                    }
                    cur = next;
                }
                Inst::Gep(dst, p, off, idx)
            }
            "alloca" => {
                let t = m.ty(&mut c)?;
                let mut cnt = None;
                let mut al = t.align();
                while c.eat(",") {
                    if c.eat_word("align") { al = c.int()? as u64; }
                    else if c.peek() == b'!' { break; }
                    else { let ct = m.ty(&mut c)?; let o = self.opd(&mut c, &ct)?; cnt = Some((ct.width(), o)); }
                }
                Inst::Alloca(dst, t.size(), cnt, al)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { c.expect("call")?; }
                // fast-math flags, calling conventions, return attributes
                loop {
                    let w = c.word();
                    if w.ends_with("cc") || matches!(w, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { c.take_word(); }
                    else if w == "cc" { c.take_word(); c.int()?; }
                    else { let s = c.i; self.attrs(&mut c)?; if c.i == s { break; } }
                }
                let ret = m.ty(&mut c)?;
                let callee = match c.peek() {
                    b'@' => { c.expect("@")?; let n = c.name()?; match m.fmap.get(&n) { Some(&f) => Callee::Func(f), None => return Err(format!("unknown callee @{n}")) } }
                    b'%' => { c.expect("%")?; let n = c.name()?; let r = self.reg(n); Callee::Ptr(Opd::Reg(r)) }
                    _ => {
                        if c.word() == "asm" {
                            c.take_word();
                            while matches!(c.word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { c.take_word(); }
                            c.expect("\"\"").map_err(|_| "non-empty inline asm".to_string())?;
                            c.expect(",")?;
                            c.expect("\"")?;
                            while c.s[c.i] != b'"' { c.i += 1; }
                            c.i += 1;
                            Callee::Asm
                        } else { Callee::Ptr(Opd::K(m.konst(&mut c, &Ty::Ptr)?)) }
                    }
                };
                c.expect("(")?;
                let mut args = vec![];
                let mut byval = false;
                if !c.eat(")") {
                    loop {
                        let t = m.ty(&mut c)?;
                        if t == Ty::Meta {
                            // skip to , or ) at depth 0
                            let mut d = 0;
                            while c.i < c.s.len() { match c.s[c.i] { b'(' => d += 1, b')' if d == 0 => break, b')' => d -= 1, b',' if d == 0 => break, _ => {} } c.i += 1; }
                            args.push((t, Opd::K(Val::Undef)));
                        } else {
                            byval |= self.attrs(&mut c)?;
                            let o = self.opd(&mut c, &t)?;
                            args.push((t, o));
                        }
                        if c.eat(")") { break; }
                        c.expect(",")?;
                    }
                }
                let restv = c.rest().to_string();
                let nounwind = self.has_nounwind(restv.split("to label").next().unwrap());
                let invoke = if op == "invoke" {
                    let p = restv.rfind(" to label ").map(|p| p + 1).or_else(|| restv.find("to label")).ok_or("invoke without labels")?;
                    let mut c2 = Cur::new(&restv[p..]);
                    c2.expect("to")?;
                    let n = self.label(&mut c2)?;
                    c2.expect("unwind")?;
                    let u = self.label(&mut c2)?;
                    Some((n, u))
                } else { None };
                Inst::Call(Box::new(CallI { dst: if dst == u32::MAX { None } else { Some(dst) }, ret, callee, args, nounwind, invoke, byval }))
            }
            "select" => {
                let ct = m.ty(&mut c)?;
                let cv = self.opd(&mut c, &ct)?;
                c.expect(",")?;
                let t = m.ty(&mut c)?;
                let x = self.opd(&mut c, &t)?;
                c.expect(",")?;
                let t2 = m.ty(&mut c)?;
                let y = self.opd(&mut c, &t2)?;
                Inst::Select(dst, ct, t, cv, x, y)
            }
            "extractvalue" => {
                let t = m.ty(&mut c)?;
                let x = self.opd(&mut c, &t)?;
                let mut ix = vec![];
                while c.eat(",") { if c.peek() == b'!' { break; } ix.push(c.int()? as u32); }
                Inst::Extract(dst, x, ix)
            }
            "insertvalue" => {
                let t = m.ty(&mut c)?;
                let x = self.opd(&mut c, &t)?;
                c.expect(",")?;
                let t2 = m.ty(&mut c)?;
                let y = self.opd(&mut c, &t2)?;
                let mut ix = vec![];
                while c.eat(",") { if c.peek() == b'!' { break; } ix.push(c.int()? as u32); }
                Inst::Insert(dst, t, x, y, ix)
            }
            "extractelement" => {
                let t = m.ty(&mut c)?;
                let x = self.opd(&mut c, &t)?;
                c.expect(",")?;
                let t2 = m.ty(&mut c)?;
                let y = self.opd(&mut c, &t2)?;
                Inst::ExtractEl(dst, t, x, y)
            }
            "insertelement" => {
                let t = m.ty(&mut c)?;
                let x = self.opd(&mut c, &t)?;
                c.expect(",")?;
                let t2 = m.ty(&mut c)?;
                let y = self.opd(&mut c, &t2)?;
                c.expect(",")?;
                let t3 = m.ty(&mut c)?;
                let z = self.opd(&mut c, &t3)?;
                Inst::InsertEl(dst, t, x, y, z)
            }
            "shufflevector" => {
                let t = m.ty(&mut c)?;
                let x = self.opd(&mut c, &t)?;
                c.expect(",")?;
                let t2 = m.ty(&mut c)?;
                let y = self.opd(&mut c, &t2)?;
                c.expect(",")?;
                let t3 = m.ty(&mut c)?;
                let mk = m.konst(&mut c, &t3)?;
                let mk = match mk { Val::Agg(v) => v.iter().map(|x| match x { Val::C(k) => Some(*k as u32), _ => None }).collect(), _ => vec![None; t3.count()] };
                Inst::Shuffle(dst, t, x, y, mk)
            }
            "br" => {
                if c.word() == "label" { Inst::Br(self.label(&mut c)?) }
                else {
                    c.expect("i1")?;
                    let o = self.opd(&mut c, &Ty::Int(1))?;
                    c.expect(",")?;
                    let x = self.label(&mut c)?;
                    c.expect(",")?;
                    let y = self.label(&mut c)?;
                    Inst::CondBr(o, x, y)
                }
            }
            "switch" => {
                let t = m.ty(&mut c)?;
                let o = self.opd(&mut c, &t)?;
                c.expect(",")?;
                let d = self.label(&mut c)?;
                c.expect("[")?;
                let mut cases = vec![];
                while !c.eat("]") {
                    let ct = m.ty(&mut c)?;
                    let v = match m.konst(&mut c, &ct)? { Val::C(v) => v, _ => return Err("switch case".into()) };
                    c.expect(",")?;
                    cases.push((v, self.label(&mut c)?));
                }
                Inst::Switch(t.width(), o, d, cases)
            }
            "ret" => {
                let t = m.ty(&mut c)?;
                if t == Ty::Void { Inst::Ret(t, None) } else { let o = self.opd(&mut c, &t)?; Inst::Ret(t, Some(o)) }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" => {
                let _t = m.ty(&mut c)?;
                let mut cleanup = false;
                let mut cl = vec![];
                loop {
                    match c.take_word() {
                        "cleanup" => cleanup = true,
                        "catch" => { c.expect("ptr")?; c.expect("null").map_err(|_| "typed catch".to_string())?; cl.push(Clause::Catch) }
                        "filter" => { c.expect("[0 x ptr]")?; let w = c.take_word(); if w != "zeroinitializer" && w != "undef" && w != "poison" { return Err("filter".into()); } cl.push(Clause::Filter) }
                        _ => break,
                    }
                }
                Inst::Landing(dst, cleanup, cl)
            }
            "resume" => { let t = m.ty(&mut c)?; Inst::Resume(self.opd(&mut c, &t)?) }
            "freeze" => { let t = m.ty(&mut c)?; let o = self.opd(&mut c, &t)?; Inst::Freeze(dst, t, o) }
            "atomicrmw" => {
                c.eat_word("volatile");
                let k = c.take_word().to_string();
                let pt = m.ty(&mut c)?;
                let p = self.opd(&mut c, &pt)?;
                c.expect(",")?;
                let t = m.ty(&mut c)?;
                let v = self.opd(&mut c, &t)?;
                Inst::Rmw(dst, k, t, p, v)
            }
            "cmpxchg" => {
                c.eat_word("weak");
                c.eat_word("volatile");
                let pt = m.ty(&mut c)?;
                let p = self.opd(&mut c, &pt)?;
                c.expect(",")?;
                let t = m.ty(&mut c)?;
                let x = self.opd(&mut c, &t)?;
                c.expect(",")?;
                let t2 = m.ty(&mut c)?;
                let y = self.opd(&mut c, &t2)?;
                Inst::CmpXchg(dst, t, p, x, y)
            }
            "fence" => Inst::Fence,
            o => Inst::Unsupported(format!("{o}: {l}")),
        };
        b.insts.push(ins);
        Ok(())
    }
    fn align_suffix(&mut self, c: &mut Cur, dflt: u64) -> PR<u64> {
        let r = c.rest();
        if let Some(p) = r.find(", align ") {
            return r[p + 8..].split(|ch: char| !ch.is_ascii_digit()).next().unwrap().parse().map_err(|_| "align".to_string());
        }
        Ok(dflt)
    }
}
