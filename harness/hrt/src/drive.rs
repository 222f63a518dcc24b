//! The modes in which a case is driven, and what is checked in each.
use crate::cases::*;
use crate::world::*;
use symrt::*;

/// what the caller of the mapping relies on after building: the inputs still inside the container
fn inputs<T: El>(n: usize, ids: &[usize; MAXC], vs: &[u64; MAXC]) {
    let w = w();
    w.n_in = 0;
    for i in 0..n {
        if w.live[ids[i]] {
            let k = w.n_in;
            w.in_id[k] = ids[i];
            w.in_v[k] = vs[i];
            w.n_in += 1;
        }
    }
    w.aux = 0;
    for i in 0..w.born { if w.live[i] && w.kind[i] == 3 { w.aux += 1; } }
    w.aux_seen = 0;
}

fn build<C: Case>() -> (u32, C::C<A>) {
    let (shape, n) = C::shape();
    let mut xs = Xs::new();
    let mut ids = [0; MAXC];
    let mut vs = [0; MAXC];
    for i in 0..n {
        let v = u64s();
        if C::SORTED && i > 0 { assume(vs[i - 1] < v); }
        let t = A::new(v);
        ids[i] = t.id;
        vs[i] = v;
        xs.push(t);
    }
    let c = C::build(shape, &mut xs);
    inputs::<A>(n, &ids, &vs);
    (shape, c)
}

/// log a call of the mapping closure and check it against the contract
fn on_call<C: Case>(a: &A) -> usize {
    let w = w();
    let k = w.calls;
    check(!w.failed && !w.panicked, "[first-error] closure called again after it failed");
    check(k < w.n_in, "[once] closure called more often than there are elements");
    if k >= MAXC { stop() }
    w.calls = k + 1;
    check(a.id < w.born && w.kind[a.id] == 0, "[map] closure called with something that is not an element");
    check(w.live[a.id], "[drop] closure called with a dropped element");
    w.arg_id[k] = a.id;
    w.arg_v[k] = a.v;
    let mut idx = usize::MAX;
    for i in 0..w.n_in { if w.in_id[i] == a.id { idx = i; } }
    check(idx != usize::MAX, "[once] closure called with an element that is not in the container");
    if idx < MAXC { check_eq(w.in_v[idx], a.v, "[map] closure sees a different value than the element holds"); }
    for i in 0..k { check(w.arg_id[i] != a.id, "[once] closure called twice for the same element"); }
    match C::KIND {
        Kind::Seq | Kind::OrdSet | Kind::OrdKeys => check(idx == k, "[order] closure called out of element order"),
        _ => {}
    }
    k
}
fn give(k: usize) -> B {
    let b = B::new(u64s());
    let w = w();
    w.ret_id[k] = b.id;
    w.ret_v[k] = b.v;
    b
}
fn ret_index(id: usize) -> usize {
    let w = w();
    let mut r = usize::MAX;
    for i in 0..w.calls { if w.ret_id[i] == id { r = i; } }
    r
}

fn in_index(id: usize) -> usize {
    let w = w();
    let mut r = usize::MAX;
    for i in 0..w.n_in { if w.in_id[i] == id { r = i; } }
    r
}

/// compare the output of a successful mapping with what the contract says
fn verify<C: Case>(shape: u32, c: C::C<B>) {
    check(w().calls == w().n_in, "[once] closure not called exactly once per element");
    let mut o: Out<B> = Out::new();
    let s2 = C::read(c, &mut o);
    if s2 != NOSHAPE { check(s2 == shape, "[map] variant not preserved"); }
    verify_out::<C>(&o);
}
fn verify_out<C: Case>(o: &Out<B>) {
    let w = w();
    let n = w.n_in;
    let collapsing = matches!(C::KIND, Kind::OrdSet | Kind::HashSet | Kind::OrdKeys | Kind::HashKeys);
    if !collapsing {
        check(o.n == n, "[map] number of elements changed");
        check(w.aux_seen == w.aux, "[map] unmapped component lost or duplicated");
    }
    // every output element is a closure result, handed out once
    for i in 0..o.n {
        let b = o.at(i);
        let r = ret_index(b.id);
        check(w.live[b.id], "[drop] output contains a dropped value");
        check(r != usize::MAX, "[map] output contains something the closure did not return");
        if r == usize::MAX { return; }
        check_eq(b.v, w.ret_v[r], "[map] output value differs from the closure's result");
        for j in 0..i { check(o.at(j).id != b.id, "[map] closure result used twice"); }
        let a = w.arg_id[r];
        let src = in_index(a);
        let paired = o.pair[i] != usize::MAX;
        match C::KIND {
            Kind::Seq => check(src == i, "[map] result not in the place of the element it was computed from"),
            _ => {}
        }
        if paired && !collapsing { check(o.pair[i] == w.partner[a], "[map] mapped component separated from its partner"); }
        if i > 0 {
            match C::KIND {
                Kind::Heap => check(o.at(i - 1).v >= b.v, "[map] heap order violated"),
                Kind::OrdSet | Kind::OrdKeys => check(o.at(i - 1).v < b.v, "[map] order of an ordered collection violated"),
                _ => {}
            }
        }
    }
    if collapsing {
        // the output holds exactly the set of closure results; for maps the last partner wins
        for k in 0..w.calls {
            let mut found = 0u64;
            let mut last = true;
            for j in 0..w.calls {
                // later in element order, or in call order where the collection has no order of its own
                let later = if matches!(C::KIND, Kind::OrdKeys) { in_index(w.arg_id[j]) > in_index(w.arg_id[k]) } else { j > k };
                if later { if w.ret_v[j] == w.ret_v[k] { last = false; } }
            }
            for i in 0..o.n {
                if o.at(i).v == w.ret_v[k] {
                    found += 1;
                    if last && o.pair[i] != usize::MAX { check(o.pair[i] == w.partner[w.arg_id[k]], "[map] wrong value kept for a key"); }
                }
            }
            check(found == 1, "[map] closure result missing from or repeated in the output set");
        }
    }
}

pub fn settle() {
    let w = w();
    for i in 0..w.born { check(!w.live[i], "[drop] value leaked (never dropped)"); }
    leak_check("[drop] allocation not released");
}

/// infallible mapping, closure returns arbitrary values
pub fn inf<C: Case>() {
    expect_reach(1);
    heap_mark();
    {
        let (shape, c) = build::<C>();
        let o = C::fm(c, |a| { let k = on_call::<C>(&a); drop(a); give(k) });
        verify::<C>(shape, o);
    }
    settle();
    reach(0);
}
fn try_step<C: Case>(a: A) -> Result<B, E> {
    let k = on_call::<C>(&a);
    drop(a);
    if u8s() & 1 == 0 { Ok(give(k)) } else {
        let w = w();
        let e = E::new(u64s());
        w.failed = true;
        w.err_id = e.id;
        w.err_v = e.v;
        Err(e)
    }
}
fn try_verify<C: Case>(shape: u32, r: Result<C::C<B>, E>) {
    let w = w();
    match r {
        Ok(o) => {
            check(!w.failed, "[try] success although the closure failed");
            verify::<C>(shape, o);
            reach(0);
        }
        Err(e) => {
            check(w.failed, "[try] failure although the closure did not fail");
            check(w.live[e.id], "[drop] error already dropped");
            check(e.id == w.err_id, "[first-error] error differs from the one the closure returned first");
            check_eq(e.v, w.err_v, "[first-error] error differs from the one the closure returned first");
            reach(1);
        }
    }
}
/// fallible mapping, each closure call succeeds or fails arbitrarily
pub fn try_<C: Case>(expect: u64) {
    expect_reach(expect);
    heap_mark();
    {
        let (shape, c) = build::<C>();
        let r = C::tfm(c, |a| try_step::<C>(a));
        try_verify::<C>(shape, r);
    }
    settle();
}
/// the closure may panic at any call; nothing may be dropped twice, used after drop or leaked
pub fn panic_inf<C: Case>(expect: u64) {
    expect_reach(expect);
    heap_mark();
    let unwound = catch(|| {
        let (shape, c) = build::<C>();
        let o = C::fm(c, |a| {
            let k = on_call::<C>(&a);
            if u8s() & 1 != 0 { w().panicked = true; panic_now() }
            drop(a);
            give(k)
        });
        verify::<C>(shape, o);
    });
    check(unwound == w().panicked, "[panic] the closure's panic was swallowed, or the mapping panicked on its own");
    settle();
    reach(unwound as u32);
}
pub fn panic_try<C: Case>(expect: u64) {
    expect_reach(expect);
    heap_mark();
    let unwound = catch(|| {
        let (shape, c) = build::<C>();
        let r = C::tfm(c, |a| {
            let o = u8s();
            if o & 2 != 0 { on_call::<C>(&a); w().panicked = true; panic_now() }
            let k = on_call::<C>(&a);
            if o & 1 == 0 { drop(a); Ok(give(k)) } else {
                let w = w();
                let e = E::new(u64s());
                w.failed = true;
                w.err_id = e.id;
                w.err_v = e.v;
                Err(e)
            }
        });
        try_verify::<C>(shape, r);
    });
    check(unwound == w().panicked, "[panic] the closure's panic was swallowed, or the mapping panicked on its own");
    settle();
    if unwound { reach(2); }
}

// ---------------------------------------------------------------- arrays of unusual layouts

/// a fixed-length mapping whose elements are wrapped into another layout for the mapping
pub trait Spec {
    type IA;
    type OB;
    const N: usize;
    fn mk(x: &mut Xs<A>) -> Self::IA;
    fn go<Fo: FnMut(A) -> B>(c: Self::IA, f: Fo) -> Self::OB;
    fn tgo<Fo: FnMut(A) -> Result<B, E>>(c: Self::IA, f: Fo) -> Result<Self::OB, E>;
    fn rd(c: Self::OB, o: &mut Out<B>);
}
fn spec_build<S: Spec>() -> S::IA {
    let mut xs = Xs::new();
    let mut ids = [0; MAXC];
    let mut vs = [0; MAXC];
    for i in 0..S::N { vs[i] = u64s(); let t = A::new(vs[i]); ids[i] = t.id; xs.push(t); }
    let c = S::mk(&mut xs);
    inputs::<A>(S::N, &ids, &vs);
    c
}
fn spec_verify<S: Spec>(c: S::OB) {
    check(w().calls == w().n_in, "[once] closure not called exactly once per element");
    let mut o: Out<B> = Out::new();
    S::rd(c, &mut o);
    verify_out::<Arr1>(&o);
}
pub fn spec_inf<S: Spec>(expect: u64) {
    expect_reach(expect);
    heap_mark();
    let unwound = catch(|| {
        let c = spec_build::<S>();
        let o = S::go(c, |a| {
            let k = on_call::<Arr1>(&a);
            if u8s() & 1 != 0 { w().panicked = true; panic_now() }
            drop(a);
            give(k)
        });
        spec_verify::<S>(o);
    });
    check(unwound == w().panicked, "[panic] the closure's panic was swallowed, or the mapping panicked on its own");
    settle();
    reach(unwound as u32);
}
pub fn spec_try<S: Spec>(expect: u64) {
    expect_reach(expect);
    heap_mark();
    let unwound = catch(|| {
        let c = spec_build::<S>();
        let r = S::tgo(c, |a| { if u8s() & 1 != 0 { on_call::<Arr1>(&a); w().panicked = true; panic_now() } try_step::<Arr1>(a) });
        match r {
            Ok(o) => { check(!w().failed, "[try] success although the closure failed"); spec_verify::<S>(o); reach(0); }
            Err(e) => {
                let w = w();
                check(w.failed, "[try] failure although the closure did not fail");
                check(w.live[e.id], "[drop] error already dropped");
                check(e.id == w.err_id, "[first-error] error differs from the one the closure returned first");
                check_eq(e.v, w.err_v, "[first-error] error differs from the one the closure returned first");
                reach(1);
            }
        }
    });
    check(unwound == w().panicked, "[panic] the closure's panic was swallowed, or the mapping panicked on its own");
    settle();
    if unwound { reach(2); }
}

// ---------------------------------------------------------------- laws

fn build_twin<C: Case>() -> (C::C<A>, C::C<A>, usize) {
    let (shape, n) = C::shape();
    // two hash tables iterate in different orders: consuming part of each would leave different elements
    let shape = if matches!(C::KIND, Kind::HashSet | Kind::HashKeys | Kind::HashVals) { 0 } else { shape };
    let mut vs = [0; MAXC];
    for i in 0..n {
        vs[i] = u64s();
        if C::SORTED && i > 0 { assume(vs[i - 1] < vs[i]); }
    }
    let mk = || {
        w().aux_ctr = 100;
        let mut xs = Xs::new();
        for i in 0..n { xs.push(A::new(vs[i])); }
        C::build(shape, &mut xs)
    };
    let c1 = mk();
    let c2 = mk();
    (c1, c2, n)
}
/// equality of two outputs as the container's own notion of equality sees it
fn same<C: Case, T: El>(msg: &'static str, x: C::C<T>, y: C::C<T>) {
    let mut a: Out<T> = Out::new();
    let mut b: Out<T> = Out::new();
    let s1 = C::read(x, &mut a);
    let s2 = C::read(y, &mut b);
    check(s1 == s2, msg);
    check(a.n == b.n, msg);
    match C::KIND {
        Kind::Seq | Kind::OrdSet | Kind::OrdKeys | Kind::Heap => {
            for i in 0..a.n { if i < b.n { check_eq(a.at(i).v(), b.at(i).v(), msg); check_eq(a.pv[i], b.pv[i], msg); } }
        }
        _ => {
            for i in 0..a.n {
                let (mut ca, mut cb) = (0u64, 0u64);
                for j in 0..a.n { ca += ((a.at(j).v() == a.at(i).v()) & (a.pv[j] == a.pv[i])) as u64; }
                for j in 0..b.n { cb += ((b.at(j).v() == a.at(i).v()) & (b.pv[j] == a.pv[i])) as u64; }
                check(ca == cb, msg);
            }
        }
    }
}
pub fn law_id<C: Case>() {
    expect_reach(1);
    let (c1, c2, _) = build_twin::<C>();
    let c1 = C::fm(c1, |a: A| a);
    same::<C, A>("[identity] mapping the identity function changes the value", c1, c2);
    reach(0);
}
pub fn law_id_try<C: Case>() {
    expect_reach(1);
    let (c1, c2, _) = build_twin::<C>();
    match C::tfm(c1, |a: A| Ok::<A, E>(a)) {
        Ok(c1) => same::<C, A>("[identity] try-mapping the identity function changes the value", c1, c2),
        Err(_) => check(false, "[identity] try-mapping the identity function fails"),
    }
    reach(0);
}
/// f, g arbitrary functions (uninterpreted); for collections keyed by the mapped
/// component with a partner, f is injective on the keys (see DESIGN.md)
pub fn law_comp<C: Case>() {
    expect_reach(1);
    let (c1, c2, _) = build_twin::<C>();
    // last-wins on colliding keys makes the law unattainable for key mappings unless
    // the second function (for hash maps: either function) is injective on the keys
    let ginj = matches!(C::KIND, Kind::OrdKeys | Kind::HashKeys);
    let finj = matches!(C::KIND, Kind::HashKeys);
    let mut lf = Inj::new(finj);
    let mut lg = Inj::new(ginj);
    let x = C::fm(C::fm(c1, |a: A| B::new(lf.call(1, a.v))), |b: B| D::new(lg.call(2, b.v)));
    let y = C::fm(c2, |a: A| { let m = lf.call(1, a.v); D::new(lg.call(2, m)) });
    same::<C, D>("[composition] mapping f then g differs from mapping g . f", x, y);
    reach(0);
}
/// an uninterpreted function, optionally assumed injective on the values it meets
struct Inj { on: bool, n: usize, x: [u64; 32], r: [u64; 32] }
impl Inj {
    fn new(on: bool) -> Self { Inj { on, n: 0, x: [0; 32], r: [0; 32] } }
    fn call(&mut self, f: u32, x: u64) -> u64 {
        let r = uf(f, x);
        if self.on {
            for i in 0..self.n { assume((self.r[i] != r) | (self.x[i] == x)); }
            self.x[self.n] = x;
            self.r[self.n] = r;
            self.n += 1;
        }
        r
    }
}
/// try_func_map with a closure that never fails agrees with func_map
pub fn law_try<C: Case>() {
    expect_reach(1);
    let (c1, c2, _) = build_twin::<C>();
    let mut lf = Inj::new(matches!(C::KIND, Kind::HashKeys));
    let x = C::fm(c1, |a: A| B::new(lf.call(1, a.v)));
    match C::tfm(c2, |a: A| Ok::<B, E>(B::new(lf.call(1, a.v)))) {
        Ok(y) => same::<C, B>("[try] try_func_map with a succeeding closure differs from func_map", x, y),
        Err(_) => check(false, "[try] failure although the closure did not fail"),
    }
    reach(0);
}

// ---------------------------------------------------------------- func_map vs func_map_over

fn by_call_order<C: Case>() -> bool { !matches!(C::KIND, Kind::HashSet | Kind::HashKeys | Kind::HashVals) }
/// what one of the two mappings did
struct Log { n: usize, v: [u64; MAXC], live: usize }
impl Log { fn new() -> Self { Log { n: 0, v: [0; MAXC], live: 0 } } }
fn live() -> usize { let w = w(); let mut n = 0; for i in 0..w.born { n += w.live[i] as usize; } n }
fn same_calls<C: Case>(a: &Log, b: &Log) {
    check(a.n == b.n, "[over] the _over method calls the closure a different number of times");
    if by_call_order::<C>() { for i in 0..a.n { if i < b.n { check_eq(a.v[i], b.v[i], "[over] the _over method calls the closure with different elements"); } } }
}
/// outcome of the k-th call of the closure: 0 ok, 1 error, 2 panic
fn outcomes(max: u8) -> [u8; MAXC] { let mut o = [0; MAXC]; for i in 0..8 { o[i] = u8s(); assume(o[i] <= max); } o }
pub fn over_inf<C: Case>(expect: u64) {
    expect_reach(expect);
    let (c1, c2, _) = build_twin::<C>();
    let out = outcomes(1);
    let (mut p, mut q) = (Log::new(), Log::new());
    let (mut r1, mut r2) = (None, None);
    let mut lf = Inj::new(matches!(C::KIND, Kind::HashKeys));
    let base = live();
    let u1 = catch(|| r1 = Some(C::fm(c1, |a: A| { let k = p.n; if k >= 8 { stop() } p.v[k] = a.v; p.n += 1; if out[k] == 1 { panic_now() } B::new(lf.call(1, a.v)) })));
    p.live = live();
    let u2 = catch(|| r2 = Some(C::fm_over(c2, |a: A| { let k = q.n; if k >= 8 { stop() } q.v[k] = a.v; q.n += 1; if out[k] == 1 { panic_now() } B::new(lf.call(1, a.v)) })));
    q.live = live();
    check(u1 == u2, "[over] only one of func_map and func_map_over panics");
    same_calls::<C>(&p, &q);
    check(base - p.live == p.live - q.live, "[over] the _over method drops a different number of values");
    reach(u1 as u32);
    match (r1, r2) {
        (Some(x), Some(y)) => same::<C, B>("[over] func_map_over gives a different value than func_map", x, y),
        _ => {}
    }
}
pub fn over_try<C: Case>(expect: u64) {
    expect_reach(expect);
    let (c1, c2, _) = build_twin::<C>();
    let out = outcomes(2);
    let e = u64s();
    let (mut p, mut q) = (Log::new(), Log::new());
    let (mut r1, mut r2) = (None, None);
    let mut lf = Inj::new(matches!(C::KIND, Kind::HashKeys));
    let base = live();
    let u1 = catch(|| r1 = Some(C::tfm(c1, |a: A| { let k = p.n; if k >= 8 { stop() } p.v[k] = a.v; p.n += 1; if out[k] == 2 { panic_now() } if out[k] == 1 { Err(E::new(e ^ k as u64)) } else { Ok(B::new(lf.call(1, a.v))) } })));
    p.live = live();
    let u2 = catch(|| r2 = Some(C::tfm_over(c2, |a: A| { let k = q.n; if k >= 8 { stop() } q.v[k] = a.v; q.n += 1; if out[k] == 2 { panic_now() } if out[k] == 1 { Err(E::new(e ^ k as u64)) } else { Ok(B::new(lf.call(1, a.v))) } })));
    q.live = live();
    check(u1 == u2, "[over] only one of try_func_map and try_func_map_over panics");
    same_calls::<C>(&p, &q);
    check(base - p.live == p.live - q.live, "[over] the _over method drops a different number of values");
    match (r1, r2) {
        (Some(Ok(x)), Some(Ok(y))) => { same::<C, B>("[over] try_func_map_over gives a different value than try_func_map", x, y); reach(0); }
        (Some(Err(x)), Some(Err(y))) => { check_eq(x.v, y.v, "[over] try_func_map_over gives a different error than try_func_map"); reach(1); }
        (None, None) => reach(2),
        _ => check(u1 != u2, "[over] only one of try_func_map and try_func_map_over fails"),
    }
}
