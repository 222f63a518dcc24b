//! Negative controls: deliberately wrong mappings that the machinery has to
//! detect on every run (otherwise the check does not answer).
use crate::cases::*;
use crate::drive::*;
use crate::world::*;
use symrt::*;

macro_rules! neg {
    ($name:ident, |$c:ident, $f:ident| $fm:expr, |$c2:ident, $f2:ident| $tfm:expr, |$c3:ident, $f3:ident| $over:expr) => {
        pub struct $name;
        impl Case for $name {
            type C<T: El> = Vec<T>;
            const KIND: Kind = Kind::Seq;
            fn shape() -> (u32, usize) { (0, choice(4) as usize) }
            fn build<T: El>(_: u32, x: &mut Xs<T>) -> Vec<T> { let mut v = vec![]; for i in 0..x.n { v.push(x.take(i)); } v }
            fn fm<T: El, U: El, F: FnMut(T) -> U>($c: Vec<T>, mut $f: F) -> Vec<U> { $fm }
            fn tfm<T: El, U: El, Er, F: FnMut(T) -> Result<U, Er>>($c2: Vec<T>, mut $f2: F) -> Result<Vec<U>, Er> { $tfm }
            fn fm_over<T: El, U: El, F: FnMut(T) -> U>($c3: Vec<T>, mut $f3: F) -> Vec<U> { $over }
            fn tfm_over<T: El, U: El, Er, F: FnMut(T) -> Result<U, Er>>($c2: Vec<T>, mut $f2: F) -> Result<Vec<U>, Er> { $tfm }
            fn read<T: El>(c: Vec<T>, o: &mut Out<T>) -> u32 { for t in c { o.t(t); } NOSHAPE }
        }
    };
}
fn plain<T, U>(c: Vec<T>, f: impl FnMut(T) -> U) -> Vec<U> { c.into_iter().map(f).collect() }
fn tplain<T, U, E>(c: Vec<T>, f: impl FnMut(T) -> Result<U, E>) -> Result<Vec<U>, E> { c.into_iter().map(f).collect() }

// two results swapped
neg!(Swapped, |c, f| { let mut v = plain(c, &mut f); if v.len() > 2 { v.swap(0, 2); } v },
    |c, f| { let mut v = tplain(c, &mut f)?; if v.len() > 2 { v.swap(1, 2); } Ok(v) },
    |c, f| { let mut v = plain(c, &mut f); v.reverse(); v });
// an element is skipped
neg!(Skipped, |c, f| { let mut c = c; if c.len() == 3 { c.pop(); } plain(c, &mut f) }, |c, f| { let mut c = c; if c.len() == 3 { c.pop(); } tplain(c, &mut f) }, |c, f| plain(c, &mut f));
// the right result, but the calls are made back to front
neg!(Backwards, |c, f| { let mut v: Vec<U> = c.into_iter().rev().map(&mut f).collect(); v.reverse(); v }, |c, f| tplain(c, &mut f), |c, f| plain(c, &mut f));
// results produced before a failure are leaked
neg!(Leaky, |c, f| { let v = plain(c, &mut f); if v.len() == 3 { std::mem::forget(v); return Vec::new(); } v },
    |c, f| {
        let mut v = std::mem::ManuallyDrop::new(Vec::new());
        for x in c { v.push(f(x)?); }
        Ok(std::mem::ManuallyDrop::into_inner(v))
    },
    |c, f| plain(c, &mut f));
// a result is dropped twice when the closure panics
neg!(DoubleDrop, |c, f| {
        struct G<U>(Vec<U>);
        impl<U> Drop for G<U> { fn drop(&mut self) { if self.0.len() == 2 { unsafe { std::ptr::drop_in_place(self.0.as_mut_ptr()) } } } }
        let mut g = G(Vec::new());
        for x in c { g.0.push(f(x)); }
        std::mem::take(&mut g.0)
    }, |c, f| tplain(c, &mut f), |c, f| plain(c, &mut f));
// errors other than in the first call are swallowed
neg!(Lenient, |c, f| plain(c, &mut f), |c, f| {
        let mut v = Vec::new();
        for (i, x) in c.into_iter().enumerate() { match f(x) { Ok(u) => v.push(u), Err(e) => if i == 0 { return Err(e) } } }
        Ok(v)
    }, |c, f| plain(c, &mut f));
// the last error wins
neg!(LastError, |c, f| plain(c, &mut f), |c, f| {
        let mut v = Vec::new();
        let mut last = None;
        for x in c { match f(x) { Ok(u) => v.push(u), Err(e) => last = Some(e) } }
        match last { Some(e) => Err(e), None => Ok(v) }
    }, |c, f| plain(c, &mut f));
// reads an element that does not exist
neg!(Overread, |c, f| { let n = c.len(); let v = plain(c, &mut f); if n == 3 { unsafe { std::ptr::read_volatile(v.as_ptr().add(8 * n) as *const u64); } } v }, |c, f| tplain(c, &mut f), |c, f| plain(c, &mut f));
// drops a result that was never produced
neg!(Uninit, |c, f| plain(c, &mut f), |c, f| {
        let mut m: std::mem::MaybeUninit<U> = std::mem::MaybeUninit::uninit();
        let mut v = Vec::new();
        for x in c { match f(x) { Ok(u) => v.push(u), Err(e) => { if v.is_empty() { unsafe { m.assume_init_drop() } } return Err(e) } } }
        Ok(v)
    }, |c, f| plain(c, &mut f));

symrt::harnesses_part! { NEG
    neg_map_a => inf::<Swapped>();
    neg_map_b => try_::<Swapped>(3);
    neg_law_a => law_id::<Swapped>();
    neg_law_b => law_comp::<Swapped>();
    neg_once_a => inf::<Skipped>();
    neg_once_b => try_::<Skipped>(3);
    neg_order_a => inf::<Backwards>();
    neg_drop_a => inf::<Leaky>();
    neg_drop_b => try_::<Leaky>(3);
    neg_panic_a => panic_inf::<DoubleDrop>(3);
    neg_panic_b => panic_try::<Leaky>(7);
    neg_try_a => try_::<Lenient>(3);
    neg_try_b => law_try::<Swapped>();
    neg_first_a => try_::<LastError>(3);
    neg_first_b => panic_try::<LastError>(7);
    neg_ub_a => inf::<Overread>();
    neg_ub_b => try_::<Uninit>(3);
    neg_over_a => over_inf::<Swapped>(3);
}
