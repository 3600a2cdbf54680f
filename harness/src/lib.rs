//! Symbolic-execution entry points. Every function here goes through the public
//! interface of `probability` only; the interesting code is the library's own.
//!
//! `vp_draw` is the environment: natively it pops 64-bit words from a buffer set by
//! the replayer; the symbolic executor intercepts it and returns a fresh symbolic word.
#![allow(clippy::missing_safety_doc)]

use probability::distribution::{self, *};
use probability::prelude::Independent;
use probability::source;

static mut DRAWS: [u64; 4096] = [0; 4096];
static mut POS: usize = 0;
static mut LEN: usize = 0;

#[no_mangle]
pub unsafe extern "C" fn vp_set_draws(p: *const u64, n: usize) {
    LEN = n;
    POS = 0;
    for i in 0..n {
        DRAWS[i] = *p.add(i);
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_pos() -> usize {
    POS
}
/// The source of randomness. Past the end of the buffer the words repeat cyclically.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vp_draw() -> u64 {
    let r = DRAWS[POS % LEN];
    POS += 1;
    r
}

pub struct Src(#[allow(dead_code)] u64);
impl source::Source for Src {
    #[inline(always)]
    fn read_u64(&mut self) -> u64 {
        unsafe { vp_draw() }
    }
}

macro_rules! f {
    ($name:ident($($a:ident: $t:ty),*) -> $r:ty = $e:expr) => {
        #[no_mangle] #[inline(never)]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r { $e }
    };
}

trait ToBits64 {
    fn put(self, out: *mut f64);
}
impl ToBits64 for f64 {
    #[inline(always)]
    fn put(self, out: *mut f64) {
        unsafe { *out = self }
    }
}
impl ToBits64 for u8 {
    #[inline(always)]
    fn put(self, out: *mut f64) {
        unsafe { *(out as *mut u64) = self as u64 }
    }
}
impl ToBits64 for usize {
    #[inline(always)]
    fn put(self, out: *mut f64) {
        unsafe { *(out as *mut u64) = self as u64 }
    }
}

#[inline(always)]
unsafe fn put_modes<T: ToBits64 + Copy>(v: &[T], out: *mut f64) -> usize {
    let mut i = 0;
    while i < v.len() {
        v[i].put(out.add(i));
        i += 1;
    }
    v.len()
}

macro_rules! one {
    (distribution, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* x: f64) -> f64 = $d.distribution(x)); };
    (density, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* x: f64) -> f64 = $d.density(x)); };
    (mass8, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* x: u64) -> f64 = $d.mass(x as u8)); };
    (mass, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* x: u64) -> f64 = $d.mass(x as usize)); };
    (inverse, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* p: f64) -> f64 = $d.inverse(p)); };
    (inverse_d, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* p: f64) -> u64 = $d.inverse(p) as u64); };
    (entropy, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t),*) -> f64 = $d.entropy()); };
    (kurtosis, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t),*) -> f64 = $d.kurtosis()); };
    (skewness, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t),*) -> f64 = $d.skewness()); };
    (mean, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t),*) -> f64 = $d.mean()); };
    (median, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t),*) -> f64 = $d.median()); };
    (variance, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t),*) -> f64 = $d.variance()); };
    (deviation, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t),*) -> f64 = $d.deviation()); };
    (modes, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* out: *mut f64) -> usize = put_modes(&$d.modes(), out)); };
    // One sample.
    (sample, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* out: *mut f64) -> usize = {
        let mut s = Src(0); $d.sample(&mut s).put(out); 0 }); };
    // `k` samples through the iterator.
    (indep, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* out: *mut f64, k: usize) -> usize = {
        let mut s = Src(0);
        let d = $d;
        let mut it = Independent(&d, &mut s);
        let mut i = 0;
        while i < k {
            match it.next() { Some(v) => v.put(out.add(i)), None => break }
            i += 1;
        }
        i }); };
    // Two samplers sharing one source, one after another: one sample from each.
    (indep_shared, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* out: *mut f64, _k: usize) -> usize = {
        let mut s = Src(0);
        let d = $d;
        let mut i = 0;
        { let mut it = Independent(&d, &mut s); if let Some(v) = it.next() { v.put(out.add(0)); i += 1; } }
        { let mut it = Independent(&d, &mut s); if let Some(v) = it.next() { v.put(out.add(1)); i += 1; } }
        i }); };
    // Through a `take` adapter.
    (indep_take, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* out: *mut f64, k: usize) -> usize = {
        let mut s = Src(0);
        let d = $d;
        let mut i = 0;
        for v in Independent(&d, &mut s).take(k) { v.put(out.add(i)); i += 1; }
        i }); };
    // The item after `k` skipped ones, then the next.
    (indep_nth, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* out: *mut f64, k: usize) -> usize = {
        let mut s = Src(0);
        let d = $d;
        let mut it = Independent(&d, &mut s);
        let mut i = 0;
        if let Some(v) = it.nth(k) { v.put(out.add(i)); i += 1; }
        if let Some(v) = it.next() { v.put(out.add(i)); i += 1; }
        i }); };
    // A sampler left after `k` items, then another on the same source, then a direct sample.
    (indep_resume, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* out: *mut f64, k: usize) -> usize = {
        let mut s = Src(0);
        let d = $d;
        let mut i = 0;
        for v in Independent(&d, &mut s) { if i == k { break } v.put(out.add(i)); i += 1; if i == k { break } }
        { let mut it = Independent(&d, &mut s); if let Some(v) = it.by_ref().next() { v.put(out.add(i)); i += 1; } }
        d.sample(&mut s).put(out.add(i)); i += 1;
        i }); };
    // An endless sequence claims no upper bound of its length.
    (indep_hint, $n:ident, $d:expr, ($($a:ident: $t:ty),*)) => { f!($n($($a: $t,)* out: *mut f64, k: usize) -> usize = {
        let mut s = Src(0);
        let d = $d;
        let mut it = Independent(&d, &mut s);
        let mut i = 0;
        while i < k { match it.next() { Some(v) => v.put(out), None => break } i += 1; }
        it.size_hint().1.is_none() as usize }); };
}

include!("gen.rs");

// Categorical: the weights come from memory.
macro_rules! cat {
    ($($n:ident => $k:ident),*) => { $( one!($k, $n, Categorical::new(core::slice::from_raw_parts(p, k)), (p: *const f64, k: usize)); )* };
}
cat!(categorical__distribution => distribution, categorical__mass => mass,
     categorical__entropy => entropy, categorical__inverse => inverse_d, categorical__kurtosis => kurtosis,
     categorical__skewness => skewness, categorical__mean => mean, categorical__median => median,
     categorical__variance => variance, categorical__deviation => deviation, categorical__modes => modes,
     categorical__sample => sample);
macro_rules! cat2 {
    ($($n:ident => $k:ident),*) => { $( one2!($k, $n); )* };
}
macro_rules! one2 {
    (indep, $n:ident) => { f!($n(p: *const f64, len: usize, out: *mut f64, k: usize) -> usize = {
        let mut s = Src(0);
        let d = Categorical::new(core::slice::from_raw_parts(p, len));
        let mut it = Independent(&d, &mut s);
        let mut i = 0;
        while i < k { match it.next() { Some(v) => v.put(out.add(i)), None => break } i += 1; }
        i }); };
}
cat2!(categorical__indep => indep);
f!(categorical__k(p: *const f64, k: usize) -> usize = Categorical::new(core::slice::from_raw_parts(p, k)).k());
f!(categorical__p(p: *const f64, k: usize, out: *mut f64) -> usize = {
    let d = Categorical::new(core::slice::from_raw_parts(p, k));
    put_modes(d.p(), out)
});

// Gaussian estimated from samples.
f!(gaussian_iter__mu(p: *const f64, k: usize) -> f64 =
    core::slice::from_raw_parts(p, k).iter().copied().collect::<Gaussian>().mu());
f!(gaussian_iter__sigma(p: *const f64, k: usize) -> f64 =
    core::slice::from_raw_parts(p, k).iter().copied().collect::<Gaussian>().sigma());
f!(gaussian_iter__density(p: *const f64, k: usize, x: f64) -> f64 =
    core::slice::from_raw_parts(p, k).iter().copied().collect::<Gaussian>().density(x));
f!(gaussian_iter__distribution(p: *const f64, k: usize, x: f64) -> f64 =
    core::slice::from_raw_parts(p, k).iter().copied().collect::<Gaussian>().distribution(x));

// The mathematical library, for folding concrete calls exactly as the library does.
f!(vp_exp(x: f64) -> f64 = libm::exp(x));
f!(vp_log(x: f64) -> f64 = libm::log(x));
f!(vp_log1p(x: f64) -> f64 = libm::log1p(x));
f!(vp_expm1(x: f64) -> f64 = libm::expm1(x));
f!(vp_pow(x: f64, y: f64) -> f64 = libm::pow(x, y));
f!(vp_sqrt(x: f64) -> f64 = libm::sqrt(x));
f!(vp_floor(x: f64) -> f64 = libm::floor(x));
f!(vp_ceil(x: f64) -> f64 = libm::ceil(x));
f!(vp_trunc(x: f64) -> f64 = libm::trunc(x));
f!(vp_round(x: f64) -> f64 = libm::round(x));
f!(vp_erf(x: f64) -> f64 = libm::erf(x));
f!(vp_erfc(x: f64) -> f64 = libm::erfc(x));
f!(vp_tgamma(x: f64) -> f64 = libm::tgamma(x));
f!(vp_lgamma(x: f64) -> f64 = libm::lgamma_r(x).0);
f!(vp_atan(x: f64) -> f64 = libm::atan(x));
f!(vp_tan(x: f64) -> f64 = libm::tan(x));
f!(vp_sin(x: f64) -> f64 = libm::sin(x));
f!(vp_cos(x: f64) -> f64 = libm::cos(x));
f!(vp_tanh(x: f64) -> f64 = libm::tanh(x));
f!(vp_sinh(x: f64) -> f64 = libm::sinh(x));
f!(vp_cosh(x: f64) -> f64 = libm::cosh(x));
f!(vp_digamma(x: f64) -> f64 = special::Gamma::digamma(x));
f!(vp_inc_gamma(x: f64, k: f64) -> f64 = special::Gamma::inc_gamma(x, k));
f!(vp_inc_beta(x: f64, p: f64, q: f64, l: f64) -> f64 = special::Beta::inc_beta(x, p, q, l));
f!(vp_inv_inc_beta(x: f64, p: f64, q: f64, l: f64) -> f64 = special::Beta::inv_inc_beta(x, p, q, l));
f!(vp_ln_beta(x: f64, y: f64) -> f64 = special::Beta::ln_beta(x, y));
