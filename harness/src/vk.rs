//! Interface between the property harnesses and whoever runs them.
//!
//! The symbolic executor intercepts the `__vk_*` calls; the native replay
//! binary implements them by reading recorded values from a file.

extern "C" {
    fn __vk_bytes(p: *mut u8, n: usize);
    fn __vk_int(w: u32, lo: u64, hi: u64) -> u64;
    fn __vk_fork(n: u64) -> u64;
    fn __vk_conc(x: u64) -> u64;
    fn __vk_same(x: u64) -> u64;
    fn __vk_copy(d: *mut u8, s: *const u8, n: usize);
    fn __vk_assume(b: bool);
    fn __vk_check(b: bool, p: *const u8, n: usize);
    fn __vk_cover(p: *const u8, n: usize);
    fn __vk_covers(p: *const u8, n: usize);
    fn __vk_observe(x: u64);
    fn __vk_tier() -> u64;
    fn __vk_param(i: u64, default: u64) -> u64;
}

/// Any contents.
pub fn fill(b: &mut [u8]) { unsafe { __vk_bytes(b.as_mut_ptr(), b.len()) } }

/// A byte string of the given length with any contents.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    fill(&mut v);
    v
}

pub fn array<const N: usize>() -> [u8; N] {
    let mut v = [0; N];
    fill(&mut v);
    v
}

/// The same bytes twice. The compiler cannot see that both are equal, so it
/// cannot decide a comparison of library and oracle ahead of the solver.
pub fn twin<const N: usize>() -> ([u8; N], [u8; N]) {
    let a = array();
    let mut b = [0; N];
    unsafe { __vk_copy(b.as_mut_ptr(), a.as_ptr(), N) }
    (a, b)
}

pub fn twin_bytes(n: usize) -> (Vec<u8>, Vec<u8>) {
    let a = bytes(n);
    let b = copy(&a);
    (a, b)
}

/// An equal byte string, hidden from the compiler.
pub fn copy(a: &[u8]) -> Vec<u8> {
    let mut b = vec![0; a.len()];
    unsafe { __vk_copy(b.as_mut_ptr(), a.as_ptr(), a.len()) }
    b
}

/// The same number, hidden from the compiler.
pub fn same(x: u64) -> u64 { unsafe { __vk_same(x) } }

/// Any integer in lo..=hi.
pub fn range(lo: u64, hi: u64) -> u64 {
    let w = 64 - hi.leading_zeros();
    unsafe { __vk_int(if w == 0 { 1 } else { w }, lo, hi) }
}

pub fn u8() -> u8 { range(0, 0xff) as u8 }
pub fn u16() -> u16 { range(0, 0xffff) as u16 }
pub fn u24() -> u32 { range(0, 0xff_ffff) as u32 }
pub fn u32() -> u32 { range(0, 0xffff_ffff) as u32 }
pub fn u64() -> u64 { range(0, u64::MAX) }

/// Any number of `n` bits.
pub fn bits(n: u32) -> u64 { range(0, if n == 64 { u64::MAX } else { (1u64 << n) - 1 }) }

/// A choice 0..n, each explored on its own.
pub fn fork(n: usize) -> usize { unsafe { __vk_fork(n as u64) as usize } }

/// A choice lo..=hi, each explored on its own.
pub fn pick(lo: usize, hi: usize) -> usize { lo + fork(hi - lo + 1) }

/// A choice among listed values, each explored on its own.
pub fn one_of<T: Copy>(v: &[T]) -> T { v[fork(v.len())] }

/// The same value, split into one path per possible value.
pub fn conc(x: u64) -> u64 { unsafe { __vk_conc(x) } }

pub fn assume(b: bool) { unsafe { __vk_assume(b) } }

/// The property: must hold on every path.
pub fn check(b: bool, label: &str) { unsafe { __vk_check(b, label.as_ptr(), label.len()) } }

/// Vacuity witness: some path must get here.
pub fn cover(label: &str) { unsafe { __vk_cover(label.as_ptr(), label.len()) } }

/// The witnesses this harness must reach, comma separated.
pub fn covers(labels: &str) { unsafe { __vk_covers(labels.as_ptr(), labels.len()) } }

/// A result compared between the symbolic run and the native one.
pub fn observe(x: u64) { unsafe { __vk_observe(x) } }

pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b { observe(*x as u64); }
}

/// 0 quick, 1 thorough.
pub fn tier() -> u64 { unsafe { __vk_tier() } }

/// Quick or thorough value of a bound.
pub fn bound(quick: usize, thorough: usize) -> usize { if tier() == 0 { quick } else { thorough } }

/// Harness parameter set by the driver.
pub fn param(i: u64, default: u64) -> u64 { unsafe { __vk_param(i, default) } }
