//! Harness primitives, supplied by the symbolic executor or by the native replayer.
#![allow(dead_code)]
mod raw {
    extern "C" {
        pub fn sx_bytes(p: *mut u8, n: usize);
        pub fn sx_u8() -> u8;
        pub fn sx_u16() -> u16;
        pub fn sx_u32() -> u32;
        pub fn sx_u64() -> u64;
        pub fn sx_range(lo: u64, hi: u64) -> u64;
        pub fn sx_choice(n: u64) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_assert(c: bool, p: *const u8, n: usize);
        pub fn sx_cover(p: *const u8, n: usize);
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_param(i: u64, d: u64) -> u64;
        pub fn sx_dbg(p: *const u8, n: usize);
        pub fn sx_fail(p: *const u8, n: usize);
    }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { raw::sx_bytes(b.as_mut_ptr(), N) };
    b
}
/// `n` symbolic bytes on the heap (n concrete)
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    if n > 0 {
        unsafe { raw::sx_bytes(b.as_mut_ptr(), n) };
    }
    b
}
pub fn u8() -> u8 {
    unsafe { raw::sx_u8() }
}
pub fn u16() -> u16 {
    unsafe { raw::sx_u16() }
}
pub fn u32() -> u32 {
    unsafe { raw::sx_u32() }
}
pub fn u64() -> u64 {
    unsafe { raw::sx_u64() }
}
/// symbolic value in lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    // counted from zero, so that disjoint ranges are told apart without the solver
    lo + unsafe { raw::sx_range(0, hi - lo) }
}
/// a case split: every value in 0..n is explored
pub fn choice(n: u64) -> u64 {
    unsafe { raw::sx_choice(n) }
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choice(v.len() as u64) as usize]
}
pub fn flag() -> bool {
    choice(2) == 1
}
pub fn assume(c: bool) {
    unsafe { raw::sx_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    unsafe { raw::sx_assert(c, m.as_ptr(), m.len()) }
}
pub fn fail(m: &'static str) {
    unsafe { raw::sx_fail(m.as_ptr(), m.len()) }
}
/// vacuity witness: at least one explored path must reach this point
pub fn cover(m: &'static str) {
    unsafe { raw::sx_cover(m.as_ptr(), m.len()) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::sx_concretize(v) }
}
/// a bound of the harness, set per tier by the driver (`--param i=v`)
pub fn param(i: u64, default: u64) -> u64 {
    unsafe { raw::sx_param(i, default) }
}
pub fn dbg(m: &str) {
    unsafe { raw::sx_dbg(m.as_ptr(), m.len()) }
}
/// symbolic boolean (decided by the solver at the branch that uses it)
pub fn bool() -> bool {
    range(0, 1) == 1
}
/// symbolic ASCII string of exactly n bytes drawn from `alphabet`
pub fn ascii(n: usize, alphabet: &[u8]) -> String {
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(alphabet[range(0, alphabet.len() as u64 - 1) as usize]);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
