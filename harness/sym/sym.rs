//! Symbolic-input API (see sym.c for the native implementation used in replays).
#![allow(dead_code)]
extern "C" {
    fn __sym_u64(n: *const u8, l: usize, bits: u32) -> u64;
    fn __sym_oracle(k: *const u8, kl: usize, a: *const u8, al: usize, b: *const u8, bl: usize);
    fn __sym_reach(k: *const u8, kl: usize);
    fn __sym_fail(k: *const u8, kl: usize);
    fn __sym_assume(c: u32);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_is_symbolic() -> u32;
    fn __sym_note(k: *const u8, kl: usize, m: *const u8, l: usize);
}
pub fn reach(s: &str) { unsafe { __sym_reach(s.as_ptr(), s.len()) } }
pub fn sym(n: &str, bits: u32) -> u64 { unsafe { __sym_u64(n.as_ptr(), n.len(), bits) } }
pub fn symb(n: &str) -> u8 { sym(n, 8) as u8 }
pub fn assume(c: bool) { unsafe { __sym_assume(c as u32) } }
pub fn conc(v: u64) -> u64 { unsafe { __sym_concretize(v) } }
pub fn fail(m: &str) -> ! { unsafe { __sym_fail(m.as_ptr(), m.len()) } loop {} }
pub fn check(c: bool, m: &str) { if !c { fail(m) } }
pub fn is_symbolic() -> bool { unsafe { __sym_is_symbolic() != 0 } }
pub fn note(k: &str, v: &str) { unsafe { __sym_note(k.as_ptr(), k.len(), v.as_ptr(), v.len()) } }
pub fn oracle(k: &str, a: &str, b: &str) { unsafe { __sym_oracle(k.as_ptr(), k.len(), a.as_ptr(), a.len(), b.as_ptr(), b.len()) } }
/// a symbolic value below `n`, one path per value
pub fn below(name: &str, n: u64) -> u64 {
    if n <= 1 { return 0 }
    let bits = 64 - (n - 1).leading_zeros();
    let v = sym(name, bits);
    assume(v < n);
    conc(v)
}
pub fn flag(name: &str) -> bool { below(name, 2) == 1 }
pub fn pick<'a>(name: &str, alts: &[&'a str]) -> &'a str { alts[below(name, alts.len() as u64) as usize] }
