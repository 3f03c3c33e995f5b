//! Interface to the symbolic executor (or to the replay runtime, which feeds
//! recorded values instead).
mod raw {
    extern "C" {
        pub fn sx_var(hi: u64) -> u64;
        pub fn sx_concrete(v: u64) -> u64;
        pub fn sx_assume(c: u64);
        pub fn sx_assert(c: u64, code: u64);
        pub fn sx_cover(code: u64);
        pub fn sx_observe(v: u64);
        pub fn sx_refuse(code: u64);
    }
}
/// A fresh symbolic value in 0..=hi.
pub fn var(hi: u64) -> u64 {
    if hi == 0 {
        return 0;
    }
    unsafe { raw::sx_var(hi) }
}
pub fn upto(hi: usize) -> usize {
    var(hi as u64) as usize
}
pub fn range(lo: usize, hi: usize) -> usize {
    lo + var((hi - lo) as u64) as usize
}
pub fn flag() -> bool {
    var(1) != 0
}
pub fn tok(hi: u8) -> u8 {
    var(hi as u64) as u8
}
pub fn concrete(v: usize) -> usize {
    unsafe { raw::sx_concrete(v as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { raw::sx_assume(c as u64) }
}
pub fn assert_code(c: bool, code: u64) {
    unsafe { raw::sx_assert(c as u64, code) }
}
pub fn cover_code(code: u64) {
    unsafe { raw::sx_cover(code) }
}
pub fn refuse_code(code: u64) {
    unsafe { raw::sx_refuse(code) }
}
pub fn observe(v: u64) {
    unsafe { raw::sx_observe(v) }
}
/// Assertion: the condition must hold for every value of the symbolic inputs
/// that reaches it.
#[macro_export]
macro_rules! check {
    ($c:expr $(,)?) => {
        $crate::sx::assert_code($c, line!() as u64)
    };
}
/// Reachability witness: the check is only believed if some path gets here.
#[macro_export]
macro_rules! cover {
    () => {
        $crate::sx::cover_code(line!() as u64)
    };
}
/// What follows must be refused: the path has to end in a panic.
#[macro_export]
macro_rules! refused {
    () => {
        $crate::sx::refuse_code(line!() as u64)
    };
}
