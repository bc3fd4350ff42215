//! Interface between the harnesses and the symbolic executor. Natively the same functions are
//! provided by rt/rt.c, which replays one recorded input.
#![allow(clippy::missing_safety_doc)]

pub mod pngf;
pub mod px;

extern "C" {
    fn rsym_bytes(p: *mut u8, n: usize);
    fn rsym_assume(b: bool);
    fn rsym_assert(b: bool, id: u32);
    fn rsym_param(i: u32) -> u64;
    fn rsym_concretize(x: u64) -> u64;
    fn rsym_expect_panic(b: bool);
    fn rsym_reach(id: u32);
    fn rsym_observe(p: *const u8, n: usize);
    fn rsym_alloc_peak() -> u64;
    fn rsym_alloc_mark();
    fn rsym_merge(mode: u32);
    fn rsym_fail(id: u32);
}

/// Fill with unconstrained input.
pub fn fill(b: &mut [u8]) {
    unsafe { rsym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
pub fn u8s(n: usize) -> Vec<u8> {
    vec(n)
}
pub fn u16s(n: usize) -> Vec<u16> {
    vec(2 * n).chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
}
pub fn f32s(n: usize) -> Vec<f32> {
    vec(4 * n).chunks_exact(4).map(|c| f32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
pub fn any_u8() -> u8 {
    bytes::<1>()[0]
}
pub fn any_bool() -> bool {
    let b = any_u8();
    assume(b < 2);
    b == 1
}
pub fn any_u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn any_u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn any_i32() -> i32 {
    i32::from_le_bytes(bytes())
}
pub fn any_u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn any_i64() -> i64 {
    i64::from_le_bytes(bytes())
}
pub fn any_usize() -> usize {
    any_u64() as usize
}
pub fn any_f32() -> f32 {
    f32::from_le_bytes(bytes())
}
/// A value in lo..=hi.
pub fn in_range(lo: u32, hi: u32) -> u32 {
    let x = any_u32();
    assume(x >= lo && x <= hi);
    x
}
/// A value in lo..=hi taken from one input byte.
pub fn small(lo: u8, hi: u8) -> u32 {
    let x = any_u8();
    assume(x >= lo && x <= hi);
    x as u32
}
/// A value in lo..=hi, one path per value.
pub fn each(lo: u8, hi: u8) -> u32 {
    conc(small(lo, hi) as u64) as u32
}
pub fn assume(b: bool) {
    unsafe { rsym_assume(b) }
}
pub fn check_at(b: bool, line: u32) {
    unsafe { rsym_assert(b, line) }
}
pub fn fail_at(line: u32) {
    unsafe { rsym_fail(line) }
}
pub fn param(i: u32) -> usize {
    unsafe { rsym_param(i) as usize }
}
pub fn conc(x: u64) -> u64 {
    unsafe { rsym_concretize(x) }
}
pub fn expect_panic(b: bool) {
    unsafe { rsym_expect_panic(b) }
}
pub fn reach(id: u32) {
    unsafe { rsym_reach(id) }
}
pub fn observe(b: &[u8]) {
    unsafe { rsym_observe(b.as_ptr(), b.len()) }
}
pub fn alloc_peak() -> u64 {
    unsafe { rsym_alloc_peak() }
}
pub fn alloc_mark() {
    unsafe { rsym_alloc_mark() }
}
pub fn merge(mode: u32) {
    unsafe { rsym_merge(mode) }
}

/// Decided for every input of the path.
#[macro_export]
macro_rules! ck {
    ($c:expr) => {
        $crate::check_at($c, line!())
    };
}
#[macro_export]
macro_rules! ckfail {
    () => {
        $crate::fail_at(line!())
    };
}
/// Byte slices equal (one condition per slice).
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr) => {{
        let (a, b): (&[_], &[_]) = (&$a[..], &$b[..]);
        $crate::check_at(a.len() == b.len(), line!());
        for i in 0..a.len() {
            $crate::check_at(a[i] == b[i], line!());
        }
    }};
}
/// Run a block that is required to panic.
#[macro_export]
macro_rules! ckpanics {
    ($b:block) => {{
        $crate::expect_panic(true);
        $b;
        $crate::expect_panic(false);
        $crate::fail_at(line!());
    }};
}
/// `main` for native replay: argv[1] names the harness.
#[macro_export]
macro_rules! harnesses {
    ($($f:ident),* $(,)?) => {
        fn main() {
            let n = std::env::args().nth(1).unwrap_or_default();
            let known = [$((stringify!($f), $f as extern "C" fn())),*];
            for (k, f) in known {
                if n == k {
                    f();
                    return;
                }
            }
            eprintln!("no such harness");
            std::process::exit(99);
        }
    };
}
