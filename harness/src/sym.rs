//! Interface to the symbolic executor. Under the engine these are intrinsics; natively (src/bin/replay.rs) they
//! read concrete values from a replay file.
mod ffi {
    extern "C-unwind" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_bool() -> bool;
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_choice(n: u32) -> u32;
        pub fn sym_concretize(x: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, id: u32);
        pub fn sym_cover(id: u32);
        pub fn sym_observe(x: u64);
        pub fn sym_step_limit(n: u64);
    }
}

/// arbitrary values
pub fn u8s() -> u8 {
    unsafe { ffi::sym_u8() }
}
pub fn u16s() -> u16 {
    unsafe { ffi::sym_u16() }
}
pub fn u32s() -> u32 {
    unsafe { ffi::sym_u32() }
}
pub fn u64s() -> u64 {
    unsafe { ffi::sym_u64() }
}
pub fn bools() -> bool {
    unsafe { ffi::sym_bool() }
}
/// n arbitrary bytes (n concrete)
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { ffi::sym_bytes(v.as_mut_ptr(), n) }
    }
    v
}
/// explores every value of 0..n as a separate path
pub fn choice(n: u32) -> u32 {
    unsafe { ffi::sym_choice(n) }
}
/// lo..=hi
pub fn range(lo: u32, hi: u32) -> u32 {
    lo + choice(hi - lo + 1)
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choice(xs.len() as u32) as usize]
}
/// splits into one path per possible value
pub fn concretize(x: u64) -> u64 {
    unsafe { ffi::sym_concretize(x) }
}
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { ffi::sym_check(c, id) }
}
pub fn cover(id: u32) {
    unsafe { ffi::sym_cover(id) }
}
/// a value of this path, compared between the symbolic and the native run
pub fn observe(x: u64) {
    unsafe { ffi::sym_observe(x) }
}
pub fn step_limit(n: u64) {
    unsafe { ffi::sym_step_limit(n) }
}

pub const fn file_no(f: &str) -> u32 {
    let b = f.as_bytes();
    // the two letters that start the file name
    let mut i = b.len();
    while i > 0 && b[i - 1] != b'/' {
        i -= 1;
    }
    match (b[i], b[i + 1]) {
        (b'c', b'o') => 1, // codec.rs
        (b'e', b'n') => 2, // encode.rs
        (b'i', b'd') => 3, // ids.rs
        (b'e', b'v') => 4, // evloop.rs
        (b'r', b'e') => 5, // refm.rs
        (b's', b'e') => 6, // session.rs
        (b's', b'c') => 7, // sched.rs
        _ => 9,
    }
}
#[macro_export]
macro_rules! ck {
    ($c:expr) => {
        $crate::sym::check($c, $crate::sym::file_no(file!()) * 10000 + line!())
    };
}
#[macro_export]
macro_rules! cover {
    () => {
        $crate::sym::cover($crate::sym::file_no(file!()) * 10000 + line!())
    };
}

/// symbolic-friendly equality: one condition instead of a branch per byte
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
