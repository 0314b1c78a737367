//! Interface between the harnesses and the symbolic executor (`/verif/engine`).
//!
//! Default build: the functions below are externs which the executor interprets.
//! Feature `native`: the same harnesses run as ordinary machine code against concrete inputs read
//! from a replay file; this is how models are replayed and how the translator is validated.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn __sym_input(p: *mut u8, n: usize, kind: usize, name: *const u8, nl: usize);
        fn __sym_assume(b: bool);
        fn __sym_check(b: bool, name: *const u8, nl: usize);
        fn __sym_reach(name: *const u8, nl: usize);
        fn __sym_expect(name: *const u8, nl: usize);
        fn __sym_observe(v: u64, name: *const u8, nl: usize);
        fn __sym_concretize(v: u64) -> u64;
        fn __sym_param(i: usize) -> u64;
        fn __sym_allow_panic(b: bool);
        fn __sym_end();
        fn __sym_uf(name: *const u8, nl: usize, i: *const u8, n: usize, o: *mut u8, m: usize);
        fn __sym_muldiv(a: *const u8, b: *const u8, c: *const u8, r: usize, o: *mut u8) -> bool;
        fn __sym_u256(op: usize, a: *const u8, b: *const u8, o: *mut u8) -> bool;
    }
    pub fn input(b: &mut [u8], kind: usize, name: &str) {
        unsafe { __sym_input(b.as_mut_ptr(), b.len(), kind, name.as_ptr(), name.len()) }
    }
    #[inline(always)]
    pub fn assume(b: bool) {
        unsafe { __sym_assume(b) }
    }
    #[inline(always)]
    pub fn check(b: bool, name: &str) {
        unsafe { __sym_check(b, name.as_ptr(), name.len()) }
    }
    pub fn reach(name: &str) {
        unsafe { __sym_reach(name.as_ptr(), name.len()) }
    }
    pub fn expect(name: &str) {
        unsafe { __sym_expect(name.as_ptr(), name.len()) }
    }
    pub fn observe(v: u64, name: &str) {
        unsafe { __sym_observe(v, name.as_ptr(), name.len()) }
    }
    pub fn concretize(v: u64) -> u64 {
        unsafe { __sym_concretize(v) }
    }
    pub fn param(i: usize) -> u64 {
        unsafe { __sym_param(i) }
    }
    pub fn allow_panic(b: bool) {
        unsafe { __sym_allow_panic(b) }
    }
    pub fn end() {
        unsafe { __sym_end() }
    }
    pub fn uf(name: &str, i: &[u8], o: &mut [u8]) {
        unsafe { __sym_uf(name.as_ptr(), name.len(), i.as_ptr(), i.len(), o.as_mut_ptr(), o.len()) }
    }
    /// a*b/c with rounding; false when c = 0 or the result does not fit
    pub fn muldiv(a: u128, b: u128, c: u128, r: usize) -> Option<u128> {
        let (a, b, c) = (a.to_le_bytes(), b.to_le_bytes(), c.to_le_bytes());
        let mut o = [0u8; 16];
        if unsafe { __sym_muldiv(a.as_ptr(), b.as_ptr(), c.as_ptr(), r, o.as_mut_ptr()) } {
            Some(u128::from_le_bytes(o))
        } else {
            None
        }
    }
    pub fn u256(op: usize, a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
        let mut o = [0u64; 4];
        let f = unsafe { __sym_u256(op, a.as_ptr() as *const u8, b.as_ptr() as *const u8, o.as_mut_ptr() as *mut u8) };
        (o, f)
    }
}

#[cfg(feature = "native")]
#[path = "native.rs"]
mod imp;
#[cfg(feature = "native")]
pub use imp::{real_sha256, run_native};

pub use imp::{allow_panic, assume, check, concretize, end, expect, input, muldiv, observe, param, reach, u256, uf};

/// N independent symbolic bytes.
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut o = [0u8; N];
    input(&mut o, 0, name);
    o
}
/// A vector of n independent symbolic bytes (n concrete).
pub fn byte_vec(name: &str, n: usize) -> Vec<u8> {
    let mut o = vec![0u8; n];
    input(&mut o, 0, name);
    o
}
macro_rules! ints {
    ($($f:ident $t:ty),*) => { $(
        pub fn $f(name: &str) -> $t {
            let mut o = [0u8; core::mem::size_of::<$t>()];
            input(&mut o, 1, name);
            <$t>::from_le_bytes(o)
        }
    )* };
}
ints!(u8 u8, u16 u16, u32 u32, u64 u64, u128 u128, i32 i32, i64 i64, i128 i128);
pub fn boolean(name: &str) -> bool {
    let v = u8(name);
    assume(v < 2);
    v == 1
}
/// An integer in lo..=hi, then made concrete (one path per value).
pub fn pick(name: &str, lo: u64, hi: u64) -> u64 {
    let v = u64(name);
    assume(v >= lo && v <= hi);
    concretize(v)
}
/// A 256-bit little-endian value as four limbs.
pub fn limbs(name: &str) -> [u64; 4] {
    let mut b = [0u8; 32];
    input(&mut b, 1, name);
    let mut o = [0u64; 4];
    for i in 0..4 {
        let mut x = [0u8; 8];
        x.copy_from_slice(&b[8 * i..8 * i + 8]);
        o[i] = u64::from_le_bytes(x);
    }
    o
}
/// The point is reached with the named tag; a harness in which it is unreachable is vacuous.
#[macro_export]
macro_rules! covered {
    ($n:expr) => {
        $crate::reach($n)
    };
}
pub fn sha256(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    uf("sha256", b, &mut o);
    o
}
pub fn ec_mul(k: &[u8; 33], t: &[u8; 32]) -> [u8; 33] {
    let mut i = [0u8; 65];
    i[..33].copy_from_slice(k);
    i[33..].copy_from_slice(t);
    let mut o = [0u8; 33];
    uf("ec_mul", &i, &mut o);
    o
}

/// Declares harness entry points and the table the native replayer looks them up in.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $n() $b )*
        #[cfg(feature = "native")]
        pub static TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($n), $n) ),* ];
    };
}

/// True when the code runs under the symbolic executor.
#[cfg(not(feature = "native"))]
pub const ENGINE: bool = true;
#[cfg(feature = "native")]
pub const ENGINE: bool = false;
/// An integer of n bytes, as u128 (the executor knows its range from its width).
pub fn uint(name: &str, n: usize) -> u128 {
    let mut o = [0u8; 16];
    input(&mut o[..n], 1, name);
    u128::from_le_bytes(o)
}
