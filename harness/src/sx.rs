//! The interface between a harness and the symbolic executor (or, natively, the replay runner).
#![allow(dead_code)]
mod raw {
    extern "C" {
        pub fn sx_bytes(p: *mut u8, n: usize);
        pub fn sx_u64() -> u64;
        pub fn sx_u32() -> u32;
        pub fn sx_choose(n: u64) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_assert(c: bool, p: *const u8, n: usize);
        pub fn sx_reach(id: u64);
        pub fn sx_log(p: *const u8, n: usize);
        pub fn sx_concrete(x: u64) -> bool;
        pub fn sx_fix(x: u64) -> u64;
        pub fn sx_eq(p: *const u8, q: *const u8, n: usize) -> bool;
        pub fn sx_select(c: bool, a: u64, b: u64) -> u64;
        pub fn sx_param(p: *const u8, n: usize) -> i64;
        pub fn sx_dbg(x: u64);
    }
}
use raw::*;
/// n arbitrary bytes
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; if n > 0 { unsafe { sx_bytes(v.as_mut_ptr(), n) } } v }
pub fn u8() -> u8 { let mut b = [0u8; 1]; unsafe { sx_bytes(b.as_mut_ptr(), 1) }; b[0] }
pub fn u16() -> u16 { let mut b = [0u8; 2]; unsafe { sx_bytes(b.as_mut_ptr(), 2) }; u16::from_le_bytes(b) }
pub fn u32() -> u32 { unsafe { sx_u32() } }
pub fn u64() -> u64 { unsafe { sx_u64() } }
/// an arbitrary number below n; the executor explores each of them as a separate path
pub fn choose(n: usize) -> usize { if n <= 1 { 0 } else { unsafe { sx_choose(n as u64) as usize } } }
pub fn pick<T: Copy>(v: &[T]) -> T { v[choose(v.len())] }
pub fn assume(c: bool) { unsafe { sx_assume(c) } }
pub fn check(c: bool, msg: &str) { unsafe { sx_assert(c, msg.as_ptr(), msg.len()) } }
pub fn reach(id: u64) { unsafe { sx_reach(id) } }
pub fn log(b: &[u8]) { unsafe { sx_log(b.as_ptr(), b.len()) } }
pub fn concrete(x: u64) -> bool { unsafe { sx_concrete(x) } }
pub fn fix(x: u64) -> u64 { unsafe { sx_fix(x) } }
/// byte-wise equality that does not split the path
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && (a.is_empty() || unsafe { sx_eq(a.as_ptr(), b.as_ptr(), a.len()) }) }
pub fn select(c: bool, a: u64, b: u64) -> u64 { unsafe { sx_select(c, a, b) } }
pub fn param(n: &str) -> i64 { unsafe { sx_param(n.as_ptr(), n.len()) } }
pub fn dbg(x: u64) { unsafe { sx_dbg(x) } }
