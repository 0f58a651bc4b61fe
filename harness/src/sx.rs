//! Intrinsics.  Under symbolic execution they are externs interpreted by symx; in native builds
//! they are defined by `native.rs`, which reads the inputs from a file.
extern "C-unwind" {
    fn symx_bytes(p: *mut u8, n: usize);
    fn symx_param(i: usize) -> u64;
    fn symx_param_bytes(i: usize, p: *mut u8, n: usize) -> usize;
    fn symx_assume(c: bool);
    fn symx_check(c: bool, id: u32);
    fn symx_reach(id: u32);
    fn symx_observe(v: u64);
    fn symx_pick(n: usize) -> usize;
    fn symx_memory() -> u64;
    fn symx_work(n: u64, id: u32);
}

/// Fill `b` with unconstrained symbolic bytes.
#[inline(never)]
pub fn bytes(b: &mut [u8]) {
    unsafe { symx_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(&mut v);
    v
}
pub fn u8() -> u8 {
    let mut b = [0u8; 1];
    bytes(&mut b);
    b[0]
}
pub fn u16() -> u16 {
    let mut b = [0u8; 2];
    bytes(&mut b);
    u16::from_le_bytes(b)
}
pub fn u32() -> u32 {
    let mut b = [0u8; 4];
    bytes(&mut b);
    u32::from_le_bytes(b)
}
pub fn u64() -> u64 {
    let mut b = [0u8; 8];
    bytes(&mut b);
    u64::from_le_bytes(b)
}
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
/// The i-th concrete parameter of the task.
pub fn param(i: usize) -> usize {
    unsafe { symx_param(i) as usize }
}
pub fn param_bytes(i: usize) -> Vec<u8> {
    let mut b = vec![0u8; 4096];
    let n = unsafe { symx_param_bytes(i, b.as_mut_ptr(), b.len()) };
    b.truncate(n);
    b
}
pub fn assume(c: bool) {
    unsafe { symx_assume(c) }
}
/// The assertion `id` must hold for every value of the symbolic inputs.
pub fn check(c: bool, id: u32) {
    unsafe { symx_check(c, id) }
}
/// Cover point: some path must reach it (vacuity check).
pub fn reach(id: u32) {
    unsafe { symx_reach(id) }
}
/// Value compared between the symbolic run and a native run on a model of the path.
pub fn observe(v: u64) {
    unsafe { symx_observe(v) }
}
/// Bytes requested from the allocator so far (in total: what was freed counts too).
pub fn memory() -> u64 {
    unsafe { symx_memory() }
}
/// From here on, and until the next call, at most n instructions may be executed; 0: any number.
pub fn work(n: u64, id: u32) {
    unsafe { symx_work(n, id) }
}
/// Nondeterministic choice of 0..n, followed for every value.
pub fn pick(n: usize) -> usize {
    unsafe { symx_pick(n) }
}

/// Assume that every byte is ASCII.
#[inline(never)]
pub fn ascii(s: &[u8]) {
    for c in s {
        assume(*c < 128);
    }
}

/// The i-th parameter as a template: pairs of hexadecimal digits, ".." for a symbolic byte.
pub fn template(i: usize) -> Vec<u8> {
    let t = param_bytes(i);
    let d = |c: u8| if c < b'a' { c - b'0' } else { c - b'a' + 10 };
    let mut v = Vec::new();
    let mut k = 0;
    while k < t.len() {
        v.push(if t[k] == b'.' { u8() } else { d(t[k]) << 4 | d(t[k + 1]) });
        k += 2;
    }
    v
}
