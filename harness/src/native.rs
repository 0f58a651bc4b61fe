//! Native implementation of the intrinsics, for replaying models against the real build.
use std::cell::RefCell;

#[derive(Default)]
pub struct Ctx {
    pub input: Vec<u8>,
    pub picks: Vec<usize>,
    pub params: Vec<String>,
    pub pos: usize,
    pub ppos: usize,
    pub observed: Vec<u64>,
    pub reached: Vec<u32>,
    pub failed: Vec<u32>,
    pub assume_failed: bool,
    pub underflow: bool,
}
thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}
pub struct Stop;

#[no_mangle]
pub extern "C-unwind" fn symx_bytes(p: *mut u8, n: usize) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        for i in 0..n {
            let pos = c.pos;
            let b = match c.input.get(pos) {
                Some(b) => *b,
                None => {
                    c.underflow = true;
                    0
                }
            };
            c.pos += 1;
            unsafe { *p.add(i) = b };
        }
    })
}
#[no_mangle]
pub extern "C-unwind" fn symx_param(i: usize) -> u64 {
    CTX.with(|c| c.borrow().params[i].parse().expect("numeric parameter"))
}
#[no_mangle]
pub extern "C-unwind" fn symx_param_bytes(i: usize, p: *mut u8, n: usize) -> usize {
    CTX.with(|c| {
        let c = c.borrow();
        let b = c.params[i].as_bytes();
        assert!(b.len() <= n);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
        b.len()
    })
}
#[no_mangle]
pub extern "C-unwind" fn symx_assume(c: bool) {
    if !c {
        CTX.with(|x| x.borrow_mut().assume_failed = true);
        std::panic::resume_unwind(Box::new(Stop));
    }
}
#[no_mangle]
pub extern "C-unwind" fn symx_check(c: bool, id: u32) {
    if !c {
        CTX.with(|x| x.borrow_mut().failed.push(id));
        std::panic::resume_unwind(Box::new(Stop));
    }
}
#[no_mangle]
pub extern "C-unwind" fn symx_reach(id: u32) {
    // each cover point counts once per path
    CTX.with(|x| {
        let mut x = x.borrow_mut();
        if !x.reached.contains(&id) {
            x.reached.push(id)
        }
    });
}
#[no_mangle]
pub extern "C-unwind" fn symx_observe(v: u64) {
    CTX.with(|x| x.borrow_mut().observed.push(v));
}
#[no_mangle]
pub extern "C-unwind" fn symx_pick(n: usize) -> usize {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let p = c.ppos;
        c.ppos += 1;
        match c.picks.get(p) {
            Some(v) => {
                assert!(*v < n);
                *v
            }
            None => {
                c.underflow = true;
                0
            }
        }
    })
}

/// Counts the bytes requested.
struct Counting;
static REQUESTED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn count(n: usize) {
    REQUESTED.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
#[no_mangle]
pub extern "C-unwind" fn symx_memory() -> u64 {
    REQUESTED.load(std::sync::atomic::Ordering::Relaxed)
}
/// What a native run executes is counted from outside, under valgrind.
#[no_mangle]
pub extern "C-unwind" fn symx_work(_: u64, _: u32) {}
