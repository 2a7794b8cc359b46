//! The ghost heap: what the code under verification asks of the allocator.
//!
//! Under Kani the three allocator entry points are replaced, by `#[kani::stub]`, by functions
//! that obey the allocator's contract and record every request. Natively the same table is
//! kept by a global allocator.
use core::alloc::Layout;

#[derive(Clone, Copy)]
pub struct Blk { pub addr: usize, pub size: usize, pub align: usize, pub live: bool }
pub const MAXB: usize = 12;
static mut T: [Blk; MAXB] = [Blk { addr: 0, size: 0, align: 0, live: false }; MAXB];
static mut N: usize = 0;
static mut FREES: usize = 0;
static mut FAIL: bool = false;
static mut TRACK: bool = false;
#[cfg(not(kani))] static mut ERR: Option<&'static str> = None;

pub fn reset() { unsafe { N = 0; FREES = 0; FAIL = false; TRACK = true; } #[cfg(not(kani))] unsafe { ERR = None } }
pub fn stop() { unsafe { TRACK = false } }
/// The next allocation fails.
pub fn fail_next() { unsafe { FAIL = true } }
pub fn allocs() -> usize { unsafe { N } }
pub fn frees() -> usize { unsafe { FREES } }
pub fn live() -> usize { unsafe { N - FREES } }
pub fn blk(i: usize) -> Blk { unsafe { T[i] } }
/// The record of the latest allocation.
pub fn last() -> Blk { unsafe { T[N - 1] } }
/// No misuse of the allocator so far.
pub fn sane() -> bool {
    #[cfg(kani)] { true }
    #[cfg(not(kani))] unsafe { ERR.is_none() }
}

unsafe fn record(p: *mut u8, l: Layout) {
    if N < MAXB { T[N] = Blk { addr: p as usize, size: l.size(), align: l.align(), live: true }; }
    N += 1;
}
/// Index of the live block at this address, or MAXB.
unsafe fn find(p: *mut u8) -> usize {
    let mut r = MAXB;
    let mut i = 0;
    while i < MAXB {
        if i < N && T[i].live && T[i].addr == p as usize { r = i }
        i += 1;
    }
    r
}

#[cfg(kani)]
extern "C" { fn malloc(n: usize) -> *mut u8; fn free(p: *mut u8); }

#[cfg(kani)]
pub unsafe fn galloc(l: Layout) -> *mut u8 {
    assert!(l.size() > 0, "heap: allocation of size zero requested");
    if FAIL { FAIL = false; return core::ptr::null_mut(); }
    let p = malloc(l.size());
    kani::assume(!p.is_null());
    record(p, l);
    p
}
#[cfg(kani)]
pub unsafe fn galloc_zeroed(l: Layout) -> *mut u8 {
    let p = galloc(l);
    if !p.is_null() { core::ptr::write_bytes(p, 0, l.size()) }
    p
}
#[cfg(kani)]
pub fn goom(_: Layout) -> ! { panic!("out of memory") }
#[cfg(kani)]
pub unsafe fn gdealloc(p: core::ptr::NonNull<u8>, l: Layout) {
    let p = p.as_ptr();
    let i = find(p);
    assert!(i < MAXB, "heap: released a block that is not live");
    assert!(T[i].size == l.size(), "heap: released with another size than requested");
    assert!(T[i].align == l.align(), "heap: released with another alignment than requested");
    T[i].live = false;
    FREES += 1;
    free(p);
}

#[cfg(not(kani))]
pub struct Global;
#[cfg(not(kani))]
unsafe impl std::alloc::GlobalAlloc for Global {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !TRACK { return std::alloc::System.alloc(l); }
        if l.size() == 0 { ERR = Some("heap: allocation of size zero requested") }
        if FAIL { FAIL = false; return core::ptr::null_mut(); }
        let p = std::alloc::System.alloc(l);
        core::ptr::write_bytes(p, 0xA5, l.size());
        record(p, l);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let i = if N <= MAXB { find(p) } else { MAXB };
        if i == MAXB {
            // A block that was already released, or one from before tracking began.
            let mut j = 0;
            while j < N && j < MAXB {
                if T[j].addr == p as usize { ERR = Some("heap: released a block that is not live"); return; }
                j += 1;
            }
            return std::alloc::System.dealloc(p, l);
        }
        if T[i].size != l.size() { ERR = Some("heap: released with another size than requested") }
        if T[i].align != l.align() { ERR = Some("heap: released with another alignment than requested") }
        T[i].live = false;
        FREES += 1;
        // Kept, and overwritten, so that later uses show.
        core::ptr::write_bytes(p, 0xDD, T[i].size);
    }
}
