//! A memory allocator for the whole process (the C functions and Rust's) that, while switched on, gives every
//! allocation its own pages with an inaccessible page behind it, never uses an address twice, and makes freed
//! memory inaccessible: reading or writing past the end or after the release kills the process. Releasing what
//! is not allocated, or through the other allocator family or with another size, is recorded.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, clippy::all)]
use libc::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

const PAGE: usize = 4096;
const REGION: usize = 1 << 40;
static BASE: AtomicUsize = AtomicUsize::new(0);
static META: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub static BAD: AtomicU64 = AtomicU64::new(0);
static WHAT: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
#[derive(Clone, Copy)]
struct Meta {
    ptr: usize,
    size: usize,
    /// 0 never, 1 C, 2 Rust, 3 freed
    kind: usize,
    pages: usize,
}

extern "C" {
    fn __libc_malloc(n: size_t) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
    fn __libc_realloc(p: *mut c_void, n: size_t) -> *mut c_void;
    fn __libc_calloc(a: size_t, b: size_t) -> *mut c_void;
    fn __libc_memalign(a: size_t, n: size_t) -> *mut c_void;
}

fn init() {
    unsafe {
        let f = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
        let b = mmap(std::ptr::null_mut(), REGION, PROT_NONE, f, -1, 0);
        let m = mmap(std::ptr::null_mut(), REGION / PAGE * std::mem::size_of::<Meta>(), PROT_READ | PROT_WRITE, f, -1, 0);
        assert!(b != MAP_FAILED && m != MAP_FAILED);
        META.store(m as usize, SeqCst);
        BASE.store(b as usize, SeqCst);
    }
}
pub fn on() {
    if BASE.load(SeqCst) == 0 {
        init();
    }
    ON.store(true, SeqCst);
}
pub fn off() {
    ON.store(false, SeqCst);
}
fn meta(page: usize) -> *mut Meta {
    (META.load(SeqCst) as *mut Meta).wrapping_add(page)
}
fn mine(p: usize) -> bool {
    let b = BASE.load(SeqCst);
    b != 0 && p >= b && p < b + REGION
}
fn alloc(size: usize, align: usize, kind: usize) -> *mut c_void {
    let align = align.max(1);
    let pages = (size + align.min(PAGE) + PAGE - 1) / PAGE;
    let extra = if align > PAGE { align / PAGE } else { 0 };
    let first = NEXT.fetch_add(pages + extra + 1, SeqCst);
    if (first + pages + extra + 1) * PAGE > REGION {
        return std::ptr::null_mut();
    }
    let start = BASE.load(SeqCst) + first * PAGE;
    let end = start + (pages + extra) * PAGE;
    let p = (end - size) & !(align - 1);
    unsafe {
        let e = *__errno_location();
        if mprotect(start as *mut c_void, end - start, PROT_READ | PROT_WRITE) != 0 {
            return std::ptr::null_mut();
        }
        // not zero: nobody may rely on it
        std::ptr::write_bytes(p as *mut u8, 0xA5, size);
        *__errno_location() = e;
        let m = Meta { ptr: p, size, kind, pages: pages + extra };
        for q in first..first + pages + extra {
            *meta(q) = m;
        }
    }
    LIVE.fetch_add(1, SeqCst);
    p as *mut c_void
}
fn find(p: usize) -> Option<*mut Meta> {
    let page = (p.min(BASE.load(SeqCst) + REGION - 1) - BASE.load(SeqCst)) / PAGE;
    // an empty allocation may sit at the very end of its pages
    [page, page.wrapping_sub(1)].into_iter().filter(|q| *q < REGION / PAGE).map(meta).find(|m| unsafe { (**m).ptr } == p)
}
fn bad(code: u64, p: usize) {
    BAD.fetch_add(1, SeqCst);
    WHAT.store(code, SeqCst);
    let _ = p;
}
fn release(p: usize, kind: usize, size: Option<usize>) {
    let Some(m) = find(p) else { return bad(1, p) };
    let m = unsafe { *m };
    if m.kind == 3 {
        return bad(2, p);
    }
    if m.kind != kind {
        return bad(3, p);
    }
    if size.map_or(false, |s| s != m.size) {
        return bad(4, p);
    }
    let start = p.saturating_sub(BASE.load(SeqCst)) / PAGE;
    // the first page of the block
    let mut first = start.min(REGION / PAGE - 1);
    if unsafe { (*meta(first)).ptr } != p {
        first -= 1;
    }
    while first > 0 && unsafe { (*meta(first - 1)).ptr } == p {
        first -= 1;
    }
    unsafe {
        let e = *__errno_location();
        for q in first..first + m.pages {
            (*meta(q)).kind = 3;
        }
        let a = (BASE.load(SeqCst) + first * PAGE) as *mut c_void;
        // a fresh mapping, so that the kernel can join it with its neighbours
        mmap(a, m.pages * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        *__errno_location() = e;
    }
    LIVE.fetch_sub(1, SeqCst);
}
/// What was wrong since the last time.
pub fn complaint() -> Option<&'static str> {
    if BAD.swap(0, SeqCst) == 0 {
        return None;
    }
    Some(match WHAT.load(SeqCst) {
        1 => "released an address that is not the start of an allocation",
        2 => "released memory twice",
        3 => "released memory through an allocator that did not allocate it",
        _ => "released memory with another size than it was allocated with",
    })
}
/// The bytes readable at `p`: from there to the end of its allocation.
pub fn room(p: *const u8) -> Option<usize> {
    if !mine(p as usize) {
        return None;
    }
    let page = (p as usize - BASE.load(SeqCst)) / PAGE;
    let m = unsafe { *meta(page) };
    if m.kind == 0 || m.kind == 3 || (p as usize) < m.ptr {
        return None;
    }
    Some(m.ptr + m.size - p as usize)
}
fn size_of(p: usize) -> usize {
    find(p).map(|m| unsafe { (*m).size }).unwrap_or(0)
}

#[no_mangle]
pub unsafe extern "C" fn malloc(n: size_t) -> *mut c_void {
    if ON.load(SeqCst) { alloc(n, 16, 1) } else { __libc_malloc(n) }
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    if p.is_null() {
        return;
    }
    if mine(p as usize) { release(p as usize, 1, None) } else { __libc_free(p) }
}
#[no_mangle]
pub unsafe extern "C" fn calloc(a: size_t, b: size_t) -> *mut c_void {
    if !ON.load(SeqCst) {
        return __libc_calloc(a, b);
    }
    let Some(n) = a.checked_mul(b) else { return std::ptr::null_mut() };
    let p = alloc(n, 16, 1);
    if !p.is_null() {
        std::ptr::write_bytes(p as *mut u8, 0, n);
    }
    p
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut c_void, n: size_t) -> *mut c_void {
    if !mine(p as usize) {
        if p.is_null() {
            return malloc(n);
        }
        return __libc_realloc(p, n);
    }
    let q = alloc(n, 16, 1);
    if !q.is_null() {
        std::ptr::copy_nonoverlapping(p as *const u8, q as *mut u8, n.min(size_of(p as usize)));
        release(p as usize, 1, None);
    }
    q
}
#[no_mangle]
pub unsafe extern "C" fn posix_memalign(out: *mut *mut c_void, a: size_t, n: size_t) -> c_int {
    let p = memalign(a, n);
    if p.is_null() {
        return ENOMEM;
    }
    *out = p;
    0
}
#[no_mangle]
pub unsafe extern "C" fn aligned_alloc(a: size_t, n: size_t) -> *mut c_void {
    memalign(a, n)
}
#[no_mangle]
pub unsafe extern "C" fn memalign(a: size_t, n: size_t) -> *mut c_void {
    if ON.load(SeqCst) { alloc(n, a.max(16), 1) } else { __libc_memalign(a, n) }
}
#[no_mangle]
pub unsafe extern "C" fn malloc_usable_size(p: *mut c_void) -> size_t {
    if p.is_null() { 0 } else if mine(p as usize) { size_of(p as usize) } else { 0 }
}

pub struct Fence;
unsafe impl GlobalAlloc for Fence {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(SeqCst) { alloc(l.size(), l.align(), 2) as *mut u8 } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if mine(p as usize) { release(p as usize, 2, Some(l.size())) } else { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ON.load(SeqCst) {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !mine(p as usize) {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            self.dealloc(p, l);
        }
        q
    }
}

