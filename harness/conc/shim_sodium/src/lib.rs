//! libsodium, with schedule points at the changes of protection. Where protection does not matter, ordinary memory.
pub use libsodium_sys::*;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

static LIGHT: AtomicBool = AtomicBool::new(false);
/// From here on guarded memory is ordinary memory; to be called before any is allocated.
pub fn light() {
    LIGHT.store(true, SeqCst);
}
fn is_light() -> bool {
    LIGHT.load(SeqCst)
}
fn point(p: *mut c_void) {
    if !is_light() && sched::detail() && !LIVE.lock().unwrap().iter().find(|l| l.0 == p as usize).is_some_and(|l| l.2.private()) {
        sched::point()
    }
}
pub unsafe fn sodium_mprotect_noaccess(p: *mut c_void) -> c_int {
    point(p);
    if is_light() { 0 } else { libsodium_sys::sodium_mprotect_noaccess(p) }
}
pub unsafe fn sodium_mprotect_readonly(p: *mut c_void) -> c_int {
    point(p);
    if is_light() { 0 } else { libsodium_sys::sodium_mprotect_readonly(p) }
}
pub unsafe fn sodium_mprotect_readwrite(p: *mut c_void) -> c_int {
    point(p);
    if is_light() { 0 } else { libsodium_sys::sodium_mprotect_readwrite(p) }
}
pub unsafe fn sodium_mlock(p: *mut c_void, n: usize) -> c_int {
    if is_light() { 0 } else { libsodium_sys::sodium_mlock(p, n) }
}
pub unsafe fn sodium_munlock(p: *mut c_void, n: usize) -> c_int {
    if is_light() {
        sodium_memzero(p, n);
        0
    } else {
        libsodium_sys::sodium_munlock(p, n)
    }
}
/// What is allocated: address and length, and who has met it.
static LIVE: std::sync::Mutex<Vec<(usize, usize, sched::Owner)>> = std::sync::Mutex::new(vec![]);
pub fn live() -> Vec<(usize, usize)> {
    LIVE.lock().unwrap().iter().map(|l| (l.0, l.1)).collect()
}
fn note(p: *mut c_void, n: usize) -> *mut c_void {
    if !p.is_null() {
        let o = sched::Owner::new();
        o.private();
        LIVE.lock().unwrap().push((p as usize, n, o));
    }
    p
}
pub unsafe fn sodium_malloc(n: usize) -> *mut c_void {
    if is_light() { libc::calloc(n.max(1), 1) as *mut c_void } else { note(libsodium_sys::sodium_malloc(n), n) }
}
pub unsafe fn sodium_allocarray(a: usize, b: usize) -> *mut c_void {
    if is_light() { libc::calloc((a * b).max(1), 1) as *mut c_void } else { note(libsodium_sys::sodium_allocarray(a, b), a * b) }
}
pub unsafe fn sodium_free(p: *mut c_void) {
    point(p);
    if is_light() {
        libc::free(p as *mut _)
    } else {
        // still in the list while its pages go, so that whoever watches the pages knows what they were
        libsodium_sys::sodium_free(p);
        LIVE.lock().unwrap().retain(|l| l.0 != p as usize);
    }
}
