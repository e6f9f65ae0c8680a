//! Randomness of the process: the same for every execution of a case, different between cases. And file-system
//! calls as schedule points.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static STATE: AtomicU64 = AtomicU64::new(0);

/// 0: the system's
pub fn seed(s: u64) {
    STATE.store(s, SeqCst);
}
fn next() -> u64 {
    let mut z = STATE.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst).wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if STATE.load(SeqCst) == 0 {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize;
    }
    let mut i = 0;
    while i < len {
        let r = next().to_le_bytes();
        let n = (len - i).min(8);
        std::ptr::copy_nonoverlapping(r.as_ptr(), buf.add(i), n);
        i += n;
    }
    len as isize
}

macro_rules! real {
    ($name:literal, $t:ty) => {{
        static P: AtomicU64 = AtomicU64::new(0);
        let mut p = P.load(SeqCst);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const _) as u64;
            P.store(p, SeqCst);
        }
        std::mem::transmute::<u64, $t>(p)
    }};
}
use libc::{c_char, c_int, c_uint};
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    sched::point();
    real!("open64", unsafe extern "C" fn(*const c_char, c_int, c_uint) -> c_int)(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    sched::point();
    real!("rename", unsafe extern "C" fn(*const c_char, *const c_char) -> c_int)(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    sched::point();
    real!("unlink", unsafe extern "C" fn(*const c_char) -> c_int)(a)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: c_uint, b: *mut u8) -> c_int {
    sched::point();
    real!("statx", unsafe extern "C" fn(c_int, *const c_char, c_int, c_uint, *mut u8) -> c_int)(d, p, f, m, b)
}
