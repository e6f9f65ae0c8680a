//! A system clock under the control of the check: `clock_gettime(CLOCK_REALTIME)` of this process.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

static VIRTUAL: AtomicBool = AtomicBool::new(false);
static SEC: AtomicI64 = AtomicI64::new(0);
static NSEC: AtomicI64 = AtomicI64::new(0);

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME && VIRTUAL.load(SeqCst) {
        (*ts).tv_sec = SEC.load(SeqCst);
        (*ts).tv_nsec = NSEC.load(SeqCst);
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}

/// Set the clock to `t` nanoseconds after the epoch.
pub fn set(t: i128) {
    SEC.store(t.div_euclid(1_000_000_000) as i64, SeqCst);
    NSEC.store(t.rem_euclid(1_000_000_000) as i64, SeqCst);
    VIRTUAL.store(true, SeqCst);
}
pub fn real() {
    VIRTUAL.store(false, SeqCst);
}
/// Does the code under test see the clock of the check?
pub fn works() -> bool {
    set(1234567 * 1_000_000_000 + 89);
    let t = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
    real();
    let r = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
    t == Duration::new(1234567, 89) && r > Duration::from_secs(1_500_000_000)
}
