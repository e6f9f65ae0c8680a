//! The operating system's random source, as the code sees it: every call is recorded and comes from a stream the
//! check chooses, single bits of it can be flipped, and calls can fail. Only the thread that asks for it is affected.
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq)]
enum Mode {
    Off,
    /// from the stream, but not recorded
    Fixed,
    On,
}
#[derive(Clone, Copy, Default)]
pub struct Plan {
    pub seed: u64,
    /// (call, byte, bits)
    pub flip: Option<(usize, usize, u8)>,
    /// calls from .. to fail
    pub fail: Option<(usize, usize)>,
}
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static PLAN: Cell<Plan> = const { Cell::new(Plan { seed: 0, flip: None, fail: None }) };
    static LOG: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static FAILED: Cell<usize> = const { Cell::new(0) };
}

/// Runs `f` in a thread of its own (whose hash tables and random numbers start afresh) under the plan.
pub fn under<T: Send>(plan: Plan, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        s.spawn(|| {
            PLAN.with(|p| p.set(plan));
            LOG.with(|l| l.borrow_mut().reserve(4096));
            MODE.with(|m| m.set(Mode::Fixed));
            let h: std::collections::HashMap<u8, u8> = std::collections::HashMap::new();
            std::hint::black_box(&h);
            MODE.with(|m| m.set(Mode::On));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            MODE.with(|m| m.set(Mode::Off));
            r
        })
        .join()
        .unwrap()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}
/// lengths of the calls so far
pub fn calls() -> Vec<usize> {
    LOG.with(|l| l.borrow().clone())
}
pub fn count() -> usize {
    LOG.with(|l| l.borrow().len())
}
/// how many calls failed so far
pub fn failed() -> usize {
    FAILED.with(|f| f.get())
}
pub fn set_fail(fail: Option<(usize, usize)>) {
    PLAN.with(|p| {
        let mut x = p.get();
        x.fail = fail;
        p.set(x)
    })
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// None: not ours
pub unsafe fn call(buf: *mut u8, len: usize) -> Option<isize> {
    let mode = MODE.try_with(|m| m.get()).unwrap_or(Mode::Off);
    if mode == Mode::Off {
        return None;
    }
    if len == 0 {
        return Some(0);
    }
    let plan = PLAN.with(|p| p.get());
    let mut n = usize::MAX >> 1;
    if mode == Mode::On {
        n = LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.push(len);
            l.len() - 1
        });
        if let Some((a, b)) = plan.fail {
            if n >= a && n < b {
                FAILED.with(|f| f.set(f.get() + 1));
                *libc::__errno_location() = libc::EIO;
                return Some(-1);
            }
        }
    }
    for i in 0..len {
        let word = mix(mix(mix(plan.seed).wrapping_add(n as u64)).wrapping_add(i as u64 / 8));
        *buf.add(i) = word.to_le_bytes()[i % 8];
    }
    if let Some((c, byte, bits)) = plan.flip {
        if c == n && byte < len {
            *buf.add(byte) ^= bits;
        }
    }
    Some(len as isize)
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if let Some(r) = call(buf, len) {
        return r;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize
}
