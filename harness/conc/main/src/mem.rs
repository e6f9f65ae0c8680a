//! Looking at memory that may be inaccessible, without touching it: through a pipe, where a wrong address gives EFAULT.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

static PIPE: Mutex<(u32, i32, i32)> = Mutex::new((0, -1, -1));

fn pipe<R>(f: impl FnOnce(i32, i32) -> R) -> R {
    let mut p = PIPE.lock().unwrap_or_else(|e| e.into_inner());
    let me = std::process::id();
    if p.0 != me {
        let mut fds = [0i32; 2];
        assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
        *p = (me, fds[0], fds[1]);
    }
    f(p.1, p.2)
}
fn drain(r: i32, n: usize) {
    let mut b = vec![0u8; n];
    unsafe { libc::read(r, b.as_mut_ptr() as *mut _, n) };
}

/// The bytes there, if they can be read.
pub fn peek(at: usize, n: usize) -> Option<Vec<u8>> {
    let mut out = Vec::with_capacity(n);
    while out.len() < n {
        let k = (n - out.len()).min(4096 - (at + out.len()) % 4096);
        let got = pipe(|r, w| unsafe {
            if libc::write(w, (at + out.len()) as *const _, k) != k as isize {
                return None;
            }
            let mut b = vec![0u8; k];
            assert_eq!(libc::read(r, b.as_mut_ptr() as *mut _, k), k as isize);
            Some(b)
        });
        out.extend(got?);
    }
    Some(out)
}
/// Whether the byte there can be written. It keeps its value.
pub fn writable(at: usize) -> bool {
    let b = peek(at, 1);
    pipe(|r, w| unsafe {
        let v = b.unwrap_or(vec![0]);
        assert_eq!(libc::write(w, v.as_ptr() as *const _, 1), 1);
        let ok = libc::read(r, at as *mut _, 1) == 1;
        if !ok {
            drain(r, 1);
        }
        ok
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Access {
    None,
    Read,
    Write,
}
/// How the first and the last byte can be accessed.
pub fn access(at: usize, n: usize) -> Result<Access, String> {
    let of = |p: usize| match (peek(p, 1).is_some(), writable(p)) {
        (false, false) => Access::None,
        (true, false) => Access::Read,
        _ => Access::Write,
    };
    let (a, b) = (of(at), of(at + n - 1));
    if a == b { Ok(a) } else { Err(format!("first byte {a:?}, last byte {b:?}")) }
}
/// The bytes of a protected region.
pub fn inside(at: usize, n: usize) -> Vec<u8> {
    if let Some(v) = peek(at, n) {
        return v;
    }
    let (a, b) = (at & !4095, (at + n + 4095) & !4095);
    unsafe {
        assert_eq!(libc::mprotect(a as *mut _, b - a, libc::PROT_READ), 0);
        let v = peek(at, n);
        assert_eq!(libc::mprotect(a as *mut _, b - a, libc::PROT_NONE), 0);
        v.unwrap_or_default()
    }
}

static WATCH: AtomicBool = AtomicBool::new(false);
static SEEN: Mutex<Vec<String>> = Mutex::new(vec![]);
/// From here on guarded memory that goes back to the system must be overwritten.
pub fn watch() {
    WATCH.store(true, SeqCst);
    SEEN.lock().unwrap().clear();
}
pub fn complaints() -> Vec<String> {
    std::mem::take(&mut *SEEN.lock().unwrap())
}
#[no_mangle]
pub unsafe extern "C" fn munmap(p: *mut libc::c_void, n: usize) -> libc::c_int {
    if WATCH.load(SeqCst) {
        let (a, b) = (p as usize, p as usize + n);
        for (q, m) in shim_sodium::live() {
            if q >= a && q < b && m > 0 {
                let v = peek(q, m);
                if !v.as_ref().is_some_and(|v| v.iter().all(|x| *x == v[0])) {
                    SEEN.lock().unwrap().push(format!("memory returned with its content: {v:?}"));
                }
            }
        }
    }
    if RECORD.load(SeqCst) {
        busy(|| gone(p as usize, p as usize + n, false));
    }
    static P: AtomicU64 = AtomicU64::new(0);
    let mut f = P.load(SeqCst);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, c"munmap".as_ptr()) as u64;
        P.store(f, SeqCst);
    }
    std::mem::transmute::<u64, unsafe extern "C" fn(*mut libc::c_void, usize) -> libc::c_int>(f)(p, n)
}

// -------------------------------------------------------------------- memory that is not guarded

/// Anonymous mappings and big heap blocks while recording: address, length, heap.
static BLOCKS: Mutex<Vec<(usize, usize, bool)>> = Mutex::new(vec![]);
static RECORD: AtomicBool = AtomicBool::new(false);
thread_local! {
    static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn busy(f: impl FnOnce()) {
    if !BUSY.with(|b| b.replace(true)) {
        f();
        BUSY.with(|b| b.set(false));
    }
}
pub fn record() {
    RECORD.store(true, SeqCst);
    let mut b = BLOCKS.lock().unwrap();
    b.clear();
    b.reserve(1000);
}
const BIG: usize = 1 << 26;

extern "C" {
    fn __libc_malloc(n: usize) -> *mut libc::c_void;
    fn __libc_calloc(k: usize, n: usize) -> *mut libc::c_void;
    fn __libc_free(p: *mut libc::c_void);
}
#[no_mangle]
pub unsafe extern "C" fn calloc(k: usize, n: usize) -> *mut libc::c_void {
    let p = __libc_calloc(k, n);
    if k.saturating_mul(n) >= BIG && !p.is_null() && RECORD.load(SeqCst) {
        busy(|| BLOCKS.lock().unwrap().push((p as usize, k * n, true)));
    }
    p
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut libc::c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    mmap(a, n, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut libc::c_void {
    let p = __libc_malloc(n);
    if n >= BIG && !p.is_null() && RECORD.load(SeqCst) {
        busy(|| BLOCKS.lock().unwrap().push((p as usize, n, true)));
    }
    p
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut libc::c_void) {
    // only big blocks begin like this
    if p as usize & 4095 == 16 && RECORD.load(SeqCst) {
        busy(|| gone(p as usize, p as usize + 1, true));
    }
    __libc_free(p)
}
fn gone(a: usize, b: usize, heap: bool) {
    let mut all = BLOCKS.lock().unwrap();
    let mut i = 0;
    while i < all.len() {
        let (p, n, h) = all[i];
        if h == heap && p >= a && p < b {
            let guarded = shim_sodium::live().iter().any(|(q, _)| *q >= p && *q < p + n);
            if let (false, Some(c)) = (guarded, resident(p, n)) {
                SEEN.lock().unwrap().push(format!("memory returned with content at offset {}", c.0));
            }
            all.remove(i);
        } else {
            i += 1;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut libc::c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    let p = libc::syscall(libc::SYS_mmap, a, n, prot, flags, fd, off) as *mut libc::c_void;
    if RECORD.load(SeqCst) && flags & libc::MAP_ANONYMOUS != 0 && p != libc::MAP_FAILED && !BUSY.with(|b| b.get()) {
        busy(|| BLOCKS.lock().unwrap().push((p as usize, n, false)));
    }
    p
}
/// What is not zero in the block: from the first to the last such byte of each page.
fn resident(p: usize, n: usize) -> Option<(usize, Vec<u8>)> {
    let (a, b) = (p & !4095, (p + n + 4095) & !4095);
    let mut v = vec![0u8; (b - a) / 4096];
    if unsafe { libc::mincore(a as *mut _, b - a, v.as_mut_ptr()) } != 0 {
        return None;
    }
    let mut out: Option<(usize, Vec<u8>)> = None;
    for (i, r) in v.iter().enumerate() {
        if r & 1 == 0 {
            continue;
        }
        let from = (a + i * 4096).max(p);
        let to = (a + (i + 1) * 4096).min(p + n);
        let Some(c) = peek(from, to - from) else { continue };
        let Some(x) = c.iter().position(|x| *x != 0) else { continue };
        let y = c.iter().rposition(|x| *x != 0).unwrap();
        match &mut out {
            None => out = Some((from + x - p, c[x..=y].to_vec())),
            Some((_, v)) => v.extend_from_slice(&c[x..=y]),
        }
    }
    out
}
/// The unguarded blocks that hold something: where it begins, what it is, and if it is of the heap.
pub fn blocks() -> Vec<(usize, Vec<u8>, bool)> {
    let all = BLOCKS.lock().unwrap().clone();
    let guarded = shim_sodium::live();
    all.iter()
        .filter(|(p, n, _)| !guarded.iter().any(|(q, _)| q >= p && *q < p + n))
        .filter_map(|(p, n, h)| resident(*p, *n).map(|(o, v)| (p + o, v, *h)))
        .collect()
}
