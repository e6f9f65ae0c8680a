//! A recording and fault-injecting layer under the file-system calls of this process: the C functions through
//! which Rust's standard library reaches the kernel. While a recorder is installed, every call that changes
//! something below its root directory is logged, and a chosen call can be made to fail.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, clippy::all)]
use libc::*;
use std::collections::{BTreeMap, HashMap};
use std::ffi::CStr;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// a new, empty file appears under a name
    Create { name: String, ino: usize },
    Trunc { ino: usize, len: usize },
    Write { ino: usize, off: usize, data: Vec<u8> },
    Fsync { ino: usize },
    /// a failed fsync: what was not yet durable may never become so
    FsyncFailed { ino: usize },
    FsyncDir,
    Rename { from: String, to: String },
    Unlink { name: String },
    Link { from: String, to: String },
    Chmod { ino: usize, mode: u32 },
    /// not a call: a mark of the check
    Mark(u32),
}

/// What is done to a call instead of executing it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Errno(i32),
    /// a write or read that handles only part of its bytes: 1, half, all but one
    Short(u8),
    /// a write or read that handles nothing and reports no error
    Zero,
}

#[derive(Default)]
pub struct Rec {
    root: Vec<u8>,
    fds: HashMap<i32, Fd>,
    /// current names and inodes
    pub names: BTreeMap<String, usize>,
    pub inodes: Vec<Vec<u8>>,
    pub initial: BTreeMap<String, usize>,
    pub initial_data: Vec<Vec<u8>>,
    pub ops: Vec<Op>,
    /// every intercepted call, in order
    pub calls: Vec<String>,
    /// which call fails how, and whether every later call fails too
    pub faults: Vec<(usize, Fault, bool)>,
    pub injected: usize,
    /// the calls that failed
    pub failed: Vec<String>,
    /// check the permission bits of the owner when a file is opened, as for a user that is not root
    pub perms: bool,
}
#[derive(Clone)]
struct Fd {
    /// None: the directory
    ino: Option<usize>,
    off: usize,
    append: bool,
}

static REC: Mutex<Option<Rec>> = Mutex::new(None);

/// Install a recorder for the files in `root` (a flat directory).
pub fn start(root: &std::path::Path, faults: Vec<(usize, Fault, bool)>) {
    let mut r = Rec { root: root.to_str().unwrap().as_bytes().to_vec(), faults, ..Default::default() };
    for f in std::fs::read_dir(root).unwrap().flatten() {
        let b = std::fs::read(f.path()).unwrap_or_default();
        r.names.insert(f.file_name().to_string_lossy().into(), r.inodes.len());
        r.inodes.push(b);
    }
    r.initial = r.names.clone();
    r.initial_data = r.inodes.clone();
    *REC.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
}
pub fn mark(m: u32) {
    if let Some(r) = REC.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        r.ops.push(Op::Mark(m));
    }
}
pub fn set_faults(f: Vec<(usize, Fault, bool)>) {
    if let Some(r) = REC.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        r.faults = f;
    }
}
pub fn emulate_permissions() {
    if let Some(r) = REC.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        r.perms = true;
    }
}
/// the calls that were made to fail since the last time
pub fn failed() -> Vec<String> {
    REC.lock().unwrap_or_else(|e| e.into_inner()).as_mut().map(|r| std::mem::take(&mut r.failed)).unwrap_or_default()
}
pub fn calls() -> usize {
    REC.lock().unwrap_or_else(|e| e.into_inner()).as_ref().map(|r| r.calls.len()).unwrap_or(0)
}
pub fn stop() -> Rec {
    REC.lock().unwrap_or_else(|e| e.into_inner()).take().expect("no recorder")
}

fn errno(e: i32) {
    unsafe { *__errno_location() = e };
}
fn with<T>(f: impl FnOnce(&mut Rec) -> Option<T>) -> Option<T> {
    // a thread that records may allocate, but never opens files
    let mut g = REC.lock().unwrap_or_else(|e| e.into_inner());
    g.as_mut().and_then(f)
}

impl Rec {
    /// the name below the root, "" for the root itself
    fn name(&self, p: *const c_char) -> Option<String> {
        let p = unsafe { CStr::from_ptr(p) }.to_bytes();
        let mut full = p.to_vec();
        if !p.starts_with(b"/") {
            let mut buf = [0u8; 4096];
            let n = unsafe { syscall(SYS_getcwd, buf.as_mut_ptr(), buf.len()) };
            if n < 1 {
                return None;
            }
            full = buf[..n as usize - 1].to_vec();
            full.push(b'/');
            full.extend(p);
        }
        // drop "." and empty components
        let mut norm = vec![];
        for c in full.split(|b| *b == b'/') {
            if c.is_empty() || c == b"." {
                continue;
            }
            norm.push(b'/');
            norm.extend(c);
        }
        let r = norm.strip_prefix(&self.root[..])?;
        match r {
            [] => Some(String::new()),
            [b'/', n @ ..] => Some(String::from_utf8_lossy(n).into()),
            _ => None,
        }
    }
    /// log the call; is it to fail?
    fn call(&mut self, what: String) -> Option<Fault> {
        let i = self.calls.len();
        self.calls.push(what);
        let f = self.faults.iter().find(|(k, _, always)| *k == i || (*always && *k < i)).map(|x| x.1);
        if f.is_some() {
            self.injected += 1;
            let c = self.calls[i].clone();
            self.failed.push(c);
        }
        f
    }
}

fn fail(f: Fault) -> c_int {
    match f {
        Fault::Errno(e) => errno(e),
        _ => errno(EIO),
    }
    -1
}

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let real = || syscall(SYS_openat, dirfd, p, flags, mode as c_uint) as c_int;
    let Some(name) = with(|r| r.name(p)) else { return real() };
    gate::point();
    let write = flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC) != 0;
    if let Some(f) = with(|r| r.call(format!("open({name}, {})", if write { "write" } else { "read" }))) {
        return fail(f);
    }
    if with(|r| Some(r.perms)) == Some(true) {
        let mut st: stat = std::mem::zeroed();
        if syscall(SYS_newfstatat, dirfd, p, &mut st as *mut stat, 0) == 0 && st.st_mode & S_IFMT == S_IFREG {
            let acc = flags & O_ACCMODE;
            if (acc != O_WRONLY && st.st_mode & 0o400 == 0) || (acc != O_RDONLY && st.st_mode & 0o200 == 0) {
                errno(EACCES);
                return -1;
            }
        }
    }
    let fd = real();
    if fd < 0 {
        return fd;
    }
    with(|r| {
        let ino = if name.is_empty() || flags & O_DIRECTORY != 0 {
            None
        } else {
            Some(match r.names.get(&name) {
                Some(i) => *i,
                None => {
                    let ino = r.inodes.len();
                    r.inodes.push(vec![]);
                    if flags & O_CREAT != 0 {
                        r.names.insert(name.clone(), ino);
                        r.ops.push(Op::Create { name, ino });
                    }
                    ino
                }
            })
        };
        if let (Some(ino), true) = (ino, flags & O_TRUNC != 0) {
            if !r.inodes[ino].is_empty() {
                r.inodes[ino].clear();
                r.ops.push(Op::Trunc { ino, len: 0 });
            }
        }
        r.fds.insert(fd, Fd { ino, off: 0, append: flags & O_APPEND != 0 });
        Some(())
    });
    fd
}

/// # Safety
/// As the C functions of the same names; this holds for everything below.
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    with(|r| r.fds.remove(&fd));
    syscall(SYS_close, fd) as c_int
}

fn is_file(fd: c_int) -> bool {
    with(|r| r.fds.get(&fd).map(|f| f.ino.is_some())) == Some(true)
}
fn short(f: Fault, n: usize) -> Option<usize> {
    match f {
        Fault::Short(0) => Some(1.min(n)),
        Fault::Short(1) => Some(n / 2),
        Fault::Short(_) => Some(n.saturating_sub(1)),
        _ => None,
    }
}

/// a write at the file position (off: None) or elsewhere
unsafe fn do_write(fd: c_int, p: *const c_void, n: size_t, off: Option<usize>) -> ssize_t {
    let mut n = n;
    let file = is_file(fd);
    if file {
        gate::point();
    }
    if file {
        if let Some(f) = with(|r| r.call(format!("write({n} bytes)"))) {
            match f {
                Fault::Zero => return 0,
                f => match short(f, n) {
                    // a short write of nothing would be a different fault
                    Some(s) => n = s.max(1.min(n)),
                    None => return fail(f) as ssize_t,
                },
            }
        }
    }
    let res = match off {
        None => syscall(SYS_write, fd, p, n),
        Some(o) => syscall(SYS_pwrite64, fd, p, n, o as off_t),
    } as ssize_t;
    if file && res > 0 {
        let data = std::slice::from_raw_parts(p as *const u8, res as usize).to_vec();
        with(|r| {
            let f = r.fds.get_mut(&fd)?;
            let ino = f.ino?;
            let at = off.unwrap_or(if f.append { r.inodes[ino].len() } else { f.off });
            if off.is_none() {
                f.off = at + data.len();
            }
            put(&mut r.inodes[ino], at, &data);
            r.ops.push(Op::Write { ino, off: at, data });
            Some(())
        });
    }
    res
}
pub fn put(d: &mut Vec<u8>, at: usize, b: &[u8]) {
    if d.len() < at + b.len() {
        d.resize(at + b.len(), 0);
    }
    d[at..at + b.len()].copy_from_slice(b);
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, p, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_write(fd, p, n, Some(off as usize))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if !is_file(fd) {
        return syscall(SYS_writev, fd, v, n) as ssize_t;
    }
    let mut all = vec![];
    for x in std::slice::from_raw_parts(v, n as usize) {
        all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    do_write(fd, all.as_ptr() as *const _, all.len(), None)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    let file = is_file(fd);
    if file {
        gate::point();
    }
    if file {
        if let Some(f) = with(|r| r.call(format!("read({n} bytes)"))) {
            match f {
                Fault::Zero => return 0,
                f => match short(f, n) {
                    Some(s) => n = s.max(1.min(n)),
                    None => return fail(f) as ssize_t,
                },
            }
        }
    }
    let res = syscall(SYS_read, fd, p, n) as ssize_t;
    if file && res > 0 {
        with(|r| {
            r.fds.get_mut(&fd)?.off += res as usize;
            Some(())
        });
    }
    res
}

unsafe fn do_fsync(fd: c_int, nr: c_long) -> c_int {
    let Some(f) = with(|r| r.fds.get(&fd).cloned()) else { return syscall(nr, fd) as c_int };
    let what = if f.ino.is_some() { "fsync(file)" } else { "fsync(directory)" };
    if let Some(e) = with(|r| r.call(what.into())) {
        if let (Some(ino), true) = (f.ino, e != Fault::Errno(EINTR)) {
            with(|r| {
                r.ops.push(Op::FsyncFailed { ino });
                Some(())
            });
        }
        return fail(e);
    }
    // the log is what counts; the real call would only cost time
    with(|r| {
        r.ops.push(match f.ino {
            Some(ino) => Op::Fsync { ino },
            None => Op::FsyncDir,
        });
        Some(())
    });
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_fsync(fd, SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_fsync(fd, SYS_fdatasync)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let Some(ino) = with(|r| r.fds.get(&fd)?.ino) else { return syscall(SYS_ftruncate, fd, len) as c_int };
    if let Some(f) = with(|r| r.call(format!("ftruncate({len})"))) {
        return fail(f);
    }
    let res = syscall(SYS_ftruncate, fd, len) as c_int;
    if res == 0 {
        with(|r| {
            r.inodes[ino].resize(len as usize, 0);
            r.ops.push(Op::Trunc { ino, len: len as usize });
            Some(())
        });
    }
    res
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let res = syscall(SYS_lseek, fd, off, whence) as off64_t;
    if res >= 0 {
        with(|r| {
            r.fds.get_mut(&fd)?.off = res as usize;
            Some(())
        });
    }
    res
}

unsafe fn do_rename(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_uint) -> c_int {
    let names = with(|r| Some((r.name(a)?, r.name(b)?)));
    if let Some((x, y)) = &names {
        if let Some(f) = with(|r| r.call(format!("rename({x}, {y})"))) {
            return fail(f);
        }
    }
    let res = syscall(SYS_renameat2, d1, a, d2, b, flags) as c_int;
    if let (0, Some((from, to))) = (res, names) {
        with(|r| {
            if let Some(i) = r.names.remove(&from) {
                r.names.insert(to.clone(), i);
            }
            r.ops.push(Op::Rename { from, to });
            Some(())
        });
    }
    res
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    do_rename(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    do_rename(d1, a, d2, b, 0)
}

unsafe fn do_unlink(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    let name = with(|r| r.name(p));
    if let Some(n) = &name {
        gate::point();
        if let Some(f) = with(|r| r.call(format!("unlink({n})"))) {
            return fail(f);
        }
    }
    let res = syscall(SYS_unlinkat, d, p, flags) as c_int;
    if let (0, Some(name)) = (res, name) {
        with(|r| {
            r.names.remove(&name);
            r.ops.push(Op::Unlink { name });
            Some(())
        });
    }
    res
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    do_unlink(AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    do_unlink(d, p, flags)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_int) -> c_int {
    let names = with(|r| Some((r.name(a)?, r.name(b)?)));
    if let Some((x, y)) = &names {
        if let Some(f) = with(|r| r.call(format!("link({x}, {y})"))) {
            return fail(f);
        }
    }
    let res = syscall(SYS_linkat, d1, a, d2, b, flags) as c_int;
    if let (0, Some((from, to))) = (res, names) {
        with(|r| {
            if let Some(i) = r.names.get(&from).copied() {
                r.names.insert(to.clone(), i);
            }
            r.ops.push(Op::Link { from, to });
            Some(())
        });
    }
    res
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if let Some(n) = with(|r| r.name(p)) {
        if let Some(f) = with(|r| r.call(format!("mkdir({n})"))) {
            return fail(f);
        }
    }
    syscall(SYS_mkdir, p, mode as c_uint) as c_int
}
unsafe fn logged_chmod(name: Option<String>, ino: Option<usize>, mode: mode_t, real: impl Fn() -> c_int) -> c_int {
    let ino = ino.or_else(|| name.as_ref().and_then(|n| with(|r| r.names.get(n).copied())));
    gate::point();
    if let Some(f) = with(|r| r.call(format!("chmod({mode:o})"))) {
        return fail(f);
    }
    let res = real();
    if let (0, Some(ino)) = (res, ino) {
        with(|r| {
            r.ops.push(Op::Chmod { ino, mode: mode as u32 });
            Some(())
        });
    }
    res
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    let real = || syscall(SYS_fchmodat, AT_FDCWD, p, mode as c_uint) as c_int;
    match with(|r| r.name(p)) {
        Some(n) => logged_chmod(Some(n), None, mode, real),
        None => real(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    let real = || syscall(SYS_fchmod, fd, mode as c_uint) as c_int;
    match with(|r| r.fds.get(&fd)?.ino) {
        Some(i) => logged_chmod(None, Some(i), mode, real),
        None => real(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(d: c_int, p: *const c_char, mode: mode_t, flags: c_int) -> c_int {
    let real = || syscall(SYS_fchmodat, d, p, mode as c_uint, flags) as c_int;
    match with(|r| r.name(p)) {
        Some(n) => logged_chmod(Some(n), None, mode, real),
        None => real(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, b: *mut statx) -> c_int {
    if !p.is_null() && *p != 0 {
        if let Some(n) = with(|r| r.name(p)) {
            if let Some(f) = with(|r| r.call(format!("stat({n})"))) {
                return fail(f);
            }
        }
    }
    syscall(SYS_statx, d, p, flags, mask, b) as c_int
}

/// Copying in the kernel is refused, so that the library falls back on reads and writes.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut off64_t, _: c_int, _: *mut off64_t, _: size_t, _: c_uint) -> ssize_t {
    errno(ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut off64_t, _: size_t) -> ssize_t {
    errno(ENOSYS);
    -1
}

/// Is the layer in place, and does its log describe what happened on disk?
pub fn works(root: &std::path::Path) -> Result<(), String> {
    use std::io::{Seek, SeekFrom, Write};
    start(root, vec![]);
    let go = || -> std::io::Result<()> {
        std::fs::write(root.join("a"), b"hello world")?;
        let mut f = std::fs::OpenOptions::new().write(true).open(root.join("a"))?;
        f.seek(SeekFrom::Start(3))?;
        f.write_all(b"LO")?;
        f.set_len(9)?;
        f.sync_all()?;
        std::fs::copy(root.join("a"), root.join("b"))?;
        std::fs::hard_link(root.join("a"), root.join("d"))?;
        std::fs::rename(root.join("b"), root.join("c"))?;
        std::fs::OpenOptions::new().append(true).open(root.join("c"))?.write_all(b"!")?;
        std::fs::remove_file(root.join("a"))?;
        std::fs::File::open(root)?.sync_all()
    };
    let r = go();
    let rec = stop();
    r.map_err(|e| e.to_string())?;
    rec.matches(root)?;
    let n = |f: fn(&Op) -> bool| rec.ops.iter().filter(|o| f(o)).count();
    let seen = (
        n(|o| matches!(o, Op::Fsync { .. })),
        n(|o| matches!(o, Op::FsyncDir)),
        n(|o| matches!(o, Op::Rename { .. })),
        n(|o| matches!(o, Op::Link { .. })),
    );
    if seen != (1, 1, 1, 1) || rec.names.len() != 2 {
        return Err(format!("the recorder saw {:?}", rec.ops));
    }
    for f in ["c", "d"] {
        std::fs::remove_file(root.join(f)).map_err(|e| e.to_string())?;
    }
    Ok(())
}

impl Rec {
    /// Does the directory hold what the log says?
    pub fn matches(&self, root: &std::path::Path) -> Result<(), String> {
        let mut real = BTreeMap::new();
        for f in std::fs::read_dir(root).map_err(|e| e.to_string())?.flatten() {
            if f.path().is_file() {
                real.insert(f.file_name().to_string_lossy().to_string(), std::fs::read(f.path()).unwrap_or_default());
            }
        }
        let mine: BTreeMap<String, Vec<u8>> = self.names.iter().map(|(n, i)| (n.clone(), self.inodes[*i].clone())).collect();
        if real != mine {
            return Err(format!(
                "the log does not describe the directory: {:?} on disk, {:?} in the log",
                real.keys().collect::<Vec<_>>(),
                mine.keys().collect::<Vec<_>>()
            ));
        }
        Ok(())
    }
}

/// Hand-off of control between two threads at file-system calls: exactly one gated thread runs at a time, and
/// which one goes on at every call is decided by a schedule. A gated thread that waits for a lock hands over.
pub mod gate {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
    use std::sync::Mutex;
    thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }
    /// 1, 2: the thread that may run; 0: gates are open
    static TURN: AtomicUsize = AtomicUsize::new(0);
    static DONE: [AtomicBool; 3] = [AtomicBool::new(false), AtomicBool::new(false), AtomicBool::new(false)];
    static STUCK: [AtomicUsize; 3] = [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)];
    /// the choices to make (true: switch), what was chosen, and where a switch was possible
    static PLAN: Mutex<(Vec<bool>, Vec<bool>)> = Mutex::new((vec![], vec![]));
    pub static DEADLOCK: AtomicBool = AtomicBool::new(false);

    fn wait(me: usize) {
        while TURN.load(SeqCst) != me && TURN.load(SeqCst) != 0 {
            unsafe { libc::sched_yield() };
        }
    }
    pub fn point() {
        let me = ME.with(|m| m.get());
        if me == 0 || TURN.load(SeqCst) == 0 {
            return;
        }
        STUCK[me].store(0, SeqCst);
        let other = 3 - me;
        if !DONE[other].load(SeqCst) {
            ME.with(|m| m.set(0));
            let sw = {
                let mut p = PLAN.lock().unwrap_or_else(|e| e.into_inner());
                let sw = p.0.get(p.1.len()).copied().unwrap_or(false);
                p.1.push(sw);
                sw
            };
            ME.with(|m| m.set(me));
            if sw {
                TURN.store(other, SeqCst);
                wait(me);
            }
        }
    }
    /// the thread waits for a lock
    fn blocked() -> bool {
        let me = ME.with(|m| m.get());
        if me == 0 || TURN.load(SeqCst) == 0 {
            return false;
        }
        let other = 3 - me;
        if DONE[other].load(SeqCst) || STUCK[me].fetch_add(1, SeqCst) > 1000 {
            DEADLOCK.store(true, SeqCst);
            TURN.store(0, SeqCst);
            return true;
        }
        TURN.store(other, SeqCst);
        wait(me);
        true
    }
    /// Run the two closures under a schedule; gives the choices that were made.
    pub fn run(plan: Vec<bool>, first: usize, a: impl FnOnce() + Send, b: impl FnOnce() + Send) -> Vec<bool> {
        *PLAN.lock().unwrap_or_else(|e| e.into_inner()) = (plan, vec![]);
        for i in 0..3 {
            DONE[i].store(false, SeqCst);
            STUCK[i].store(0, SeqCst);
        }
        DEADLOCK.store(false, SeqCst);
        TURN.store(first, SeqCst);
        let body = |me: usize, f: &mut dyn FnMut()| {
            wait(me);
            ME.with(|m| m.set(me));
            f();
            ME.with(|m| m.set(0));
            DONE[me].store(true, SeqCst);
            if TURN.load(SeqCst) != 0 {
                TURN.store(3 - me, SeqCst);
            }
        };
        let (mut a, mut b) = (Some(a), Some(b));
        std::thread::scope(|s| {
            s.spawn(|| body(1, &mut || a.take().unwrap()()));
            s.spawn(|| body(2, &mut || b.take().unwrap()()));
            while !(DONE[1].load(SeqCst) && DONE[2].load(SeqCst)) {
                unsafe { libc::sched_yield() };
            }
            TURN.store(0, SeqCst);
        });
        PLAN.lock().unwrap_or_else(|e| e.into_inner()).1.clone()
    }

    /// Rust's locks wait through this function.
    /// # Safety
    /// As `syscall`.
    #[no_mangle]
    pub unsafe extern "C" fn syscall(nr: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
        if nr == libc::SYS_getrandom {
            if let Some(r) = crate::rnd::call(a as *mut u8, b) {
                return r as i64;
            }
        }
        if nr == libc::SYS_futex && matches!(b & 0x7f, 0 | 9) && blocked() {
            *libc::__errno_location() = libc::EAGAIN;
            return -1;
        }
        let mut r: i64 = nr;
        std::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _);
        if (-4095..0).contains(&r) {
            *libc::__errno_location() = -r as i32;
            return -1;
        }
        r
    }
}
