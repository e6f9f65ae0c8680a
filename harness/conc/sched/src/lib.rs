//! A scheduler that runs real threads one at a time and decides at every schedule point which one goes on, and a
//! depth-first explorer of all its decisions up to a bound on preemptions.
use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::thread::Thread;

/// Not one of the scheduled threads.
pub const NOBODY: usize = usize::MAX;

/// The state of a lock.
#[derive(Default)]
pub struct Raw {
    st: UnsafeCell<RawSt>,
}
#[derive(Default, Clone, Copy)]
struct RawSt {
    writer: bool,
    readers: u32,
    waiting_writers: u32,
}
unsafe impl Sync for Raw {}
unsafe impl Send for Raw {}

#[derive(Clone, Copy, Debug)]
enum Pend {
    Run,
    Write(*const Raw),
    Read(*const Raw),
    /// until a wake-up; `.1`: may also time out
    Sleep(usize, bool),
    Join(usize),
    /// asleep for a while, since so much had changed
    Nap(u64),
    Done,
}

struct T {
    pend: Pend,
    yielded: bool,
    /// gave way because a lock was taken
    spun: bool,
    /// how often it did so since so much had changed
    spins: (u64, u32),
    /// time goes by for this thread alone, as long as no more than this has changed
    rush: u64,
    /// how often it may sleep and look again meanwhile
    patience: u32,
    /// it looks again because it has slept
    slept: u32,
    woken: bool,
    handle: Option<Thread>,
}

/// One decision with more than one possibility.
#[derive(Clone, Debug)]
pub struct Choice {
    pub n: u8,
    pub chosen: u8,
    /// the alternative costs a preemption
    pub cost: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Finished,
    Deadlock,
    TooLong,
}

#[derive(Default)]
struct State {
    threads: Vec<T>,
    plan: Vec<u8>,
    trace: Vec<Choice>,
    steps: usize,
    max_steps: usize,
    end: Option<End>,
    switches: Vec<u8>,
    /// points in the runtime count
    detail: bool,
    /// how often anything changed that another thread can see
    changes: u64,
    /// who was the last to wait while all were asleep
    waited: usize,
    /// how often all were
    waits: u32,
}

struct Global(UnsafeCell<Option<State>>);
unsafe impl Sync for Global {}
static S: Global = Global(UnsafeCell::new(None));
static CUR: AtomicUsize = AtomicUsize::new(NOBODY);
static CONTROLLER: std::sync::Mutex<Option<Thread>> = std::sync::Mutex::new(None);
static OVER: AtomicBool = AtomicBool::new(true);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static SPUN: Cell<bool> = const { Cell::new(false) };
    static BEGIN: Cell<usize> = const { Cell::new(0) };
}

#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut State {
    // only the current thread gets here
    unsafe { (*S.0.get()).as_mut().expect("no execution") }
}
pub fn me() -> usize {
    ME.with(|m| m.get())
}
pub fn managed() -> bool {
    me() != NOBODY && QUIET.with(|q| q.get()) == 0
}
pub fn detail() -> bool {
    managed() && st().detail
}
/// no schedule points in `f`
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = f();
    QUIET.with(|q| q.set(q.get() - 1));
    r
}
/// Which threads have met an object. What only one thread has met so far commutes with everything the others do, so
/// there is no need for a schedule point at it. What was met outside of an execution counts as shared.
#[derive(Default)]
pub struct Owner(std::sync::atomic::AtomicU8);
impl Owner {
    pub const fn new() -> Owner {
        Owner(std::sync::atomic::AtomicU8::new(0))
    }
    pub fn private(&self) -> bool {
        let m = me();
        let v = if m < 0xfe { m as u8 + 1 } else { 0xff };
        match self.0.load(SeqCst) {
            0 => {
                self.0.store(v, SeqCst);
                v != 0xff
            }
            x => {
                if x != v {
                    self.0.store(0xff, SeqCst);
                }
                x == v && v != 0xff
            }
        }
    }
}
/// A logical time: the number of schedule points so far.
pub fn now() -> usize {
    if me() == NOBODY { 0 } else { st().steps }
}
/// An operation begins: its beginning is the moment its first schedule point is passed.
pub fn begin() {
    BEGIN.with(|b| b.set(usize::MAX));
}
/// when the operation began and ended
pub fn ended() -> (usize, usize) {
    let e = now();
    let b = BEGIN.with(|b| b.get());
    (if b == usize::MAX { e } else { b }, e)
}

fn enabled(s: &State, i: usize) -> bool {
    let t = &s.threads[i];
    if t.yielded {
        return false;
    }
    ready(s, i)
}
fn ready(s: &State, i: usize) -> bool {
    unsafe {
        match s.threads[i].pend {
            Pend::Run => true,
            Pend::Write(l) => {
                let l = &*(*l).st.get();
                !l.writer && l.readers == 0
            }
            Pend::Read(l) => {
                let l = &*(*l).st.get();
                // a reader queues behind a waiting writer, as in std
                !l.writer && (l.readers == 0 || l.waiting_writers == 0)
            }
            Pend::Sleep(..) => s.threads[i].woken,
            // there is no need to look again before anything changed
            Pend::Nap(t) => t != s.changes,
            Pend::Join(j) => matches!(s.threads[j].pend, Pend::Done),
            Pend::Done => false,
        }
    }
}

/// Who runs next. `me`: the thread that asks.
fn pick(s: &mut State, me: usize) -> Option<usize> {
    s.steps += 1;
    if s.steps > s.max_steps {
        s.end = Some(End::TooLong);
        return None;
    }
    let n = s.threads.len();
    let mut on: Vec<usize> = (0..n).filter(|i| enabled(s, *i)).collect();
    if on.is_empty() {
        // those that gave way go on, before those that wait with a limit time out
        let spun = s.threads.iter().all(|t| t.spun || !t.yielded);
        for t in &mut s.threads {
            t.yielded = false;
            t.spun = false;
        }
        on = (0..n).filter(|i| enabled(s, *i)).collect();
        if on.is_empty() || spun && on.iter().all(|i| s.threads[*i].spins.0 == s.changes && s.threads[*i].spins.1 > 1) {
            // time goes by until one of those asleep has enough
            let asleep: Vec<usize> = (0..n).filter(|i| matches!(s.threads[*i].pend, Pend::Nap(_))).collect();
            if !asleep.is_empty() {
                // another one than the last time
                let k = if s.waited == NOBODY { 0 } else { asleep.iter().position(|i| *i > s.waited).unwrap_or(0) };
                on = asleep;
                on.rotate_left(k);
                s.waits += 1;
                let i = if s.waits > 2 { on[0] } else { choose(s, me, on)? };
                s.waited = i;
                s.threads[i].rush = s.changes;
                s.threads[i].patience = 5000;
                s.threads[i].slept = 2;
                return Some(i);
            }
        }
        if spun && !on.is_empty() {
            // all of them found nothing to do
            return on.iter().copied().find(|i| *i > me).or(Some(on[0]));
        }
        if on.is_empty() {
            on = (0..n).filter(|i| matches!(s.threads[*i].pend, Pend::Sleep(_, true))).collect();
        }
        if on.is_empty() {
            s.end = Some(if s.threads.iter().all(|t| matches!(t.pend, Pend::Done)) { End::Finished } else { End::Deadlock });
            return None;
        }
        // after all gave way, the next in turn
        if on.len() > 1 {
            let k = on.iter().position(|i| *i > me).unwrap_or(0);
            on.rotate_left(k);
        }
    } else if on.len() > 1 {
        // the one that runs first, then the others in turn
        let k = on.iter().position(|i| *i == me).unwrap_or_else(|| on.iter().position(|i| *i > me).unwrap_or(0));
        on.rotate_left(k);
    }
    choose(s, me, on)
}
fn choose(s: &mut State, me: usize, on: Vec<usize>) -> Option<usize> {
    let n = s.threads.len();
    if on.len() == 1 {
        return Some(on[0]);
    }
    let gave_way = me < n && matches!(s.threads[me].pend, Pend::Run);
    let cost = (0..on.len()).map(|k| (k > 0 && gave_way) as u8).collect();
    let at = s.trace.len();
    let chosen = s.plan.get(at).copied().unwrap_or(0).min(on.len() as u8 - 1);
    s.trace.push(Choice { n: on.len() as u8, chosen, cost });
    Some(on[chosen as usize])
}

fn go(next: Option<usize>, myself: usize, last: bool) {
    match next {
        Some(i) if i == myself => (),
        Some(i) => {
            let h = st().threads[i].handle.clone();
            st().switches.push(i as u8);
            CUR.store(i, SeqCst);
            if let Some(h) = h {
                h.unpark();
            }
            if !last {
                wait(myself);
            }
        }
        None => {
            OVER.store(true, SeqCst);
            if let Some(c) = CONTROLLER.lock().unwrap().as_ref() {
                c.unpark();
            }
            if !last {
                // the execution is over; this thread never goes on
                loop {
                    std::thread::park();
                }
            }
        }
    }
}
fn wait(myself: usize) {
    while CUR.load(SeqCst) != myself {
        std::thread::park();
    }
}

fn at_point(p: Pend, gives_way: bool) {
    let m = me();
    let s = st();
    s.threads[m].pend = p;
    s.threads[m].yielded = gives_way;
    s.threads[m].spun = SPUN.with(|x| x.replace(false));
    let n = pick(s, m);
    // whoever moves lets the others that gave way look again
    if let Some(n) = n {
        if n != m {
            for (i, t) in s.threads.iter_mut().enumerate() {
                if i != m {
                    t.yielded = false;
                    t.spun = false;
                }
            }
        }
    }
    go(n, m, false);
    let s = st();
    s.threads[m].pend = Pend::Run;
    s.threads[m].yielded = false;
    s.threads[m].spun = false;
    s.threads[m].woken = false;
    BEGIN.with(|b| {
        if b.get() == usize::MAX {
            b.set(s.steps)
        }
    });
}

/// Another thread may go on here.
pub fn point() {
    if managed() {
        at_point(Pend::Run, false)
    }
}
/// Give way: another thread goes on, if one can.
pub fn give_way() {
    if managed() && !rushes() {
        at_point(Pend::Run, true)
    }
}

/// A lock was taken: nothing changes until another thread goes on.
pub fn spun() {
    if managed() {
        let s = st();
        let t = &mut s.threads[me()];
        t.spins = if t.spins.0 == s.changes { (s.changes, t.spins.1 + 1) } else { (s.changes, 1) };
        if !rushes() {
            SPUN.with(|x| x.set(true));
            at_point(Pend::Run, true)
        }
    }
}
/// It has just slept, and nothing can have changed.
fn rushes() -> bool {
    let s = st();
    let t = &mut s.threads[me()];
    let yes = t.rush == s.changes && t.slept > 0;
    if yes {
        t.slept -= 1;
    }
    yes
}
/// Asleep for some time.
pub fn nap() {
    if managed() {
        let s = st();
        let t = &mut s.threads[me()];
        if t.rush == s.changes && t.patience > 0 {
            t.patience -= 1;
            t.slept = 2;
            return;
        }
        // since it last looked
        let c = if t.spins.0 == u64::MAX { s.changes } else { t.spins.0 };
        at_point(Pend::Nap(c), false);
    }
}
/// Something changed that another thread can see.
pub fn changed() {
    if me() != NOBODY {
        st().changes += 1;
    }
}

impl Raw {
    pub const fn new() -> Raw {
        Raw { st: UnsafeCell::new(RawSt { writer: false, readers: 0, waiting_writers: 0 }) }
    }
    #[allow(clippy::mut_from_ref)]
    fn s(&self) -> &mut RawSt {
        unsafe { &mut *self.st.get() }
    }
    fn blocked(&self, p: Pend) {
        if me() == NOBODY {
            panic!("the only running thread waits for a lock it holds");
        }
        if !managed() {
            panic!("a lock is held across a section without schedule points");
        }
        at_point(p, false);
    }
    pub fn write(&self, with_point: bool) {
        if with_point {
            point();
        }
        if self.s().writer || self.s().readers > 0 {
            self.s().waiting_writers += 1;
            self.blocked(Pend::Write(self));
            self.s().waiting_writers -= 1;
        }
        self.s().writer = true;
        changed();
    }
    pub fn read(&self, with_point: bool) {
        if with_point {
            point();
        }
        if self.s().writer || self.s().waiting_writers > 0 {
            self.blocked(Pend::Read(self));
        }
        self.s().readers += 1;
        changed();
    }
    pub fn try_write(&self, with_point: bool) -> bool {
        if with_point {
            point();
        }
        let free = !self.s().writer && self.s().readers == 0;
        if free {
            self.s().writer = true;
            changed();
        }
        free
    }
    pub fn try_read(&self, with_point: bool) -> bool {
        if with_point {
            point();
        }
        let free = !self.s().writer && self.s().waiting_writers == 0;
        if free {
            self.s().readers += 1;
            changed();
        }
        free
    }
    pub fn unlock_write(&self) {
        self.s().writer = false;
        changed();
    }
    pub fn unlock_read(&self) {
        self.s().readers -= 1;
        changed();
    }
    pub fn is_held(&self) -> bool {
        self.s().writer || self.s().readers > 0
    }
}

/// Sleep until `wake(key)`; the lock is released meanwhile.
pub fn sleep_on(key: usize, lock: &Raw, timeout: bool) -> bool {
    lock.unlock_write();
    let m = me();
    if m == NOBODY {
        panic!("the only running thread waits for a signal");
    }
    st().threads[m].woken = false;
    // woken is cleared when the thread goes on
    let m2 = m;
    let s = st();
    s.threads[m2].pend = Pend::Sleep(key, timeout);
    let n = pick(s, m2);
    go(n, m2, false);
    let woken = std::mem::take(&mut st().threads[m2].woken);
    st().threads[m2].pend = Pend::Run;
    lock.write(false);
    woken
}
pub fn wake(key: usize, all: bool) {
    if me() == NOBODY {
        return;
    }
    for t in st().threads.iter_mut() {
        if matches!(t.pend, Pend::Sleep(k, _) if k == key) && !t.woken {
            t.woken = true;
            if !all {
                break;
            }
        }
    }
}

fn start(i: usize, body: Box<dyn FnOnce() + Send>) -> std::thread::JoinHandle<()> {
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            ME.with(|m| m.set(i));
            wait(i);
            let _ = catch_unwind(AssertUnwindSafe(body));
            let s = st();
            s.threads[i].pend = Pend::Done;
            s.changes += 1;
            let n = pick(s, i);
            ME.with(|m| m.set(NOBODY));
            go(n, i, true);
        })
        .expect("spawn");
    h
}

/// A scheduled thread starts another one.
pub fn spawn(body: Box<dyn FnOnce() + Send>) -> usize {
    let s = st();
    let i = s.threads.len();
    s.threads.push(T { pend: Pend::Run, yielded: false, spun: false, spins: (u64::MAX, 0), rush: u64::MAX, patience: 0, slept: 0, woken: false, handle: None });
    let h = start(i, body);
    st().threads[i].handle = Some(h.thread().clone());
    i
}
pub fn join(i: usize) {
    if managed() {
        at_point(Pend::Join(i), false)
    }
}

pub struct Run {
    pub end: End,
    pub trace: Vec<Choice>,
    pub steps: usize,
    /// which thread was switched to, in order
    pub switches: Vec<u8>,
}

/// One execution of `bodies`, following `plan` and then the default: no preemption.
pub fn execute(bodies: Vec<Box<dyn FnOnce() + Send>>, plan: &[u8], max_steps: usize, detail: bool) -> Run {
    let n = bodies.len();
    let s = State { plan: plan.to_vec(), max_steps, detail, waited: NOBODY, ..Default::default() };
    unsafe { *S.0.get() = Some(s) };
    *CONTROLLER.lock().unwrap() = Some(std::thread::current());
    OVER.store(false, SeqCst);
    CUR.store(NOBODY, SeqCst);
    for _ in 0..n {
        st().threads.push(T { pend: Pend::Run, yielded: false, spun: false, spins: (u64::MAX, 0), rush: u64::MAX, patience: 0, slept: 0, woken: false, handle: None });
    }
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        let h = start(i, b);
        st().threads[i].handle = Some(h.thread().clone());
        hs.push(h);
    }
    // which thread begins is free
    let first = pick(st(), NOBODY);
    if let Some(i) = first {
        let h = st().threads[i].handle.clone();
        st().switches.push(i as u8);
        CUR.store(i, SeqCst);
        h.unwrap().unpark();
        while !OVER.load(SeqCst) {
            std::thread::park();
        }
    }
    let s = unsafe { (*S.0.get()).take() }.unwrap();
    let end = s.end.clone().unwrap_or(End::Deadlock);
    if end == End::Finished {
        for h in hs {
            let _ = h.join();
        }
    } else {
        // the threads stay parked for ever; what they refer to must stay
        unsafe { *S.0.get() = Some(State { threads: s.threads, ..Default::default() }) };
        return Run { end, trace: s.trace, steps: s.steps, switches: s.switches };
    }
    Run { end, trace: s.trace, steps: s.steps, switches: s.switches }
}

/// All executions with at most `bound` preemptions. `run` performs one under a plan and says whether to go on.
/// Gives the number of executions.
pub fn explore(bound: u32, max: u64, mut run: impl FnMut(&[u8]) -> Option<Run>) -> (u64, bool) {
    let mut todo: Vec<Vec<u8>> = vec![vec![]];
    let mut n = 0;
    while let Some(plan) = todo.pop() {
        if n >= max {
            return (n, false);
        }
        n += 1;
        let Some(r) = run(&plan) else { return (n, true) };
        let mut used: u32 = r.trace.iter().take(plan.len()).map(|c| c.cost[c.chosen as usize] as u32).sum();
        for at in plan.len()..r.trace.len() {
            let c = &r.trace[at];
            for alt in 1..c.n {
                if used + c.cost[alt as usize] as u32 <= bound {
                    let mut p: Vec<u8> = r.trace[..at].iter().map(|c| c.chosen).collect();
                    p.push(alt);
                    todo.push(p);
                }
            }
            used += c.cost[c.chosen as usize] as u32;
        }
    }
    (n, true)
}
