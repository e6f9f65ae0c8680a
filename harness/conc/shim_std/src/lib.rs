//! Everything in std, with the parts through which threads meet replaced by stand-ins that hand every decision to
//! the scheduler.
#![allow(clippy::all)]
pub use std::*;

fn on() -> bool {
    if cfg!(feature = "rt") { sched::detail() } else { sched::managed() }
}
fn point() {
    if on() {
        sched::point()
    }
}

fn change() {
    point();
    sched::changed();
}

/// is there a point at this object?
fn at(o: &sched::Owner) -> bool {
    if cfg!(feature = "rt") { !o.private() && on() } else { on() }
}

fn spun(o: &sched::Owner) {
    if at(o) {
        sched::spun()
    }
}

/// Hash tables whose order the harness decides, as far as registered addresses are concerned.
#[cfg(feature = "tables")]
pub mod collections {
    pub use self::tables::{HashMap, HashSet};
    pub use std::collections::*;
    pub mod hash_map {
        pub use super::tables::HashMap;
        pub use std::collections::hash_map::*;
    }
    pub mod hash_set {
        pub use super::tables::HashSet;
        pub use std::collections::hash_set::*;
    }
    mod tables;
    pub use self::tables::{order, place};
}

pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        if sched::managed() {
            sched::give_way()
        } else {
            std::hint::spin_loop()
        }
    }
}

pub mod cell {
    pub use std::cell::*;
    #[derive(Default)]
    pub struct Cell<T: ?Sized>(sched::Owner, std::cell::Cell<T>);
    impl<T: ?Sized> Cell<T> {
        fn point(&self) {
            if super::at(&self.0) {
                sched::point()
            }
        }
    }
    impl<T> Cell<T> {
        pub const fn new(t: T) -> Self {
            Cell(sched::Owner::new(), std::cell::Cell::new(t))
        }
        pub fn set(&self, t: T) {
            self.point();
            self.1.set(t)
        }
        pub fn replace(&self, t: T) -> T {
            self.point();
            self.1.replace(t)
        }
        pub fn swap(&self, o: &Self) {
            self.point();
            self.1.swap(&o.1)
        }
        pub fn into_inner(self) -> T {
            self.1.into_inner()
        }
    }
    impl<T: Copy> Cell<T> {
        pub fn get(&self) -> T {
            self.point();
            self.1.get()
        }
        pub fn update(&self, f: impl FnOnce(T) -> T) {
            self.point();
            self.1.set(f(self.1.get()))
        }
    }
    impl<T: Default> Cell<T> {
        pub fn take(&self) -> T {
            self.point();
            self.1.take()
        }
    }
    impl<T: ?Sized> Cell<T> {
        pub fn get_mut(&mut self) -> &mut T {
            self.1.get_mut()
        }
        pub const fn as_ptr(&self) -> *mut T {
            self.1.as_ptr()
        }
    }
    impl<T: Copy + std::fmt::Debug> std::fmt::Debug for Cell<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.1.fmt(f)
        }
    }
    impl<T: Copy> Clone for Cell<T> {
        fn clone(&self) -> Self {
            Cell::new(self.get())
        }
    }
    impl<T: PartialEq + Copy> PartialEq for Cell<T> {
        fn eq(&self, o: &Self) -> bool {
            self.get() == o.get()
        }
    }
    impl<T: Eq + Copy> Eq for Cell<T> {}
    impl<T> From<T> for Cell<T> {
        fn from(t: T) -> Self {
            Cell::new(t)
        }
    }
}

pub mod thread {
    pub use std::thread::*;
    /// outside of an execution there is nobody to wait for
    pub fn sleep(_: std::time::Duration) {
        sched::nap()
    }
    pub fn yield_now() {
        if sched::managed() {
            sched::give_way()
        } else {
            std::thread::yield_now()
        }
    }
    pub enum JoinHandle<T> {
        Real(std::thread::JoinHandle<T>),
        Ours(usize, std::sync::Arc<std::sync::Mutex<Option<std::thread::Result<T>>>>),
    }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if !sched::managed() {
            return JoinHandle::Real(std::thread::spawn(f));
        }
        let out = std::sync::Arc::new(std::sync::Mutex::new(None));
        let o = out.clone();
        let i = sched::spawn(Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            *o.lock().unwrap() = Some(r);
        }));
        JoinHandle::Ours(i, out)
    }
    impl<T> JoinHandle<T> {
        pub fn join(self) -> std::thread::Result<T> {
            match self {
                JoinHandle::Real(h) => h.join(),
                JoinHandle::Ours(i, o) => {
                    sched::join(i);
                    let r = o.lock().unwrap().take();
                    r.expect("joined before the end")
                }
            }
        }
    }
}

pub mod sync {
    pub use std::sync::*;
    use sched::Raw;
    use std::cell::UnsafeCell;
    use std::fmt;
    use std::marker::PhantomData;
    use std::ops::{Deref, DerefMut};
    use std::sync::atomic::{AtomicBool as RealBool, Ordering::SeqCst};

    pub struct Mutex<T: ?Sized> {
        owner: sched::Owner,
        raw: Raw,
        poison: RealBool,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
    impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized + 'a> {
        lock: &'a Mutex<T>,
        panicking: bool,
        _p: PhantomData<*const ()>,
    }
    unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { owner: sched::Owner::new(), raw: Raw::new(), poison: RealBool::new(false), data: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            let p = self.poison.load(SeqCst);
            let d = self.data.into_inner();
            if p { Err(PoisonError::new(d)) } else { Ok(d) }
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
            let g = MutexGuard { lock: self, panicking: std::thread::panicking(), _p: PhantomData };
            if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            self.raw.write(super::at(&self.owner));
            self.guard()
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if self.raw.try_write(super::at(&self.owner)) { Ok(self.guard()?) } else { super::spun(&self.owner); Err(TryLockError::WouldBlock) }
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(SeqCst)
        }
        pub fn clear_poison(&self) {
            self.poison.store(false, SeqCst)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            let p = self.poison.load(SeqCst);
            let d = self.data.get_mut();
            if p { Err(PoisonError::new(d)) } else { Ok(d) }
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if self.raw.is_held() {
                f.write_str("Mutex { data: <locked> }")
            } else {
                f.debug_struct("Mutex").field("data", &unsafe { &*self.data.get() }).finish()
            }
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.lock.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.lock.data.get() }
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if !self.panicking && std::thread::panicking() {
                self.lock.poison.store(true, SeqCst);
            }
            self.lock.raw.unlock_write();
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    pub struct RwLock<T: ?Sized> {
        owner: sched::Owner,
        raw: Raw,
        poison: RealBool,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
    impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
        lock: &'a RwLock<T>,
        _p: PhantomData<*const ()>,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
        lock: &'a RwLock<T>,
        panicking: bool,
        _p: PhantomData<*const ()>,
    }
    unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { owner: sched::Owner::new(), raw: Raw::new(), poison: RealBool::new(false), data: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            let p = self.poison.load(SeqCst);
            let d = self.data.into_inner();
            if p { Err(PoisonError::new(d)) } else { Ok(d) }
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            let g = RwLockReadGuard { lock: self, _p: PhantomData };
            if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            let g = RwLockWriteGuard { lock: self, panicking: std::thread::panicking(), _p: PhantomData };
            if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            self.raw.read(super::at(&self.owner));
            self.rguard()
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            self.raw.write(super::at(&self.owner));
            self.wguard()
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            if self.raw.try_read(super::at(&self.owner)) { Ok(self.rguard()?) } else { super::spun(&self.owner); Err(TryLockError::WouldBlock) }
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            if self.raw.try_write(super::at(&self.owner)) { Ok(self.wguard()?) } else { super::spun(&self.owner); Err(TryLockError::WouldBlock) }
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(SeqCst)
        }
        pub fn clear_poison(&self) {
            self.poison.store(false, SeqCst)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            let p = self.poison.load(SeqCst);
            let d = self.data.get_mut();
            if p { Err(PoisonError::new(d)) } else { Ok(d) }
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if self.raw.is_held() {
                f.write_str("RwLock { data: <locked> }")
            } else {
                f.debug_struct("RwLock").field("data", &unsafe { &*self.data.get() }).finish()
            }
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.lock.data.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.lock.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.lock.data.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.lock.raw.unlock_read();
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            if !self.panicking && std::thread::panicking() {
                self.lock.poison.store(true, SeqCst);
            }
            self.lock.raw.unlock_write();
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    #[derive(Default, Debug)]
    pub struct Condvar {
        _k: u8,
    }
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { _k: 0 }
        }
        fn key(&self) -> usize {
            self as *const _ as usize
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            sched::sleep_on(self.key(), &g.lock.raw, false);
            if g.lock.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _d: std::time::Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let woken = sched::sleep_on(self.key(), &g.lock.raw, true);
            if g.lock.poison.load(SeqCst) { Err(PoisonError::new((g, WaitTimeoutResult(!woken)))) } else { Ok((g, WaitTimeoutResult(!woken))) }
        }
        pub fn notify_one(&self) {
            sched::wake(self.key(), false)
        }
        pub fn notify_all(&self) {
            sched::wake(self.key(), true)
        }
    }

    pub mod atomic {
        pub use std::sync::atomic::*;
        use std::sync::atomic as real;
        macro_rules! int {
            ($($n:ident $t:ty),*) => { $(
                #[derive(Default)]
                pub struct $n(real::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self { $n(real::$n::new(v)) }
                    pub fn load(&self, _: Ordering) -> $t { super::super::point(); self.0.load(Ordering::SeqCst) }
                    pub fn store(&self, v: $t, _: Ordering) { super::super::change(); self.0.store(v, Ordering::SeqCst) }
                    pub fn swap(&self, v: $t, _: Ordering) -> $t { super::super::change(); self.0.swap(v, Ordering::SeqCst) }
                    pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { super::super::change(); self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { super::super::change(); self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) }
                    pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { super::super::change(); self.0.fetch_add(v, Ordering::SeqCst) }
                    pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { super::super::change(); self.0.fetch_sub(v, Ordering::SeqCst) }
                    pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { super::super::change(); self.0.fetch_max(v, Ordering::SeqCst) }
                    pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { super::super::change(); self.0.fetch_min(v, Ordering::SeqCst) }
                    pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { super::super::change(); self.0.fetch_and(v, Ordering::SeqCst) }
                    pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { super::super::change(); self.0.fetch_or(v, Ordering::SeqCst) }
                    pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { super::super::change(); self.0.fetch_xor(v, Ordering::SeqCst) }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, f: F) -> Result<$t, $t> { super::super::change(); self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f) }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                }
                impl From<$t> for $n { fn from(v: $t) -> Self { $n::new(v) } }
                impl std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
            )* };
        }
        int!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU16 u16, AtomicU8 u8);
        #[derive(Default)]
        pub struct AtomicBool(real::AtomicBool);
        impl AtomicBool {
            pub const fn new(v: bool) -> Self { AtomicBool(real::AtomicBool::new(v)) }
            pub fn load(&self, _: Ordering) -> bool { super::super::point(); self.0.load(Ordering::SeqCst) }
            pub fn store(&self, v: bool, _: Ordering) { super::super::change(); self.0.store(v, Ordering::SeqCst) }
            pub fn swap(&self, v: bool, _: Ordering) -> bool { super::super::change(); self.0.swap(v, Ordering::SeqCst) }
            pub fn compare_exchange(&self, a: bool, b: bool, _: Ordering, _: Ordering) -> Result<bool, bool> { super::super::change(); self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) }
            pub fn compare_exchange_weak(&self, a: bool, b: bool, _: Ordering, _: Ordering) -> Result<bool, bool> { super::super::change(); self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) }
            pub fn fetch_and(&self, v: bool, _: Ordering) -> bool { super::super::change(); self.0.fetch_and(v, Ordering::SeqCst) }
            pub fn fetch_or(&self, v: bool, _: Ordering) -> bool { super::super::change(); self.0.fetch_or(v, Ordering::SeqCst) }
            pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool { super::super::change(); self.0.fetch_xor(v, Ordering::SeqCst) }
            pub fn get_mut(&mut self) -> &mut bool { self.0.get_mut() }
            pub fn into_inner(self) -> bool { self.0.into_inner() }
        }
        impl From<bool> for AtomicBool { fn from(v: bool) -> Self { AtomicBool::new(v) } }
        impl std::fmt::Debug for AtomicBool { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
    }
}

mod serial {
    use super::cell::Cell;
    use super::sync::{Mutex, RwLock};
    use serde::{de::Deserializer, ser::Error, ser::Serializer, Deserialize, Serialize};
    impl<T: ?Sized + Serialize> Serialize for RwLock<T> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.read().map_err(|_| S::Error::custom("lock poison error while serializing"))?.serialize(s)
        }
    }
    impl<'de, T: Deserialize<'de>> Deserialize<'de> for RwLock<T> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            T::deserialize(d).map(RwLock::new)
        }
    }
    impl<T: ?Sized + Serialize> Serialize for Mutex<T> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.lock().map_err(|_| S::Error::custom("lock poison error while serializing"))?.serialize(s)
        }
    }
    impl<'de, T: Deserialize<'de>> Deserialize<'de> for Mutex<T> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            T::deserialize(d).map(Mutex::new)
        }
    }
    impl<T: Serialize + Copy> Serialize for Cell<T> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.get().serialize(s)
        }
    }
    impl<'de, T: Deserialize<'de>> Deserialize<'de> for Cell<T> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            T::deserialize(d).map(Cell::new)
        }
    }
}
