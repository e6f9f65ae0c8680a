//! C14: guarded memory.
use crate::lin::{scenario, Bounds, World};
use crate::mem::*;
use mc::*;
use runtime::locked_memory::LockedMemory;
use runtime::memories::buffer::{Buffer, Ref, RefMut};
use runtime::memories::noncontiguous_memory::{NCConfig, NonContiguousMemory};
use runtime::memories::ram_memory::RamMemory;
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use zeroize::Zeroize;

/// Nothing is left allocated and nothing was returned with its content.
fn clean(what: &str) -> Result<(), String> {
    let l = shim_sodium::live();
    if !l.is_empty() {
        return Err(format!("{what}: never released: {l:x?}"));
    }
    let c = complaints();
    if !c.is_empty() {
        return Err(format!("{what}: {}", c.join("; ")));
    }
    Ok(())
}
/// Every guarded allocation is inaccessible.
fn all_locked(what: &str) -> Result<(), String> {
    for (p, n) in shim_sodium::live() {
        if n > 0 {
            let a = access(p, n)?;
            if a != Access::None {
                return Err(format!("{what}: {n} guarded bytes are accessible ({a:?}) with nothing borrowed"));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- one thread

const LEN: usize = 24;
type B = Buffer<u8>;

struct Slot {
    buf: *mut B,
    ptr: usize,
    refs: VecDeque<Ref<'static, u8>>,
    mutable: Option<RefMut<'static, u8>>,
    /// how much memory there is
    len: usize,
    /// the content; empty once zeroed
    val: Vec<u8>,
}
impl std::ops::Drop for Slot {
    fn drop(&mut self) {
        self.mutable.take();
        self.refs.clear();
        unsafe { drop(Box::from_raw(self.buf)) };
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Borrow(usize),
    RefClone(usize),
    DropFirst(usize),
    DropLast(usize),
    BorrowMut(usize),
    Fill(usize),
    DropMut(usize),
    Clone(usize),
    Eq(usize, usize),
    RefEq(usize, usize),
    MutEq(usize, usize),
    Zeroize(usize),
    Drop(usize),
    PanicBorrowed(usize),
    PanicMut(usize),
    PanicDrop(usize),
    Serialize(usize),
    Debug(usize),
    OtherThread(usize),
}
use Op::*;

/// what the histories are explored over: per slot, none or (zeroed, borrows, mutably borrowed, which value)
type Abs = [Option<(bool, usize, bool, u8)>; 2];

const MAX_REFS: usize = 2;
fn possible(a: &Abs) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..2 {
        let Some((zeroed, refs, m, _)) = a[i] else { continue };
        if m {
            if !zeroed {
                v.push(Fill(i));
            }
            v.push(DropMut(i));
            if let Some((_, r, _, _)) = a[1 - i] {
                if r > 0 {
                    v.push(MutEq(i, 1 - i));
                }
            }
            continue;
        }
        if refs < MAX_REFS {
            v.push(Borrow(i));
            if refs > 0 {
                v.push(RefClone(i));
            }
        }
        if refs > 0 {
            v.push(DropFirst(i));
            if refs > 1 {
                v.push(DropLast(i));
            }
        } else {
            v.extend([BorrowMut(i), Zeroize(i), Drop(i), PanicMut(i), PanicDrop(i)]);
        }
        if a[1 - i].is_none() {
            v.push(Clone(i));
        }
        v.extend([Eq(i, i), PanicBorrowed(i), Serialize(i), Debug(i), OtherThread(i)]);
        if let Some((_, r, false, _)) = a[1 - i] {
            v.push(Eq(i, 1 - i));
            if refs > 0 && r > 0 {
                v.push(RefEq(i, 1 - i));
            }
        }
    }
    v
}
fn after(a: &Abs, op: Op) -> Abs {
    let mut a = *a;
    match op {
        Borrow(i) | RefClone(i) => a[i].as_mut().unwrap().1 += 1,
        DropFirst(i) | DropLast(i) => a[i].as_mut().unwrap().1 -= 1,
        BorrowMut(i) => a[i].as_mut().unwrap().2 = true,
        Fill(i) => {
            let s = a[i].as_mut().unwrap();
            s.3 = 3 - s.3;
        }
        DropMut(i) => a[i].as_mut().unwrap().2 = false,
        Clone(i) => a[1 - i] = a[i].map(|(z, _, _, v)| (z, 0, false, v)),
        Zeroize(i) => a[i].as_mut().unwrap().0 = true,
        Drop(i) | PanicDrop(i) => a[i] = None,
        PanicMut(i) => {
            let s = a[i].as_mut().unwrap();
            if !s.0 {
                s.3 = 3 - s.3;
            }
        }
        _ => (),
    }
    a
}
const START: Abs = [Some((false, 0, false, 1)), None];

fn content(v: u8) -> Vec<u8> {
    (0..LEN as u8).map(|i| 0x80 | (v << 5) | i).collect()
}

struct Machine {
    s: [Option<Slot>; 2],
    abs: Abs,
}
fn slot(b: B, val: Vec<u8>) -> Slot {
    let ptr = b.borrow().as_ptr() as usize;
    Slot { buf: Box::into_raw(Box::new(b)), ptr, len: val.len(), refs: VecDeque::new(), mutable: None, val }
}
impl Machine {
    fn new() -> Machine {
        Machine { s: [Some(slot(Buffer::alloc(&content(1), LEN), content(1))), None], abs: START }
    }
    fn buf(&self, i: usize) -> &'static B {
        unsafe { &*self.s[i].as_ref().unwrap().buf }
    }
    fn buf_mut(&self, i: usize) -> &'static mut B {
        unsafe { &mut *self.s[i].as_ref().unwrap().buf }
    }
    fn apply(&mut self, op: Op) -> Result<(), String> {
        let next = after(&self.abs, op);
        let wrong = |what: &str| Err(format!("{op:?}: {what}"));
        match op {
            Borrow(i) => {
                let r = self.buf(i).borrow();
                self.s[i].as_mut().unwrap().refs.push_back(r);
            }
            RefClone(i) => {
                let r = self.s[i].as_ref().unwrap().refs[0].clone();
                self.s[i].as_mut().unwrap().refs.push_back(r);
            }
            DropFirst(i) => drop(self.s[i].as_mut().unwrap().refs.pop_front()),
            DropLast(i) => drop(self.s[i].as_mut().unwrap().refs.pop_back()),
            BorrowMut(i) => {
                let r = self.buf_mut(i).borrow_mut();
                self.s[i].as_mut().unwrap().mutable = Some(r);
            }
            Fill(i) => {
                let c = content(next[i].unwrap().3);
                let s = self.s[i].as_mut().unwrap();
                s.mutable.as_mut().unwrap().copy_from_slice(&c);
                s.val = c;
            }
            DropMut(i) => drop(self.s[i].as_mut().unwrap().mutable.take()),
            Clone(i) => {
                let b = self.buf(i).clone();
                let v = self.s[i].as_ref().unwrap().val.clone();
                let s = slot(b, v);
                if s.ptr == self.s[i].as_ref().unwrap().ptr {
                    return wrong("the clone shares the memory");
                }
                self.s[1 - i] = Some(s);
            }
            Eq(i, j) => {
                if (self.buf(i) == self.buf(j)) != (self.s[i].as_ref().unwrap().val == self.s[j].as_ref().unwrap().val) {
                    return wrong("wrong answer");
                }
            }
            RefEq(i, j) => {
                let (a, b) = (self.s[i].as_ref().unwrap(), self.s[j].as_ref().unwrap());
                if (a.refs[0] == b.refs[0]) != (a.val == b.val) {
                    return wrong("wrong answer");
                }
            }
            MutEq(i, j) => {
                let (a, b) = (self.s[i].as_ref().unwrap(), self.s[j].as_ref().unwrap());
                let m = a.mutable.as_ref().unwrap();
                if (*m == b.refs[0]) != (a.val == b.val) || (b.refs[0] == *m) != (a.val == b.val) || *m != *m {
                    return wrong("wrong answer");
                }
            }
            Zeroize(i) => {
                self.buf_mut(i).zeroize();
                let s = self.s[i].as_mut().unwrap();
                s.val = vec![];
                if s.len > 0 && inside(s.ptr, s.len).iter().any(|x| *x != 0) {
                    return wrong("the content is still there");
                }
            }
            Drop(i) => drop(self.s[i].take()),
            PanicBorrowed(i) => {
                let b = self.buf(i);
                let r = guard(|| {
                    let r = b.borrow();
                    let q = r.clone();
                    if q.len() < 1000 {
                        panic!("on purpose");
                    }
                });
                if r.is_ok() {
                    return wrong("no panic");
                }
            }
            PanicMut(i) => {
                let b = self.buf_mut(i);
                let c = content(next[i].unwrap().3);
                let zeroed = next[i].unwrap().0;
                let _ = guard(|| {
                    let mut r = b.borrow_mut();
                    if !zeroed {
                        r.copy_from_slice(&c);
                    }
                    if r.len() < 1000 {
                        panic!("on purpose");
                    }
                });
                if !zeroed {
                    self.s[i].as_mut().unwrap().val = c;
                }
            }
            PanicDrop(i) => {
                let s = self.s[i].take().unwrap();
                let _ = guard(move || {
                    let s = s;
                    let r = unsafe { &*s.buf }.borrow();
                    if r.len() < 1000 {
                        panic!("on purpose");
                    }
                });
            }
            Serialize(i) => {
                let b = self.buf(i);
                let t = bincode::serialize(b).map_err(|e| e.to_string())?;
                let c: B = bincode::deserialize(&t).map_err(|e| format!("{op:?}: {e}"))?;
                if *c.borrow() != self.s[i].as_ref().unwrap().val[..] {
                    return wrong("other content");
                }
            }
            Debug(i) => {
                let t = format!("{:?}", self.buf(i));
                if t != runtime::DEBUG_MSG {
                    return wrong(&t);
                }
            }
            OtherThread(i) => {
                let b = self.buf(i);
                let v = std::thread::spawn(move || b.borrow().to_vec()).join().map_err(panic_text)?;
                if v != self.s[i].as_ref().unwrap().val {
                    return wrong("other content in another thread");
                }
            }
        }
        self.abs = next;
        self.look(op)
    }
    fn look(&self, op: Op) -> Result<(), String> {
        let mut known = vec![];
        for (i, s) in self.s.iter().enumerate() {
            let Some(s) = s else { continue };
            known.push(s.ptr);
            let want = if s.mutable.is_some() {
                Access::Write
            } else if s.refs.is_empty() {
                Access::None
            } else {
                Access::Read
            };
            let got = if s.len == 0 { want } else { access(s.ptr, s.len).map_err(|e| format!("{op:?}: {e}"))? };
            if got != want {
                return Err(format!("{op:?}: buffer {i} with {} borrows{} is accessible as {got:?}, not {want:?}", s.refs.len(), if s.mutable.is_some() { " and mutably borrowed" } else { "" }));
            }
            for r in s.refs.iter() {
                if **r != s.val[..] {
                    return Err(format!("{op:?}: buffer {i} holds {:x?}, not {:x?}", &**r, s.val));
                }
            }
            if let Some(r) = &s.mutable {
                if **r != s.val[..] {
                    return Err(format!("{op:?}: buffer {i} holds {:x?}, not {:x?}", &**r, s.val));
                }
            }
            let b = self.buf(i);
            if b.len() != s.val.len() || b.is_empty() != s.val.is_empty() || b.size() != s.val.len() {
                return Err(format!("{op:?}: buffer {i} says it has {} elements", b.len()));
            }
        }
        for (p, _) in shim_sodium::live() {
            if !known.contains(&p) {
                return Err(format!("{op:?}: memory nobody refers to is left"));
            }
        }
        let c = complaints();
        if !c.is_empty() {
            return Err(format!("{op:?}: {}", c.join("; ")));
        }
        Ok(())
    }
}

fn history(ops: &[Op]) -> Result<(), String> {
    let r = guard(|| {
        watch();
        let mut m = Machine::new();
        for o in ops {
            if let Err(e) = m.apply(*o) {
                std::mem::forget(m);
                return Err(e);
            }
        }
        drop(m);
        clean("at the end")
    });
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {e}")),
    }
}

/// shortest ways to every abstract state
fn states() -> Vec<(Abs, Vec<Op>)> {
    let mut seen: HashMap<Abs, ()> = HashMap::new();
    let mut q = VecDeque::from([(START, vec![])]);
    let mut out = vec![];
    seen.insert(START, ());
    while let Some((a, path)) = q.pop_front() {
        for op in possible(&a) {
            let b = after(&a, op);
            if seen.insert(b, ()).is_none() {
                let mut p = path.clone();
                p.push(op);
                q.push_back((b, p));
            }
        }
        out.push((a, path));
    }
    out
}
/// all histories that go on from `a` for `depth` more operations
fn extend(a: &Abs, path: &mut Vec<Op>, depth: usize, f: &mut dyn FnMut(&[Op])) {
    let p = possible(a);
    if depth == 0 || p.is_empty() {
        f(path);
        return;
    }
    for op in p {
        path.push(op);
        extend(&after(a, op), path, depth - 1, f);
        path.pop();
    }
}

// ---------------------------------------------------------------- types and lengths

fn lengths<T>(n: usize, make: fn(usize) -> T) -> Result<(), String>
where
    T: runtime::Bytes + Copy + PartialEq + std::fmt::Debug + Default + serde::Serialize + serde::de::DeserializeOwned,
{
    let size = n * std::mem::size_of::<T>();
    let val: Vec<T> = (0..n).map(make).collect();
    let check = |b: &Buffer<T>, val: &[T], what: &str| -> Result<(), String> {
        let r = b.borrow();
        let p = r.as_ptr() as usize;
        if *r != *val {
            return Err(format!("{what}: other content"));
        }
        if size > 0 && access(p, size)? != Access::Read {
            return Err(format!("{what}: borrowed, but accessible as {:?}", access(p, size)?));
        }
        drop(r);
        if size > 0 && access(p, size)? != Access::None {
            return Err(format!("{what}: accessible as {:?} after the borrow", access(p, size)?));
        }
        if b.len() != n || b.size() != size || b.is_empty() != (n == 0) {
            return Err(format!("{what}: wrong size"));
        }
        Ok(())
    };
    watch();
    {
        let a: Buffer<T> = Buffer::alloc(&val, n);
        check(&a, &val, "new")?;
        let mut b = a.clone();
        check(&b, &val, "clone")?;
        if a != b {
            return Err("the clone is different".into());
        }
        if n > 0 {
            let mut v = val.clone();
            {
                let mut r = b.borrow_mut();
                r[n - 1] = T::default();
                let p = r.as_ptr() as usize;
                if access(p, size)? != Access::Write {
                    return Err("mutably borrowed, but not writable".into());
                }
            }
            v[n - 1] = T::default();
            check(&b, &v, "changed")?;
            check(&a, &val, "the other one")?;
            if a == b {
                return Err("a difference in the last element is not seen".into());
            }
            {
                let mut r = b.borrow_mut();
                r.copy_from_slice(&val);
                r[0] = T::default();
            }
            if a == b {
                return Err("a difference in the first element is not seen".into());
            }
        }
        let c: Buffer<T> = bincode::deserialize(&bincode::serialize(&a).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        check(&c, &val, "deserialised")?;
        if n > 0 {
            let mut src = val.clone();
            let d: Buffer<T> = Buffer::from(&mut src[..]);
            if src.iter().any(|x| *x != T::default()) {
                return Err("the source is not overwritten".into());
            }
            check(&d, &val, "taken over")?;
            let z: Buffer<T> = Buffer::zero(n);
            check(&z, &vec![T::default(); n], "zero")?;
        }
        let short = guard(|| Buffer::<T>::alloc(&val, n + 1));
        if let Ok(b) = short {
            if b.borrow()[..n] != val[..] {
                return Err("a longer buffer with other content".into());
            }
        }
    }
    clean("at the end")
}

/// comparisons of contents of which one may be the beginning of the other
fn compare(n: usize, m: usize, differ: Option<usize>) -> Result<(), String> {
    watch();
    {
        let v: Vec<u8> = (0..n.max(m)).map(|i| 0x80 | (i % 101) as u8).collect();
        let mut w = v[..m].to_vec();
        if let Some(d) = differ {
            w[d] ^= 1;
        }
        let v = v[..n].to_vec();
        let want = v == w;
        let (mut a, b): (B, B) = (Buffer::alloc(&v, n), Buffer::alloc(&w, m));
        if (a == b) != want || (b == a) != want {
            return Err("buffers: wrong answer".into());
        }
        {
            let (x, y) = (a.borrow(), b.borrow());
            if (x == y) != want || (y == x) != want {
                return Err("borrowed: wrong answer".into());
            }
        }
        {
            let (x, y) = (a.borrow_mut(), b.borrow());
            if (x == y) != want || (y == x) != want {
                return Err("borrowed mutably: wrong answer".into());
            }
        }
        all_locked("after the comparison")?;
    }
    clean("at the end")
}

fn many(n: usize) -> Result<(), String> {
    watch();
    {
        let b: B = Buffer::alloc(&content(1), LEN);
        let mut v = vec![];
        for k in 0..n {
            match guard(|| if k % 2 == 0 || v.is_empty() { b.borrow() } else { Ref::clone(&v[0]) }) {
                Ok(r) => v.push(r),
                // more borrows than can be counted
                Err(_) if k >= 255 => (),
                Err(e) => return Err(format!("borrow {}: {e}", k + 1)),
            }
        }
        let p = v[0].as_ptr() as usize;
        while let Some(r) = v.pop() {
            if *r != content(1)[..] || access(p, LEN)? != Access::Read {
                return Err(format!("with {} more borrows: {:x?}, accessible as {:?}", v.len(), &*r, access(p, LEN)?));
            }
        }
        if access(p, LEN)? != Access::None {
            return Err("accessible after the last borrow".into());
        }
        let c = b.clone();
        if *c.borrow() != content(1)[..] || c != b {
            return Err("other content afterwards".into());
        }
    }
    clean("at the end")
}

// ---------------------------------------------------------------- key memory

#[derive(Clone, Copy, Debug)]
enum K {
    Unlock,
    Keep,
    Clone,
    Update,
    Serialize,
    Swap,
    Zeroize,
}
const KS: [K; 7] = [K::Unlock, K::Keep, K::Clone, K::Update, K::Serialize, K::Swap, K::Zeroize];

fn keys<M: LockedMemory + serde::Serialize + serde::de::DeserializeOwned>(make: &dyn Fn(&[u8]) -> M, ops: &[K]) -> Result<(), String> {
    watch();
    {
        let mut m = [Some((make(&[0x91; 32]), 0x91u8)), None];
        let mut kept: Option<(Buffer<u8>, u8)> = None;
        for (n, o) in ops.iter().enumerate() {
            let wrong = |e: &dyn std::fmt::Debug| format!("{o:?}: {e:?}");
            match o {
                K::Unlock | K::Keep => {
                    if let Some((x, v)) = &m[0] {
                        match x.unlock() {
                            Ok(b) => {
                                if *b.borrow() != [*v; 32] {
                                    return Err(wrong(&"other content"));
                                }
                                if matches!(o, K::Keep) {
                                    kept = Some((b, *v));
                                }
                            }
                            Err(e) if *v != 0 => return Err(wrong(&e)),
                            Err(_) => (),
                        }
                    }
                }
                K::Clone => m[1] = m[0].as_ref().filter(|(_, v)| *v != 0).map(|(x, v)| (x.clone(), *v)),
                K::Update => {
                    let v = 0xa0 + n as u8;
                    if let Some((x, old)) = m[0].take() {
                        if old != 0 {
                            m[0] = Some((x.update(Buffer::alloc(&[v; 32], 32), 32).map_err(|e| wrong(&e))?, v));
                        }
                    }
                }
                K::Serialize => {
                    if let Some((x, v)) = &m[0] {
                        if *v != 0 {
                            let t = bincode::serialize(x).map_err(|e| wrong(&e))?;
                            m[1] = Some((bincode::deserialize(&t).map_err(|e| wrong(&e))?, *v));
                        }
                    }
                }
                K::Swap => m.swap(0, 1),
                K::Zeroize => {
                    if let Some((x, v)) = &mut m[0] {
                        x.zeroize();
                        *v = 0;
                    }
                }
            }
            if let Some((b, v)) = &kept {
                if *b.borrow() != [*v; 32] {
                    return Err(wrong(&"the copy that was kept has changed"));
                }
            }
            all_locked(&format!("{o:?}"))?;
        }
    }
    clean("at the end")
}

// ---------------------------------------------------------------- several threads

#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Read(usize),
    Nested(usize),
    Crossed,
    Clone(usize),
    Eq,
    EqSelf(usize),
    Panic(usize),
    Serialize(usize),
    DropMine,
}

#[derive(Clone)]
struct W {
    b: Arc<[B; 2]>,
    at: [usize; 2],
    busy: Arc<AtomicUsize>,
}
fn world() -> W {
    let b = [Buffer::alloc(&content(1), LEN), Buffer::alloc(&content(2), LEN)];
    let at = [b[0].borrow().as_ptr() as usize, b[1].borrow().as_ptr() as usize];
    watch();
    W { b: Arc::new(b), at, busy: Arc::default() }
}
impl W {
    /// through the borrow, without faulting if it is not there
    fn see(&self, r: &Ref<'_, u8>, i: usize) -> String {
        let a = match access(self.at[i], LEN) {
            Ok(a) => a,
            Err(e) => return e,
        };
        if a != Access::Read || r.as_ptr() as usize != self.at[i] {
            return format!("borrowed, but accessible as {a:?}");
        }
        if **r == content(i as u8 + 1)[..] { "right".into() } else { format!("{:x?}", &**r) }
    }
    fn own(&self, c: &B, i: usize) -> String {
        let r = c.borrow();
        let p = r.as_ptr() as usize;
        let s = format!("{} {:?}", *r == content(i as u8 + 1)[..], access(p, LEN));
        drop(r);
        format!("{s} {:?} {}", access(p, LEN), self.at.contains(&p))
    }
}
impl World for W {
    type Op = T;
    type Local = ();
    fn steps(_: &T) -> usize {
        1
    }
    fn step(&self, _: &T, _: usize, _: &mut ()) -> Option<String> {
        unreachable!()
    }
    fn call(&self, op: &T) -> String {
        self.busy.fetch_add(1, SeqCst);
        let out = match *op {
            T::Read(i) => self.see(&self.b[i].borrow(), i),
            T::Nested(i) => {
                let r = self.b[i].borrow();
                let a = self.see(&r, i);
                let q = r.clone();
                drop(r);
                let b = self.see(&q, i);
                format!("{a} {b}")
            }
            T::Crossed => {
                let r = self.b[0].borrow();
                let q = self.b[1].borrow();
                let same = r == q;
                drop(r);
                format!("{same} {}", self.see(&q, 1))
            }
            T::Clone(i) => self.own(&self.b[i].clone(), i),
            T::Eq => format!("{}", self.b[0] == self.b[1]),
            T::EqSelf(i) => format!("{}", self.b[i] == self.b[i]),
            T::Panic(i) => format!("{:?}", guard(|| {
                let r = self.b[i].borrow();
                if r.len() < 1000 {
                    panic!("on purpose");
                }
            })),
            T::Serialize(i) => {
                let t = bincode::serialize(&self.b[i]).unwrap();
                let c: B = bincode::deserialize(&t).unwrap();
                self.own(&c, i)
            }
            T::DropMine => {
                // the buffer itself goes with the last one
                drop(self.b.clone());
                String::new()
            }
        };
        if self.busy.fetch_sub(1, SeqCst) == 1 {
            if let Err(e) = all_locked("between the calls") {
                return format!("{out}, then {e}");
            }
        }
        out
    }
    fn last(&self) -> String {
        let mut s = format!("{:?}", all_locked("at the end"));
        for i in 0..2 {
            s += &format!(" {}", self.see(&self.b[i].borrow(), i));
        }
        s += &format!(" {:?} {:?}", all_locked("after a look"), complaints());
        s
    }
}

pub fn run(tier: &str) -> i32 {
    let mut r = Report::new("C14", tier, "model_checking");
    let t = r.thorough();
    let st = states();
    let edges: Vec<Vec<Op>> = st.iter().flat_map(|(a, p)| possible(a).into_iter().map(move |o| [p.clone(), vec![o]].concat())).collect();
    r.set("abstract states", st.len() as u64);
    r.set("transitions", edges.len() as u64);
    let one = |ops: &[Op], out: &mut Outcome| {
        out.count("histories", 1);
        out.count("operations", ops.len() as u64);
        if let Err(e) = history(ops) {
            out.fail(format!("{:?}: {}", ops.last(), first_line(&e)), format!("{ops:?}: {e}"));
        }
    };
    r.absorb("state graph", run_cases(edges.len() as u64, 60, &|i, out| {
        out.see(&edges[i as usize]);
        one(&edges[i as usize], out)
    }, &|i| format!("{:?}", edges[i as usize])));
    let depth = if t { 6 } else { 5 };
    let mut starts: Vec<(Abs, Vec<Op>)> = vec![];
    for a in possible(&START) {
        for b in possible(&after(&START, a)) {
            starts.push((after(&after(&START, a), b), vec![a, b]));
        }
    }
    r.absorb("histories", run_cases(starts.len() as u64, 300, &|i, out| {
        let (a, p) = &starts[i as usize];
        out.see(p);
        extend(a, &mut p.clone(), depth - 2, &mut |ops| one(ops, out));
    }, &|i| format!("{:?} and what follows", starts[i as usize].1)));
    // the states again, with everything that can follow for a while
    let follow = if t { 3 } else { 2 };
    r.absorb("from every state", run_cases(st.len() as u64, 300, &|i, out| {
        let (a, p) = &st[i as usize];
        out.see(a);
        extend(a, &mut p.clone(), follow, &mut |ops| one(ops, out));
    }, &|i| format!("{:?} and what follows", st[i as usize].1)));

    let mut lens: Vec<usize> = (0..=72).collect();
    lens.extend([127, 128, 255, 256, 257, 1000, 4063, 4064, 4065, 4079, 4080, 4081, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]);
    if t {
        lens.extend(73..=520);
        lens.extend(4040..4120);
        lens.extend([1 << 20, (1 << 20) + 1, 10_000_000]);
    }
    let kinds = ["u8", "u16", "u32", "u64", "u128", "[u8; 32]", "[u16; 3]"];
    r.absorb("types and lengths", run_cases((lens.len() * kinds.len()) as u64, 120, &|i, out| {
        let (n, k) = (lens[i as usize / kinds.len()], i as usize % kinds.len());
        out.see(&i);
        fn by(i: usize) -> u8 {
            0x80 | (i % 97) as u8
        }
        let e = guard(|| match k {
            0 => lengths::<u8>(n, by),
            1 => lengths::<u16>(n, |i| u16::from_ne_bytes([by(i); 2])),
            2 => lengths::<u32>(n, |i| u32::from_ne_bytes([by(i); 4])),
            3 => lengths::<u64>(n, |i| u64::from_ne_bytes([by(i); 8])),
            4 => lengths::<u128>(n, |i| u128::from_ne_bytes([by(i); 16])),
            5 => lengths::<[u8; 32]>(n, |i| [by(i); 32]),
            _ => lengths::<[u16; 3]>(n, |i| [u16::from_ne_bytes([by(i); 2]); 3]),
        });
        if let Err(e) = e.unwrap_or_else(|e| Err(format!("panic: {e}"))) {
            out.fail(format!("{}: {}", kinds[k], first_line(&e)), format!("{n} elements of {}: {e}", kinds[k]));
        }
    }, &|i| format!("{} elements of {}", lens[i as usize / kinds.len()], kinds[i as usize % kinds.len()])));
    let cl: Vec<usize> = (0..=34).chain([4064, 4080, 4095, 4096, 4097, 8192]).collect();
    let mut cmp: Vec<(usize, usize, Option<usize>)> = vec![];
    for a in &cl {
        for b in &cl {
            if (*a > 100 || *b > 100) && *a != *b && *a > 20 && *b > 20 && a.abs_diff(*b) > 40 {
                continue;
            }
            cmp.push((*a, *b, None));
            let m = *b.min(a);
            let mut at: Vec<usize> = if m <= 34 { (0..m).collect() } else { vec![0, 1, 15, 16, 31, 32, m / 2, m - 1] };
            at.retain(|d| *d < m);
            cmp.extend(at.into_iter().map(|d| (*a, *b, Some(d))));
        }
    }
    r.absorb("comparisons", run_cases(cmp.len() as u64, 60, &|i, out| {
        let (a, b, d) = cmp[i as usize];
        out.see(&i);
        if let Err(e) = guard(|| compare(a, b, d)).unwrap_or_else(|e| Err(format!("panic: {e}"))) {
            out.fail(format!("comparing: {}", first_line(&e)), format!("{a} bytes with {b} bytes, the same but for {d:?}: {e}"));
        }
    }, &|i| format!("{:?}", cmp[i as usize])));
    r.absorb("many borrows", run_cases(300, 60, &|i, out| {
        out.see(&i);
        if let Err(e) = guard(|| many(i as usize + 1)).unwrap_or_else(|e| Err(format!("panic: {e}"))) {
            out.fail(format!("many borrows: {}", first_line(&e)), format!("{} borrows: {e}", i + 1));
        }
    }, &|i| format!("{} borrows", i + 1)));

    let d = if t { 6 } else { 4 };
    let n = KS.len().pow(d as u32) as u64;
    r.absorb("key memory", run_cases(2 * n, 60, &|i, out| {
        let ops: Vec<K> = digits(i % n, KS.len() as u64, d).into_iter().map(|k| KS[k]).collect();
        out.see(&i);
        let e = guard(|| match i / n {
            0 => keys::<RamMemory>(&|v| RamMemory::alloc(v, 32).unwrap(), &ops),
            _ => keys::<NonContiguousMemory>(&|v| NonContiguousMemory::alloc(v, 32, NCConfig::FullRam).unwrap(), &ops),
        });
        let kind = ["RamMemory", "NonContiguousMemory"][(i / n) as usize];
        if let Err(e) = e.unwrap_or_else(|e| Err(format!("panic: {e}"))) {
            out.fail(format!("{kind}: {}", first_line(&e)), format!("{kind}: {ops:?}: {e}"));
        }
    }, &|i| format!("{:?}", digits(i % n, KS.len() as u64, d))));

    let ts = [T::Read(0), T::Nested(0), T::Crossed, T::Clone(0), T::Eq, T::EqSelf(0), T::Panic(0), T::Serialize(0), T::Read(1), T::Clone(1), T::DropMine];
    // calls that allocate have many points
    let big = |x: T| matches!(x, T::Clone(_) | T::Serialize(_)) as u32;
    let mut all: Vec<(Vec<Vec<T>>, u32)> = vec![];
    for a in 0..ts.len() {
        for b in a..ts.len() {
            all.push((vec![vec![ts[a]], vec![ts[b]]], 3 + t as u32 - (big(ts[a]) + big(ts[b])).min(1)));
        }
    }
    let few = [T::Read(0), T::Nested(0), T::Clone(0), T::Eq, T::Panic(0)];
    for a in few {
        for b in few {
            for c in few {
                all.push((vec![vec![a, b], vec![c]], 2 + t as u32 - (big(a) + big(b) + big(c)).min(1)));
            }
        }
    }
    for a in 0..few.len() {
        for b in a..few.len() {
            for c in b..few.len() {
                all.push((vec![vec![few[a]], vec![few[b]], vec![few[c]]], 1 + t as u32));
            }
        }
    }
    r.absorb("schedules", run_cases(all.len() as u64, 300, &|i, out| {
        let (threads, bound) = &all[i as usize];
        scenario(out, "two buffers", Arc::new(world), threads, &Bounds { preemptions: *bound, executions: 2_000_000, steps: 20_000, detail: true, weak: false });
    }, &|i| crate::lin::show(&all[i as usize].0)));
    r.set("bounds", serde_json::json!({
        "depth of all histories from the beginning": depth, "operations after every abstract state": follow,
        "element types": kinds, "pairs compared": cmp.len(), "lengths": lens.len(), "operations on key memory": d, "scenarios of two or three threads": all.len(),
    }));
    r.finish()
}
