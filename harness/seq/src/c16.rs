//! C16: secrets in file memory: content, permissions, no plain bytes at rest, clean-up; under every history, every
//! single failing file call, and every schedule of two threads that share a secret.
use crate::fsx::{self, Fault, Op as FOp};
use engine::runtime::{
    locked_memory::LockedMemory,
    memories::{buffer::Buffer, file_memory::FileMemory},
};
use mc::*;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use zeroize::Zeroize;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Alloc(usize),
    Unlock(usize),
    Clone(usize),
    Update(usize, usize),
    Zeroize(usize),
    Drop(usize),
    /// serialise and deserialise into a new secret
    Serde(usize),
    /// drop while a panic unwinds
    Unwind(usize),
}
use Op::*;

/// distinct, without repeating windows
fn secret(k: usize, size: usize) -> Vec<u8> {
    let mut x = 0x9E3779B9u32.wrapping_mul(k as u32 + 1);
    (0..size)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            (x >> 11) as u8
        })
        .collect()
}

struct World {
    dir: Scratch,
    sizes: Vec<usize>,
    /// the secret and what it should read as; None: zeroized
    slots: Vec<Option<(FileMemory, Option<(usize, usize)>)>>,
    made: usize,
    values: Vec<Vec<u8>>,
    /// slots whose file may be unlocked because a call that locks it has failed
    loose: Vec<usize>,
    /// files that may be left behind because removing them has failed
    left: usize,
}

fn read(fm: &FileMemory) -> Result<Vec<u8>, String> {
    match guard(|| fm.unlock().map(|b| b.borrow().to_vec())) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

impl World {
    fn new(sizes: &[usize]) -> World {
        let dir = Scratch::new("c16");
        std::env::set_var("XDG_DATA_HOME", dir.path());
        std::env::set_var("HOME", dir.path());
        World { dir, sizes: sizes.to_vec(), slots: vec![], made: 0, values: vec![], loose: vec![], left: 0 }
    }
    fn value(&mut self, s: usize) -> (usize, Vec<u8>) {
        let v = secret(self.made, self.sizes[s]);
        self.made += 1;
        self.values.push(v.clone());
        (self.values.len() - 1, v)
    }
    fn applies(&self, op: Op) -> bool {
        match op {
            Alloc(_) => self.slots.len() < 3,
            Unlock(i) | Zeroize(i) | Drop(i) | Update(i, _) | Unwind(i) => matches!(self.slots.get(i), Some(Some(_))),
            Clone(i) | Serde(i) => self.slots.len() < 3 && matches!(self.slots.get(i), Some(Some((_, Some(_))))),
        }
    }
    /// `faults`: calls may fail. Gives what the caller saw.
    fn apply(&mut self, op: Op, faults: bool) -> Result<(), String> {
        let may = |bad: String| if faults { Ok(()) } else { Err(bad) };
        match op {
            Alloc(s) => {
                let (k, v) = self.value(s);
                match guard(|| FileMemory::alloc(&v, v.len())) {
                    Ok(Ok(f)) => self.slots.push(Some((f, Some((k, s))))),
                    Ok(Err(e)) => return may(format!("alloc fails: {e}")),
                    Err(p) => return Err(format!("alloc panics: {p}")),
                }
            }
            Unlock(i) => {
                let (f, want) = self.slots[i].as_ref().unwrap();
                let want = want.map(|(k, _)| &self.values[k]);
                match (read(f), want) {
                    (Ok(v), Some(w)) if v == *w => self.loose.retain(|x| *x != i),
                    (Ok(_), Some(_)) => return Err("unlock gives other bytes than were stored".into()),
                    (Ok(_), None) => return Err("a zeroized secret can be unlocked".into()),
                    (Err(e), _) if e.starts_with("panic") => return Err(format!("unlock: {e}")),
                    (Err(_), None) => (),
                    (Err(e), Some(_)) => return may(format!("unlock: {e}")),
                }
            }
            Clone(i) => {
                let (f, k) = self.slots[i].as_ref().unwrap();
                let k = *k;
                match guard(|| f.clone()) {
                    Ok(f) => {
                        self.slots.push(Some((f, k)));
                        self.loose.retain(|x| *x != i);
                    }
                    // a clone has no other way to report an error
                    Err(p) => return may(format!("clone panics: {p}")),
                }
            }
            Update(i, s) => {
                let (f, _) = self.slots[i].take().unwrap();
                self.loose.retain(|x| *x != i);
                let (k, v) = self.value(s);
                match guard(move || f.update(Buffer::alloc(&v, v.len()), v.len())) {
                    Ok(Ok(f)) => self.slots[i] = Some((f, Some((k, s)))),
                    Ok(Err(e)) => return may(format!("update fails: {e}")),
                    Err(p) => return Err(format!("update panics: {p}")),
                }
            }
            Zeroize(i) => {
                let (f, w) = self.slots[i].as_mut().unwrap();
                *w = None;
                self.loose.retain(|x| *x != i);
                guard(|| f.zeroize()).map_err(|p| format!("zeroize panics: {p}"))?;
            }
            Drop(i) => {
                let f = self.slots[i].take();
                self.loose.retain(|x| *x != i);
                guard(move || drop(f)).map_err(|p| format!("drop panics: {p}"))?;
            }
            Unwind(i) => {
                let f = self.slots[i].take();
                self.loose.retain(|x| *x != i);
                let _ = guard(move || {
                    let _f = f;
                    panic!("unwind")
                });
            }
            Serde(i) => {
                let (f, w) = self.slots[i].as_ref().unwrap();
                let w = *w;
                let r = guard(|| bincode::serialize(f)).map_err(|p| format!("serialize panics: {p}"))?;
                let bytes = match r {
                    Ok(b) => b,
                    Err(e) => return may(format!("serialize: {e}")),
                };
                match guard(|| bincode::deserialize::<FileMemory>(&bytes)) {
                    Ok(Ok(f)) => self.slots.push(Some((f, w))),
                    Ok(Err(e)) => return may(format!("deserialize: {e}")),
                    Err(p) => return Err(format!("deserialize panics: {p}")),
                }
            }
        }
        Ok(())
    }
    /// What the file system shows.
    fn look(&self) -> Result<(), String> {
        let files = files(self.dir.path());
        let live = self.slots.iter().flatten().filter(|(_, w)| w.is_some()).count();
        if files.len() < live || files.len() > live + self.left {
            return Err(format!("{} files for {live} secrets", files.len()));
        }
        let open: Vec<String> = files.iter().filter(|(_, m)| *m != 0).map(|(n, m)| format!("{n} {m:o}")).collect();
        if open.len() > self.loose.len() + self.left {
            return Err(format!("a locked secret's file can be accessed: {open:?}"));
        }
        Ok(())
    }
}

fn files(dir: &Path) -> Vec<(String, u32)> {
    fn walk(d: &Path, out: &mut Vec<(String, u32)>) {
        for f in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let m = f.metadata().unwrap();
            if m.is_dir() {
                walk(&f.path(), out);
            } else {
                out.push((f.path().display().to_string(), m.permissions().mode() & 0o777));
            }
        }
    }
    let mut v = vec![];
    walk(dir, &mut v);
    v
}

/// Did a file ever hold eight consecutive bytes of a secret?
fn leaks(rec: &fsx::Rec, values: &[Vec<u8>]) -> Option<String> {
    let mut win = std::collections::HashSet::new();
    for v in values {
        for w in v.windows(8) {
            win.insert(<[u8; 8]>::try_from(w).unwrap());
        }
    }
    let mut data: std::collections::HashMap<usize, Vec<u8>> = Default::default();
    for o in &rec.ops {
        match o {
            FOp::Write { ino, off, data: d } => {
                let b = data.entry(*ino).or_default();
                fsx::put(b, *off, d);
                let (from, to) = (off.saturating_sub(7), (off + d.len() + 7).min(b.len()));
                if b[from..to].windows(8).any(|w| win.contains(w)) {
                    return Some(format!("after {o:?}, the file holds bytes of a secret"));
                }
            }
            FOp::Trunc { ino, len } => data.entry(*ino).or_default().resize(*len, 0),
            _ => (),
        }
    }
    None
}

/// One history; `fault` names a file call that fails.
fn history(sizes: &[usize], prefix: usize, ops: &[Op], fault: Option<(usize, Fault)>, out: &mut Outcome) -> usize {
    let mut w = World::new(sizes);
    let name = || {
        let f = fault.map(|(k, f)| format!(", file call {k} of the last operation: {f:?}")).unwrap_or_default();
        format!("sizes {sizes:?} {ops:?}{f}")
    };
    fsx::start(w.dir.path(), vec![]);
    fsx::emulate_permissions();
    let mut calls = 0;
    for (n, op) in ops.iter().enumerate() {
        if !w.applies(*op) {
            fsx::stop();
            return 0;
        }
        let last = n + 1 == ops.len();
        let before = fsx::calls();
        if let (true, Some((k, f))) = (last, fault) {
            fsx::set_faults(vec![(before + k, f, false)]);
        }
        fsx::failed();
        let r = w.apply(*op, last && fault.is_some());
        fsx::set_faults(vec![]);
        calls = fsx::calls() - before;
        let failed = fsx::failed();
        out.count("transitions", 1);
        if let Some(c) = failed.first() {
            out.see(&(c.split('(').next().unwrap_or("").to_string(), format!("{op:?}")));
            // a file that can not be locked or removed because exactly that call failed
            if c.starts_with("chmod(0") || c.starts_with("stat") || c.starts_with("chmod") {
                if let Unlock(i) | Clone(i) | Serde(i) = op {
                    w.loose.push(*i);
                }
            }
            if c.starts_with("unlink") {
                w.left += 1;
            }
        }
        if let Err(e) = r {
            fsx::stop();
            out.fail(name(), format!("step {n}: {e}{}", failed.first().map(|c| format!(" (failed call: {c})")).unwrap_or_default()));
            return calls;
        }
        if n >= prefix || last {
            if let Err(e) = w.look() {
                fsx::stop();
                out.fail(name(), format!("after step {n} ({op:?}): {e}; failed call: {failed:?}"));
                return calls;
            }
        }
    }
    // every secret still reads back, and is locked again afterwards
    for i in 0..w.slots.len() {
        if w.slots[i].is_some() {
            if let Err(e) = w.apply(Unlock(i), false) {
                fsx::stop();
                out.fail(name(), format!("afterwards, secret {i}: {e}"));
                return calls;
            }
        }
    }
    w.loose.clear();
    if let Err(e) = w.look() {
        fsx::stop();
        out.fail(name(), format!("afterwards: {e}"));
        return calls;
    }
    for i in 0..w.slots.len() {
        w.slots[i] = None;
    }
    let rec = fsx::stop();
    if files(w.dir.path()).len() > w.left {
        out.fail(name(), "a file is left when every secret is dropped");
    }
    if let Some(l) = leaks(&rec, &w.values) {
        out.fail(name(), l);
    }
    calls
}

/// Two threads share one secret.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Unlock,
    Clone,
    Twice,
    Serialize,
}

fn together(a: Act, b: Act, plan: &[bool], first: usize) -> (Vec<bool>, Result<(), String>) {
    let mut w = World::new(&[40]);
    fsx::start(w.dir.path(), vec![]);
    fsx::emulate_permissions();
    w.apply(Alloc(0), false).unwrap();
    let (fm, _) = w.slots[0].take().unwrap();
    let want = w.values[0].clone();
    let act = |a: Act| -> Result<(), String> {
        let get = |f: &FileMemory| match read(f) {
            Ok(v) if v == want => Ok(()),
            Ok(_) => Err("other bytes than were stored".to_string()),
            Err(e) => Err(e),
        };
        match a {
            Act::Unlock => get(&fm),
            Act::Twice => get(&fm).and_then(|_| get(&fm)),
            Act::Clone => guard(|| fm.clone()).map_err(|p| format!("clone panics: {p}")).and_then(|c| get(&c)),
            Act::Serialize => match guard(|| bincode::serialize(&fm)) {
                Ok(Ok(b)) if bincode::deserialize::<Vec<u8>>(&b).ok().as_ref() == Some(&want) => Ok(()),
                r => Err(format!("serialize: {}", match r { Ok(Ok(_)) => "other bytes".into(), Ok(Err(e)) => e.to_string(), Err(p) => p })),
            },
        }
    };
    let (mut ra, mut rb) = (Ok(()), Ok(()));
    let made = fsx::gate::run(plan.to_vec(), first, || ra = act(a), || rb = act(b));
    let mut res = ra.map_err(|e| format!("first thread, {a:?}: {e}")).and(rb.map_err(|e| format!("second thread, {b:?}: {e}")));
    if fsx::gate::DEADLOCK.load(std::sync::atomic::Ordering::SeqCst) {
        res = Err("the threads wait for each other".into());
    }
    let fs = files(w.dir.path());
    if res.is_ok() && (fs.len() != 1 || fs[0].1 != 0) {
        res = Err(format!("afterwards the files are {fs:?}"));
    }
    drop(fm);
    let rec = fsx::stop();
    if res.is_ok() && !files(w.dir.path()).is_empty() {
        res = Err("the file is left after the drop".into());
    }
    if let (true, Some(l)) = (res.is_ok(), leaks(&rec, &w.values)) {
        res = Err(l);
    }
    (made, res)
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C16", tier, "model_checking");
    let th = rep.thorough();
    {
        let d = Scratch::new("c16w");
        if let Err(e) = fsx::works(d.path()) {
            eprintln!("C16: the file layer does not work here: {e}");
            return 2;
        }
    }
    // (a) every size
    let mut sizes: Vec<usize> = (1..=(if th { 1100 } else { 300 })).collect();
    for k in 9..=(if th { 22 } else { 20 }) {
        sizes.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let script = [Alloc(0), Unlock(0), Unlock(0), Clone(0), Update(0, 0), Serde(1), Zeroize(1), Drop(2)];
    let o = run_cases(
        sizes.len() as u64,
        60,
        &|i, out| {
            history(&[sizes[i as usize]], 0, &script, None, out);
        },
        &|i| format!("size {}", sizes[i as usize]),
    );
    rep.absorb(&format!("{} sizes", sizes.len()), o);

    // (b) every history
    let mut ab = vec![Alloc(0), Alloc(1)];
    for i in 0..2 {
        ab.extend([Unlock(i), Clone(i), Update(i, 1), Zeroize(i), Drop(i), Serde(i), Unwind(i)]);
    }
    let depth = if th { 5 } else { 4 };
    let na = ab.len() as u64;
    let seq = |i: u64| -> Vec<Op> {
        let mut v = vec![Alloc(0)];
        v.extend(digits(i, na, depth - 1).into_iter().map(|d| ab[d]));
        v
    };
    let o = run_cases(na.pow(depth as u32 - 1), 60, &|i, out| { history(&[40, 5000], 0, &seq(i), None, out); }, &|i| format!("{:?}", seq(i)));
    rep.absorb(&format!("histories of {depth} operations"), o);

    // (c) every single failing call of the last operation, after every short history
    let kinds = [
        Fault::Errno(libc::EIO), Fault::Errno(libc::EACCES), Fault::Errno(libc::ENOSPC), Fault::Errno(libc::EINTR),
        Fault::Errno(libc::EMFILE), Fault::Short(0), Fault::Short(1), Fault::Short(2), Fault::Zero,
    ];
    let mut bases: Vec<Vec<Op>> = vec![vec![Alloc(0)], vec![Alloc(1)]];
    let d = if th { 3 } else { 2 };
    for len in 1..=d {
        for i in 0..na.pow(len as u32) {
            let mut v = vec![Alloc(0)];
            v.extend(digits(i, na, len).into_iter().map(|d| ab[d]));
            bases.push(v);
        }
    }
    let o = run_cases(
        bases.len() as u64,
        120,
        &|i, out| {
            let ops = &bases[i as usize];
            let mut o = Outcome::default();
            let n = history(&[40, 5000], 99, ops, None, &mut o);
            for k in 0..n {
                for f in kinds {
                    history(&[40, 5000], 99, ops, Some((k, f)), out);
                    out.count("faults", 1);
                }
            }
        },
        &|i| format!("faults after {:?}", bases[i as usize]),
    );
    rep.absorb("single faults", o);

    // (d) two threads, every schedule of their file calls up to a number of switches
    let acts = [Act::Unlock, Act::Clone, Act::Twice, Act::Serialize];
    let bound = if th { 6 } else { 3 };
    let o = run_cases(
        32,
        if th { 600 } else { 120 },
        &|i, out| {
            let (a, b, first) = (acts[(i / 8) as usize], acts[(i / 2 % 4) as usize], 1 + (i % 2) as usize);
            let mut plans = vec![vec![]];
            while let Some(p) = plans.pop() {
                let (made, r) = together(a, b, &p, first);
                out.count("schedules", 1);
                out.see(&(i, &made));
                if let Err(e) = r {
                    out.fail(format!("two threads {a:?} {b:?}"), format!("schedule {made:?} first {first}: {e}"));
                    return;
                }
                if made.iter().filter(|x| **x).count() < bound {
                    for j in p.len()..made.len() {
                        let mut q = made[..j].to_vec();
                        q.push(true);
                        plans.push(q);
                    }
                }
            }
        },
        &|i| format!("two threads, {i}"),
    );
    rep.absorb(&format!("two threads, at most {bound} switches"), o);
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("transitions"));
    rep.set("traces_validated_against_impl", rep.count("cases") + rep.count("schedules") + rep.count("faults"));
    rep.set("schedules", rep.count("schedules"));
    rep.set("faults_injected", rep.count("faults"));
    rep.set("exhaustive", true);
    rep.assumptions.push("permission bits are enforced by the recording layer as for an ordinary user, since the check runs as root".into());
    rep.assumptions.push("a single call fails at a time; a file may be left behind only when its removal itself fails".into());
    rep.finish()
}
