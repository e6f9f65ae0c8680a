//! C15: the key in non-contiguous memory.
use crate::lin::{scenario, Bounds, World};
use crate::mem::*;
use mc::*;
use runtime::locked_memory::LockedMemory;
use runtime::memories::buffer::Buffer;
use runtime::memories::frag::{Frag, FragStrategy};
use runtime::memories::noncontiguous_memory::{NCConfig, NonContiguousMemory};
use std::path::{Path, PathBuf};
use std::sync::{Arc, OnceLock};
use zeroize::Zeroize;

const N: usize = 32;
const CONFIGS: [NCConfig; 6] = [
    NCConfig::FullRam,
    NCConfig::RamAndFile,
    NCConfig::FullFile,
    NCConfig::FragAllocation(FragStrategy::Map),
    NCConfig::FragAllocation(FragStrategy::Direct),
    NCConfig::FragAllocation(FragStrategy::Hybrid),
];
type Key = [u8; N];
fn key(k: u8) -> Key {
    std::array::from_fn(|i| match k {
        0 => 0,
        1 => 0xff,
        2 => 0x80,
        _ => (i as u8).wrapping_mul(k | 1).wrapping_add(k) ^ 0x5a,
    })
}
/// a stretch of the key that would give it away
fn shows(content: &[u8], k: &Key) -> bool {
    if k.iter().all(|b| *b == k[0]) {
        return false;
    }
    k.windows(16).any(|w| content.windows(16).any(|c| c == w))
}

static DIR: OnceLock<PathBuf> = OnceLock::new();
/// where this process keeps its files
fn home(root: &Path) {
    let d = DIR.get_or_init(|| root.join(std::process::id().to_string()));
    if !d.exists() {
        std::fs::create_dir_all(d).unwrap();
        std::env::set_var("XDG_DATA_HOME", d);
        std::env::set_var("HOME", d);
    }
}
fn files() -> Vec<(PathBuf, Vec<u8>)> {
    let mut v = vec![];
    if let Ok(l) = std::fs::read_dir(DIR.get().unwrap().join(".locked_memories")) {
        for f in l.flatten() {
            v.push((f.path(), std::fs::read(f.path()).unwrap_or_default()));
        }
    }
    v
}

/// Where shards are and what they look like.
#[derive(Clone, Debug, Default)]
struct Seen {
    /// address of the shards in memory
    at: Vec<usize>,
    content: Vec<Vec<u8>>,
    /// how many lie in guarded memory, in mappings, on the heap, in files
    kinds: [usize; 4],
}
/// the kinds of the two shards of an arrangement
fn kinds(c: &NCConfig) -> [usize; 4] {
    match c {
        NCConfig::FullRam => [2, 0, 0, 0],
        NCConfig::RamAndFile => [1, 0, 0, 1],
        NCConfig::FullFile => [0, 0, 0, 2],
        NCConfig::FragAllocation(FragStrategy::Map) => [0, 2, 0, 0],
        NCConfig::FragAllocation(FragStrategy::Direct) => [0, 0, 2, 0],
        NCConfig::FragAllocation(FragStrategy::Hybrid) => [0, 1, 1, 0],
    }
}
fn shards() -> Seen {
    let mut s = Seen::default();
    for (p, n) in shim_sodium::live() {
        if n > 0 {
            let c = inside(p, n);
            if c.iter().any(|b| *b != 0) {
                s.at.push(p);
                s.content.push(c);
                s.kinds[0] += 1;
            }
        }
    }
    for (p, c, heap) in blocks() {
        s.kinds[1 + heap as usize] += 1;
        s.at.push(p);
        s.content.push(c);
    }
    for (_, c) in files() {
        s.kinds[3] += 1;
        s.content.push(c);
    }
    s.content.sort();
    s
}
fn minus(a: &[Vec<u8>], b: &[Vec<u8>]) -> usize {
    let mut b = b.to_vec();
    a.iter().filter(|x| match b.iter().position(|y| y == *x) {
        Some(i) => {
            b.swap_remove(i);
            false
        }
        None => true,
    }).count()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Unlock,
    Refresh,
    Clone,
    Serialize,
    Update,
    Zeroize,
    Drop,
    Swap,
    PanicHolding,
}
use Op::*;
const OPS: [Op; 9] = [Unlock, Refresh, Clone, Serialize, Update, Zeroize, Drop, Swap, PanicHolding];

/// `None`: zeroed
type Mem = (NonContiguousMemory, Option<u8>, NCConfig);

fn look(m: &[Option<Mem>; 2], what: &str) -> Result<Seen, String> {
    let s = shards();
    let alive: Vec<&Mem> = m.iter().flatten().filter(|x| x.1.is_some()).collect();
    if s.content.len() != 2 * alive.len() {
        return Err(format!("{what}: {} shards of {} keys", s.content.len(), alive.len()));
    }
    let chosen = alive.iter().fold([0; 4], |n, x| std::array::from_fn(|i| n[i] + kinds(&x.2)[i]));
    if s.kinds != chosen {
        return Err(format!("{what}: {:?} shards in guarded memory, mappings, heap blocks and files instead of {chosen:?}", s.kinds));
    }
    for x in &alive {
        if s.content.iter().any(|c| shows(c, &key(x.1.unwrap()))) {
            return Err(format!("{what}: the key lies in the open"));
        }
    }
    for i in 0..s.content.len() {
        if alive.len() == 1 && i > 0 && s.content[i] == s.content[i - 1] {
            return Err(format!("{what}: both shards are the same"));
        }
    }
    for (i, a) in s.at.iter().enumerate() {
        for b in &s.at[..i] {
            // a shard may begin with a few zeros
            if a.abs_diff(*b) < 4096 - N {
                return Err(format!("{what}: two shards lie {} bytes apart", a.abs_diff(*b)));
            }
        }
    }
    let c = complaints();
    if !c.is_empty() {
        return Err(format!("{what}: {}", c.join("; ")));
    }
    Ok(s)
}
fn history(config: &NCConfig, k: u8, ops: &[Op]) -> Result<(), String> {
    watch();
    record();
    let alloc = |k: u8| NonContiguousMemory::alloc(&key(k), N, config.clone()).map_err(|e| e.to_string());
    let mut m: [Option<Mem>; 2] = [Some((alloc(k)?, Some(k), config.clone())), None];
    let mut before = look(&m, "new")?;
    for (n, op) in ops.iter().enumerate() {
        let what = format!("{n}: {op:?}");
        let mut changes = 0;
        match op {
            Unlock | Refresh => {
                if let Some((x, k, _)) = &m[0] {
                    let r = if *op == Unlock { x.unlock().map(Some) } else { x.refresh().map(|_| None) };
                    match (r, k) {
                        (Ok(b), Some(k)) => {
                            if b.is_some_and(|b| *b.borrow() != key(*k)) {
                                return Err(format!("{what}: another key"));
                            }
                            changes = 2;
                        }
                        (Err(e), Some(_)) => return Err(format!("{what}: {e}")),
                        (Ok(_), None) => return Err(format!("{what}: works although zeroed")),
                        (Err(_), None) => (),
                    }
                }
            }
            Clone => {
                if let Some((x, Some(k), c)) = &m[0] {
                    let y = x.clone();
                    m[1] = Some((y, Some(*k), c.clone()));
                }
            }
            Serialize => {
                if let Some((x, k, _)) = &m[0] {
                    match (bincode::serialize(x), k) {
                        (Ok(t), Some(k)) => {
                            let y: NonContiguousMemory = bincode::deserialize(&t).map_err(|e| format!("{what}: {e}"))?;
                            // it is in memory, whatever it was
                            m[1] = Some((y, Some(*k), NCConfig::FullRam));
                        }
                        (Err(e), Some(_)) => return Err(format!("{what}: {e}")),
                        (Ok(_), None) => return Err(format!("{what}: works although zeroed")),
                        (Err(_), None) => (),
                    }
                }
            }
            Update => {
                if let Some((x, Some(_), c)) = m[0].take() {
                    let k = 11 + 2 * n as u8;
                    let y = x.update(Buffer::alloc(&key(k), N), N).map_err(|e| format!("{what}: {e}"))?;
                    m[0] = Some((y, Some(k), c));
                    changes = 2;
                }
            }
            Zeroize => {
                if let Some((x, k, _)) = &mut m[0] {
                    x.zeroize();
                    *k = None;
                }
            }
            Drop => m[0] = None,
            Swap => m.swap(0, 1),
            PanicHolding => {
                if let Some(x) = m[1].take() {
                    let _ = guard(move || {
                        let x = x;
                        if x.1.is_none_or(|k| k < 200) {
                            panic!("on purpose");
                        }
                    });
                }
            }
        }
        let now = look(&m, &what)?;
        if minus(&before.content, &now.content) < changes {
            return Err(format!("{what}: {} of the shards changed", minus(&before.content, &now.content)));
        }
        before = now;
    }
    for x in m.iter().flatten() {
        if let (y, Some(k), _) = x {
            let b = y.unlock().map_err(|e| format!("at the end: {e}"))?;
            if *b.borrow() != key(*k) {
                return Err("at the end: another key".into());
            }
        }
    }
    m = [None, None];
    look(&m, "after all")?;
    if !shim_sodium::live().is_empty() {
        return Err("after all: guarded memory is left".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ fragments by themselves

fn frags(strategy: FragStrategy, distance: usize) -> Result<(), String> {
    watch();
    record();
    {
        match Frag::<Key>::alloc_default(strategy, distance) {
            Ok((mut a, mut b)) => {
                let d = {
                    let (x, y) = (a.get().map_err(|e| e.to_string())?, b.get().map_err(|e| e.to_string())?);
                    if *x != [0; N] || *y != [0; N] {
                        return Err("not empty".into());
                    }
                    (x.as_ptr() as usize).abs_diff(y.as_ptr() as usize)
                };
                if d < distance {
                    return Err(format!("only {d} bytes apart"));
                }
                a.set(key(5)).map_err(|e| e.to_string())?;
                b.set(key(7)).map_err(|e| e.to_string())?;
                let mut c = a.clone();
                let e = c.clone();
                c.set(key(9)).map_err(|e| e.to_string())?;
                let get = |f: &Frag<Key>| f.get().copied().map_err(|e| e.to_string());
                if get(&a)? != key(5) || get(&b)? != key(7) || get(&c)? != key(9) || get(&e)? != key(5) {
                    return Err("other content".into());
                }
                c.zeroize();
                if c.is_live() || c.get().is_ok() || c.set(key(5)).is_ok() {
                    return Err("usable although zeroed".into());
                }
                if c.clone().is_live() {
                    return Err("the clone of a zeroed fragment is usable".into());
                }
                if get(&a)? != key(5) || get(&e)? != key(5) {
                    return Err("other content after another one was zeroed".into());
                }
                drop(a);
                if get(&e)? != key(5) {
                    return Err("other content after another one was dropped".into());
                }
            }
            Err(_) if distance > 0x1000 => (),
            Err(e) => return Err(e.to_string()),
        }
    }
    let (c, b) = (complaints(), blocks());
    if c.is_empty() && b.is_empty() { Ok(()) } else { Err(format!("left: {} blocks; {}", b.len(), c.join("; "))) }
}

// ------------------------------------------------------------------ several threads

#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Unlock,
    Refresh,
    Clone,
    Serialize,
}
#[derive(Clone)]
struct W {
    m: Arc<NonContiguousMemory>,
}
fn said<E: std::fmt::Display>(r: Result<Buffer<u8>, E>) -> String {
    match r {
        Ok(b) => format!("{}", *b.borrow() == key(77)),
        Err(e) => format!("error {e}"),
    }
}
impl World for W {
    type Op = T;
    type Local = ();
    fn steps(_: &T) -> usize {
        1
    }
    fn step(&self, _: &T, _: usize, _: &mut ()) -> Option<String> {
        unreachable!()
    }
    fn call(&self, op: &T) -> String {
        match op {
            T::Unlock => said(self.m.unlock()),
            T::Refresh => format!("{:?}", self.m.refresh().map_err(|e| e.to_string())),
            T::Clone => said((*self.m).clone().unlock()),
            T::Serialize => {
                let t = bincode::serialize(&*self.m).unwrap();
                said(bincode::deserialize::<NonContiguousMemory>(&t).unwrap().unlock())
            }
        }
    }
    fn last(&self) -> String {
        let a = said(self.m.unlock());
        let s = shards();
        format!("{a} {} {} {:?}", said(self.m.unlock()), s.content.len(), complaints())
    }
}

pub fn run(tier: &str) -> i32 {
    let mut r = Report::new("C15", tier, "model_checking");
    let t = r.thorough();
    let scratch = Scratch::new("c15");
    let root = scratch.path().to_path_buf();
    let keys: Vec<u8> = vec![77, 0, 1, 2];
    let name = |c: &NCConfig| format!("{c:?}");

    // the huge blocks take time
    let depth = |c: &NCConfig| match c {
        NCConfig::FragAllocation(FragStrategy::Direct | FragStrategy::Hybrid) => if t { 4 } else { 3 },
        NCConfig::FullRam | NCConfig::FragAllocation(_) => if t { 6 } else { 4 },
        _ => if t { 5 } else { 4 },
    };
    let mut all: Vec<(usize, u8, Vec<Op>)> = vec![];
    for (c, conf) in CONFIGS.iter().enumerate() {
        let d = depth(conf);
        for i in 0..OPS.len().pow(d as u32) as u64 {
            all.push((c, 77, digits(i, OPS.len() as u64, d).into_iter().map(|k| OPS[k]).collect()));
        }
        for k in &keys {
            for i in 0..OPS.len().pow(2) as u64 {
                all.push((c, *k, digits(i, OPS.len() as u64, 2).into_iter().map(|k| OPS[k]).collect()));
            }
        }
    }
    r.absorb("histories", run_cases(all.len() as u64, 120, &|i, out| {
        let (c, k, ops) = &all[i as usize];
        home(&root);
        crate::rnd::seed(hash(&i) | 1);
        out.see(&i);
        if let Err(e) = guard(|| history(&CONFIGS[*c], *k, ops)).unwrap_or_else(|e| Err(format!("panic: {e}"))) {
            out.fail(format!("{}: {}", name(&CONFIGS[*c]), first_line(&e)), format!("{}, key {k}: {ops:?}: {e}", name(&CONFIGS[*c])));
            // what is left of it is not the next one's
            std::process::exit(0);
        }
    }, &|i| format!("{}, key {}: {:?}", name(&CONFIGS[all[i as usize].0]), all[i as usize].1, all[i as usize].2)));

    // many reads in a row
    let reads = if t { 3000 } else { 300 };
    r.absorb("many reads", run_cases(CONFIGS.len() as u64, 300, &|i, out| {
        home(&root);
        crate::rnd::seed(0);
        out.see(&i);
        let n = if matches!(CONFIGS[i as usize], NCConfig::FragAllocation(FragStrategy::Direct | FragStrategy::Hybrid)) { reads / 10 } else { reads };
        let ops: Vec<Op> = (0..n).map(|k| if k % 7 == 3 { Refresh } else if k % 31 == 5 { Clone } else { Unlock }).collect();
        out.count("reads", n as u64);
        if let Err(e) = guard(|| history(&CONFIGS[i as usize], 77, &ops)).unwrap_or_else(|e| Err(format!("panic: {e}"))) {
            out.fail(format!("{}: {}", name(&CONFIGS[i as usize]), first_line(&e)), format!("{}: {n} reads: {e}", name(&CONFIGS[i as usize])));
        }
    }, &|i| name(&CONFIGS[i as usize])));

    // what cannot be a key
    r.absorb("sizes", run_cases(200, 60, &|i, out| {
        home(&root);
        out.see(&i);
        let n = i as usize;
        for c in &CONFIGS {
            let v = vec![0x91u8; n];
            let e = match guard(|| NonContiguousMemory::alloc(&v, n, c.clone()).map(|m| m.unlock().map(|b| b.borrow().to_vec()).ok())) {
                Ok(Ok(x)) if n == N && x == Some(v) => None,
                Ok(Err(_)) if n != N => None,
                Ok(x) => Some(format!("{x:?}")),
                Err(p) => Some(format!("panic: {p}")),
            };
            if let Some(e) = e {
                out.fail(format!("{}: allocation of a wrong size", name(c)), format!("{}: {n} bytes: {e}", name(c)));
            }
        }
        let text = bincode::serialize(&vec![0x91u8; n]).unwrap();
        let e = match guard(|| bincode::deserialize::<NonContiguousMemory>(&text).map(|m| m.unlock().map(|b| b.borrow().to_vec()).ok())) {
            Ok(Ok(x)) if n == N && x == Some(vec![0x91; N]) => None,
            Ok(Err(_)) if n != N => None,
            Ok(x) => Some(format!("{x:?}")),
            Err(p) => Some(format!("panic: {p}")),
        };
        if let Some(e) = e {
            out.fail("deserialisation of a wrong size", format!("{n} bytes: {e}"));
        }
    }, &|i| format!("{i} bytes")));

    let dist: Vec<usize> = (0..=48).map(|b| 1usize << b).chain([0, 0xfff, 0x1001, 0xffff, usize::MAX, usize::MAX / 2]).collect();
    let strategies = [FragStrategy::Map, FragStrategy::Direct, FragStrategy::Hybrid];
    let reps = if t { 20 } else { 4 };
    let n = (dist.len() * 3 * reps) as u64;
    r.absorb("fragments", run_cases(n, 120, &|i, out| {
        crate::rnd::seed(hash(&i) | 1);
        let (d, s) = (dist[(i as usize / 3) % dist.len()], strategies[i as usize % 3]);
        out.see(&i);
        if let Err(e) = guard(|| frags(s, d)).unwrap_or_else(|e| Err(format!("panic: {e}"))) {
            out.fail(format!("fragments {s:?}: {}", first_line(&e)), format!("{s:?}, {d} bytes apart: {e}"));
        }
    }, &|i| format!("{:?}, {} bytes apart", strategies[i as usize % 3], dist[(i as usize / 3) % dist.len()])));

    let ts = [T::Unlock, T::Refresh, T::Clone, T::Serialize];
    let mut sc: Vec<(usize, Vec<Vec<T>>, u32)> = vec![];
    for c in 0..CONFIGS.len() {
        let huge = c >= 4;
        for a in 0..ts.len() {
            for b in a..ts.len() {
                sc.push((c, vec![vec![ts[a]], vec![ts[b]]], 2 + t as u32));
            }
        }
        if huge && !t {
            continue;
        }
        for a in ts {
            for b in ts {
                for x in ts {
                    sc.push((c, vec![vec![a, b], vec![x]], 1 + t as u32));
                }
            }
        }
        for a in 0..ts.len() {
            for b in a..ts.len() {
                for x in b..ts.len() {
                    sc.push((c, vec![vec![ts[a]], vec![ts[b]], vec![ts[x]]], 1));
                }
            }
        }
    }
    r.absorb("schedules", run_cases(sc.len() as u64, 300, &|i, out| {
        let (c, threads, bound) = &sc[i as usize];
        // the protection of the pages is another matter
        shim_sodium::light();
        home(&root);
        crate::rnd::seed(hash(&i) | 1);
        watch();
        record();
        let conf = CONFIGS[*c].clone();
        let label = name(&conf);
        scenario(out, &label, Arc::new(move || {
            let m = NonContiguousMemory::alloc(&key(77), N, conf.clone()).unwrap();
            m.unlock().unwrap();
            W { m: Arc::new(m) }
        }), threads,
            &Bounds { preemptions: *bound, executions: 1_000_000, steps: 20_000, detail: true, weak: false });
    }, &|i| format!("{}: {}", name(&CONFIGS[sc[i as usize].0]), crate::lin::show(&sc[i as usize].1))));
    r.set("bounds", serde_json::json!({
        "histories": all.len(), "depth for guarded memory and maps": depth(&CONFIGS[0]), "depth for files": depth(&CONFIGS[1]), "depth for huge blocks": depth(&CONFIGS[4]),
        "reads in a row": reads, "sizes": 200, "distances of fragments": dist.len(), "scenarios of two or three threads": sc.len(),
    }));
    r.finish()
}
