//! C03 and C21: a Stronghold instance, its clients, the snapshot in memory and the snapshot files against a
//! reference model, over every history of instance-level calls.
use crate::util::*;
use iota_stronghold::*;
use mc::*;
use std::collections::{HashMap, VecDeque};
use std::path::PathBuf;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Rec {
    Absent,
    Live(u8),
    Revoked,
}
use Rec::*;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Content {
    recs: [Rec; 2],
    store: [Option<u8>; 2],
}
const EMPTY: Content = Content { recs: [Absent; 2], store: [None; 2] };

/// What can be seen of a content.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Seen {
    recs: [Option<u8>; 2],
    store: [Option<u8>; 2],
}
impl Content {
    fn seen(&self) -> Seen {
        let f = |r: Rec| if let Live(v) = r { Some(v) } else { None };
        Seen { recs: [f(self.recs[0]), f(self.recs[1])], store: self.store }
    }
}

type Pair = [Option<Content>; 2];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct M {
    live: Pair,
    /// a handle the caller kept to a client that is not loaded any more
    det: Pair,
    snap: Pair,
    files: [Option<(u8, Pair)>; 2],
    stored: Option<u8>,
    sess: Option<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Create(usize),
    Load(usize),
    LoadFrom(usize, usize, u8),
    LoadSnap(usize, u8),
    Unload(usize),
    Purge(usize),
    WriteClient(usize),
    Commit(usize, u8),
    /// 0: below a regular file, 1: onto a directory
    CommitBad(u8),
    /// with the stored key onto a directory
    CommitStoredBad,
    StoreKey(u8, u8),
    CommitStored(usize),
    Clear,
    Restart,
    Write(usize, usize, u8),
    Revoke(usize, usize),
    Delete(usize, usize),
    StoreIns(usize, usize, u8),
    StoreDel(usize, usize),
    SessIns(u8),
}
use Op::*;

const NAMES: [&str; 2] = ["anna", "bert"];
/// The names of clients, vaults and store keys coincide on purpose.
const KEYS: [&str; 2] = ["anna", ""];
const SESS: [&str; 4] = ["session", "anna", "bert", "nobody"];

fn locs() -> [Location; 2] {
    [loc("anna", "record"), loc("vault 1", "record")]
}
fn val(v: u8) -> Vec<u8> {
    match v {
        1 => b"the first secret".to_vec(),
        2 => vec![0xC3; 100],
        n => vec![n; 3],
    }
}

impl M {
    fn new() -> M {
        M { live: [None, None], det: [None, None], snap: [None, None], files: [None, None], stored: None, sess: None }
    }
    fn take_over(&mut self) {
        for c in 0..2 {
            if let Some(x) = &self.live[c] {
                self.snap[c] = Some(x.clone());
            }
        }
    }
    /// Possible (ok, state) results; None if the operation is not applicable (the history is a duplicate).
    fn step(&self, op: Op) -> Option<Vec<(bool, M)>> {
        let mut m = self.clone();
        let fail = || Some(vec![(false, self.clone())]);
        let target = |m: &mut M, c: usize| -> Option<*mut Content> {
            if m.live[c].is_some() {
                m.live[c].as_mut().map(|x| x as *mut _)
            } else {
                m.det[c].as_mut().map(|x| x as *mut _)
            }
        };
        match op {
            Create(c) => {
                if m.live[c].is_some() {
                    m.det[c] = m.live[c].take();
                }
                m.live[c] = Some(EMPTY);
            }
            Load(c) => {
                if m.live[c].is_some() || m.snap[c].is_none() {
                    return fail();
                }
                m.live[c] = m.snap[c].clone();
            }
            LoadFrom(c, f, k) => match &self.files[f] {
                Some((fk, p)) if *fk == k && m.live[c].is_none() => {
                    m.snap = p.clone();
                    m.live[c] = Some(p[c].clone().unwrap_or(EMPTY));
                }
                _ => return fail(),
            },
            LoadSnap(f, k) => match &self.files[f] {
                Some((fk, p)) if *fk == k => m.snap = p.clone(),
                _ => return fail(),
            },
            Unload(c) => {
                if m.live[c].is_none() {
                    return if m.det[c].is_some() { fail() } else { None };
                }
                m.det[c] = m.live[c].take();
            }
            Purge(c) => {
                if m.live[c].is_none() && m.det[c].is_none() {
                    return None;
                }
                m.live[c] = None;
                m.det[c] = None;
                m.snap[c] = None;
            }
            WriteClient(c) => {
                if m.live[c].is_none() {
                    return fail();
                }
                m.snap[c] = m.live[c].clone();
            }
            Commit(f, k) => {
                m.take_over();
                m.files[f] = Some((k, m.snap.clone()));
            }
            CommitBad(_) | CommitStoredBad => {
                // the clients may already have been taken over into the snapshot in memory
                m.take_over();
                return Some(vec![(false, self.clone()), (false, m)]);
            }
            StoreKey(k, _) => m.stored = Some(k),
            CommitStored(f) => {
                m.take_over();
                match m.stored {
                    Some(k) => m.files[f] = Some((k, m.snap.clone())),
                    None => return Some(vec![(false, self.clone()), (false, m)]),
                }
            }
            Clear => {
                let files = m.files.clone();
                m = M::new();
                m.files = files;
            }
            Restart => {
                let files = m.files.clone();
                m = M::new();
                m.files = files;
            }
            Write(c, l, v) => {
                let Some(t) = target(&mut m, c) else { return None };
                let t = unsafe { &mut *t };
                let rev = t.recs[l] == Revoked;
                t.recs[l] = Live(v);
                if rev {
                    return Some(vec![(false, self.clone()), (true, m)]);
                }
            }
            Revoke(c, l) | Delete(c, l) => {
                let Some(t) = target(&mut m, c) else { return None };
                let t = unsafe { &mut *t };
                if matches!(t.recs[l], Live(_)) {
                    t.recs[l] = Revoked;
                }
                if matches!(op, Delete(..)) && t.recs[l] == Revoked {
                    t.recs[l] = Absent;
                }
            }
            StoreIns(c, k, v) => {
                let Some(t) = target(&mut m, c) else { return None };
                unsafe { &mut *t }.store[k] = Some(v);
            }
            StoreDel(c, k) => {
                let Some(t) = target(&mut m, c) else { return None };
                unsafe { &mut *t }.store[k] = None;
            }
            SessIns(v) => m.sess = Some(v),
        }
        Some(vec![(true, m)])
    }
}

pub struct World {
    dir: Scratch,
    s: Stronghold,
    live: [Option<Client>; 2],
    det: [Option<Client>; 2],
}

impl World {
    fn new() -> World {
        let dir = Scratch::new("inst");
        std::fs::write(dir.path().join("plain"), b"a regular file").unwrap();
        std::fs::create_dir(dir.path().join("dir")).unwrap();
        std::fs::write(dir.path().join("dir/x"), b"").unwrap();
        World { dir, s: Stronghold::default(), live: [None, None], det: [None, None] }
    }
    fn file(&self, f: usize) -> PathBuf {
        // the second file lies in a directory which the first commit has to create
        self.dir.path().join(["one.stronghold", "sub/two.stronghold"][f])
    }
    fn path(&self, f: usize) -> SnapshotPath {
        SnapshotPath::from_path(self.file(f))
    }
    fn apply(&mut self, op: Op) -> Result<(), String> {
        let e = |x: ClientError| x.to_string();
        let s = self.s.clone();
        let target = |w: &World, c: usize| -> Client {
            w.live[c].clone().or_else(|| w.det[c].clone()).expect("pruned by the model")
        };
        let any = |w: &World, c: usize| -> Client {
            w.det[c].clone().or_else(|| w.live[c].clone()).expect("pruned by the model")
        };
        match op {
            Create(c) => {
                let n = s.create_client(NAMES[c]).map_err(e)?;
                if let Some(o) = self.live[c].take() {
                    self.det[c] = Some(o);
                }
                self.live[c] = Some(n);
            }
            Load(c) => self.live[c] = Some(s.load_client(NAMES[c]).map_err(e)?),
            LoadFrom(c, f, k) => {
                self.live[c] = Some(s.load_client_from_snapshot(NAMES[c], &kp(k), &self.path(f)).map_err(e)?)
            }
            LoadSnap(f, k) => s.load_snapshot(&kp(k), &self.path(f)).map_err(e)?,
            Unload(c) => {
                // any handle of that name will do, and what comes back is the client that was loaded
                let h = s.unload_client(any(self, c)).map_err(e)?;
                self.live[c] = None;
                self.det[c] = Some(h);
            }
            Purge(c) => {
                s.purge_client(any(self, c)).map_err(e)?;
                self.live[c] = None;
                self.det[c] = None;
            }
            WriteClient(c) => s.write_client(NAMES[c]).map_err(e)?,
            Commit(f, k) => s.commit_with_keyprovider(&self.path(f), &kp(k)).map_err(e)?,
            CommitBad(0) => s
                .commit_with_keyprovider(&SnapshotPath::from_path(self.dir.path().join("plain/below")), &kp(1))
                .map_err(e)?,
            CommitBad(_) => {
                s.commit_with_keyprovider(&SnapshotPath::from_path(self.dir.path().join("dir")), &kp(1)).map_err(e)?
            }
            CommitStoredBad => s.commit(&SnapshotPath::from_path(self.dir.path().join("dir"))).map_err(e)?,
            StoreKey(k, w) => {
                // location 1 lies in a vault named like a client
                let l = if w == 0 { loc("key vault", "key") } else { loc(NAMES[0], "record") };
                s.store_snapshot_key_at_location(kp(k), l).map_err(e)?
            }
            CommitStored(f) => s.commit(&self.path(f)).map_err(e)?,
            Clear => {
                s.clear().map_err(e)?;
                // a handle kept across a clear is an empty client
                for c in 0..2 {
                    if let Some(h) = self.live[c].take() {
                        let x = look(&h)?;
                        if x != EMPTY.seen() {
                            return Err(format!("handle of {} is not empty after clear: {x:?}", NAMES[c]));
                        }
                    }
                    self.det[c] = None;
                }
            }
            Restart => {
                self.s = Stronghold::default();
                self.live = [None, None];
                self.det = [None, None];
            }
            Write(c, l, v) => target(self, c)
                .vault(locs()[l].vault_path())
                .write_secret(locs()[l].clone(), val(v))
                .map_err(e)?,
            Revoke(c, l) => target(self, c).vault(locs()[l].vault_path()).revoke_secret("record").map_err(e)?,
            Delete(c, l) => {
                target(self, c).vault(locs()[l].vault_path()).delete_secret("record").map_err(e)?;
            }
            StoreIns(c, k, v) => {
                target(self, c).store().insert(KEYS[k].into(), val(v), None).map_err(e)?;
            }
            StoreDel(c, k) => {
                target(self, c).store().delete(KEYS[k].as_bytes()).map_err(e)?;
            }
            SessIns(v) => {
                for k in SESS {
                    s.store().insert(k.into(), val(v), None).map_err(e)?;
                }
            }
        }
        Ok(())
    }
}

fn back(v: Option<Vec<u8>>) -> Option<u8> {
    v.map(|x| (1..3).find(|n| val(*n) == x).unwrap_or(255))
}

/// Read the content of a client.
fn look(c: &Client) -> Result<Seen, String> {
    let mut r = EMPTY.seen();
    for (i, l) in locs().iter().enumerate() {
        let ex = c.record_exists(l).map_err(|e| e.to_string())?;
        let hit: Vec<u8> = (1..3).filter(|v| holds(c, l, &val(*v)) == Ok(true)).collect();
        r.recs[i] = match (ex, hit.as_slice()) {
            (false, []) if holds(c, l, b"").is_err() => None,
            (true, [v]) => Some(*v),
            _ => Some(254),
        };
    }
    for (i, k) in KEYS.iter().enumerate() {
        r.store[i] = back(c.store().get(k.as_bytes()).map_err(|e| e.to_string())?);
        if c.store().contains_key(k.as_bytes()).map_err(|e| e.to_string())? != r.store[i].is_some() {
            return Err("contains_key disagrees with get".into());
        }
    }
    let n = c.store().keys().map_err(|e| e.to_string())?.len();
    if n != r.store.iter().filter(|x| x.is_some()).count() {
        return Err(format!("store lists {n} keys but has {:?}", r.store));
    }
    Ok(r)
}

type SeenPair = [Option<Seen>; 2];
fn seen_pair(p: &Pair) -> SeenPair {
    [p[0].as_ref().map(|c| c.seen()), p[1].as_ref().map(|c| c.seen())]
}

fn observe(w: &World, ms: &mut Vec<M>) -> Result<(), String> {
    let mut live: SeenPair = [None, None];
    let mut det: SeenPair = [None, None];
    for c in 0..2 {
        match w.s.get_client(NAMES[c]) {
            Ok(cl) => {
                live[c] = Some(look(&cl)?);
                if let Some(h) = &w.live[c] {
                    if look(h)? != *live[c].as_ref().unwrap() {
                        return Err(format!("the handle of {} shows something else than get_client", NAMES[c]));
                    }
                }
            }
            Err(_) => (),
        }
        if let Some(h) = &w.det[c] {
            det[c] = Some(look(h)?);
        }
    }
    let mut all = vec![];
    for k in SESS {
        all.push(back(w.s.store().get(k.as_bytes()).map_err(|e| e.to_string())?));
    }
    let sess = all[0];
    if all.iter().any(|x| *x != sess) {
        return Err(format!("session store: {SESS:?} hold {all:?}, but the same was stored for all"));
    }
    let was = ms.clone();
    ms.retain(|m| seen_pair(&m.live) == live && seen_pair(&m.det) == det && m.sess == sess);
    if ms.is_empty() {
        return Err(format!("loaded {live:?}, kept handles {det:?}, session store {sess:?}; expected {was:?}"));
    }
    Ok(())
}

/// What a fresh instance finds in a snapshot file.
fn load_fresh(p: &SnapshotPath, k: u8, one_by_one: bool) -> Result<SeenPair, String> {
    let s = Stronghold::default();
    let mut r: SeenPair = [None, None];
    if one_by_one {
        for c in 0..2 {
            let cl = s.load_client_from_snapshot(NAMES[c], &kp(k), p).map_err(|e| e.to_string())?;
            r[c] = Some(look(&cl)?);
        }
    } else {
        s.load_snapshot(&kp(k), p).map_err(|e| e.to_string())?;
        for c in 0..2 {
            if let Ok(cl) = s.load_client(NAMES[c]) {
                r[c] = Some(look(&cl)?);
            }
        }
        if s.load_client("nobody").is_ok() {
            return Err("a client that never existed can be loaded".into());
        }
    }
    Ok(r)
}

/// Everything that only a reload shows: files, snapshot in memory.
fn end(w: &mut World, ms: &mut Vec<M>, deep: bool) -> Result<(), (String, String)> {
    let err = |k: &str, d: String| Err((k.to_string(), d));
    for f in 0..2 {
        let want = ms[0].files[f].clone();
        let exists = w.file(f).exists();
        if exists != want.is_some() {
            return err("snapshot file existence", format!("file {f}: exists={exists}, expected {want:?}"));
        }
        if let Some((k, p)) = want {
            match load_fresh(&w.path(f), k, false) {
                Ok(r) if r == seen_pair(&p) => (),
                r => return err("content of the snapshot file", format!("file {f}: {r:?}; expected {p:?}")),
            }
            if deep {
                let full = [
                    Some(p[0].clone().unwrap_or(EMPTY).seen()),
                    Some(p[1].clone().unwrap_or(EMPTY).seen()),
                ];
                match load_fresh(&w.path(f), k, true) {
                    Ok(r) if r == full => (),
                    r => return err("clients loaded one by one", format!("file {f}: {r:?}; expected {p:?}")),
                }
                if load_fresh(&w.path(f), 3 - k, false).is_ok() {
                    return err("wrong key accepted", format!("file {f}"));
                }
            }
        }
    }
    // the snapshot in memory: unload what is loaded and load everything again
    let mut snap: SeenPair = [None, None];
    for c in 0..2 {
        if let Some(h) = w.live[c].take() {
            if let Err(e) = w.s.unload_client(h) {
                return err("unload fails", e.to_string());
            }
        }
    }
    for c in 0..2 {
        if let Ok(cl) = w.s.load_client(NAMES[c]) {
            match look(&cl) {
                Ok(x) => snap[c] = Some(x),
                Err(e) => return err("content of a loaded client", e),
            }
        }
    }
    let was = ms.clone();
    ms.retain(|m| seen_pair(&m.snap) == snap);
    if ms.is_empty() {
        return err("snapshot in memory", format!("{snap:?}; expected {was:?}"));
    }
    let p = SnapshotPath::from_path(w.dir.path().join("probe"));
    if let Err(e) = w.s.commit_with_keyprovider(&p, &kp(1)) {
        return err("final commit fails", e.to_string());
    }
    match load_fresh(&p, 1, false) {
        Ok(r) if r == snap => (),
        r => return err("content after the final commit", format!("{r:?}; expected {snap:?}")),
    }
    if let Some(k) = ms[0].stored {
        if let Err(e) = w.s.commit(&p) {
            return err("final commit with the stored key fails", e.to_string());
        }
        match load_fresh(&p, k, false) {
            Ok(r) if r == snap => (),
            r => return err("content after the final commit with the stored key", format!("{r:?}; expected {snap:?}")),
        }
    } else if w.s.commit(&p).is_ok() {
        return err("commit without a stored key succeeds", String::new());
    }
    Ok(())
}

fn opname(op: &Op) -> String {
    let s = format!("{op:?}");
    s.split('(').next().unwrap().to_string()
}

/// Run one history; every step is compared with the model.
fn history(ops: &[Op], quiet: usize, deep: bool, out: &mut Outcome) {
    // skip duplicates: operations that are not applicable
    let mut ms = vec![M::new()];
    for op in ops {
        match ms[0].step(*op) {
            None => return,
            Some(v) => ms = vec![v[0].1.clone()],
        }
    }
    let mut w = World::new();
    let mut ms = vec![M::new()];
    for (k, op) in ops.iter().enumerate() {
        let r = guard(|| w.apply(*op)).unwrap_or_else(|p| Err(format!("PANIC {p}")));
        out.count("transitions", 1);
        let mut next: Vec<M> = vec![];
        for m in &ms {
            for (ok, n) in m.step(*op).into_iter().flatten() {
                if ok == r.is_ok() && !next.contains(&n) {
                    next.push(n);
                }
            }
        }
        if next.is_empty() || matches!(&r, Err(e) if e.starts_with("PANIC")) {
            return out.fail(
                format!("{} {}", opname(op), if r.is_ok() { "succeeds" } else { "fails" }),
                format!("history {:?}: last step returned {r:?} in state {ms:?}", &ops[..=k]),
            );
        }
        ms = next;
        if k >= quiet {
            if let Err(d) = observe(&w, &mut ms) {
                return out.fail(format!("state after {}", opname(op)), format!("history {:?}: {d}", &ops[..=k]));
            }
        }
    }
    out.see(&ms[0]);
    out.count("histories", 1);
    if let Err((key, d)) = end(&mut w, &mut ms, deep) {
        out.fail(key, format!("history {ops:?}: {d}"));
    }
}

fn every(rep: &mut Report, label: &str, prefix: &[Op], alphabet: &[Op], depth: usize, deep: bool) {
    let a = alphabet.len() as u64;
    let total: u64 = (0..=depth as u32).map(|d| a.pow(d)).sum();
    let dec = |mut i: u64| -> Vec<Op> {
        let mut d = 0;
        while i >= a.pow(d) {
            i -= a.pow(d);
            d += 1;
        }
        let mut v = prefix.to_vec();
        v.extend(digits(i, a, d as usize).into_iter().map(|x| alphabet[x]));
        v
    };
    let o = run_cases(
        total,
        60,
        &|i, out| {
            let h = dec(i);
            history(&h, prefix.len(), deep, out);
            if i % 4999 == 7 {
                out.sample(|| format!("{h:?}"));
            }
        },
        &|i| format!("{:?}", dec(i)),
    );
    rep.absorb(&format!("{label} prefix={} alphabet={a} depth<={depth}", prefix.len()), o);
}

/// Every operation from each of the first `cap` abstract states in breadth-first order.
fn graph(rep: &mut Report, label: &str, alphabet: &[Op], cap: usize) {
    let mut paths: HashMap<M, Vec<Op>> = HashMap::new();
    let mut order: Vec<M> = vec![];
    let mut q = VecDeque::new();
    paths.insert(M::new(), vec![]);
    q.push_back(M::new());
    while let Some(m) = q.pop_front() {
        if order.len() >= cap {
            break;
        }
        order.push(m.clone());
        for op in alphabet {
            let Some(v) = m.step(*op) else { continue };
            let n = &v[0].1;
            if !paths.contains_key(n) {
                let mut p = paths[&m].clone();
                p.push(*op);
                paths.insert(n.clone(), p);
                q.push_back(n.clone());
            }
        }
    }
    let complete = q.is_empty();
    let a = alphabet.len();
    let path = |i: u64| {
        let mut p = paths[&order[i as usize / a]].clone();
        p.push(alphabet[i as usize % a]);
        p
    };
    let depth = order.iter().map(|m| paths[m].len()).max().unwrap_or(0);
    let o = run_cases(
        (order.len() * a) as u64,
        60,
        &|i, out| {
            let p = path(i);
            history(&p, p.len() - 1, false, out);
        },
        &|i| format!("{:?}", path(i)),
    );
    let all_below = order.iter().map(|m| paths[m].len()).max().unwrap_or(0);
    rep.absorb(&format!("{label} state graph: {} states (history length <={depth}), {a} operations", order.len()), o);
    rep.set("graph_states", order.len() as u64);
    rep.set("graph_complete", complete);
    rep.set("graph_all_states_to_history_length", all_below.saturating_sub(if complete { 0 } else { 1 }) as u64);
}

/// Amounts: value lengths, numbers of records, vaults, clients and store entries, all come back after a reload.
fn amounts(rep: &mut Report) {
    let lens = [0usize, 1, 63, 64, 255, 256, 1023, 4095, 4096, 4097, 65535, 65536, 65537, 200_000, 1 << 20];
    let nums = [1usize, 2, 3, 16, 17, 64, 65, 128, 129, 255, 256, 257, 300];
    let total = lens.len() * 2 + nums.len() * 4;
    let what = |i: usize| -> String {
        if i < lens.len() * 2 {
            format!("value of {} bytes, {}", lens[i / 2], ["repetitive", "mixed"][i % 2])
        } else {
            let j = i - lens.len() * 2;
            format!("{} {}", nums[j / 4], ["records", "vaults", "clients", "store entries"][j % 4])
        }
    };
    let o = run_cases(
        total as u64,
        120,
        &|i, out| {
            let i = i as usize;
            // (client, location, value), (client, key, value)
            let mut recs: Vec<(String, Location, Vec<u8>)> = vec![];
            let mut ents: Vec<(String, Vec<u8>, Vec<u8>)> = vec![];
            let txt = |k: usize| format!("value {k}").into_bytes();
            if i < lens.len() * 2 {
                let mut x = 7u32;
                let v: Vec<u8> = (0..lens[i / 2])
                    .map(|j| {
                        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                        if i % 2 == 0 { (j % 3) as u8 } else { (x >> 24) as u8 }
                    })
                    .collect();
                recs.push(("c".into(), loc("v", "r"), v.clone()));
                ents.push(("c".into(), b"k".to_vec(), v.clone()));
                ents.push(("c".into(), v.clone(), b"x".to_vec()));
                recs.push(("c".into(), loc("v", "after"), txt(1)));
            } else {
                let j = i - lens.len() * 2;
                for k in 0..nums[j / 4] {
                    match j % 4 {
                        0 => recs.push(("c".into(), loc("v", &format!("r{k}")), txt(k))),
                        1 => recs.push(("c".into(), loc(&format!("v{k}"), "r"), txt(k))),
                        2 => {
                            recs.push((format!("c{k}"), loc("v", "r"), txt(k)));
                            ents.push((format!("c{k}"), b"k".to_vec(), txt(k)));
                        }
                        _ => ents.push(("c".into(), format!("k{k}").into_bytes(), txt(k))),
                    }
                }
            }
            let dir = Scratch::new("c03a");
            let path = SnapshotPath::from_path(dir.path().join("s"));
            let run = || -> Result<(), String> {
                let s = Stronghold::default();
                let get = |s: &Stronghold, n: &str| s.get_client(n).or_else(|_| s.create_client(n)).unwrap();
                for (c, l, v) in &recs {
                    get(&s, c).vault(l.vault_path()).write_secret(l.clone(), v.clone()).map_err(|e| e.to_string())?;
                }
                for (c, k, v) in &ents {
                    get(&s, c).store().insert(k.clone(), v.clone(), None).map_err(|e| e.to_string())?;
                }
                s.commit_with_keyprovider(&path, &kp(1)).map_err(|e| e.to_string())?;
                let t = Stronghold::default();
                t.load_snapshot(&kp(1), &path).map_err(|e| e.to_string())?;
                let get = |n: &str| t.get_client(n).or_else(|_| t.load_client(n)).map_err(|e| e.to_string());
                for (c, l, v) in &recs {
                    if holds(&get(c)?, l, v) != Ok(true) {
                        return Err(format!("record {} of {c} is not what was committed", crate::util::show_loc(l)));
                    }
                }
                for (c, k, v) in &ents {
                    if get(c)?.store().get(k).map_err(|e| e.to_string())?.as_ref() != Some(v) {
                        return Err(format!("store entry {} of {c} is not what was committed", crate::util::show(k)));
                    }
                }
                Ok(())
            };
            match guard(run) {
                Ok(Ok(())) => (),
                r => out.fail(format!("reload of {}", what(i)), format!("{r:?}")),
            }
            out.see(&i);
        },
        &|i| what(i as usize),
    );
    rep.absorb("amounts", o);
}

pub fn run_c03(tier: &str) -> i32 {
    let mut rep = Report::new("C03", tier, "model_checking");
    let th = rep.thorough();
    let ab = [
        Create(0), Create(1), Write(0, 0, 1), Write(0, 1, 2), Write(1, 0, 2), Revoke(0, 0), Delete(0, 0),
        StoreIns(0, 0, 1), StoreIns(0, 0, 2), StoreIns(1, 1, 1), StoreDel(0, 0), Unload(0), Load(0), Purge(0),
        Purge(1), WriteClient(0), Commit(0, 1), Commit(1, 2), LoadSnap(0, 1), LoadSnap(1, 2), LoadFrom(0, 0, 1),
        LoadFrom(1, 1, 2), Restart, Clear, StoreKey(1, 0), CommitStored(0),
    ];
    let fill = [
        Create(0), Create(1), Write(0, 0, 1), Write(0, 1, 2), StoreIns(0, 0, 1), Write(1, 0, 2), StoreIns(1, 1, 2),
    ];
    let mut committed = fill.to_vec();
    committed.push(Commit(0, 1));
    let mut two = committed.clone();
    two.extend([Write(0, 0, 2), Delete(0, 1), StoreDel(0, 0), Commit(1, 2)]);
    let mut restarted = two.clone();
    restarted.extend([Restart, LoadSnap(0, 1), Load(0)]);
    let mut stored = fill.to_vec();
    stored.extend([StoreKey(2, 0), CommitStored(1), Revoke(0, 0)]);
    let d = if th { 3 } else { 2 };
    every(&mut rep, "from nothing", &[], &ab, if th { 4 } else { 3 }, th);
    every(&mut rep, "two filled clients", &fill, &ab, d, true);
    every(&mut rep, "committed", &committed, &ab, d, true);
    every(&mut rep, "two snapshots", &two, &ab, d, true);
    every(&mut rep, "restarted", &restarted, &ab, d, true);
    every(&mut rep, "stored key", &stored, &ab, d, true);
    graph(&mut rep, "C03", &ab, if th { 20_000 } else { 600 });
    amounts(&mut rep);
    crate::names::c03(&mut rep);
    finish(rep)
}

pub fn run_c21(tier: &str) -> i32 {
    let mut rep = Report::new("C21", tier, "model_checking");
    let th = rep.thorough();
    let ab = [
        Create(0), Create(1), Load(0), Load(1), LoadFrom(0, 0, 1), LoadFrom(0, 0, 2), LoadFrom(1, 0, 1), LoadFrom(0, 1, 1),
        LoadSnap(0, 1), LoadSnap(0, 2), LoadSnap(1, 1), Unload(0), Unload(1), Purge(0), WriteClient(0), WriteClient(1),
        Commit(0, 1), Commit(0, 2), Commit(1, 1), CommitBad(0), CommitBad(1), CommitStoredBad, StoreKey(1, 0), StoreKey(2, 1),
        CommitStored(0), Clear, Write(0, 0, 1), Write(0, 0, 2), Revoke(0, 0), StoreIns(0, 0, 1), SessIns(1),
    ];
    let two = [
        Create(0), Create(1), Write(0, 0, 1), StoreIns(0, 0, 1), Write(1, 1, 2), StoreIns(1, 0, 2), SessIns(2),
        Commit(0, 1), Write(0, 0, 2), WriteClient(0), Write(0, 1, 1), Unload(1),
    ];
    let keyed = [
        Create(0), Write(0, 0, 1), StoreKey(2, 1), CommitStored(0), Write(0, 0, 2), WriteClient(0), Unload(0), Create(1),
    ];
    every(&mut rep, "from nothing", &[], &ab, if th { 4 } else { 3 }, th);
    every(&mut rep, "two clients, one unloaded", &two, &ab, if th { 3 } else { 2 }, true);
    every(&mut rep, "stored key", &keyed, &ab, if th { 3 } else { 2 }, true);
    graph(&mut rep, "C21", &ab, if th { 20_000 } else { 300 });
    finish(rep)
}

fn finish(mut rep: Report) -> i32 {
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("transitions"));
    rep.set("traces_validated_against_impl", rep.count("histories"));
    rep.assumptions.push("a call that fails may already have taken the loaded clients over into the snapshot in memory when it is a commit".into());
    rep.assumptions.push("loading a client that the snapshot file lacks gives an empty client (pinned by the repository's own test)".into());
    rep.finish()
}
