//! C04: commits are atomic and durable. The file-system calls of real commits are recorded; every state in which
//! a crash can leave the disk is built and loaded with the real code, and every call is made to fail.
use crate::fsx::{self, Fault, Op, Rec};
use crate::util::*;
use iota_stronghold::*;
use mc::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

const NAME: &str = "snapshot.stronghold";

/// What the client holds when it is committed for the `n`-th time.
fn payload(n: u8, size: usize) -> Vec<u8> {
    let mut x = 0x9E3779B97F4A7C15u64 ^ n as u64;
    (0..size)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}
fn size(s: usize) -> usize {
    [0, 70_000][s]
}

#[derive(Clone, Debug)]
struct Plan {
    /// committed before anything is recorded
    init: Option<usize>,
    /// payload sizes of the recorded commits
    seq: Vec<usize>,
    how: How,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Provider,
    StoredKey,
    Relative,
}

fn fill(c: &Client, n: u8, s: usize) -> Result<(), String> {
    let e = |x: ClientError| x.to_string();
    c.store().insert(b"n".to_vec(), vec![n], None).map_err(e)?;
    c.store().insert(b"payload".to_vec(), payload(n, size(s)), None).map_err(e)?;
    c.vault("v").write_secret(loc("v", "r"), vec![0x40 + n; 32]).map_err(e)
}
/// Which committed content does the snapshot at `path` hold? None: there is no file.
fn load(path: &Path, sizes: &BTreeMap<u8, usize>) -> Result<Option<u8>, String> {
    if !path.exists() {
        return Ok(None);
    }
    let e = |x: ClientError| x.to_string();
    let s = Stronghold::default();
    let c = s
        .load_client_from_snapshot("client", &kp(7), &SnapshotPath::from_path(path))
        .map_err(|x| format!("it cannot be loaded: {x}"))?;
    let n = match c.store().get(b"n").map_err(e)?.as_deref() {
        Some([n]) => *n,
        o => return Err(format!("it holds {o:?} as its number")),
    };
    let sz = sizes.get(&n).ok_or("it holds a number that was never committed")?;
    if c.store().get(b"payload").map_err(e)? != Some(payload(n, size(*sz))) {
        return Err(format!("number {n} has the payload of another"));
    }
    if !holds(&c, &loc("v", "r"), &vec![0x40 + n; 32])? {
        return Err(format!("number {n} has the secret of another"));
    }
    Ok(Some(n))
}

#[derive(Clone)]
struct Inode {
    base: Vec<u8>,
    now: Vec<u8>,
    /// not yet durable; true: never will be
    pending: Vec<(Op, bool)>,
}
fn apply(d: &mut Vec<u8>, o: &Op) {
    match o {
        Op::Write { off, data, .. } => fsx::put(d, *off, data),
        Op::Trunc { len, .. } => d.resize(*len, 0),
        _ => (),
    }
}
fn apply_dir(m: &mut BTreeMap<String, usize>, o: &Op, of: &BTreeMap<usize, usize>, at: usize) {
    // the inode an entry points to is fixed by the operation itself, not by what reached the disk before
    match o {
        Op::Create { name, ino } => {
            m.insert(name.clone(), *ino);
        }
        Op::Rename { from, to } => {
            m.remove(from);
            if let Some(i) = of.get(&at) {
                m.insert(to.clone(), *i);
            }
        }
        Op::Link { to, .. } => {
            if let Some(i) = of.get(&at) {
                m.insert(to.clone(), *i);
            }
        }
        Op::Unlink { name } => {
            m.remove(name);
        }
        _ => (),
    }
}

/// Contents in which a crash can leave a file.
fn torn(i: &Inode, fine: bool) -> BTreeSet<Vec<u8>> {
    let mut v = BTreeSet::new();
    let mut d = i.base.clone();
    v.insert(d.clone());
    // a prefix of the operations, the next one torn
    for (o, _) in &i.pending {
        if let Op::Write { off, data, .. } = o {
            let mut cuts: BTreeSet<usize> = [0, 1, data.len() / 2, data.len().saturating_sub(1)].into();
            let step = if fine { 64 } else { 4096 };
            cuts.extend((0..data.len()).step_by(step));
            for c in cuts {
                let mut t = d.clone();
                fsx::put(&mut t, *off, &data[..c.min(data.len())]);
                v.insert(t);
            }
        }
        apply(&mut d, o);
        v.insert(d.clone());
    }
    // any set of them, the others lost, with and without their effect on the length
    let m = i.pending.len();
    let subsets: Vec<u64> = if m <= 8 { (0..1u64 << m).collect() } else { (0..m).map(|k| !(1u64 << k)).chain([0]).collect() };
    for s in subsets {
        let (mut a, mut b) = (i.base.clone(), i.base.clone());
        for (k, (o, _)) in i.pending.iter().enumerate() {
            if s >> k & 1 == 1 {
                apply(&mut a, o);
                apply(&mut b, o);
            } else if let Op::Write { off, data, .. } = o {
                if a.len() < off + data.len() {
                    a.resize(off + data.len(), 0);
                }
            }
        }
        v.insert(a);
        v.insert(b);
    }
    v
}

/// Every state in which a crash after the first `k` operations can leave the disk.
fn images(rec: &Rec, k: usize, fine: bool) -> Vec<BTreeMap<String, Vec<u8>>> {
    let mut ino: BTreeMap<usize, Inode> = rec
        .initial_data
        .iter()
        .enumerate()
        .map(|(i, d)| (i, Inode { base: d.clone(), now: d.clone(), pending: vec![] }))
        .collect();
    let mut names = rec.initial.clone();
    let mut durable = rec.initial.clone();
    let mut of: BTreeMap<usize, usize> = BTreeMap::new();
    let mut dirs: Vec<usize> = vec![];
    for (at, o) in rec.ops[..k].iter().enumerate() {
        match o {
            Op::Create { .. } | Op::Rename { .. } | Op::Unlink { .. } | Op::Link { .. } => {
                if let Op::Rename { from, .. } | Op::Link { from, .. } = o {
                    if let Some(i) = names.get(from) {
                        of.insert(at, *i);
                    }
                }
                if let Op::Create { ino: i, .. } = o {
                    ino.insert(*i, Inode { base: vec![], now: vec![], pending: vec![] });
                }
                apply_dir(&mut names, o, &of, at);
                dirs.push(at);
            }
            Op::Write { ino: i, .. } | Op::Trunc { ino: i, .. } => {
                let f = ino.get_mut(i).unwrap();
                apply(&mut f.now, o);
                f.pending.push((o.clone(), false));
            }
            Op::Fsync { ino: i } => {
                let f = ino.get_mut(i).unwrap();
                for (o, lost) in std::mem::take(&mut f.pending) {
                    if lost {
                        f.pending.push((o, true));
                    } else {
                        apply(&mut f.base, &o);
                    }
                }
            }
            Op::FsyncFailed { ino: i } => ino.get_mut(i).unwrap().pending.iter_mut().for_each(|p| p.1 = true),
            Op::FsyncDir => {
                durable = names.clone();
                dirs.clear();
            }
            Op::Mark(_) | Op::Chmod { .. } => (),
        }
    }
    let subsets: Vec<u64> =
        if dirs.len() <= 8 { (0..1u64 << dirs.len()).collect() } else { (0..=dirs.len()).map(|n| (1u64 << n) - 1).collect() };
    let mut out = BTreeSet::new();
    for s in subsets {
        let mut m = durable.clone();
        for (j, at) in dirs.iter().enumerate() {
            if s >> j & 1 == 1 {
                apply_dir(&mut m, &rec.ops[*at], &of, *at);
            }
        }
        let rest: BTreeMap<String, Vec<u8>> =
            m.iter().filter(|(n, _)| *n != NAME).map(|(n, i)| (n.clone(), ino[i].now.clone())).collect();
        match m.get(NAME) {
            None => {
                out.insert(rest);
            }
            Some(i) => {
                for d in torn(&ino[i], fine) {
                    let mut r = rest.clone();
                    r.insert(NAME.into(), d);
                    out.insert(r);
                }
            }
        }
    }
    out.into_iter().collect()
}

fn show_ops(rec: &Rec, k: usize) -> String {
    let f = |o: &Op| match o {
        Op::Write { ino, off, data } => format!("write #{ino} {}+{}", off, data.len()),
        Op::Create { name, ino } => format!("create #{ino}{}", if name == NAME { " (the snapshot)" } else { "" }),
        Op::Rename { from, to } => {
            let t = |s: &str| if s == NAME { "the snapshot".to_string() } else { "temporary".into() };
            format!("rename {} to {}", t(from), t(to))
        }
        Op::Mark(m) if m % 3 == 0 => format!("[commit {} begins]", m / 3),
        Op::Mark(m) if m % 3 == 1 => "[ok]".to_string(),
        Op::Mark(_) => "[error]".to_string(),
        Op::Chmod { mode, .. } => format!("chmod({mode:o})"),
        o => format!("{o:?}"),
    };
    rec.ops[..k].iter().map(f).collect::<Vec<_>>().join(", ")
}

/// One run of the plan with the given faults, numbered from the beginning of the last commit of the plan.
/// Returns the number of calls that commit made.
fn execute(p: &Plan, faults: &[(usize, Fault, bool)], th: bool, out: &mut Outcome) -> Result<usize, String> {
    let e = |x: ClientError| x.to_string();
    let dir = Scratch::new("c04");
    let real = dir.path().join(NAME);
    let path = match p.how {
        How::Relative => {
            std::env::set_current_dir(dir.path()).map_err(|x| x.to_string())?;
            SnapshotPath::from_path(NAME)
        }
        _ => SnapshotPath::from_path(&real),
    };
    let mut sizes: BTreeMap<u8, usize> = BTreeMap::new();
    let s = Stronghold::default();
    let c = s.create_client("client").map_err(e)?;
    if p.how == How::StoredKey {
        s.store_snapshot_key_at_location(kp(7), loc("keys", "snapshot")).map_err(e)?;
    }
    let commit = || match p.how {
        How::StoredKey => s.commit(&path),
        _ => s.commit_with_keyprovider(&path, &kp(7)),
    };
    let mut n = 0u8;
    if let Some(i) = p.init {
        fill(&c, n, i)?;
        sizes.insert(n, i);
        commit().map_err(e)?;
    }
    fsx::start(dir.path(), vec![]);
    let mut calls = 0;
    let mut result: Result<(), String> = Ok(());
    let last = p.seq.len() - 1;
    let mut history = p.seq.clone();
    if !faults.is_empty() {
        // the retry
        history.push(p.seq[last]);
    }
    for (j, sz) in history.iter().enumerate() {
        n += 1;
        fill(&c, n, *sz)?;
        sizes.insert(n, *sz);
        let before = fsx::calls();
        if j == last {
            fsx::set_faults(faults.iter().map(|(k, f, a)| (k + before, *f, *a)).collect());
        } else {
            fsx::set_faults(vec![]);
        }
        fsx::mark(3 * n as u32);
        let r = commit();
        fsx::mark(3 * n as u32 + if r.is_ok() { 1 } else { 2 });
        fsx::set_faults(vec![]);
        if j == last {
            calls = fsx::calls() - before;
        } else if let Err(x) = &r {
            result = Err(format!("commit {n} fails without a fault: {x}"));
            break;
        }
        if r.is_err() && !holds(&c, &loc("v", "r"), &vec![0x40 + n; 32])? {
            result = Err("a failed commit changed the secret in memory".into());
        }
    }
    let rec = fsx::stop();
    if p.how == How::Relative {
        let _ = std::env::set_current_dir("/");
    }
    let context = |k: usize| format!("calls: {}; history: {}", rec.calls.join(", "), show_ops(&rec, k));
    result.map_err(|x| format!("{x}\n  {}", context(rec.ops.len())))?;
    if let Err(x) = rec.matches(dir.path()) {
        eprintln!("C04: {x}");
        std::process::exit(2);
    }
    // what the path may hold at each point
    let mut allowed: BTreeSet<Option<u8>> = [if p.init.is_some() { Some(0) } else { None }].into();
    let mut seen: BTreeMap<(u64, Vec<Option<u8>>), ()> = BTreeMap::new();
    let mut loaded: BTreeMap<u64, Result<Option<u8>, String>> = BTreeMap::new();
    for k in 0..=rec.ops.len() {
        if k > 0 {
            if let Op::Mark(m) = rec.ops[k - 1] {
                let n = Some((m / 3) as u8);
                match m % 3 {
                    0 => {
                        allowed.insert(n);
                    }
                    1 => allowed = [n].into(),
                    _ => (),
                }
            }
        }
        for im in images(&rec, k, th) {
            out.count("crash states", 1);
            let target = mc::hash(&im.get(NAME));
            let key = (target, allowed.iter().copied().collect());
            if seen.insert(key, ()).is_some() {
                continue;
            }
            out.see(&(im.get(NAME).map(|d| d.len()), allowed.len(), im.len()));
            out.count("distinct crash states loaded", 1);
            if !loaded.contains_key(&target) {
                let d2 = Scratch::new("c04-crash");
                for (n, d) in &im {
                    std::fs::write(d2.path().join(n), d).map_err(|x| x.to_string())?;
                }
                let got = load(&d2.path().join(NAME), &sizes);
                if let Ok(was) = &got {
                    // the survivor goes on in the directory the crash left
                    let t = Stronghold::default();
                    let sp = SnapshotPath::from_path(d2.path().join(NAME));
                    let c = match was {
                        Some(_) => t.load_client_from_snapshot("client", &kp(7), &sp),
                        None => t.create_client("client"),
                    }
                    .map_err(|x| format!("after a crash: {x}"))?;
                    let mut sizes = sizes.clone();
                    sizes.insert(99, 1);
                    fill(&c, 99, 1)?;
                    t.commit_with_keyprovider(&sp, &kp(7))
                        .map_err(|x| format!("a commit after a crash fails: {x}\n  {}", context(k)))?;
                    match load(&d2.path().join(NAME), &sizes) {
                        Ok(Some(99)) => (),
                        o => return Err(format!("a commit after a crash leaves {o:?}\n  {}", context(k))),
                    }
                }
                loaded.insert(target, got);
            }
            match &loaded[&target] {
                Ok(v) if allowed.contains(v) => (),
                Ok(v) => {
                    return Err(format!("after a crash the snapshot holds {v:?}, expected one of {allowed:?}\n  {}", context(k)))
                }
                Err(x) => {
                    return Err(format!(
                        "after a crash the snapshot ({:?} bytes) is unusable: {x}\n  {}",
                        im.get(NAME).map(|d| d.len()),
                        context(k)
                    ))
                }
            }
        }
    }
    // without a crash the disk holds what the calls left
    let got = load(&real, &sizes).map_err(|x| format!("afterwards the snapshot is unusable: {x}\n  {}", context(rec.ops.len())))?;
    if !allowed.contains(&got) {
        return Err(format!("afterwards the snapshot holds {got:?}, expected one of {allowed:?}\n  {}", context(rec.ops.len())));
    }
    out.count("runs", 1);
    out.count("faults injected", rec.injected as u64);
    out.count("operations", rec.ops.len() as u64);
    Ok(calls)
}

/// Loading under faults: the right content or an error, and no lasting damage.
fn load_faults(init: usize, out: &mut Outcome) -> Result<(), String> {
    let e = |x: ClientError| x.to_string();
    let dir = Scratch::new("c04-load");
    let real = dir.path().join(NAME);
    let path = SnapshotPath::from_path(&real);
    let s = Stronghold::default();
    let c = s.create_client("client").map_err(e)?;
    fill(&c, 0, init)?;
    s.commit_with_keyprovider(&path, &kp(7)).map_err(e)?;
    let before = std::fs::read(&real).map_err(|x| x.to_string())?;
    let sizes: BTreeMap<u8, usize> = [(0, init)].into();
    let mut k = 0;
    loop {
        let mut calls = 0;
        for f in [(Fault::Errno(libc::EINTR), false)].into_iter().chain(kinds()) {
            fsx::start(dir.path(), vec![(k, f.0, f.1)]);
            let t = Stronghold::default();
            let r = t.load_client_from_snapshot("client", &kp(7), &path);
            let rec = fsx::stop();
            calls = calls.max(rec.calls.len());
            if rec.injected > 0 {
                out.count("faults injected into loads", 1);
            }
            let what = || format!("{f:?} in call {k} of a load ({})", rec.calls.join(", "));
            let good = |c: &Client| -> Result<bool, String> {
                Ok(c.store().get(b"payload").map_err(e)? == Some(payload(0, size(init)))
                    && holds(c, &loc("v", "r"), &vec![0x40; 32])?)
            };
            match r {
                Ok(c) => {
                    if !good(&c)? {
                        return Err(format!("{}: the load succeeds with other content", what()));
                    }
                }
                Err(_) => {
                    let c = t
                        .load_client_from_snapshot("client", &kp(7), &path)
                        .map_err(|x| format!("{}: a later load fails: {x}", what()))?;
                    if !good(&c)? {
                        return Err(format!("{}: a later load gives other content", what()));
                    }
                }
            }
            if std::fs::read(&real).map_err(|x| x.to_string())? != before {
                return Err(format!("{}: the file changed", what()));
            }
        }
        k += 1;
        if k >= calls {
            break;
        }
    }
    if load(&real, &sizes)? != Some(0) {
        return Err("the file is damaged".into());
    }
    Ok(())
}

fn kinds() -> Vec<(Fault, bool)> {
    use Fault::*;
    vec![
        (Errno(libc::EIO), false),
        (Errno(libc::EIO), true),
        (Errno(libc::ENOSPC), false),
        (Errno(libc::EACCES), false),
        (Errno(libc::EROFS), true),
        (Errno(libc::EINTR), false),
        (Errno(libc::EDQUOT), false),
        (Errno(libc::EINVAL), false),
        (Short(0), false),
        (Short(1), false),
        (Short(2), false),
        (Zero, false),
        (Short(1), true),
    ]
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C04", tier, "model_checking");
    let th = rep.thorough();
    {
        let d = Scratch::new("c04-self");
        if let Err(e) = fsx::works(d.path()) {
            eprintln!("C04: the file-system layer does not work here: {e}");
            return 2;
        }
    }
    let mut plans = vec![];
    let inits = [None, Some(0), Some(1)];
    for len in 1..=(if th { 3 } else { 2 }) {
        for code in 0..1u64 << len {
            for init in inits {
                for how in [How::Provider, How::StoredKey, How::Relative] {
                    if len > 1 && how != How::Provider && !th {
                        continue;
                    }
                    plans.push(Plan { init, seq: digits(code, 2, len), how });
                }
            }
        }
    }
    let ks = kinds();
    // case: plan x fault kind (0: none)
    let width = 1 + ks.len() as u64;
    let describe = |i: u64| {
        let p = &plans[(i / width) as usize];
        match i % width {
            0 => format!("{p:?}, no faults"),
            k => format!("{p:?}, fault {:?} in every call", ks[k as usize - 1]),
        }
    };
    let o = run_cases(
        plans.len() as u64 * width,
        300,
        &|i, out| {
            let p = &plans[(i / width) as usize];
            let run = |f: &[(usize, Fault, bool)], out: &mut Outcome| match execute(p, f, th, out) {
                Ok(n) => n,
                Err(e) => {
                    let _ = guard(fsx::stop);
                    out.fail(
                        format!("{} [{}]", first_line(&e), if f.is_empty() { "no faults" } else { "faults" }),
                        format!("{p:?}, faults {f:?}: {e}"),
                    );
                    0
                }
            };
            if i % width == 0 {
                run(&[], out);
                return;
            }
            let (f, always) = ks[(i % width) as usize - 1];
            // a fault that is hit in no call ends the enumeration
            let mut k = 0;
            loop {
                let before = out.counts.get("faults injected").copied().unwrap_or(0);
                let n = run(&[(k, f, always)], out);
                if n == 0 || out.counts.get("faults injected").copied().unwrap_or(0) == before {
                    break;
                }
                if th && p.how == How::Provider && p.seq.len() == 1 && !always {
                    // a second fault
                    for k2 in k + 1..n + 2 {
                        for (g, al) in [(Fault::Errno(libc::EIO), true), (Fault::Errno(libc::ENOSPC), false), (Fault::Short(0), false)] {
                            run(&[(k, f, false), (k2, g, al)], out);
                        }
                    }
                }
                k += 1;
            }
            if i % 61 == 5 {
                out.sample(|| describe(i));
            }
        },
        &describe,
    );
    rep.absorb("crashes and faults", o);
    let o = run_cases(
        2,
        300,
        &|i, out| {
            if let Err(e) = load_faults(i as usize, out) {
                let _ = guard(fsx::stop);
                out.fail(first_line(&e), e);
            }
        },
        &|i| format!("loads of snapshot {i}"),
    );
    rep.absorb("loads under faults", o);
    rep.set("states", rep.count("crash states"));
    rep.set("transitions", rep.count("operations"));
    rep.set("crash_points", rep.count("operations"));
    rep.set("traces_validated_against_impl", rep.count("runs"));
    rep.set("exhaustive", true);
    rep.assumptions = vec![
        "Crash model: data not covered by an fsync of the file may be lost, torn or zero in any combination; directory entries not covered by an fsync of the directory may be lost in any combination; a rename is atomic; data of a failed fsync may never reach the disk.".into(),
        "The directory of the snapshot exists durably before the first commit.".into(),
    ];
    rep.finish()
}
