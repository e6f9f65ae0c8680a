//! C11: the store returns the live value of a key and forgets it on time, under a clock the check controls.
use crate::clock;
use crate::util::*;
use engine::store::Cache;
use iota_stronghold::*;
use mc::*;
use std::collections::BTreeMap;
use std::time::Duration;

const S: i128 = 1_000_000_000;
const LIMIT: i128 = (i64::MAX as i128) * S; // latest representable time, rounded down

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Insert(u8, u8, Option<Duration>),
    Remove(u8),
    GetOrInsert(u8, u8, Option<Duration>),
    Clear,
    Tick(i128),
    Reload,
}

#[derive(Clone, Debug)]
struct Entry {
    val: u8,
    exp: Option<i128>,
}

/// What a lookup may return.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Live(u8),
    Gone,
    /// the clock was set back after the lifetime had passed
    Either(u8),
}
impl Want {
    fn allows(self, got: Option<u8>) -> bool {
        match self {
            Want::Live(v) => got == Some(v),
            Want::Gone => got.is_none(),
            Want::Either(v) => got.is_none() || got == Some(v),
        }
    }
}

#[derive(Clone, Debug)]
struct Model {
    map: BTreeMap<u8, Entry>,
    now: i128,
    latest: i128,
    steps: u8,
}
impl Model {
    fn new(now: i128) -> Model {
        Model { map: BTreeMap::new(), now, latest: now, steps: 0 }
    }
    fn want(&self, k: u8, t: i128) -> Want {
        match self.map.get(&k) {
            None => Want::Gone,
            Some(Entry { val, exp: None }) => Want::Live(*val),
            Some(Entry { val, exp: Some(e) }) => {
                if t >= *e {
                    Want::Gone
                } else if self.latest >= *e {
                    Want::Either(*val)
                } else {
                    Want::Live(*val)
                }
            }
        }
    }
    fn put(&mut self, k: u8, val: u8, life: Option<Duration>) {
        // a lifetime that ends after the end of representable time never passes
        let exp = life.map(|d| self.now + d.as_nanos() as i128).filter(|e| *e <= LIMIT);
        self.map.insert(k, Entry { val, exp });
    }
    fn probes(&self) -> Vec<i128> {
        let mut t = vec![self.now, (self.now + 1000 * S).min(LIMIT)];
        for e in self.map.values().filter_map(|e| e.exp) {
            for d in [-1, 0, 1] {
                if e + d >= 0 && e + d <= LIMIT {
                    t.push(e + d);
                }
            }
        }
        t
    }
    fn abs(&self) -> Vec<(u8, u8, Option<i128>, i128)> {
        self.map.iter().map(|(k, e)| (*k, e.val % 10, e.exp.map(|x| x - self.now), self.latest - self.now)).collect()
    }
}

const KEYS: [u8; 3] = [1, 2, 3];

trait Sut {
    fn insert(&mut self, k: u8, v: u8, d: Option<Duration>) -> Result<Option<u8>, String>;
    fn remove(&mut self, k: u8) -> Result<Option<u8>, String>;
    fn get_or_insert(&mut self, k: u8, v: u8, d: Option<Duration>) -> Result<u8, String>;
    fn get(&self, k: u8) -> Result<Option<u8>, String>;
    fn contains(&self, k: u8) -> Result<bool, String>;
    fn keys(&self) -> Result<Vec<u8>, String>;
    fn clear(&mut self) -> Result<(), String>;
    fn reload(&mut self) -> Result<(), String>;
}

fn step<T: Sut>(s: &mut T, m: &mut Model, op: Op) -> Result<(), String> {
    let chk = |what: &str, want: Want, got: Option<u8>| {
        if want.allows(got) {
            Ok(())
        } else {
            Err(format!("{what} returned {got:?}, expected {want:?}"))
        }
    };
    m.steps += 1;
    match op {
        Op::Insert(k, v, d) => {
            let w = m.want(k, m.now);
            chk("insert", w, s.insert(k, v, d)?)?;
            m.put(k, v, d);
        }
        Op::Remove(k) => {
            let w = m.want(k, m.now);
            chk("remove", w, s.remove(k)?)?;
            m.map.remove(&k);
        }
        Op::GetOrInsert(k, v, d) => {
            let v = v + 10 * m.steps; // every one is different
            let got = s.get_or_insert(k, v, d)?;
            match m.want(k, m.now) {
                Want::Live(o) if got == o => (),
                Want::Either(o) if got == o && o != v => (),
                Want::Gone | Want::Either(_) if got == v => m.put(k, v, d),
                w => return Err(format!("get_or_insert returned {got}, expected {w:?} or {v}")),
            }
        }
        Op::Clear => {
            s.clear()?;
            m.map.clear();
        }
        Op::Tick(d) => {
            m.now = (m.now + d).clamp(0, LIMIT);
            m.latest = m.latest.max(m.now);
            clock::set(m.now);
        }
        Op::Reload => s.reload()?,
    }
    Ok(())
}

fn observe<T: Sut>(s: &T, m: &Model, out: &mut Outcome) -> Result<(), String> {
    for t in m.probes() {
        clock::set(t);
        for k in KEYS {
            let w = m.want(k, t);
            let g = s.get(k)?;
            if !w.allows(g) || s.contains(k)? != g.is_some() {
                return Err(format!(
                    "key {k} read {} ns later: get {g:?}, contains {:?}, expected {w:?}",
                    t - m.now,
                    s.contains(k)
                ));
            }
        }
        out.count("observations", 1);
    }
    clock::set(m.now);
    let keys = s.keys()?;
    for k in KEYS {
        // entries past their lifetime may or may not still be listed
        if matches!(m.want(k, m.now), Want::Live(_)) && !keys.contains(&k) {
            return Err(format!("key {k} is not listed"));
        }
        if !m.map.contains_key(&k) && keys.contains(&k) {
            return Err(format!("key {k} is listed"));
        }
    }
    out.see(&m.abs());
    Ok(())
}

// ------------------------------------------------------------------ the engine's cache

#[derive(Clone)]
struct C(Cache<u8, u8>);
impl Sut for C {
    fn insert(&mut self, k: u8, v: u8, d: Option<Duration>) -> Result<Option<u8>, String> {
        guard(|| self.0.insert(k, v, d)).map_err(|p| format!("panic: {p}"))
    }
    fn remove(&mut self, k: u8) -> Result<Option<u8>, String> {
        guard(|| self.0.remove(&k)).map_err(|p| format!("panic: {p}"))
    }
    fn get_or_insert(&mut self, k: u8, v: u8, d: Option<Duration>) -> Result<u8, String> {
        guard(|| *self.0.get_or_insert(k, || v, d)).map_err(|p| format!("panic: {p}"))
    }
    fn get(&self, k: u8) -> Result<Option<u8>, String> {
        Ok(self.0.get(&k).copied())
    }
    fn contains(&self, k: u8) -> Result<bool, String> {
        Ok(self.0.contains_key(&k))
    }
    fn keys(&self) -> Result<Vec<u8>, String> {
        Ok(self.0.keys())
    }
    fn clear(&mut self) -> Result<(), String> {
        self.0.clear();
        Ok(())
    }
    fn reload(&mut self) -> Result<(), String> {
        Ok(())
    }
}

fn dfs(c: &C, m: &Model, ops: &[Op], depth: usize, hist: &mut Vec<Op>, out: &mut Outcome) {
    if depth == 0 {
        return;
    }
    for op in ops {
        // two clock movements in a row are one
        if matches!((hist.last(), op), (Some(Op::Tick(_)), Op::Tick(_))) {
            continue;
        }
        let (mut c2, mut m2) = (c.clone(), m.clone());
        hist.push(*op);
        clock::set(m2.now);
        let r = step(&mut c2, &mut m2, *op).and_then(|_| observe(&c2, &m2, out));
        out.count("transitions", 1);
        match r {
            Ok(()) => dfs(&c2, &m2, ops, depth - 1, hist, out),
            Err(e) => out.fail(format!("cache: {}", first_line(&e)), format!("{hist:?} from {}: {e}", m.now)),
        }
        hist.pop();
        if out.failures.len() > 3 {
            return;
        }
    }
}

// ------------------------------------------------------------------ the store of a client, through the snapshot

struct St {
    dir: Scratch,
    n: Stronghold,
    client: Client,
    gen: u64,
}
impl St {
    fn new() -> Result<St, String> {
        let n = Stronghold::default();
        let client = n.create_client("client").map_err(|e| e.to_string())?;
        Ok(St { dir: Scratch::new("c11"), n, client, gen: 0 })
    }
}
fn one(v: Option<Vec<u8>>) -> Result<Option<u8>, String> {
    match v {
        None => Ok(None),
        Some(v) if v.len() == 9 && v[..8] == *b"a value " => Ok(Some(v[8])),
        Some(v) => Err(format!("value {v:?} was never stored")),
    }
}
fn key(k: u8) -> Vec<u8> {
    match k {
        1 => vec![],
        2 => b"key".to_vec(),
        _ => b"key2".to_vec(),
    }
}
impl Sut for St {
    fn insert(&mut self, k: u8, v: u8, d: Option<Duration>) -> Result<Option<u8>, String> {
        one(guard(|| self.client.store().insert(key(k), [&b"a value "[..], &[v]].concat(), d))
            .map_err(|p| format!("panic: {p}"))?
            .map_err(|e| e.to_string())?)
    }
    fn remove(&mut self, k: u8) -> Result<Option<u8>, String> {
        one(guard(|| self.client.store().delete(&key(k))).map_err(|p| format!("panic: {p}"))?.map_err(|e| e.to_string())?)
    }
    fn get_or_insert(&mut self, _: u8, v: u8, _: Option<Duration>) -> Result<u8, String> {
        Ok(v)
    }
    fn get(&self, k: u8) -> Result<Option<u8>, String> {
        one(self.client.store().get(&key(k)).map_err(|e| e.to_string())?)
    }
    fn contains(&self, k: u8) -> Result<bool, String> {
        self.client.store().contains_key(&key(k)).map_err(|e| e.to_string())
    }
    fn keys(&self) -> Result<Vec<u8>, String> {
        let l = self.client.store().keys().map_err(|e| e.to_string())?;
        Ok(KEYS.into_iter().filter(|k| l.contains(&key(*k))).collect())
    }
    fn clear(&mut self) -> Result<(), String> {
        self.client.store().clear().map_err(|e| e.to_string())
    }
    fn reload(&mut self) -> Result<(), String> {
        self.gen += 1;
        let p = SnapshotPath::from_path(self.dir.path().join(format!("s{}", self.gen)));
        let e = |what: &str| {
            let w = what.to_string();
            move |x: ClientError| format!("{w}: {x}")
        };
        guard(|| self.n.commit_with_keyprovider(&p, &kp(9)))
            .map_err(|p| format!("commit: panic: {p}"))?
            .map_err(e("commit"))?;
        let n = Stronghold::default();
        self.client = n.load_client_from_snapshot("client", &kp(9), &p).map_err(e("load"))?;
        self.n = n;
        let _ = std::fs::remove_file(p.as_path());
        Ok(())
    }
}

fn lives() -> Vec<Option<Duration>> {
    vec![
        None,
        Some(Duration::ZERO),
        Some(Duration::from_nanos(1)),
        Some(Duration::from_secs(10)),
        Some(Duration::MAX),
        Some(Duration::from_secs(i64::MAX as u64)),
    ]
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C11", tier, "model_checking");
    if !clock::works() {
        eprintln!("the clock of the process can not be controlled");
        return 2;
    }
    let th = rep.thorough();
    let starts = [1_700_000_000 * S + 123_456_789, 0, ((1i128 << 31) - 1) * S + 999_999_999, LIMIT - 15 * S];
    // the cache: all histories
    let life = lives();
    let mut ops = vec![];
    for d in &life {
        ops.push(Op::Insert(1, 1, *d));
        ops.push(Op::GetOrInsert(1, 3, *d));
    }
    ops.push(Op::Insert(1, 2, Some(Duration::from_secs(10))));
    ops.push(Op::Insert(2, 4, Some(Duration::from_secs(4))));
    ops.push(Op::Insert(2, 5, None));
    ops.push(Op::GetOrInsert(2, 6, Some(Duration::from_nanos(1))));
    ops.extend([Op::Remove(1), Op::Remove(2), Op::Clear]);
    ops.extend([1, 4 * S, 10 * S, 400 * 86400 * S, -1, -6 * S, -400 * 86400 * S].map(Op::Tick));
    let depth = if th { 5 } else { 4 };
    let freqs: [Option<Duration>; 5] =
        [None, Some(Duration::ZERO), Some(Duration::from_nanos(1)), Some(Duration::from_secs(4)), Some(Duration::MAX)];
    let a = ops.len() as u64;
    let n = starts.len() as u64 * freqs.len() as u64 * a;
    let split = |i: u64| (starts[(i / a) as usize % 4], freqs[(i / a / 4) as usize], ops[(i % a) as usize]);
    let describe = |i: u64| format!("cache {:?}", split(i));
    let o = run_cases(
        n,
        600,
        &|i, out| {
            let (t0, f, op) = split(i);
            clock::set(t0);
            let mut c = C(f.map(Cache::create_with_scanner).unwrap_or_default());
            let mut m = Model::new(t0);
            let mut hist = vec![op];
            match step(&mut c, &mut m, op).and_then(|_| observe(&c, &m, out)) {
                Ok(()) => dfs(&c, &m, &ops, depth - 1, &mut hist, out),
                Err(e) => out.fail(format!("cache: {}", first_line(&e)), format!("{hist:?} from {t0}: {e}")),
            }
            clock::real();
            if i % 101 == 5 {
                out.sample(|| describe(i));
            }
        },
        &describe,
    );
    rep.absorb("all histories of the cache", o);

    // the store of a client, with commits and reloads
    let mut ops = vec![];
    for d in &life {
        ops.push(Op::Insert(1, 1, *d));
    }
    ops.push(Op::Insert(2, 2, Some(Duration::from_secs(10))));
    ops.push(Op::Insert(2, 3, None));
    ops.push(Op::Insert(3, 3, Some(Duration::from_secs(4))));
    ops.extend([Op::Remove(1), Op::Remove(2), Op::Clear, Op::Reload, Op::Reload]);
    ops.dedup();
    ops.extend([1, 4 * S, 10 * S, -6 * S].map(Op::Tick));
    let a = ops.len() as u64;
    let depth = if th { 5 } else { 4 };
    let nst = if th { 4u64 } else { 1 };
    let mut work: Vec<(i128, Vec<Op>)> = vec![];
    for s in 0..nst {
        for i in 0..a.pow(depth as u32) {
            let h: Vec<Op> = digits(i, a, depth).into_iter().map(|k| ops[k]).collect();
            // at least one reload of something, and no repetition that is one step
            let dull = h.windows(2).any(|w| {
                matches!(w, [Op::Tick(_), Op::Tick(_)] | [Op::Reload, Op::Reload] | [Op::Clear, Op::Clear])
            });
            let first = h.iter().position(|o| *o == Op::Reload);
            let useful = first.map_or(false, |p| h[..p].iter().any(|o| matches!(o, Op::Insert(..))));
            if useful && !dull {
                work.push((starts[s as usize], h));
            }
        }
    }
    for s in 1..4 {
        for i in 0..a.pow(3) {
            let h: Vec<Op> = digits(i, a, 3).into_iter().map(|k| ops[k]).collect();
            if h.contains(&Op::Reload) {
                work.push((starts[s], h));
            }
        }
    }
    let describe = |i: u64| format!("store {:?}", work[i as usize]);
    let o = run_cases(
        work.len() as u64,
        60,
        &|i, out| {
            let (t0, h) = &work[i as usize];
            clock::set(*t0);
            let r = (|| {
                let mut s = St::new()?;
                let mut m = Model::new(*t0);
                for (k, op) in h.iter().enumerate() {
                    step(&mut s, &mut m, *op)
                        .and_then(|_| observe(&s, &m, out))
                        .map_err(|e| format!("after {} steps: {e}", k + 1))?;
                    out.count("transitions", 1);
                }
                Ok::<(), String>(())
            })();
            clock::real();
            if let Err(e) = r {
                out.fail(format!("store: {}", first_line(&e)), format!("{}: {e}", describe(i)));
            }
            if i % 3001 == 5 {
                out.sample(|| describe(i));
            }
        },
        &describe,
    );
    rep.absorb("histories of a client's store with commit and reload", o);

    // every size of lifetime
    let mut sizes: Vec<Duration> = vec![];
    for k in 0..64 {
        for d in [-1i64, 0, 1] {
            let n = (1u64 << k).wrapping_add_signed(d);
            sizes.extend([Duration::from_nanos(n), Duration::from_micros(n), Duration::from_millis(n), Duration::from_secs(n)]);
        }
    }
    for n in [60u64, 3600, 86400, 365 * 86400, 100 * 365 * 86400, 10_000 * 365 * 86400] {
        for d in [0, 1, 999_999_999] {
            sizes.push(Duration::new(n, d));
            sizes.push(Duration::new(n - 1, d));
        }
    }
    sizes.sort();
    sizes.dedup();
    let describe = |i: u64| format!("lifetime {:?} from {}", sizes[i as usize / 4], starts[i as usize % 4]);
    let o = run_cases(
        sizes.len() as u64 * 4,
        60,
        &|i, out| {
            let (d, t0) = (Some(sizes[i as usize / 4]), starts[i as usize % 4]);
            let r = (|| {
                for first in [Op::Insert(1, 1, d), Op::GetOrInsert(1, 1, d)] {
                    for f in freqs {
                        clock::set(t0);
                        let mut c = C(f.map(Cache::create_with_scanner).unwrap_or_default());
                        let mut m = Model::new(t0);
                        for op in [first, Op::Insert(2, 2, None), Op::Tick(S), Op::Insert(2, 3, None)] {
                            step(&mut c, &mut m, op).and_then(|_| observe(&c, &m, out))?;
                            out.count("transitions", 1);
                        }
                    }
                }
                clock::set(t0);
                let (mut s, mut m) = (St::new()?, Model::new(t0));
                for op in [Op::Insert(1, 1, d), Op::Reload] {
                    step(&mut s, &mut m, op).and_then(|_| observe(&s, &m, out))?;
                    out.count("transitions", 1);
                }
                Ok::<(), String>(())
            })();
            clock::real();
            if let Err(e) = r {
                out.fail(format!("{}: {}", describe(i), first_line(&e)), format!("{}: {e}", describe(i)));
            }
        },
        &describe,
    );
    rep.absorb("every size of lifetime", o);
    crate::amounts::c11(&mut rep);
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("transitions"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.finish()
}
