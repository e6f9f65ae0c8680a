//! C23: encrypted records open only with their own key, vault and identity. The engine's `DbView` is explored
//! over its whole abstract state graph against a model, and records assembled from the parts of others, moved,
//! flipped and shortened are opened.
use engine::vault::{BoxProvider, ChainId, DbView, Decrypt, Encrypt, Key, NCKey, RecordHint, RecordId, VaultId};
use iota_stronghold::internal::Provider;
use mc::serde_json::{self, Value};
use mc::*;
use std::collections::{HashMap, VecDeque};

type Db = DbView<Provider>;
type K = Key<Provider>;

fn key(k: usize) -> K {
    // the keys differ in one bit only, so that a partial comparison is noticed
    let mut b = vec![0x5A; 32];
    match k {
        0 => (),
        1 => b[31] ^= 0x80,
        _ => b[0] ^= 1,
    }
    K::load(b).expect("a key of 32 bytes")
}
fn vid(v: usize) -> VaultId {
    let mut b = [7u8; 24];
    b[23] = v as u8;
    VaultId::load(&b).unwrap()
}
fn rid(r: usize) -> RecordId {
    let mut b = [9u8; 24];
    b[if r == 2 { 0 } else { 23 }] = r as u8;
    RecordId::load(&b).unwrap()
}
fn cid(r: usize) -> ChainId {
    rid(r).into()
}
fn val(v: u8) -> Vec<u8> {
    match v {
        0 => vec![],
        1 => b"one".to_vec(),
        _ => vec![v; 100],
    }
}
fn hint(h: u8) -> RecordHint {
    RecordHint::new([b'h', h]).unwrap()
}

fn read(db: &Db, k: usize, v: usize, r: usize) -> Result<Vec<u8>, String> {
    let mut got = None;
    guard(|| {
        db.get_guard::<String, _>(&key(k), vid(v), rid(r), |b| {
            got = Some(b.borrow().to_vec());
            Ok(())
        })
        .map_err(|e| e.to_string())
    })
    .map_err(|p| format!("panic: {p}"))??;
    got.ok_or_else(|| "the closure was not called".to_string())
}

// ------------------------------------------------------------------ state graph

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Rec {
    Absent,
    Live(u8, u8), // value, hint of the first write
    Revoked,
}
use Rec::*;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct Model {
    /// per vault: key and records
    v: Vec<Option<(usize, Vec<Rec>)>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Init(usize, usize),
    Write(usize, usize, usize, u8),
    Revoke(usize, usize, usize),
    Gc(usize, usize),
    /// key of the source, source, key of the target, target; does the closure succeed?
    Exec(usize, (usize, usize), usize, (usize, usize), bool),
    /// copy all exportable records from one vault to the other: old key, new key, from, to
    Import(usize, usize, usize, usize),
    Clear,
    /// serialise and deserialise
    Round,
}

struct Dim {
    keys: usize,
    vaults: usize,
    recs: usize,
    vals: Vec<u8>,
}

fn ops(d: &Dim) -> Vec<Op> {
    let mut o = vec![Op::Clear, Op::Round];
    for k in 0..d.keys {
        for v in 0..d.vaults {
            o.push(Op::Init(k, v));
            o.push(Op::Gc(k, v));
            for r in 0..d.recs {
                for x in &d.vals {
                    o.push(Op::Write(k, v, r, *x));
                }
                o.push(Op::Revoke(k, v, r));
                for k2 in 0..d.keys {
                    for v2 in 0..d.vaults {
                        let r2 = if v2 == v { (r + 1) % d.recs } else { r };
                        o.push(Op::Exec(k, (v, r), k2, (v2, r2), true));
                    }
                }
                o.push(Op::Exec(k, (v, r), k, (v, r), true));
                o.push(Op::Exec(k, (v, r), k, ((v + 1) % d.vaults, r), false));
            }
            for k2 in 0..d.keys {
                if d.vaults > 1 {
                    o.push(Op::Import(k, k2, v, (v + 1) % d.vaults));
                }
            }
        }
    }
    o
}

impl Model {
    fn new(d: &Dim) -> Model {
        Model { v: vec![None; d.vaults] }
    }
    fn read(&self, k: usize, v: usize, r: usize) -> Option<u8> {
        match &self.v[v] {
            Some((ok, recs)) if *ok == k => match recs[r] {
                Live(x, _) => Some(x),
                _ => None,
            },
            _ => None,
        }
    }
    /// (must it succeed? None: not specified, but the state is) and the state afterwards
    fn write(&mut self, d: &Dim, k: usize, v: usize, r: usize, x: u8, h: u8) -> bool {
        if self.v[v].is_none() {
            self.v[v] = Some((k, vec![Absent; d.recs]));
        }
        let (ok, recs) = self.v[v].as_mut().unwrap();
        if *ok != k || recs[r] == Revoked {
            return false;
        }
        let h = match recs[r] {
            Live(_, h) => h,
            _ => h,
        };
        recs[r] = Live(x, h);
        true
    }
    fn step(&self, d: &Dim, op: Op) -> (Option<bool>, Model) {
        let mut m = self.clone();
        let ok = match op {
            Op::Init(k, v) => {
                if m.v[v].is_none() {
                    m.v[v] = Some((k, vec![Absent; d.recs]));
                }
                Some(true)
            }
            Op::Write(k, v, r, x) => Some(m.write(d, k, v, r, x, 1)),
            Op::Revoke(k, v, r) => match m.v[v].as_mut() {
                None => None,
                Some((ok, _)) if *ok != k => Some(false),
                Some((_, recs)) => {
                    if recs[r] == Absent {
                        None
                    } else {
                        recs[r] = Revoked;
                        Some(true)
                    }
                }
            },
            Op::Gc(k, v) => {
                if let Some((ok, recs)) = m.v[v].as_mut() {
                    if *ok == k {
                        for r in recs.iter_mut() {
                            if *r == Revoked {
                                *r = Absent;
                            }
                        }
                    }
                }
                None
            }
            Op::Exec(k, (v, r), k2, (v2, r2), good) => match m.read(k, v, r) {
                Some(x) if good => Some(m.write(d, k2, v2, r2, x, 2)),
                _ => Some(false),
            },
            Op::Import(old, new, from, to) => {
                let src: Vec<(usize, Rec)> = match &self.v[from] {
                    None => return (Some(false), m),
                    Some((_, recs)) => {
                        recs.iter().copied().enumerate().filter(|(_, x)| matches!(x, Live(..))).collect()
                    }
                };
                let src_key = self.v[from].as_ref().unwrap().0;
                if !src.is_empty() && src_key != old {
                    Some(false)
                } else {
                    if m.v[to].is_none() {
                        m.v[to] = Some((new, vec![Absent; d.recs]));
                    }
                    let (k, recs) = m.v[to].as_mut().unwrap();
                    if *k != new {
                        Some(false)
                    } else {
                        for (i, x) in src {
                            recs[i] = x;
                        }
                        Some(true)
                    }
                }
            }
            Op::Clear => {
                m.v.fill(None);
                Some(true)
            }
            Op::Round => Some(true),
        };
        (ok, m)
    }
}

fn apply(db: &mut Db, op: Op) -> Result<(), String> {
    match op {
        Op::Init(k, v) => {
            db.init_vault(&key(k), vid(v));
            Ok(())
        }
        Op::Write(k, v, r, x) => db.write(&key(k), vid(v), rid(r), &val(x), hint(1)).map_err(|e| e.to_string()),
        Op::Revoke(k, v, r) => db.revoke_record(&key(k), vid(v), rid(r)).map_err(|e| e.to_string()),
        Op::Gc(k, v) => {
            db.garbage_collect_vault(&key(k), vid(v));
            Ok(())
        }
        Op::Exec(k, (v, r), k2, (v2, r2), good) => db
            .exec_procedure::<String, _, 1>([(key(k), vid(v), rid(r))], &key(k2), vid(v2), rid(r2), hint(2), |b| {
                if good {
                    Ok(b[0].borrow().to_vec())
                } else {
                    Err("refused".into())
                }
            })
            .map_err(|e| e.to_string()),
        Op::Import(old, new, from, to) => {
            let ids = db.list_records(&vid(from));
            let recs = db.export_records(vid(from), ids).map_err(|e| e.to_string())?;
            db.import_records(&key(old), &key(new), vid(to), recs).map_err(|e| e.to_string())
        }
        Op::Clear => {
            db.clear();
            Ok(())
        }
        Op::Round => {
            let s = bincode::serialize(&*db).map_err(|e| e.to_string())?;
            *db = bincode::deserialize(&s).map_err(|e| e.to_string())?;
            Ok(())
        }
    }
}

fn observe(db: &Db, m: &Model, d: &Dim, out: &mut Outcome) -> Result<(), String> {
    for v in 0..d.vaults {
        let mv = &m.v[v];
        if db.contains_vault(&vid(v)) != mv.is_some() || db.list_vaults().contains(&vid(v)) != mv.is_some() {
            return Err(format!("vault {v} exists: {}, expected {}", db.contains_vault(&vid(v)), mv.is_some()));
        }
        for r in 0..d.recs {
            let live = matches!(mv, Some((_, recs)) if matches!(recs[r], Live(..)));
            if db.contains_record(vid(v), rid(r)) != live {
                return Err(format!("contains_record({v}, {r}) is {}", !live));
            }
        }
        for k in 0..d.keys {
            for r in 0..d.recs {
                let got = read(db, k, v, r);
                let want = m.read(k, v, r).map(val);
                if got.as_ref().ok() != want.as_ref() || got.as_ref().err().map_or(false, |e| e.contains("panic")) {
                    return Err(format!("record {r} of vault {v} read with key {k} is {got:?}, expected {want:?}"));
                }
                if db.get_blob_id(&key(k), vid(v), rid(r)).is_ok() != want.is_some() {
                    return Err(format!("get_blob_id of record {r} of vault {v} with key {k} disagrees"));
                }
            }
            let mut l: Vec<String> =
                db.list_hints_and_ids(&key(k), vid(v)).iter().map(|(r, h)| format!("{r:?} {h:?}")).collect();
            let mut w: Vec<String> = (0..d.recs)
                .filter_map(|r| match mv {
                    Some((ok, recs)) if *ok == k => match recs[r] {
                        Live(_, h) => Some(format!("{:?} {:?}", rid(r), hint(h))),
                        _ => None,
                    },
                    _ => None,
                })
                .collect();
            l.sort();
            w.sort();
            if l != w {
                return Err(format!("vault {v} listed with key {k}: {l:?}, expected {w:?}"));
            }
            let b = db.list_records_with_blob_id(&key(k), vid(v));
            match (&b, w.is_empty()) {
                (Ok(b), false) if b.len() == w.len() => {
                    for (r, id) in b {
                        if db.get_blob_id(&key(k), vid(v), *r).ok() != Some(*id) {
                            return Err("list_records_with_blob_id disagrees with get_blob_id".into());
                        }
                    }
                }
                (Ok(b), true) if b.is_empty() => (),
                (Err(_), true) => (),
                _ => {
                    return Err(format!(
                        "list_records_with_blob_id of vault {v} with key {k}: {:?}, expected {} entries",
                        b.map(|b| b.len()).ok(),
                        w.len()
                    ))
                }
            }
        }
    }
    out.count("observations", 1);
    Ok(())
}

fn graph(d: &Dim, label: &str, rep: &mut Report, limit: usize) {
    // the abstract graph is computed from the model; every edge is then executed on the real code from a real
    // state reached along the path that found the state first
    let ops = ops(d);
    let mut index: HashMap<Model, usize> = HashMap::new();
    let mut states: Vec<(Model, Vec<Op>)> = vec![(Model::new(d), vec![])];
    index.insert(Model::new(d), 0);
    let mut queue = VecDeque::from([0usize]);
    let mut edges: Vec<(usize, Op)> = vec![];
    let mut complete = true;
    while let Some(s) = queue.pop_front() {
        for op in &ops {
            edges.push((s, *op));
            let (_, m) = states[s].0.step(d, *op);
            if !index.contains_key(&m) {
                if states.len() >= limit {
                    complete = false;
                    continue;
                }
                index.insert(m.clone(), states.len());
                let mut p = states[s].1.clone();
                p.push(*op);
                states.push((m, p));
                queue.push_back(states.len() - 1);
            }
        }
    }
    let describe = |i: u64| {
        let (s, op) = edges[i as usize];
        format!("{:?} then {op:?}", states[s].1)
    };
    let o = run_cases(
        edges.len() as u64,
        60,
        &|i, out| {
            let (s, op) = edges[i as usize];
            let r = (|| {
                let mut db = Db::new();
                for p in &states[s].1 {
                    let _ = apply(&mut db, *p);
                }
                let before = match op {
                    Op::Write(k, v, r, _) => db.get_blob_id(&key(k), vid(v), rid(r)).ok(),
                    _ => None,
                };
                let m = &states[s].0;
                let (ok, m2) = m.step(d, op);
                let res = guard(|| apply(&mut db, op)).map_err(|p| format!("panic: {p}"))?;
                if ok.map_or(false, |ok| ok != res.is_ok()) {
                    return Err(format!("returned {res:?}"));
                }
                // a refused import may have created the vault it was to fill
                let mut m2 = m2;
                if let (Op::Import(_, new, _, to), Err(_)) = (op, &res) {
                    if m2.v[to].is_none() && db.contains_vault(&vid(to)) {
                        m2.v[to] = Some((new, vec![Absent; d.recs]));
                    }
                }
                if let (Op::Write(k, v, r, _), Some(b), Ok(())) = (op, before, &res) {
                    if db.get_blob_id(&key(k), vid(v), rid(r)).ok() == Some(b) {
                        return Err("the blob id did not change with a write".into());
                    }
                }
                observe(&db, &m2, d, out).map_err(|e| format!("returned {res:?}, then {e}"))
            })();
            out.see(&(s, i % ops.len() as u64));
            out.count("transitions", 1);
            if let Err(e) = r {
                out.fail(format!("{}: {}", describe(i), first_line(&e)), format!("{}: {e}", describe(i)));
            }
            if i % 5003 == 7 {
                out.sample(|| describe(i));
            }
        },
        &describe,
    );
    rep.absorb(label, o);
    rep.set(&format!("states of {label}"), states.len() as u64);
    rep.set(&format!("{label} complete"), complete);
}

// ------------------------------------------------------------------ moved and damaged records

/// one version of one record: where it lives and what it holds
struct Origin {
    name: &'static str,
    key: usize,
    rec: usize,
    json: Value,
    content: Vec<u8>,
}

fn origins() -> Vec<Origin> {
    let mut db = Db::new();
    let mut v = vec![];
    let take = |db: &Db, name, k: usize, va: usize, r: usize| {
        let rec = db.export_records(vid(va), [rid(r)]).unwrap().remove(0).1;
        Origin { name, key: k, rec: r, json: serde_json::to_value(&rec).unwrap(), content: read(db, k, va, r).unwrap() }
    };
    let w = |db: &mut Db, k: usize, va: usize, r: usize, c: &[u8]| {
        db.write(&key(k), vid(va), rid(r), c, hint(1)).unwrap();
    };
    w(&mut db, 0, 0, 0, b"old content of a0!");
    v.push(take(&db, "a0 old", 0, 0, 0));
    w(&mut db, 0, 0, 0, b"new content of a0!");
    v.push(take(&db, "a0", 0, 0, 0));
    w(&mut db, 0, 0, 1, b"the content of a1!");
    v.push(take(&db, "a1", 0, 0, 1));
    w(&mut db, 1, 1, 0, b"the content of b0!");
    v.push(take(&db, "b0", 1, 1, 0));
    // another vault with the same key as the first
    w(&mut db, 0, 2, 0, b"the content of c0!");
    v.push(take(&db, "c0", 0, 2, 0));
    w(&mut db, 0, 2, 2, b"");
    v.push(take(&db, "c2 empty", 0, 2, 2));
    v
}

/// Put the record under `at` in a fresh vault with key `k` and read it there.
fn open(j: &Value, k: usize, at: usize) -> Result<Vec<u8>, String> {
    let rec: engine::vault::view::Record = serde_json::from_value(j.clone()).map_err(|e| format!("does not parse: {e}"))?;
    let mut db = Db::new();
    db.init_vault(&key(k), vid(0));
    db.vaults
        .get_mut(&vid(0))
        .unwrap()
        .extend(&key(k), [(cid(at), rec)])
        .map_err(|e| e.to_string())?;
    let _ = guard(|| db.get_blob_id(&key(k), vid(0), rid(at))).map_err(|p| format!("get_blob_id: panic: {p}"))?;
    let _ = guard(|| db.list_hints_and_ids(&key(k), vid(0))).map_err(|p| format!("list: panic: {p}"))?;
    let r = read(&db, k, 0, at);
    // moving it on with its key must fail in the same cases, and never panic
    let all = db.export_records(vid(0), [rid(at)]).map_err(|e| e.to_string())?;
    let _ = guard(|| db.import_records(&key(k), &key(2), vid(1), all)).map_err(|p| format!("import: panic: {p}"))?;
    if read(&db, 2, 1, at).ok() != r.as_ref().ok().cloned() {
        return Err(format!("panic: opens as {:?} after an import, before it was {r:?}", read(&db, 2, 1, at)));
    }
    r
}

fn bytes_of(v: &Value) -> Option<Vec<u8>> {
    v.as_array()?.iter().map(|x| x.as_u64().filter(|n| *n < 256).map(|n| n as u8)).collect()
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C23", tier, "model_checking");
    let th = rep.thorough();
    if th {
        graph(&Dim { keys: 3, vaults: 2, recs: 2, vals: vec![1, 2] }, "state graph, 3 keys, 2 vaults, 2 records, 2 values", &mut rep, 3000);
    }
    graph(&Dim { keys: 2, vaults: 2, recs: 2, vals: vec![1] }, "state graph, 2 keys, 2 vaults, 2 records", &mut rep, 5000);
    graph(&Dim { keys: 3, vaults: 1, recs: 2, vals: vec![0, 1, 2] }, "state graph, 3 keys, 1 vault, 2 records, 3 values", &mut rep, 5000);

    // records assembled from the fields of others
    let os = origins();
    let fields: Vec<String> = os[0].json.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
    let nf = fields.len() as u32;
    let no = os.len() as u64;
    // which origin every field comes from, which key opens, where it is put
    let n = no.pow(nf.min(4)) * 3 * 3;
    let describe = |i: u64| {
        let (src, rest) = (digits(i / 9, no, nf.min(4) as usize), i % 9);
        let parts: Vec<String> = src.iter().zip(&fields).map(|(s, f)| format!("{f} of {}", os[*s].name)).collect();
        format!("record with {} at record {} opened with key {}", parts.join(", "), rest / 3, rest % 3)
    };
    let o = run_cases(
        n,
        60,
        &|i, out| {
            let src = digits(i / 9, no, nf.min(4) as usize);
            let (at, k) = ((i % 9 / 3) as usize, (i % 3) as usize);
            let mut j = os[src[0]].json.clone();
            for (s, f) in src.iter().zip(&fields) {
                j[f] = os[*s].json[f].clone();
            }
            // the same record as one that was stored?
            let whole = os.iter().find(|o| o.json == j && o.key == k && o.rec == at);
            match (open(&j, k, at), whole) {
                (Ok(c), Some(o)) if c == o.content => {
                    out.count("opened", 1);
                }
                (Err(e), None) if !e.starts_with("panic") && !e.contains(": panic") => {
                    out.see(&e);
                    out.count("refused", 1);
                }
                (r, w) => {
                    let what = match (&r, &w) {
                        (Ok(_), None) => "opens".to_string(),
                        (Err(e), _) => first_line(e),
                        (Ok(_), Some(_)) => "opens with another content".into(),
                    };
                    out.fail(format!("{}: {what}", describe(i)), format!("{}: {r:?}", describe(i)));
                }
            }
        },
        &describe,
    );
    rep.absorb("records assembled from the fields of others", o);

    // every bit flip and every truncation or extension of every field
    let mut muts: Vec<(usize, String, Value, String)> = vec![];
    for (oi, o) in os.iter().enumerate() {
        for f in &fields {
            let Some(b) = bytes_of(&o.json[f]) else { continue };
            for p in 0..b.len() {
                for bit in 0..8 {
                    let mut c = b.clone();
                    c[p] ^= 1 << bit;
                    muts.push((oi, f.clone(), serde_json::json!(c), format!("bit {bit} of byte {p} flipped")));
                }
                muts.push((oi, f.clone(), serde_json::json!(b[..p]), format!("cut to {p} bytes")));
            }
            for x in 0..2 {
                let mut c = b.clone();
                c.push(x);
                muts.push((oi, f.clone(), serde_json::json!(c), format!("extended by {x}")));
            }
            muts.push((oi, f.clone(), serde_json::json!([]), "emptied".into()));
            muts.push((oi, f.clone(), serde_json::json!([&b[..], &b[..]].concat()), "doubled".into()));
        }
    }
    let describe = |i: u64| {
        let (oi, f, _, what) = &muts[i as usize];
        format!("{f} of {} {what}", os[*oi].name)
    };
    let o = run_cases(
        muts.len() as u64,
        60,
        &|i, out| {
            let (oi, f, v, _) = &muts[i as usize];
            let o = &os[*oi];
            let mut j = o.json.clone();
            j[f] = v.clone();
            match open(&j, o.key, o.rec) {
                Err(e) if !e.starts_with("panic") && !e.contains(": panic") => {
                    out.see(&e);
                }
                r => {
                    let what = match &r {
                        Ok(_) => "opens".into(),
                        Err(e) => first_line(e),
                    };
                    out.fail(format!("{}: {what}", describe(i)), format!("{}: {r:?}", describe(i)));
                }
            }
        },
        &describe,
    );
    rep.absorb("damaged records", o);

    // boxes: every combination of key, associated data and damage
    let ads: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], b"ad".to_vec(), vec![9; 24], [vec![9; 23], vec![8]].concat()];
    let data: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1; 32], (0..200).map(|x| x as u8).collect()];
    let n = (3 * 3 * ads.len() * ads.len() * data.len()) as u64;
    let split = |i: u64| {
        let (a, d) = (ads.len() as u64, data.len() as u64);
        ((i % 3) as usize, (i / 3 % 3) as usize, (i / 9 % a) as usize, (i / 9 / a % a) as usize, (i / 9 / a / a % d) as usize)
    };
    let describe = |i: u64| format!("box: keys {} and {}, associated data {} and {}, data {}", split(i).0, split(i).1, split(i).2, split(i).3, split(i).4);
    struct Bytes(Vec<u8>);
    impl AsRef<[u8]> for Bytes {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    impl From<Vec<u8>> for Bytes {
        fn from(v: Vec<u8>) -> Self {
            Bytes(v)
        }
    }
    impl Encrypt<Bytes> for Bytes {}
    impl Decrypt<Bytes> for Bytes {}
    let o = run_cases(
        n,
        60,
        &|i, out| {
            let (k1, k2, a1, a2, di) = split(i);
            let r = (|| {
                let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
                let sealed: Bytes = Bytes(data[di].clone()).encrypt(&key(k1), &ads[a1]).map_err(|x| e(&x))?;
                if sealed.0.len() != data[di].len() + Provider::box_overhead() {
                    return Err("the overhead of the box is not as stated".into());
                }
                if data[di].len() >= 32 && sealed.0.windows(16).any(|w| data[di].windows(16).any(|d| d == w)) {
                    return Err("the plain text occurs in the box".into());
                }
                let again: Bytes = Bytes(data[di].clone()).encrypt(&key(k1), &ads[a1]).map_err(|x| e(&x))?;
                if again.0 == sealed.0 {
                    return Err("the box of the same text is the same twice".into());
                }
                let open = |b: &[u8], k: usize, a: &[u8]| -> Result<Option<Vec<u8>>, String> {
                    let r: Result<Bytes, _> =
                        guard(|| Bytes(b.to_vec()).decrypt(&key(k), a)).map_err(|p| format!("panic: {p}"))?;
                    Ok(r.ok().map(|b| b.0))
                };
                let want = (k1 == k2 && a1 == a2).then(|| data[di].clone());
                let got = open(&sealed.0, k2, &ads[a2])?;
                if got != want {
                    return Err(format!("opened as {got:?}, expected {want:?}"));
                }
                if k1 == k2 && a1 == a2 {
                    for n in 0..sealed.0.len() {
                        if open(&sealed.0[..n], k2, &ads[a2]).map_err(|e| format!("cut to {n} bytes: {e}"))?.is_some() {
                            return Err(format!("opened after being cut to {n} bytes"));
                        }
                        let mut c = sealed.0.clone();
                        for bit in 0..8 {
                            c[n] ^= 1 << bit;
                            if open(&c, k2, &ads[a2])?.is_some() {
                                return Err(format!("opened with bit {bit} of byte {n} flipped"));
                            }
                            c[n] ^= 1 << bit;
                        }
                        out.count("damaged boxes", 9);
                    }
                }
                // a key sealed under a key
                if di == 0 {
                    let kb: Vec<u8> = key(k1).key.borrow().to_vec();
                    let nc = NCKey::<Provider>::load(kb).ok_or("NCKey::load refused a key")?;
                    let nc2 = NCKey::<Provider>::load(key(k2).key.borrow().to_vec()).ok_or("NCKey::load refused a key")?;
                    let s = nc.encrypt_key(&key(2), &ads[a1]).map_err(|x| e(&x))?;
                    let o = nc2.decrypt_key(s.clone(), &ads[a2]);
                    if o.is_ok() != (k1 == k2 && a1 == a2) || o.map_or(false, |o| o != key(2)) {
                        return Err("a sealed key opens wrongly".into());
                    }
                    for n in 0..s.len() {
                        let r = guard(|| nc.decrypt_key(s[..n].to_vec(), &ads[a1])).map_err(|p| format!("sealed key cut to {n} bytes: panic: {p}"))?;
                        if r.is_ok() {
                            return Err(format!("a sealed key cut to {n} bytes opens"));
                        }
                    }
                    // boxes of other lengths are no keys
                    let long: Bytes = Bytes(vec![1; 33]).encrypt(&key(k1), &ads[a1]).map_err(|x| e(&x))?;
                    if guard(|| nc.decrypt_key(long.0, &ads[a1])).map_err(|p| format!("panic: {p}"))?.is_ok() {
                        return Err("a box of 33 bytes opens as a key".into());
                    }
                }
                Ok(())
            })();
            out.see(&split(i));
            if let Err(e) = r {
                out.fail(format!("{}: {}", describe(i), first_line(&e)), format!("{}: {e}", describe(i)));
            }
        },
        &describe,
    );
    rep.absorb("boxes", o);
    crate::amounts::c23(&mut rep);

    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("transitions"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.finish()
}
