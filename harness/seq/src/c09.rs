//! C09 and C10: synchronising clients and merging snapshots, against a reference model, over every combination of
//! initial states, earlier synchronisations, later changes and configurations within the bounds.
use crate::util::*;
use iota_stronghold::sync::{MergePolicy, SyncClientsConfig, SyncSnapshotsConfig};
use iota_stronghold::*;
use mc::*;
use std::collections::HashMap;

use engine::vault::{ClientId, DbView, Key, RecordHint, RecordId, VaultId};
use iota_stronghold::internal::Provider;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rec {
    Absent,
    Live(u8),
    Revoked,
}
use Rec::*;

const VAULTS: [&str; 3] = ["vault v", "vault w", "vault x"];
const RECS: [&str; 3] = ["record a", "record b", "missing"];

/// Content of one client: `db[vault][rid]`, rid = 2 * (vault whose path the record id was derived from) + record.
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Db {
    r: [[Option<Rec>; 4]; 3],
}
impl Db {
    fn get(&self, v: usize, rid: usize) -> Rec {
        self.r[v][rid].unwrap_or(Absent)
    }
    fn set(&mut self, v: usize, rid: usize, x: Rec) {
        self.r[v][rid] = Some(x);
    }
    fn has_live(&self, v: usize) -> bool {
        (0..4).any(|r| matches!(self.get(v, r), Live(_)))
    }
}

/// Secrets of different lengths, the empty one included.
pub fn val(t: u8) -> Vec<u8> {
    match t % 4 {
        0 => vec![t; 40],
        1 => vec![t; 1],
        2 => (0..200u16).map(|i| (i as u8).wrapping_mul(t)).collect(),
        _ => [b"secret ".to_vec(), vec![t]].concat(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub vaults: Option<Vec<usize>>,
    pub recs: [Option<Vec<usize>>; 2],
    pub map: [Option<usize>; 2],
    pub keep: bool,
}
impl Cfg {
    pub fn policy(keep: bool) -> MergePolicy {
        if keep { MergePolicy::KeepOld } else { MergePolicy::Replace }
    }
    pub fn real(&self) -> SyncClientsConfig {
        let mut c = SyncClientsConfig::new(Cfg::policy(self.keep));
        if let Some(v) = &self.vaults {
            c.sync_selected_vaults(v.iter().map(|i| VAULTS[*i].as_bytes()).collect());
        }
        for v in 0..2 {
            if let Some(r) = &self.recs[v] {
                c.sync_selected_record(VAULTS[v].as_bytes(), r.iter().map(|i| RECS[*i].as_bytes()).collect());
            }
            if let Some(m) = self.map[v] {
                c.map_vaults(HashMap::from([(VAULTS[v].as_bytes(), VAULTS[m].as_bytes())]));
            }
        }
        c
    }
    /// The reference: what `target` becomes.
    pub fn apply(&self, src: &Db, target: &mut Db) {
        for v in 0..3 {
            if let Some(s) = &self.vaults {
                if !s.contains(&v) {
                    continue;
                }
            }
            let m = if v < 2 { self.map[v].unwrap_or(v) } else { v };
            for rid in 0..4 {
                let Live(x) = src.get(v, rid) else { continue };
                if v < 2 {
                    if let Some(sel) = &self.recs[v] {
                        // selected by the record's path in this vault
                        if rid / 2 != v || !sel.contains(&(rid % 2)) {
                            continue;
                        }
                    }
                }
                match target.get(m, rid) {
                    Live(_) if self.keep => (),
                    _ => target.set(m, rid, Live(x)),
                }
            }
        }
    }
    /// vaults of the target into which this may write
    fn touches(&self) -> Vec<usize> {
        (0..3)
            .filter(|v| self.vaults.as_ref().map(|s| s.contains(v)).unwrap_or(true))
            .map(|v| if v < 2 { self.map[v].unwrap_or(v) } else { v })
            .collect()
    }
}

pub fn configs(full: bool) -> Vec<Cfg> {
    let mut out = vec![];
    let vaults: Vec<Option<Vec<usize>>> = if full {
        vec![None, Some(vec![0]), Some(vec![1]), Some(vec![0, 1]), Some(vec![1, 1, 0, 2]), Some(vec![])]
    } else {
        vec![None, Some(vec![0]), Some(vec![1, 0, 2]), Some(vec![])]
    };
    let rv: Vec<Option<Vec<usize>>> = if full {
        vec![None, Some(vec![0]), Some(vec![1, 0]), Some(vec![]), Some(vec![1, 2])]
    } else {
        vec![None, Some(vec![0]), Some(vec![1, 2])]
    };
    let rw: Vec<Option<Vec<usize>>> = if full { vec![None, Some(vec![]), Some(vec![0])] } else { vec![None, Some(vec![])] };
    let maps: Vec<[Option<usize>; 2]> = if full {
        vec![[None, None], [Some(1), None], [None, Some(0)], [Some(1), Some(0)], [Some(2), None], [Some(0), Some(2)]]
    } else {
        vec![[None, None], [Some(1), None], [Some(1), Some(0)], [Some(2), None]]
    };
    for v in &vaults {
        for a in &rv {
            for b in &rw {
                for m in &maps {
                    for keep in [true, false] {
                        out.push(Cfg { vaults: v.clone(), recs: [a.clone(), b.clone()], map: *m, keep });
                    }
                }
            }
        }
    }
    out
}

/// directly reachable locations: (vault, rid)
const LOCS: [(usize, usize); 4] = [(0, 0), (0, 1), (1, 2), (1, 3)];
fn location(v: usize, rid: usize) -> Location {
    loc(VAULTS[v], RECS[rid % 2])
}
fn vid(v: usize) -> VaultId {
    derive_vault_id(VAULTS[v])
}
fn rid_of(rid: usize) -> RecordId {
    derive_record_id(VAULTS[rid / 2], RECS[rid % 2])
}
fn client_id(p: &str) -> ClientId {
    iota_stronghold::utils::LoadFromPath::load_from_path(p.as_bytes(), p.as_bytes())
}

struct World {
    s: Stronghold,
    c: Vec<Client>,
    m: Vec<Db>,
    tag: u8,
    dir: Scratch,
}

const NAMES: [&str; 2] = ["source", "target"];

impl World {
    fn new(n: usize) -> World {
        let s = Stronghold::default();
        let c: Vec<Client> = (0..n).map(|i| s.create_client(NAMES[i]).unwrap()).collect();
        for (i, c) in c.iter().enumerate() {
            c.store().insert(b"k".to_vec(), vec![i as u8], None).unwrap();
        }
        World { s, c, m: vec![Db::default(); n], tag: 0, dir: Scratch::new("c09") }
    }
    fn write(&mut self, who: usize, l: usize) -> Result<(), String> {
        let (v, rid) = LOCS[l];
        self.tag += 1;
        let ok = self.c[who].vault(VAULTS[v]).write_secret(location(v, rid), val(self.tag)).is_ok();
        let want = self.m[who].get(v, rid) != Revoked;
        if want {
            self.m[who].set(v, rid, Live(self.tag));
        }
        (ok == want).then_some(()).ok_or(format!("write to {} {:?} gave ok={ok}", NAMES[who], LOCS[l]))
    }
    fn revoke(&mut self, who: usize, l: usize, gc: bool) {
        let (v, rid) = LOCS[l];
        let _ = self.c[who].vault(VAULTS[v]).revoke_secret(RECS[rid % 2]);
        if let Live(_) = self.m[who].get(v, rid) {
            self.m[who].set(v, rid, Revoked);
        }
        if gc {
            let _ = self.c[who].vault(VAULTS[v]).cleanup();
            for r in 0..4 {
                if self.m[who].get(v, r) == Revoked {
                    self.m[who].set(v, r, Absent);
                }
            }
        }
    }
    /// Compare everything that can be seen of every client.
    fn check(&self, through_client: bool) -> Result<(), String> {
        for (i, c) in self.c.iter().enumerate() {
            let m = &self.m[i];
            for (v, rid) in LOCS {
                if !through_client {
                    continue;
                }
                let l = location(v, rid);
                match m.get(v, rid) {
                    Live(t) => match holds(c, &l, &val(t)) {
                        Ok(true) => (),
                        Ok(false) => return Err(format!("{} {} has another value than written by step {t}", NAMES[i], show_loc(&l))),
                        Err(e) => return Err(format!("{} {} is not usable: {e}", NAMES[i], show_loc(&l))),
                    },
                    _ => {
                        if holds(c, &l, b"").is_ok() || c.record_exists(&l).unwrap_or(true) {
                            return Err(format!("{} {} exists although it should not", NAMES[i], show_loc(&l)));
                        }
                    }
                }
            }
            for v in 0..3 {
                if m.has_live(v) && !c.vault_exists(VAULTS[v]).unwrap_or(false) {
                    return Err(format!("{} has no vault {v}", NAMES[i]));
                }
            }
            if c.store().get(b"k").ok() != Some(Some(vec![i as u8])) {
                return Err(format!("store of {} changed", NAMES[i]));
            }
        }
        {
            let p = SnapshotPath::from_path(self.dir.path().join("s"));
            self.s.commit_with_keyprovider(&p, &kp(3)).map_err(|e| format!("commit: {e}"))?;
            let key: Vec<u8> = vec![3; 32];
            let snap = Snapshot::read_from_snapshot(&p, key.try_into().unwrap(), None).map_err(|e| format!("read: {e}"))?;
            for i in 0..self.c.len() {
                let st = snap.get_state(client_id(NAMES[i])).map_err(|e| e.to_string())?;
                check_state(&st, &self.m[i]).map_err(|e| format!("{}: {e}", NAMES[i]))?;
            }
        }
        Ok(())
    }
}

/// A decoded client state holds exactly the model's records.
fn check_state(st: &ClientState, m: &Db) -> Result<(), String> {
    for v in 0..3 {
        for r in st.1.list_records(&vid(v)) {
            if !(0..4).any(|k| rid_of(k) == r) {
                return Err(format!("vault {v} has an unknown record"));
            }
        }
        for rid in 0..4 {
            let e = st.1.contains_record(vid(v), rid_of(rid));
            match m.get(v, rid) {
                Live(t) => {
                    if !e {
                        return Err(format!("record {rid} of vault {v} is missing"));
                    }
                    let key = st.0.get(&vid(v)).ok_or(format!("no key for vault {v}"))?;
                    let mut got = vec![];
                    st.1.get_guard::<std::convert::Infallible, _>(key, vid(v), rid_of(rid), |b| {
                        got.extend_from_slice(&b.borrow());
                        Ok(())
                    })
                    .map_err(|e| format!("record {rid} of vault {v}: {e}"))?;
                    if got != val(t) {
                        return Err(format!("record {rid} of vault {v} has the wrong value"));
                    }
                }
                _ if e => return Err(format!("record {rid} of vault {v} exists although it should not")),
                _ => (),
            }
        }
    }
    for v in st.1.list_vaults() {
        if !(0..3).any(|k| vid(k) == v) && !st.1.list_records(&v).is_empty() {
            return Err("there is an unknown vault".into());
        }
    }
    Ok(())
}

fn plain(map: [Option<usize>; 2]) -> Cfg {
    Cfg { vaults: None, recs: [None, None], map, keep: false }
}
/// earlier synchronisations
fn pre_syncs() -> Vec<Option<Cfg>> {
    vec![None, Some(plain([None, None])), Some(plain([Some(1), None])), Some(plain([Some(1), Some(0)]))]
}

#[derive(Clone, Debug)]
struct Mutation(usize, usize); // (kind, location)

fn mutations(locs: usize, n: usize) -> Vec<Vec<Mutation>> {
    let mut one = vec![];
    for l in 0..locs {
        for k in 0..6 {
            one.push(Mutation(k, l));
        }
    }
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for p in &last {
            for m in &one {
                let mut q: Vec<Mutation> = p.clone();
                q.push(m.clone());
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn mutate(w: &mut World, m: &Mutation) -> Result<(), String> {
    let other = w.c.len() - 1;
    match m.0 {
        0 => w.write(0, m.1)?,
        1 => w.write(other, m.1)?,
        2 => w.revoke(0, m.1, false),
        3 => w.revoke(other, m.1, false),
        4 => w.revoke(0, m.1, true),
        _ => w.revoke(other, m.1, true),
    }
    Ok(())
}

/// A procedure that fails behind the creation of the target vault's key leaves a vault that exists without content.
fn hollow(c: &Client) {
    for v in VAULTS {
        let _ = c.execute_procedure(iota_stronghold::procedures::CopyRecord {
            source: loc("nowhere", "nothing"),
            target: loc(v, "hollow"),
        });
    }
}

pub fn run_c09(tier: &str) -> i32 {
    let mut rep = Report::new("C09", tier, "model_checking");
    let th = rep.thorough();

    // two clients
    let stages: Vec<(&str, Vec<u8>, Vec<u8>, Vec<Option<Cfg>>, usize, Vec<Vec<Mutation>>, Vec<Cfg>)> = if th {
        vec![
            ("all configurations", (0..16).collect(), vec![0, 15, 5, 6, 9, 3], pre_syncs(), 4, mutations(4, 1), configs(true)),
            ("two changes", vec![15, 14, 7], vec![0, 15, 9], pre_syncs(), 4, mutations(4, 2), configs(false)),
        ]
    } else {
        vec![
            ("all configurations", vec![7], vec![0, 5], pre_syncs()[..1].to_vec(), 3, mutations(3, 0), configs(true)),
            ("after an earlier synchronisation", vec![7], vec![2], pre_syncs()[1..].to_vec(), 3, mutations(3, 0), configs(false)),
            ("after a change", vec![7], vec![5], pre_syncs()[..3].to_vec(), 3, mutations(3, 1), configs(false)),
            ("after two changes", vec![7], vec![5], pre_syncs()[1..2].to_vec(), 3, mutations(3, 2), configs(false)[..6].to_vec()),
        ]
    };
    for (label, si, ti, pre, nlocs, muts, cfgs) in &stages {
        let n = (si.len() * ti.len() * pre.len() * muts.len() * cfgs.len()) as u64;
        let split = |mut i: u64| {
            let mut t = |k: usize| {
                let r = (i % k as u64) as usize;
                i /= k as u64;
                r
            };
            let c = t(cfgs.len());
            let m = t(muts.len());
            let p = t(pre.len());
            let b = t(ti.len());
            let a = t(si.len());
            (si[a], ti[b], p, m, c)
        };
        let describe = |i: u64| {
            let (a, b, p, m, c) = split(i);
            format!("source records {a:04b}, target records {b:04b}, earlier sync {:?}, changes {:?}, sync {:?}", pre[p], muts[m], cfgs[c])
        };
        let o = run_cases(
            n,
            60,
            &|i, out| {
                let (a, b, p, m, c) = split(i);
                let mut w = World::new(2);
                let r = guard(|| -> Result<(), String> {
                    if i % 3 == 1 {
                        hollow(&w.c[0]);
                    }
                    if i % 3 == 2 {
                        hollow(&w.c[1]);
                    }
                    for l in 0..*nlocs {
                        if a >> l & 1 == 1 {
                            w.write(0, l)?;
                        }
                        if b >> l & 1 == 1 {
                            w.write(1, l)?;
                        }
                    }
                    if let Some(cfg) = &pre[p] {
                        w.c[1].sync_with(&w.c[0], cfg.real()).map_err(|e| format!("earlier sync: {e}"))?;
                        let src = w.m[0].clone();
                        cfg.apply(&src, &mut w.m[1]);
                    }
                    for k in &muts[m] {
                        mutate(&mut w, k)?;
                    }
                    let cfg = &cfgs[c];
                    let before: Vec<bool> = VAULTS.iter().map(|v| w.c[1].vault_exists(v).unwrap()).collect();
                    w.c[1].sync_with(&w.c[0], cfg.real()).map_err(|e| format!("sync: {e}"))?;
                    let src = w.m[0].clone();
                    cfg.apply(&src, &mut w.m[1]);
                    w.check(i % 8 == 0)?;
                    let t = cfg.touches();
                    for v in 0..3 {
                        if !t.contains(&v) && w.c[1].vault_exists(VAULTS[v]).unwrap() != before[v] {
                            return Err(format!("existence of vault {v} changed"));
                        }
                    }
                    out.see(&(&w.m[0], &w.m[1]));
                    // the target can be used afterwards
                    if i % 8 == 0 {
                        w.write(1, 0)?;
                        w.check(true)?;
                    }
                    Ok(())
                });
                out.count("syncs", 1 + pre[p].is_some() as u64);
                match r {
                    Ok(Ok(())) => (),
                    Ok(Err(e)) => out.fail(format!("{e} [{}]", describe(i)), format!("{e}; case {}", describe(i))),
                    Err(e) => out.fail(format!("panic {} [{}]", first_line(&e), describe(i)), format!("panic {e}; case {}", describe(i))),
                }
                out.sample(|| describe(i));
            },
            &describe,
        );
        rep.absorb(&format!("sync_with: {label}"), o);
    }

    // two vaults of one client, and a client synchronised with itself
    #[derive(Clone, Debug)]
    enum Last {
        Vaults(usize, usize, Option<Vec<usize>>, bool),
        Own(Cfg),
    }
    let mut lasts = vec![];
    for s in 0..3 {
        for t in 0..3 {
            for sel in [None, Some(vec![]), Some(vec![0]), Some(vec![1]), Some(vec![0, 1]), Some(vec![2]), Some(vec![1, 3, 99])] {
                for keep in [true, false] {
                    lasts.push(Last::Vaults(s, t, sel.clone(), keep));
                }
            }
        }
    }
    for (i, c) in configs(false).into_iter().enumerate() {
        if !th && i % 6 > 1 {
            continue;
        }
        lasts.push(Last::Own(c));
    }
    let pre1: Vec<Option<(usize, usize)>> = if th { vec![None, Some((0, 1)), Some((1, 0)), Some((0, 2))] } else { vec![None, Some((0, 1))] };
    let muts = mutations(3, if th { 2 } else { 1 });
    let apply_vaults = |m: &mut Db, s: usize, t: usize, sel: &Option<Vec<usize>>, keep: bool| {
        for rid in 0..4 {
            let Live(x) = m.get(s, rid) else { continue };
            if sel.as_ref().map(|l| !l.contains(&rid)).unwrap_or(false) {
                continue;
            }
            match m.get(t, rid) {
                Live(_) if keep => (),
                _ => m.set(t, rid, Live(x)),
            }
        }
    };
    let inits: Vec<usize> = if th { (0..8).collect() } else { vec![7] };
    let n = (inits.len() * pre1.len() * muts.len() * lasts.len()) as u64;
    let split = |i: u64| {
        let (c, i) = (i as usize % lasts.len(), i as usize / lasts.len());
        let (m, i) = (i % muts.len(), i / muts.len());
        let (p, i) = (i % pre1.len(), i / pre1.len());
        (inits[i], p, m, c)
    };
    let describe = |i: u64| {
        let (a, p, m, c) = split(i);
        format!("one client, records {a:03b}, earlier {:?}, changes {:?}, sync {:?}", pre1[p], muts[m], lasts[c])
    };
    let o = run_cases(
        n,
        60,
        &|i, out| {
            let (a, p, m, c) = split(i);
            let mut w = World::new(1);
            let sync = |w: &mut World, s: usize, t: usize, sel: &Option<Vec<usize>>, keep: bool| {
                let ids = sel.as_ref().map(|l| {
                    l.iter().map(|r| if *r < 4 { rid_of(*r) } else { derive_record_id(VAULTS[0], RECS[2]) }).collect()
                });
                w.c[0]
                    .sync_vaults(VAULTS[s].into(), VAULTS[t].into(), ids, Cfg::policy(keep))
                    .map_err(|e| format!("sync_vaults: {e}"))?;
                apply_vaults(&mut w.m[0], s, t, sel, keep);
                Ok::<(), String>(())
            };
            let r = guard(|| -> Result<(), String> {
                if i % 3 == 1 {
                    hollow(&w.c[0]);
                }
                for l in 0..3 {
                    if a >> l & 1 == 1 {
                        w.write(0, l)?;
                    }
                }
                if let Some((s, t)) = pre1[p] {
                    sync(&mut w, s, t, &None, false)?;
                }
                for k in &muts[m] {
                    mutate(&mut w, k)?;
                }
                match &lasts[c] {
                    Last::Vaults(s, t, sel, keep) => sync(&mut w, *s, *t, sel, *keep)?,
                    Last::Own(cfg) => {
                        w.c[0].sync_with(&w.c[0].clone(), cfg.real()).map_err(|e| format!("sync: {e}"))?;
                        let src = w.m[0].clone();
                        // two records that end up in the same place have no defined winner
                        let (mut x, mut y) = (src.clone(), src.clone());
                        for v in 0..3 {
                            let only = |v: usize| {
                                let mut d = Db::default();
                                d.r[v] = src.r[v];
                                d
                            };
                            cfg.apply(&only(v), &mut x);
                            cfg.apply(&only(2 - v), &mut y);
                        }
                        if x != y {
                            out.count("no defined winner", 1);
                            return Ok(());
                        }
                        w.m[0] = x;
                    }
                }
                out.see(&w.m[0]);
                w.check(i % 8 == 0)
            });
            out.count("syncs", 1 + pre1[p].is_some() as u64);
            match r {
                Ok(Ok(())) => (),
                Ok(Err(e)) => out.fail(format!("{e} [{}]", describe(i)), format!("{e}; case {}", describe(i))),
                Err(e) => out.fail(format!("panic {} [{}]", first_line(&e), describe(i)), format!("panic {e}; case {}", describe(i))),
            }
            out.sample(|| describe(i));
        },
        &describe,
    );
    rep.absorb("sync_vaults and a client with itself", o);
    crate::amounts::c09(&mut rep);
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("syncs"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.finish()
}

// ---------------------------------------------------------------------------------------------------------------
// C10

const CLIENTS: [&str; 3] = ["client c", "client d", "client e"];
type Snap = [Option<Db>; 3];

#[derive(Clone, Debug)]
struct SCfg {
    clients: Option<Vec<usize>>,
    map: [Option<usize>; 2],
    per: [Option<Cfg>; 2],
    keep: bool,
}
impl SCfg {
    fn real(&self) -> SyncSnapshotsConfig {
        let mut c = SyncSnapshotsConfig::new(Cfg::policy(self.keep));
        if let Some(v) = &self.clients {
            c.sync_selected_clients(v.iter().map(|i| CLIENTS[*i].as_bytes()).collect());
        }
        for i in 0..2 {
            if let Some(m) = self.map[i] {
                c.map_clients(HashMap::from([(CLIENTS[i].as_bytes(), CLIENTS[m].as_bytes())]));
            }
            if let Some(p) = &self.per[i] {
                c.config_client_sync(CLIENTS[i].as_bytes(), p.real());
            }
        }
        c
    }
    fn apply(&self, src: &Snap, target: &mut Snap) {
        for c in 0..3 {
            let Some(s) = &src[c] else { continue };
            if self.clients.as_ref().map(|l| !l.contains(&c)).unwrap_or(false) {
                continue;
            }
            let m = if c < 2 { self.map[c].unwrap_or(c) } else { c };
            let cfg = match if c < 2 { self.per[c].clone() } else { None } {
                Some(p) => p,
                None => Cfg { vaults: None, recs: [None, None], map: [None, None], keep: self.keep },
            };
            let mut t = target[m].clone().unwrap_or_default();
            cfg.apply(s, &mut t);
            target[m] = Some(t);
        }
    }
}

/// A client state as a client with these records would leave it.
fn state(db: &Db) -> ClientState {
    let mut keys = HashMap::new();
    let mut view: DbView<Provider> = DbView::new();
    for v in 0..3 {
        for rid in 0..4 {
            if let Some(r) = db.r[v][rid] {
                let k: &Key<Provider> = keys.entry(vid(v)).or_insert_with(Key::random);
                let t = if let Live(t) = r { t } else { 99 };
                view.write(k, vid(v), rid_of(rid), &val(t), RecordHint::new("").unwrap()).unwrap();
                if r != Live(t) {
                    view.revoke_record(k, vid(v), rid_of(rid)).unwrap();
                }
            }
        }
        for rid in 0..4 {
            if db.r[v][rid] == Some(Absent) {
                view.garbage_collect_vault(&keys[&vid(v)], vid(v));
                // keep the revoked ones revoked
                for rid in 0..4 {
                    if db.r[v][rid] == Some(Revoked) {
                        let k = &keys[&vid(v)];
                        view.write(k, vid(v), rid_of(rid), &val(99), RecordHint::new("").unwrap()).unwrap();
                        view.revoke_record(k, vid(v), rid_of(rid)).unwrap();
                    }
                }
                break;
            }
        }
    }
    (keys, view, Default::default())
}

fn check_snap(s: &Snapshot, m: &Snap) -> Result<(), String> {
    for c in 0..3 {
        let has = s.has_data(client_id(CLIENTS[c]));
        if has != m[c].is_some() {
            return Err(format!("{} exists={has}, expected {}", CLIENTS[c], m[c].is_some()));
        }
        if let Some(d) = &m[c] {
            let st = s.get_state(client_id(CLIENTS[c])).map_err(|e| e.to_string())?;
            check_state(&st, d).map_err(|e| format!("{}: {e}", CLIENTS[c]))?;
        }
    }
    Ok(())
}

fn db(spec: [Rec; 4]) -> Db {
    let mut d = Db::default();
    for (l, r) in spec.iter().enumerate() {
        if *r != Absent {
            let (v, rid) = LOCS[l];
            d.set(v, rid, *r);
        }
    }
    d
}

/// A snapshot with its bookkeeping copy.
fn snapshot(m: &Snap) -> Snapshot {
    let mut s = Snapshot::default();
    for c in 0..3 {
        if let Some(d) = &m[c] {
            s.add_data(client_id(CLIENTS[c]), state(d)).unwrap();
        }
    }
    s
}

fn select_all(m: &Snap, only: Option<usize>) -> HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> {
    let mut h = HashMap::new();
    for c in 0..3 {
        if let Some(d) = &m[c] {
            let mut vs: HashMap<VaultId, Vec<RecordId>> = HashMap::new();
            for v in 0..3 {
                for rid in 0..4 {
                    if d.r[v][rid].is_some() && only.map(|o| o == rid).unwrap_or(true) {
                        vs.entry(vid(v)).or_default().push(rid_of(rid));
                    }
                }
            }
            h.insert(client_id(CLIENTS[c]), vs);
        }
    }
    h
}

pub fn run_c10(tier: &str) -> i32 {
    use crypto::keys::x25519;
    let mut rep = Report::new("C10", tier, "model_checking");
    let th = rep.thorough();
    let full = [Live(1), Live(2), Live(3), Absent];
    // source and target snapshots
    let mut sources: Vec<Snap> = vec![
        [Some(db(full)), None, None],
        [Some(db(full)), Some(db([Absent, Live(4), Live(5), Live(6)])), None],
        [Some(db([Revoked, Live(2), Revoked, Absent])), Some(db([Absent; 4])), Some(db(full))],
        [None, None, None],
    ];
    let mut targets: Vec<Snap> = vec![
        [None, None, None],
        [Some(db([Live(11), Live(12), Live(13), Live(14)])), None, None],
        [Some(db([Live(11), Revoked, Absent, Absent])), Some(db([Live(15), Absent, Revoked, Live(16)])), Some(db([Absent; 4]))],
    ];
    if th {
        sources.push([Some(db([Live(1), Revoked, Absent, Absent])), Some(db(full)), Some(db([Absent, Absent, Live(8), Live(9)]))]);
        sources.push([None, Some(db([Absent, Absent, Revoked, Live(9)])), None]);
        targets.push([None, Some(db(full)), Some(db([Revoked; 4]))]);
        targets.push([Some(db([Absent, Absent, Live(21), Absent])), Some(db([Absent, Live(22), Absent, Absent])), None]);
        let mut t: Snap = [Some(db(full)), None, None];
        t[0].as_mut().unwrap().set(1, 0, Live(30)); // a record that came from another vault
        t[0].as_mut().unwrap().set(2, 1, Revoked);
        targets.push(t.clone());
        sources.push(t);
    }
    let mut pers: Vec<Option<Cfg>> = vec![None];
    pers.extend(configs(false).into_iter().enumerate().filter(|(i, _)| th || i % 17 == 0).map(|(_, c)| Some(c)));
    let mut cfgs = vec![];
    for clients in [None, Some(vec![0]), Some(vec![1, 0]), Some(vec![]), Some(vec![2])] {
        for map in [[None, None], [Some(1), None], [Some(1), Some(0)], [Some(2), None], [None, Some(2)]] {
            for keep in [true, false] {
                for (pi, p) in pers.iter().enumerate() {
                    cfgs.push(SCfg { clients: clients.clone(), map, per: [p.clone(), None], keep });
                    if pi % 7 == 3 {
                        cfgs.push(SCfg { clients: clients.clone(), map, per: [None, p.clone()], keep });
                    }
                }
            }
        }
    }
    // two source records that end up in the same place have no defined winner
    let defined = |s: &Snap, c: &SCfg| {
        let mut hit = std::collections::HashSet::new();
        for k in 0..3 {
            let Some(d) = &s[k] else { continue };
            for v in 0..3 {
                let mut one: Snap = [None, None, None];
                let mut x = Db::default();
                x.r[v] = d.r[v];
                one[k] = Some(x);
                let mut t: Snap = [None, None, None];
                c.apply(&one, &mut t);
                for a in 0..3 {
                    for b in 0..3 {
                        for r in 0..4 {
                            if let Some(Live(_)) = t[a].as_ref().map(|d| d.get(b, r)) {
                                if !hit.insert((a, b, r)) {
                                    return false;
                                }
                            }
                        }
                    }
                }
            }
        }
        true
    };
    // how the state travels; a second merge afterwards with another configuration
    let n = (sources.len() * targets.len() * cfgs.len() * 3) as u64;
    let split = |i: u64| {
        let (how, i) = (i as usize % 3, i as usize / 3);
        let (c, i) = (i % cfgs.len(), i / cfgs.len());
        let (t, s) = (i % targets.len(), i / targets.len());
        (s, t, c, how)
    };
    let describe = |i: u64| {
        let (s, t, c, how) = split(i);
        format!(
            "{} source {s} {:?} into target {t} {:?}, {:?}",
            ["merge of a state,", "import of a serialised state,", "two merges,"][how],
            sources[s], targets[t], cfgs[c]
        )
    };
    let o = run_cases(
        n,
        60,
        &|i, out| {
            let (s, t, c, how) = split(i);
            let (src, cfg) = (&sources[s], &cfgs[c]);
            if !defined(src, cfg) {
                out.count("no defined winner", 1);
                return;
            }
            let mut m = targets[t].clone();
            let r = guard(|| -> Result<(), String> {
                let from = snapshot(src);
                let mut to = snapshot(&targets[t]);
                match how {
                    0 | 2 => {
                        let st = from.get_snapshot_state().map_err(|e| e.to_string())?;
                        to.merge_state(st, cfg.real()).map_err(|e| format!("merge_state: {e}"))?;
                        cfg.apply(src, &mut m);
                    }
                    _ => {
                        let sk = x25519::SecretKey::generate().unwrap();
                        let pk = sk.public_key();
                        to.store_secret_key(sk.to_bytes().to_vec(), loc("key vault", "key")).map_err(|e| e.to_string())?;
                        let (rpk, bytes) = from
                            .export_to_serialized_state(select_all(src, None), pk)
                            .map_err(|e| format!("export: {e}"))?;
                        check_snap(&from, src).map_err(|e| format!("after export the source: {e}"))?;
                        to.import_from_serialized_state(bytes, loc("key vault", "key"), rpk, cfg.real())
                            .map_err(|e| format!("import: {e}"))?;
                        // clients that export nothing are not part of the export
                        let mut sent = src.clone();
                        for k in 0..3 {
                            if sent[k].as_ref().map(|d| d.r.iter().flatten().all(|x| x.is_none())).unwrap_or(false) {
                                sent[k] = None;
                            }
                        }
                        cfg.apply(&sent, &mut m);
                    }
                }
                check_snap(&to, &m)?;
                out.see(&m);
                if how == 2 {
                    // merge the result on from here with every policy, then the other way round
                    let st = from.get_snapshot_state().map_err(|e| e.to_string())?;
                    let k = SCfg { clients: None, map: [None, None], per: [None, None], keep: c % 2 == 0 };
                    to.merge_state(st, k.real()).map_err(|e| format!("second merge: {e}"))?;
                    k.apply(src, &mut m);
                    check_snap(&to, &m).map_err(|e| format!("after the second merge: {e}"))?;
                    let mut back = from;
                    let mut bm = src.clone();
                    k.apply(&m, &mut bm);
                    back.merge_state(to.get_snapshot_state().map_err(|e| e.to_string())?, k.real())
                        .map_err(|e| format!("merge back: {e}"))?;
                    check_snap(&back, &bm).map_err(|e| format!("after merging back: {e}"))?;
                    check_snap(&to, &m).map_err(|e| format!("the other side after merging back: {e}"))?;
                } else {
                    check_snap(&from, src).map_err(|e| format!("the source: {e}"))?;
                }
                Ok(())
            });
            out.count("merges", 1 + 2 * (how == 2) as u64);
            match r {
                Ok(Ok(())) => (),
                Ok(Err(e)) => out.fail(format!("{e} [{}]", describe(i)), format!("{e}; case {}", describe(i))),
                Err(e) => out.fail(format!("panic {} [{}]", first_line(&e), describe(i)), format!("panic {e}; case {}", describe(i))),
            }
            out.sample(|| describe(i));
        },
        &describe,
    );
    rep.absorb("merges", o);

    // selections of an export; loading merged clients in an instance
    let n = (sources.len() * 5) as u64;
    let o = run_cases(
        n,
        60,
        &|i, out| {
            let (src, only) = (&sources[i as usize / 5], i as usize % 5);
            let r = guard(|| -> Result<(), String> {
                let from = snapshot(src);
                let mut to = Snapshot::default();
                let sk = x25519::SecretKey::generate().unwrap();
                to.store_secret_key(sk.to_bytes().to_vec(), loc("key vault", "key")).map_err(|e| e.to_string())?;
                let sel = select_all(src, if only < 4 { Some(only) } else { None });
                let (rpk, bytes) = from.export_to_serialized_state(sel, sk.public_key()).map_err(|e| format!("export: {e}"))?;
                to.import_from_serialized_state(bytes, loc("key vault", "key"), rpk, SyncSnapshotsConfig::default())
                    .map_err(|e| format!("import: {e}"))?;
                let mut m: Snap = src.clone();
                for c in 0..3 {
                    if let Some(d) = &mut m[c] {
                        for v in 0..3 {
                            for rid in 0..4 {
                                if only < 4 && rid != only || d.get(v, rid) == Revoked {
                                    d.r[v][rid] = None;
                                }
                            }
                        }
                    }
                }
                for c in 0..3 {
                    // whether a client of which nothing was selected is there is left open
                    let has = to.has_data(client_id(CLIENTS[c]));
                    if !has && m[c].as_ref().map(|d| (0..3).all(|v| !d.has_live(v))).unwrap_or(false) {
                        m[c] = None;
                    }
                }
                check_snap(&to, &m)?;
                // through a file into an instance
                let d = Scratch::new("c10");
                let p = SnapshotPath::from_path(d.path().join("s"));
                let key: [u8; 32] = [8; 32];
                to.write_to_snapshot(&p, UseKey::Key(key)).map_err(|e| format!("write: {e}"))?;
                let s = Stronghold::default();
                s.load_snapshot(&kp(8), &p).map_err(|e| format!("load: {e}"))?;
                for c in 0..3 {
                    let Some(d) = &m[c] else { continue };
                    let cl = s.load_client(CLIENTS[c]).map_err(|e| format!("load client: {e}"))?;
                    for (v, rid) in LOCS {
                        let got = holds(&cl, &location(v, rid), &val(if let Live(t) = d.get(v, rid) { t } else { 0 })).unwrap_or(false);
                        if got != matches!(d.get(v, rid), Live(_)) {
                            return Err(format!("loaded {} {v} {rid}", CLIENTS[c]));
                        }
                    }
                    cl.vault(VAULTS[0]).write_secret(loc(VAULTS[0], "new"), vec![1]).map_err(|e| format!("write to merged: {e}"))?;
                }
                Ok(())
            });
            out.count("merges", 1);
            if let Some(e) = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(e) => Some(format!("panic {e}")),
            } {
                out.fail(format!("selection {only} of source {}: {}", i / 5, first_line(&e)), e);
            }
        },
        &|i| format!("export selection {i}"),
    );
    rep.absorb("export selections and loading", o);
    crate::amounts::c10(&mut rep);

    // altered exports and wrong keys
    let src = &sources[1];
    let from = snapshot(src);
    let sk = x25519::SecretKey::generate().unwrap();
    let sk_bytes = sk.to_bytes().to_vec();
    let (rpk, bytes) = from.export_to_serialized_state(select_all(src, None), sk.public_key()).unwrap();
    let (rpk2, bytes2) = from.export_to_serialized_state(select_all(src, Some(0)), sk.public_key()).unwrap();
    let mut images: Vec<(String, Vec<u8>, x25519::PublicKey, Vec<u8>)> = vec![];
    for i in 0..bytes.len() * 8 {
        if !th && i >= 100 * 8 && i % 8 != i / 8 % 8 {
            continue; // one bit per byte behind the header in the quick tier
        }
        let mut b = bytes.clone();
        b[i / 8] ^= 1 << (i % 8);
        images.push((format!("bit {} of byte {} flipped", i % 8, i / 8), b, rpk, sk_bytes.clone()));
    }
    for i in 0..bytes.len() {
        images.push((format!("truncated to {i}"), bytes[..i].to_vec(), rpk, sk_bytes.clone()));
    }
    for i in [1, 7, 16, 32, 48, 55, bytes2.len()] {
        let mut b = bytes.clone();
        b.extend_from_slice(&bytes2[..i]);
        images.push((format!("{i} bytes appended"), b, rpk, sk_bytes.clone()));
        let mut b = bytes.clone();
        b[..i].copy_from_slice(&bytes2[..i]);
        images.push((format!("first {i} bytes of another export"), b, rpk, sk_bytes.clone()));
    }
    images.push(("public key of another export".into(), bytes.clone(), rpk2, sk_bytes.clone()));
    for bit in 0..256 {
        // the bits that x25519 clamps make no different key
        if [0, 1, 2, 254, 255].contains(&bit) {
            continue;
        }
        let mut k = sk_bytes.clone();
        k[bit / 8] ^= 1 << (bit % 8);
        images.push((format!("key bit {bit} changed"), bytes.clone(), rpk, k));
        if bit < 255 {
            let mut p = rpk.to_bytes();
            p[bit / 8] ^= 1 << (bit % 8);
            images.push((format!("public key bit {bit} changed"), bytes.clone(), x25519::PublicKey::from_bytes(p), sk_bytes.clone()));
        }
    }
    for n in [0usize, 1, 31, 33, 64] {
        let mut k = sk_bytes.clone();
        k.resize(n, 7);
        images.push((format!("key of {n} bytes"), bytes.clone(), rpk, k));
    }
    images.push(("no key".into(), bytes.clone(), rpk, vec![]));
    let last = images.len() - 1;
    let target = &targets[2];
    let o = run_cases(
        images.len() as u64,
        60,
        &|i, out| {
            let (name, b, pk, k) = &images[i as usize];
            let r = guard(|| -> Result<(), String> {
                let mut to = snapshot(target);
                if i as usize != last {
                    to.store_secret_key(k.clone(), loc("key vault", "key")).map_err(|e| e.to_string())?;
                }
                if to.import_from_serialized_state(b.clone(), loc("key vault", "key"), *pk, SyncSnapshotsConfig::default()).is_ok() {
                    return Err("accepted".into());
                }
                check_snap(&to, target)?;
                // the importer can still import
                if i % 16 == 0 {
                    to.store_secret_key(sk_bytes.clone(), loc("key vault", "key2")).map_err(|e| e.to_string())?;
                    to.import_from_serialized_state(bytes.clone(), loc("key vault", "key2"), rpk, SyncSnapshotsConfig::default())
                        .map_err(|e| format!("the right one afterwards: {e}"))?;
                }
                Ok(())
            });
            out.count("merges", 1);
            out.see(name);
            if let Some(e) = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(e) => Some(format!("panic {e}")),
            } {
                out.fail(format!("{name}: {}", first_line(&e)), format!("{name}: {e}"));
            }
        },
        &|i| images[i as usize].0.clone(),
    );
    rep.absorb("altered exports and wrong keys", o);
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("merges"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.finish()
}
