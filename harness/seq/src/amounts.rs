//! Amounts: what C09, C10, C11 and C23 enumerate over few places, here over many, and over long and short contents.
use crate::clock;
use crate::util::*;
use crypto::keys::x25519;
use engine::store::Cache;
use engine::vault::{ClientId, DbView, Key, RecordHint, RecordId, VaultId};
use iota_stronghold::internal::Provider;
use iota_stronghold::sync::{MergePolicy, SyncClientsConfig, SyncSnapshotsConfig};
use iota_stronghold::*;
use mc::*;
use std::collections::HashMap;
use std::time::Duration;

fn sizes(th: bool) -> Vec<usize> {
    let mut s: Vec<usize> = (1..=18).collect();
    s.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
    if th {
        s.extend([500, 511, 512, 513, 1000, 1023, 1024, 1025]);
    }
    s
}

fn value(side: u8, k: usize, len: usize) -> Vec<u8> {
    let mut v = vec![side];
    v.extend((k as u32).to_be_bytes());
    v.extend((0..len).map(|i| (i as u8).wrapping_mul(37) ^ side));
    v
}

#[derive(Clone, Copy, Debug)]
struct Case {
    records: usize,
    vaults: usize,
    /// every how many-th record the target has already
    overlap: usize,
    /// which records are selected: all, every third, none but the last
    select: u8,
    mapped: bool,
    keep: bool,
    len: usize,
}

fn cases(th: bool) -> Vec<Case> {
    let mut out = vec![];
    for records in sizes(th) {
        for (vaults, overlap, select, mapped) in
            [(1, 0, 0, false), (1, 2, 0, false), (1, 2, 1, true), (1, 1, 2, false), (3, 2, 0, true), (3, 3, 1, false)]
        {
            for keep in [true, false] {
                out.push(Case { records, vaults, overlap, select, mapped, keep, len: 12 });
            }
        }
    }
    // many vaults with few records each; every one has a locked key
    for vaults in [2, 5, 8, 9, 16, 17, 32, 33, 64, 65].into_iter().chain(if th { vec![100, 128, 129, 200] } else { vec![] }) {
        for (select, mapped) in [(0, false), (0, true), (1, false), (1, true)] {
            for keep in [true, false] {
                out.push(Case { records: 2 * vaults, vaults, overlap: 2, select, mapped, keep, len: 3 });
            }
        }
    }
    // contents of every length round the usual limits
    for len in [0usize, 1, 15, 16, 17, 255, 256, 4095, 4096, 4097, 8192, 16384, 65530, 65535, 65536, 65537, 100_000, 1 << 20] {
        for (mapped, keep) in [(false, true), (true, false), (false, false)] {
            out.push(Case { records: 3, vaults: 1, overlap: 2, select: 0, mapped, keep, len });
        }
    }
    out
}

impl Case {
    fn vault(&self, k: usize) -> usize {
        k % self.vaults
    }
    fn name(&self, v: usize) -> String {
        format!("vault {v}")
    }
    /// where the records of a vault go
    fn goes(&self, v: usize) -> String {
        if self.mapped { format!("mapped {}", (v * 7 + 3) % 1009) } else { self.name(v) }
    }
    fn rec(&self, k: usize) -> String {
        format!("record {k}")
    }
    fn rid(&self, k: usize) -> RecordId {
        derive_record_id(self.name(self.vault(k)), self.rec(k))
    }
    fn has(&self, k: usize) -> bool {
        self.overlap > 0 && k % self.overlap == 0
    }
    fn selected(&self, k: usize) -> bool {
        match self.select {
            0 => true,
            1 => k % 3 == 0,
            _ => k + 1 == self.records,
        }
    }
    fn config(&self) -> SyncClientsConfig {
        let mut c = SyncClientsConfig::new(if self.keep { MergePolicy::KeepOld } else { MergePolicy::Replace });
        let vs: Vec<String> = (0..self.vaults).map(|v| self.name(v)).collect();
        if self.select != 0 {
            c.sync_selected_vaults(vs.clone());
            for v in 0..self.vaults {
                let l: Vec<String> = (0..self.records).filter(|k| self.vault(*k) == v && self.selected(*k)).map(|k| self.rec(k)).collect();
                c.sync_selected_record(self.name(v), l);
            }
        }
        if self.mapped {
            c.map_vaults((0..self.vaults).map(|v| (self.name(v), self.goes(v))).collect());
        }
        c
    }
    /// what the target has at the place of a record afterwards
    fn want(&self, k: usize) -> Option<Vec<u8>> {
        let old = self.has(k).then(|| value(2, k, self.len / 2 + 1));
        if !self.selected(k) || (old.is_some() && self.keep) {
            return old;
        }
        Some(value(1, k, self.len))
    }
    fn state(&self, target: bool) -> Result<ClientState, String> {
        let mut keys: HashMap<VaultId, Key<Provider>> = HashMap::new();
        let mut db: DbView<Provider> = DbView::new();
        for k in 0..self.records {
            if target && !self.has(k) {
                continue;
            }
            let v = derive_vault_id(if target { self.goes(self.vault(k)) } else { self.name(self.vault(k)) });
            let val = if target { value(2, k, self.len / 2 + 1) } else { value(1, k, self.len) };
            let key = keys.entry(v).or_insert_with(Key::random);
            db.write(key, v, self.rid(k), &val, RecordHint::new("").unwrap()).map_err(|e| e.to_string())?;
        }
        let mut store = Cache::new();
        store.insert(b"whose".to_vec(), vec![target as u8], None);
        Ok((keys, db, store))
    }
    fn check(&self, st: &ClientState, target: bool) -> Result<(), String> {
        let mut n = 0;
        for k in 0..self.records {
            let (want, v) = if target {
                (self.want(k), derive_vault_id(self.goes(self.vault(k))))
            } else {
                (Some(value(1, k, self.len)), derive_vault_id(self.name(self.vault(k))))
            };
            let has = st.1.contains_record(v, self.rid(k));
            if has != want.is_some() {
                return Err(format!("record {k} {}", if has { "is there" } else { "is missing" }));
            }
            let Some(want) = want else { continue };
            n += 1;
            let key = st.0.get(&v).ok_or(format!("no key for the vault of record {k}"))?;
            let mut got = vec![];
            st.1.get_guard::<std::convert::Infallible, _>(key, v, self.rid(k), |b| {
                got.extend_from_slice(&b.borrow());
                Ok(())
            })
            .map_err(|e| format!("record {k}: {e}"))?;
            if got != want {
                return Err(format!("record {k} has another value"));
            }
        }
        let all: usize = st.1.list_vaults().iter().map(|v| st.1.list_records(v).len()).sum();
        if all != n {
            return Err(format!("{all} records instead of {n}"));
        }
        match st.2.get(&b"whose".to_vec()) {
            Some(x) if *x == vec![target as u8] => Ok(()),
            x => Err(format!("the store has {x:?}")),
        }
    }
}

fn id(p: &str) -> ClientId {
    iota_stronghold::utils::LoadFromPath::load_from_path(p.as_bytes(), p.as_bytes())
}

fn done(out: &mut Outcome, what: String, r: Result<Result<(), String>, String>) {
    match r {
        Ok(Ok(())) => (),
        Ok(Err(e)) => out.fail(format!("{what}: {}", first_line(&e)), format!("{what}: {e}")),
        Err(e) => out.fail(format!("{what}: panic {}", first_line(&e)), format!("{what}: panic {e}")),
    }
}

/// Two clients of one instance, made from a snapshot, synchronised, and looked at through a commit.
pub fn c09(rep: &mut Report) {
    let cs = cases(rep.thorough());
    let o = run_cases(
        cs.len() as u64,
        120,
        &|i, out| {
            let c = cs[i as usize];
            let r = guard(|| -> Result<(), String> {
                let e = |x: &dyn std::fmt::Display| x.to_string();
                let dir = Scratch::new("c09a");
                let p = SnapshotPath::from_path(dir.path().join("s"));
                let mut snap = Snapshot::default();
                snap.add_data(id("source"), c.state(false)?).map_err(|x| e(&x))?;
                snap.add_data(id("target"), c.state(true)?).map_err(|x| e(&x))?;
                snap.write_to_snapshot(&p, UseKey::Key([3; 32])).map_err(|x| e(&x))?;
                let s = Stronghold::default();
                s.load_snapshot(&kp(3), &p).map_err(|x| e(&x))?;
                let from = s.load_client("source").map_err(|x| e(&x))?;
                let to = s.load_client("target").map_err(|x| e(&x))?;
                to.sync_with(&from, c.config()).map_err(|x| format!("sync_with: {x}"))?;
                s.commit_with_keyprovider(&p, &kp(3)).map_err(|x| e(&x))?;
                let snap = Snapshot::read_from_snapshot(&p, [3; 32], None).map_err(|x| e(&x))?;
                for (t, n) in [(false, "source"), (true, "target")] {
                    c.check(&snap.get_state(id(n)).map_err(|x| e(&x))?, t).map_err(|x| format!("{n}: {x}"))?;
                }
                Ok(())
            });
            out.count("syncs", 1);
            out.see(&i);
            done(out, format!("{c:?}"), r);
        },
        &|i| format!("{:?}", cs[i as usize]),
    );
    rep.absorb("amounts, lengths and numbers of vaults", o);
}

/// The same through a merge and through an export; the other clients of the importing snapshot stay.
pub fn c10(rep: &mut Report) {
    let cs = cases(rep.thorough());
    let o = run_cases(
        2 * cs.len() as u64,
        120,
        &|i, out| {
            let c = cs[i as usize / 2];
            let export = i % 2 == 1;
            let r = guard(|| -> Result<(), String> {
                let e = |x: &dyn std::fmt::Display| x.to_string();
                let mut from = Snapshot::default();
                from.add_data(id("source"), c.state(false)?).map_err(|x| e(&x))?;
                let mut to = Snapshot::default();
                to.add_data(id("target"), c.state(true)?).map_err(|x| e(&x))?;
                to.add_data(id("source"), c.state(true)?).map_err(|x| e(&x))?;
                to.add_data(id("other"), c.state(false)?).map_err(|x| e(&x))?;
                let mut cfg = SyncSnapshotsConfig::new(if c.keep { MergePolicy::KeepOld } else { MergePolicy::Replace });
                cfg.map_clients(HashMap::from([("source", "target")]));
                cfg.config_client_sync("source", c.config());
                if export {
                    let sk = x25519::SecretKey::generate().map_err(|x| e(&x))?;
                    to.store_secret_key(sk.to_bytes().to_vec(), loc("key vault", "key")).map_err(|x| e(&x))?;
                    let mut sel: HashMap<VaultId, Vec<RecordId>> = HashMap::new();
                    for k in 0..c.records {
                        sel.entry(derive_vault_id(c.name(c.vault(k)))).or_default().push(c.rid(k));
                    }
                    let (pk, bytes) = from
                        .export_to_serialized_state(HashMap::from([(id("source"), sel)]), sk.public_key())
                        .map_err(|x| format!("export: {x}"))?;
                    to.import_from_serialized_state(bytes, loc("key vault", "key"), pk, cfg).map_err(|x| format!("import: {x}"))?;
                } else {
                    let st = from.get_snapshot_state().map_err(|x| e(&x))?;
                    to.merge_state(st, cfg).map_err(|x| format!("merge_state: {x}"))?;
                }
                c.check(&from.get_state(id("source")).map_err(|x| e(&x))?, false).map_err(|x| format!("source: {x}"))?;
                c.check(&to.get_state(id("target")).map_err(|x| e(&x))?, true).map_err(|x| format!("target: {x}"))?;
                c.check(&to.get_state(id("other")).map_err(|x| e(&x))?, false).map_err(|x| format!("another client: {x}"))?;
                let before = Case { select: 2, records: c.records, keep: true, ..c };
                // the client that has the source's name got nothing
                let st = to.get_state(id("source")).map_err(|x| e(&x))?;
                for k in 0..before.records {
                    let v = derive_vault_id(c.goes(c.vault(k)));
                    if st.1.contains_record(v, c.rid(k)) != c.has(k) {
                        return Err(format!("the unmapped client's record {k} changed"));
                    }
                }
                if st.2.get(&b"whose".to_vec()) != Some(&vec![1]) {
                    return Err("the unmapped client's store changed".into());
                }
                Ok(())
            });
            out.count("merges", 1);
            out.see(&i);
            done(out, format!("{} {c:?}", ["merge", "export and import"][export as usize]), r);
        },
        &|i| format!("{:?}", cs[i as usize / 2]),
    );
    rep.absorb("amounts, lengths and numbers of vaults", o);
}

/// Many keys with lifetimes of every kind in one store, and keys and values of every length.
pub fn c11(rep: &mut Report) {
    const S: i128 = 1_000_000_000;
    let t0 = 1_700_000_000 * S;
    let ns = sizes(rep.thorough());
    // lifetimes by number of the key: none, k seconds, half a second less
    let life = |k: usize| match k % 3 {
        0 => None,
        1 => Some(Duration::from_secs(k as u64)),
        _ => Some(Duration::from_millis(1000 * k as u64 - 500)),
    };
    let live = |k: usize, t: i128| life(k).map_or(true, |l| t - t0 < l.as_nanos() as i128);
    let edge = |k: usize, t: i128| life(k).map_or(false, |l| t - t0 == l.as_nanos() as i128);
    let o = run_cases(
        4 * ns.len() as u64,
        120,
        &|i, out| {
            let n = ns[i as usize / 4];
            let how = i % 4;
            clock::set(t0);
            let r = guard(|| -> Result<(), String> {
                let e = |x: &dyn std::fmt::Display| x.to_string();
                let dir = Scratch::new("c11a");
                let p = SnapshotPath::from_path(dir.path().join("s"));
                let mut s = Stronghold::default();
                let mut c = s.create_client("c").map_err(|x| e(&x))?;
                let mut cache: Cache<Vec<u8>, Vec<u8>> = Cache::create_with_scanner(Duration::from_secs(3));
                let key = |k: usize| format!("key {k}").into_bytes();
                let val = |k: usize| (k as u32).to_be_bytes().to_vec();
                for k in 0..n {
                    let old = if how == 0 { cache.insert(key(k), val(k), life(k)) } else { c.store().insert(key(k), val(k), life(k)).map_err(|x| e(&x))? };
                    if old.is_some() {
                        return Err(format!("inserting key {k} returned {old:?}"));
                    }
                }
                if how >= 2 {
                    s.commit_with_keyprovider(&p, &kp(9)).map_err(|x| e(&x))?;
                    s = Stronghold::default();
                    c = s.load_client_from_snapshot("c", &kp(9), &p).map_err(|x| e(&x))?;
                }
                let mut t = t0;
                for step in [0, 1, S / 2, S, 5 * S, 16 * S, 60 * S, 200 * S, 3000 * S] {
                    t += step;
                    clock::set(t);
                    if how == 3 {
                        s.commit_with_keyprovider(&p, &kp(9)).map_err(|x| e(&x))?;
                        s = Stronghold::default();
                        c = s.load_client_from_snapshot("c", &kp(9), &p).map_err(|x| e(&x))?;
                    }
                    // a scan, where there is one
                    let _ = if how == 0 { cache.insert(b"x".to_vec(), vec![], None) } else { c.store().insert(b"x".to_vec(), vec![], None).map_err(|x| e(&x))? };
                    for k in 0..n {
                        let got = if how == 0 { cache.get(&key(k)).cloned() } else { c.store().get(&key(k)).map_err(|x| e(&x))? };
                        let there = if how == 0 { cache.contains_key(&key(k)) } else { c.store().contains_key(&key(k)).map_err(|x| e(&x))? };
                        if there != got.is_some() {
                            return Err(format!("{} s: key {k} is {got:?} but contained={there}", (t - t0) / S));
                        }
                        if !edge(k, t) && got != live(k, t).then(|| val(k)) {
                            return Err(format!("{} s: key {k} with lifetime {:?} is {got:?}", (t - t0) / S, life(k)));
                        }
                    }
                }
                for k in 0..n {
                    let got = if how == 0 { cache.remove(&key(k)) } else { c.store().delete(&key(k)).map_err(|x| e(&x))? };
                    if got != live(k, t).then(|| val(k)) {
                        return Err(format!("deleting key {k} with lifetime {:?} returned {got:?}", life(k)));
                    }
                }
                let left = if how == 0 { cache.keys() } else { c.store().keys().map_err(|x| e(&x))? };
                if left != vec![b"x".to_vec()] {
                    return Err(format!("after everything was deleted there are {} keys", left.len()));
                }
                Ok(())
            });
            clock::real();
            out.see(&i);
            out.count("transitions", n as u64);
            done(out, format!("{n} keys, {}", ["cache with scanner", "store", "store loaded once", "store reloaded every time"][how as usize]), r);
        },
        &|i| format!("amounts {i}"),
    );
    rep.absorb("amounts of keys", o);

    let lens = [0usize, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 300_000];
    let m = lens.len() as u64;
    let o = run_cases(
        m * m,
        120,
        &|i, out| {
            let (a, b) = (lens[(i / m) as usize], lens[(i % m) as usize]);
            let r = guard(|| -> Result<(), String> {
                let e = |x: ClientError| x.to_string();
                let bytes = |n: usize, x: u8| -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(x) ^ (i >> 8) as u8).collect() };
                let s = Stronghold::default();
                let c = s.create_client("c").map_err(e)?;
                let (k, near) = (bytes(a, 5), [bytes(a, 5), vec![0]].concat());
                let (v, w) = (bytes(b, 3), bytes(a, 7));
                let st = c.store();
                let put = |k: &[u8], v: &[u8], want: Option<&[u8]>| {
                    let got = st.insert(k.to_vec(), v.to_vec(), None).map_err(e)?;
                    (got.as_deref() == want).then_some(()).ok_or("insert returned another value".to_string())
                };
                let see = |k: &[u8], v: Option<&[u8]>, when: &str| {
                    let got = st.get(k).map_err(e)?;
                    (got.as_deref() == v).then_some(()).ok_or(format!("{when}: another value"))
                };
                put(&k, &w, None)?;
                put(&near, b"near", None)?;
                put(&k, &v, Some(&w))?;
                see(&k, Some(&v), "inserted")?;
                see(&near, Some(b"near"), "the near key")?;
                let dir = Scratch::new("c11l");
                let p = SnapshotPath::from_path(dir.path().join("s"));
                s.commit_with_keyprovider(&p, &kp(9)).map_err(e)?;
                let s2 = Stronghold::default();
                let c2 = s2.load_client_from_snapshot("c", &kp(9), &p).map_err(e)?;
                if c2.store().get(&k).map_err(e)?.as_ref() != Some(&v) || c2.store().get(&near).map_err(e)?.as_deref() != Some(b"near") {
                    return Err("another value after a reload".into());
                }
                if st.delete(&k).map_err(e)?.as_ref() != Some(&v) {
                    return Err("delete returned another value".into());
                }
                see(&k, None, "deleted")?;
                see(&near, Some(b"near"), "the near key after the deletion")
            });
            out.see(&i);
            out.count("transitions", 4);
            done(out, format!("key of {a} bytes, value of {b}"), r);
        },
        &|i| format!("lengths {i}"),
    );
    rep.absorb("lengths of keys and values", o);
}

/// Many records in the engine's vaults.
pub fn c23(rep: &mut Report) {
    let ns = sizes(rep.thorough());
    let o = run_cases(
        3 * ns.len() as u64,
        120,
        &|i, out| {
            let n = ns[i as usize / 3];
            let part = i % 3;
            let r = guard(|| -> Result<(), String> {
                let e = |x: &dyn std::fmt::Display| x.to_string();
                let key = |b: u8| Key::<Provider>::load(vec![b; 32]).unwrap();
                let (k, wrong) = (key(1), key(2));
                let vid = |v: u8| VaultId::load(&[v; 24]).unwrap();
                let rid = |r: usize| {
                    let mut b = [0u8; 24];
                    b[10..14].copy_from_slice(&(r as u32).to_be_bytes());
                    RecordId::load(&b).unwrap()
                };
                let hint = |r: usize| RecordHint::new(format!("{r}")).unwrap();
                let gone = |r: usize| match part {
                    0 => true,
                    1 => r % 2 == 1,
                    _ => r + 1 < n,
                };
                let mut db: DbView<Provider> = DbView::new();
                for r in 0..n {
                    db.write(&k, vid(1), rid(r), &value(1, r, 20), hint(r)).map_err(|x| e(&x))?;
                    db.write(&wrong, vid(2), rid(r), &value(2, r, 20), hint(r)).map_err(|x| e(&x))?;
                }
                let look = |db: &DbView<Provider>, when: &str, left: &dyn Fn(usize) -> bool, listed: &dyn Fn(usize) -> bool| -> Result<(), String> {
                    let mut want: Vec<_> = (0..n).filter(|r| left(*r)).map(|r| (rid(r), hint(r))).collect();
                    let mut got = db.list_hints_and_ids(&k, vid(1));
                    want.sort();
                    got.sort();
                    if want != got {
                        return Err(format!("{when}: {} records are listed instead of {}", got.len(), want.len()));
                    }
                    let mut got = db.list_records(&vid(1));
                    let mut want: Vec<_> = (0..n).filter(|r| listed(*r)).map(rid).collect();
                    got.sort();
                    want.sort();
                    if got != want {
                        return Err(format!("{when}: {} records are there instead of {}", got.len(), want.len()));
                    }
                    if !db.list_hints_and_ids(&wrong, vid(1)).is_empty() {
                        return Err(format!("{when}: the listing with another key shows something"));
                    }
                    for r in 0..n {
                        if db.contains_record(vid(1), rid(r)) != left(r) {
                            return Err(format!("{when}: contains_record of record {r}"));
                        }
                        for (kk, v, want) in [(&k, 1, left(r).then(|| value(1, r, 20))), (&wrong, 1, None), (&wrong, 2, Some(value(2, r, 20)))] {
                            let mut got = None;
                            let _ = db.get_guard::<String, _>(kk, vid(v), rid(r), |b| {
                                got = Some(b.borrow().to_vec());
                                Ok(())
                            });
                            if got != want {
                                return Err(format!("{when}: record {r} of vault {v} reads as {got:?}"));
                            }
                        }
                    }
                    Ok(())
                };
                look(&db, "written", &|_| true, &|_| true)?;
                for r in (0..n).filter(|r| gone(*r)) {
                    if db.revoke_record(&wrong, vid(1), rid(r)).is_ok() {
                        return Err("a revocation with another key succeeds".into());
                    }
                    db.revoke_record(&k, vid(1), rid(r)).map_err(|x| e(&x))?;
                }
                look(&db, "revoked", &|r| !gone(r), &|_| true)?;
                db.garbage_collect_vault(&wrong, vid(1));
                look(&db, "collected with another key", &|r| !gone(r), &|_| true)?;
                db.garbage_collect_vault(&k, vid(1));
                look(&db, "collected", &|r| !gone(r), &|r| !gone(r))
            });
            out.see(&i);
            out.count("transitions", n as u64);
            done(out, format!("{n} records, revoked {}", ["all", "every second", "all but the last"][part as usize]), r);
        },
        &|i| format!("amounts {i}"),
    );
    rep.absorb("amounts of records", o);
}
