//! C06: concurrent use of one client.
use crate::lin::{scenario, Bounds, World};
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use mc::*;
use std::sync::Arc;

fn loc(i: u8) -> Location {
    match i {
        0 => Location::generic("vault 1", "record a"),
        1 => Location::generic("vault 1", "record b"),
        2 => Location::generic("vault 2", "record c"),
        _ => Location::generic("vault 3", "never written"),
    }
}
fn vault(i: u8) -> &'static str {
    if i < 2 { "vault 1" } else { "vault 2" }
}
fn record(i: u8) -> &'static str {
    ["record a", "record b", "record c"][i as usize]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Write(u8, u8),
    Revoke(u8),
    Delete(u8),
    Cleanup,
    Copy(u8, u8),
    Derive(u8, u8),
    Concat(u8, u8, u8),
    Use(u8),
    Aead(u8),
    /// copies and then uses the copy
    Chain(u8, u8),
    /// copies and then fails
    ChainFails(u8, u8),
    ProcWrite(u8, u8),
    ProcRevoke(u8),
    ProcCollect,
    RecordExists(u8),
    VaultExists(u8),
    Ins(u8, u8),
    Get(u8),
    Has(u8),
    Del(u8),
    Keys,
    StoreClear,
    /// from another client, into it, between two vaults
    SyncFrom(bool),
    SyncTo,
    SyncVaults(bool),
    /// calls of the other client
    OtherWrite(u8, u8),
    OtherDelete(u8),
}
use Op::*;

fn ops() -> Vec<Op> {
    vec![
        Write(0, 1), Write(0, 2), Write(1, 3), Write(2, 4),
        Revoke(0), Delete(0), Cleanup, Revoke(2),
        Copy(0, 1), Copy(1, 0), Copy(0, 2), Derive(0, 2), Concat(0, 1, 2), Use(0), Use(2), Aead(0),
        Chain(0, 2), ChainFails(0, 2), ProcWrite(0, 5), ProcRevoke(1), ProcCollect,
        RecordExists(0), VaultExists(2),
    ]
}
fn store_ops() -> Vec<Op> {
    vec![Ins(1, 1), Ins(1, 2), Ins(2, 3), Get(1), Has(1), Del(1), Del(2), Keys, StoreClear]
}

#[derive(Clone)]
pub struct W {
    c: Client,
    other: Client,
}

fn hmac(c: &Client, l: Location) -> String {
    match c.execute_procedure(Hmac { hash_type: Sha2Hash::Sha256, msg: b"which".to_vec(), key: l }) {
        Ok(h) => h.iter().take(6).map(|b| format!("{b:02x}")).collect(),
        Err(e) => format!("{e}"),
    }
}
fn text<T: std::fmt::Debug, E: std::fmt::Display>(r: Result<T, E>) -> String {
    match r {
        Ok(t) => format!("{t:?}"),
        Err(e) => format!("error {e}"),
    }
}
fn value(v: u8) -> Vec<u8> {
    vec![v; 32]
}
fn policy(keep: bool) -> sync::MergePolicy {
    if keep { sync::MergePolicy::KeepOld } else { sync::MergePolicy::Replace }
}
fn copy(a: u8, b: u8) -> CopyRecord {
    CopyRecord { source: loc(a), target: loc(b) }
}

impl World for W {
    type Op = Op;
    type Local = String;
    fn steps(op: &Op) -> usize {
        match op {
            Delete(_) => 2,
            // a step, a step, and what is taken back
            Chain(..) | ChainFails(..) => 3,
            _ => 1,
        }
    }
    fn call(&self, op: &Op) -> String {
        let c = &self.c;
        match *op {
            Write(l, v) => text(c.vault(vault(l)).write_secret(loc(l), value(v))),
            Revoke(l) => text(c.vault(vault(l)).revoke_secret(record(l))),
            Delete(l) => text(c.vault(vault(l)).delete_secret(record(l))),
            Cleanup => text(c.vault("vault 1").cleanup()),
            Copy(a, b) => text(c.execute_procedure(copy(a, b))),
            Derive(a, b) => text(c.execute_procedure(Hkdf { hash_type: Sha2Hash::Sha256, salt: vec![1], label: vec![2], ikm: loc(a), okm: loc(b) })),
            Concat(a, b, t) => text(c.execute_procedure(ConcatSecret { location_a: loc(a), location_b: loc(b), output_location: loc(t) })),
            Use(l) => hmac(c, loc(l)),
            Aead(l) => text(c.execute_procedure(AeadEncrypt { cipher: AeadCipher::Aes256Gcm, associated_data: vec![], plaintext: vec![7; 4], nonce: vec![0; 12], key: loc(l) })),
            Chain(a, b) => text(c.execute_procedure_chained(vec![
                copy(a, b).into(),
                Hmac { hash_type: Sha2Hash::Sha256, msg: b"which".to_vec(), key: loc(b) }.into(),
            ]).map(|v| v.len())),
            ChainFails(a, b) => text(c.execute_procedure_chained(vec![copy(a, b).into(), copy(9, 1).into()]).map(|v| v.len())),
            ProcWrite(l, v) => text(c.execute_procedure(WriteVault { data: value(v).into(), location: loc(l) })),
            ProcRevoke(l) => text(c.execute_procedure(RevokeData { location: loc(l), should_gc: false })),
            ProcCollect => text(c.execute_procedure(GarbageCollect { vault_path: b"vault 1".to_vec() })),
            RecordExists(l) => text(c.record_exists(&loc(l))),
            VaultExists(l) => text(c.vault_exists(vault(l))),
            Ins(k, v) => text(c.store().insert(vec![k], vec![v], None)),
            Get(k) => text(c.store().get(&[k])),
            Has(k) => text(c.store().contains_key(&[k])),
            Del(k) => text(c.store().delete(&[k])),
            Keys => text(c.store().keys().map(|mut k| { k.sort(); k })),
            StoreClear => text(c.store().clear()),
            SyncFrom(keep) => text(c.sync_with(&self.other, sync::SyncClientsConfig::new(policy(keep)))),
            SyncTo => text(self.other.sync_with(c, sync::SyncClientsConfig::new(policy(false)))),
            SyncVaults(keep) => text(c.sync_vaults(b"vault 1".to_vec(), b"vault 2".to_vec(), None, policy(keep))),
            OtherWrite(l, v) => text(self.other.vault(vault(l)).write_secret(loc(l), value(v))),
            OtherDelete(l) => text(self.other.vault(vault(l)).delete_secret(record(l))),
        }
    }
    fn step(&self, op: &Op, k: usize, l: &mut String) -> Option<String> {
        let c = &self.c;
        match (*op, k) {
            (Delete(r), 0) => {
                let x = c.vault(vault(r)).revoke_secret(record(r));
                *l = if let Err(e) = x { format!("error {e}") } else { String::new() };
                None
            }
            (Delete(_), _) => Some(if l.is_empty() { self.call(&Cleanup) } else { l.clone() }),
            (Chain(a, b) | ChainFails(a, b), 0) => {
                *l = match c.execute_procedure_chained(vec![copy(a, b).into()]) {
                    Ok(_) => String::new(),
                    Err(e) => format!("error {e}"),
                };
                None
            }
            (Chain(_, b), 1) => {
                if l.is_empty() {
                    let second = Hmac { hash_type: Sha2Hash::Sha256, msg: b"which".to_vec(), key: loc(b) };
                    if let Err(e) = c.execute_procedure(second) {
                        *l = format!("revoke error {e}");
                    }
                }
                None
            }
            (ChainFails(..), 1) => {
                if l.is_empty() {
                    if let Err(e) = c.execute_procedure(copy(9, 1)) {
                        *l = format!("revoke error {e}");
                    }
                }
                None
            }
            (Chain(_, b) | ChainFails(_, b), _) => {
                if let Some(e) = l.strip_prefix("revoke ") {
                    let _ = c.vault(vault(b)).revoke_secret(record(b));
                    Some(e.to_string())
                } else if l.is_empty() {
                    Some("2".into())
                } else {
                    Some(l.clone())
                }
            }
            _ => unreachable!(),
        }
    }
    fn last(&self) -> String {
        let c = &self.c;
        let mut s = String::new();
        for l in 0..3 {
            s += &format!("{}: {} {} ", record(l), text(c.record_exists(&loc(l))), hmac(c, loc(l)));
        }
        for l in [0, 2] {
            s += &format!("{}: {} ", vault(l), text(c.vault_exists(vault(l))));
        }
        for k in 1..3 {
            s += &format!("{k}: {} ", self.call(&Get(k)));
        }
        s += &self.call(&Keys);
        // still usable
        s += &format!(" {} {}", text(c.vault("vault 2").write_secret(Location::generic("vault 2", "new"), value(9))), hmac(c, Location::generic("vault 2", "new")));
        s
    }
}

fn setup(kind: u8) -> W {
    let s = Stronghold::default();
    let w = W { c: s.create_client("anna").unwrap(), other: s.create_client("bert").unwrap() };
    if kind >= 1 {
        for o in [Write(0, 7), Write(1, 8), Ins(1, 7)] {
            w.call(&o);
        }
        if kind == 2 {
            w.call(&Revoke(0));
            w.call(&Write(2, 6));
        }
        if kind == 3 {
            w.call(&OtherWrite(0, 5));
            w.call(&OtherWrite(2, 4));
        }
    }
    w
}
const SETUPS: [&str; 4] = ["empty client", "a, b and key 1 present", "a revoked, b and c present", "two clients"];

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Plain,
    Inside,
    Loose,
}
use Mode::*;

pub fn run(tier: &str) -> i32 {
    shim_sodium::light();
    let mut r = Report::new("C06", tier, "model_checking");
    let (o, s) = (ops(), store_ops());
    let mut all: Vec<(u8, Vec<Vec<Op>>, u32, Mode)> = vec![];
    let every = u32::MAX;
    for k in 0..3u8 {
        // two threads with one call each, all interleavings
        for a in 0..o.len() {
            for b in a..o.len() {
                all.push((k, vec![vec![o[a]], vec![o[b]]], every, Plain));
            }
            for x in [Ins(1, 1), Keys] {
                all.push((k, vec![vec![o[a]], vec![x]], every, Plain));
            }
        }
    }
    let p_pairs = all.len();
    for k in [0u8, 1] {
        for a in 0..s.len() {
            for b in a..s.len() {
                all.push((k, vec![vec![s[a]], vec![s[b]]], every, Plain));
                for c in 0..s.len() {
                    all.push((k, vec![vec![s[a], s[b]], vec![s[c]]], every, Plain));
                    all.push((k, vec![vec![s[b], s[a]], vec![s[c]]], every, Plain));
                    if c >= b {
                        all.push((k, vec![vec![s[a]], vec![s[b]], vec![s[c]]], every, Plain));
                    }
                }
            }
        }
    }
    let p_store = all.len() - p_pairs;
    // one thread with two calls against one with one; three threads; two with two each
    let few: Vec<Op> = if r.thorough() { o.clone() } else { vec![Write(0, 1), Write(1, 3), Delete(0), Revoke(0), Copy(0, 1), Copy(0, 2), Use(0), RecordExists(0)] };
    for k in if r.thorough() { vec![0u8, 1, 2] } else { vec![1u8] } {
        for &a in &few {
            for &b in &few {
                for &c in &few {
                    all.push((k, vec![vec![a, b], vec![c]], if r.thorough() { 4 } else { 3 }, Plain));
                }
            }
        }
        for a in 0..few.len() {
            for b in a..few.len() {
                for c in b..few.len() {
                    all.push((k, vec![vec![few[a]], vec![few[b]], vec![few[c]]], if r.thorough() { 3 } else { 2 }, Plain));
                }
            }
        }
    }
    let two: Vec<Op> = if r.thorough() { vec![Write(0, 1), Delete(0), Copy(0, 1), Copy(1, 2), Use(0), ProcCollect, Revoke(1), Chain(0, 2)] } else { vec![Write(0, 1), Delete(0), Copy(0, 2), Use(0)] };
    let pairs: Vec<Vec<Op>> = two.iter().flat_map(|a| two.iter().map(|b| vec![*a, *b])).collect();
    for k in if r.thorough() { vec![0u8, 1] } else { vec![1u8] } {
        for a in 0..pairs.len() {
            for b in a..pairs.len() {
                all.push((k, vec![pairs[a].clone(), pairs[b].clone()], 2, Plain));
            }
        }
    }
    let p_more = all.len() - p_pairs - p_store;
    let mut rest = all.len();
    // readers share the key store and what it holds: points inside the guarded memory as well
    let readers = if r.thorough() { vec![Use(0), Use(1), Aead(0), Copy(0, 1), Write(0, 1)] } else { vec![Use(0), Use(1), Aead(0)] };
    for a in 0..readers.len() {
        for b in a..readers.len() {
            all.push((1, vec![vec![readers[a]], vec![readers[b]]], if r.thorough() { 2 } else { 1 }, Inside));
        }
    }
    let p_inside = all.len() - rest;
    rest = all.len();
    // synchronisation, which makes no promise about races: it comes to an end and leaves the clients usable
    let sync = [SyncFrom(false), SyncFrom(true), SyncTo, SyncVaults(false)];
    let with = [SyncFrom(false), SyncTo, SyncVaults(true), Write(0, 1), Delete(0), Copy(0, 2), Use(0), OtherWrite(0, 1), OtherDelete(0), Cleanup];
    for a in sync {
        for b in with {
            all.push((3, vec![vec![a], vec![b]], if r.thorough() { 4 } else { 3 }, Loose));
            if r.thorough() {
                for c in with {
                    all.push((3, vec![vec![a], vec![b], vec![c]], 2, Loose));
                    all.push((3, vec![vec![a], vec![b, c]], 2, Loose));
                }
            }
        }
    }
    let p_sync = all.len() - rest;
    let case = |i: u64, out: &mut Outcome| {
        let (k, threads, bound, mode) = &all[i as usize];
        crate::rnd::seed(hash(&(i, 6)) | 1);
        let k = *k;
        scenario(out, SETUPS[k as usize], Arc::new(move || setup(k)), threads, &Bounds { preemptions: *bound, executions: 2_000_000, steps: 20_000, detail: *mode == Inside, weak: *mode == Loose });
    };
    let describe = |i: u64| {
        let (k, threads, ..) = &all[i as usize];
        format!("{}: {}", SETUPS[*k as usize], crate::lin::show(threads))
    };
    r.absorb("schedules", run_cases(all.len() as u64, 120, &case, &describe));
    r.set("bounds", serde_json::json!({
        "two threads with one vault call each, every interleaving": p_pairs,
        "store calls, two and three threads, every interleaving": p_store,
        "two calls against one, three threads, two against two, 2-4 preemptions": p_more,
        "two calls with points inside the guarded memory, 1-2 preemptions": p_inside,
        "synchronisation against other calls": p_sync,
    }));
    r.finish()
}
