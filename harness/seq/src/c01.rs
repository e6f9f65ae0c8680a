//! C01: the vault records of a client behave like a map from location to last written value, with
//! revocation and clean-up.
use crate::util::*;
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use mc::*;
use std::collections::{BTreeMap, HashMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Rec {
    Absent,
    Live(u8),
    Revoked,
}
use Rec::*;

/// What is known about the existence of a vault.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Vx {
    No,
    Yes,
    Either,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Write(usize, u8),
    WriteProc(usize, u8),
    Revoke(usize),
    RevokeProc(usize, bool),
    Delete(usize),
    Cleanup(usize),
    CleanupProc(usize),
    Copy(usize, usize),
    /// derives into the second location from the first, but the derivation itself fails
    BadDerive(usize, usize),
    Use(usize),
}

struct World {
    vaults: Vec<&'static str>,
    locs: Vec<(usize, Location, Vec<u8>)>,
}

fn value(v: u8) -> Vec<u8> {
    match v {
        0 => vec![],
        1 => b"first secret value".to_vec(),
        2 => vec![0xA5; 70],
        3 => b"first secret valu".to_vec(),
        n => vec![n; n as usize],
    }
}

impl World {
    fn new(n: usize) -> World {
        let vaults = vec!["alpha", "beta"];
        let all = vec![(0usize, "r1"), (1, "r1"), (0, "r2"), (1, "r2")];
        World {
            locs: all[..n]
                .iter()
                .map(|(v, r)| (*v, loc(vaults[*v], r), r.as_bytes().to_vec()))
                .collect(),
            vaults,
        }
    }
    fn ops(&self, vals: &[u8], full: bool) -> Vec<Op> {
        let n = self.locs.len();
        let mut o = vec![];
        for l in 0..n {
            for v in vals {
                o.push(Op::Write(l, *v));
            }
            o.push(Op::Revoke(l));
            o.push(Op::Delete(l));
            for m in 0..n {
                if m != l || full {
                    o.push(Op::Copy(l, m));
                }
            }
            if full {
                o.push(Op::WriteProc(l, vals[0]));
                o.push(Op::RevokeProc(l, false));
                o.push(Op::RevokeProc(l, true));
                o.push(Op::BadDerive(l, (l + 1) % n));
                o.push(Op::Use(l));
            }
        }
        for v in 0..self.vaults.len() {
            o.push(Op::Cleanup(v));
            if full {
                o.push(Op::CleanupProc(v));
            }
        }
        o
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct Model {
    recs: Vec<Rec>,
    vx: Vec<Vx>,
}

impl Model {
    fn new(w: &World) -> Model {
        Model { recs: vec![Absent; w.locs.len()], vx: vec![Vx::No; w.vaults.len()] }
    }
    fn collect(&mut self, w: &World, v: usize) {
        for (i, (lv, _, _)) in w.locs.iter().enumerate() {
            if *lv == v && self.recs[i] == Revoked {
                self.recs[i] = Absent;
            }
        }
    }
    /// Expected results after `op`; each is (must the call succeed? None = either, resulting state).
    fn step(&self, w: &World, op: Op) -> Vec<(bool, Model)> {
        let mut m = self.clone();
        let same = |ok| vec![(ok, self.clone())];
        match op {
            Op::Write(l, v) | Op::WriteProc(l, v) => {
                let vlt = w.locs[l].0;
                m.vx[vlt] = Vx::Yes;
                m.recs[l] = Live(v);
                if self.recs[l] == Revoked {
                    // a revoked record is not writable before it has been collected; an implementation that
                    // makes the new value live instead would be as good
                    let mut r = same(false);
                    r.push((true, m));
                    r
                } else {
                    vec![(true, m)]
                }
            }
            Op::Copy(s, d) => match (self.recs[s], self.recs[d]) {
                (Live(v), Revoked) => {
                    m.recs[d] = Live(v);
                    let mut r = same(false);
                    r.push((true, m));
                    r
                }
                (Live(v), _) => {
                    m.recs[d] = Live(v);
                    m.vx[w.locs[d].0] = Vx::Yes;
                    vec![(true, m)]
                }
                _ => {
                    let dv = w.locs[d].0;
                    if m.vx[dv] == Vx::No {
                        m.vx[dv] = Vx::Either;
                    }
                    vec![(false, m)]
                }
            },
            Op::BadDerive(_, d) => {
                let dv = w.locs[d].0;
                if m.vx[dv] == Vx::No {
                    m.vx[dv] = Vx::Either;
                }
                vec![(false, m)]
            }
            Op::Use(l) => same(matches!(self.recs[l], Live(_))),
            Op::Revoke(l) | Op::RevokeProc(l, false) => {
                if matches!(self.recs[l], Live(_)) {
                    m.recs[l] = Revoked;
                }
                vec![(true, m)]
            }
            Op::Delete(l) | Op::RevokeProc(l, true) => {
                if matches!(self.recs[l], Live(_)) {
                    m.recs[l] = Revoked;
                }
                m.collect(w, w.locs[l].0);
                vec![(true, m)]
            }
            Op::Cleanup(v) | Op::CleanupProc(v) => {
                m.collect(w, v);
                vec![(true, m)]
            }
        }
    }
}

fn apply(w: &World, c: &Client, op: Op) -> Result<(), String> {
    let e = |x: ClientError| x.to_string();
    let p = |x: ProcedureError| x.to_string();
    match op {
        Op::Write(l, v) => {
            let (vl, loc, _) = &w.locs[l];
            c.vault(w.vaults[*vl]).write_secret(loc.clone(), value(v)).map_err(e)
        }
        Op::WriteProc(l, v) => c
            .execute_procedure(WriteVault { data: value(v), location: w.locs[l].1.clone() })
            .map_err(p),
        Op::Revoke(l) => c.vault(w.vaults[w.locs[l].0]).revoke_secret(&w.locs[l].2).map_err(e),
        Op::RevokeProc(l, gc) => c
            .execute_procedure(RevokeData { location: w.locs[l].1.clone(), should_gc: gc })
            .map_err(|x| x.to_string()),
        Op::Delete(l) => c.vault(w.vaults[w.locs[l].0]).delete_secret(&w.locs[l].2).map(|_| ()).map_err(e),
        Op::Cleanup(v) => c.vault(w.vaults[v]).cleanup().map(|_| ()).map_err(e),
        Op::CleanupProc(v) => c
            .execute_procedure(GarbageCollect { vault_path: w.vaults[v].as_bytes().to_vec() })
            .map_err(|x| x.to_string()),
        Op::Copy(s, d) => c
            .execute_procedure(CopyRecord { source: w.locs[s].1.clone(), target: w.locs[d].1.clone() })
            .map_err(p),
        Op::BadDerive(s, d) => c
            .execute_procedure(X25519DiffieHellman {
                // none of the values used here is a 32-byte key
                public_key: [9; 32],
                private_key: w.locs[s].1.clone(),
                shared_key: w.locs[d].1.clone(),
            })
            .map_err(p),
        Op::Use(l) => c
            .execute_procedure(Hmac {
                hash_type: Sha2Hash::Sha256,
                msg: b"m".to_vec(),
                key: w.locs[l].1.clone(),
            })
            .map(|_| ())
            .map_err(p),
    }
}

/// Compare everything observable with the model.
fn observe(w: &World, c: &Client, m: &Model, deep: bool) -> Result<(), (String, String)> {
    for (i, (_, l, _)) in w.locs.iter().enumerate() {
        let live = matches!(m.recs[i], Live(_));
        let ex = c.record_exists(l).map_err(|e| ("record_exists fails".to_string(), e.to_string()))?;
        if ex != live {
            return Err((
                "record_exists disagrees".into(),
                format!("location {i}: record_exists={ex}, expected {:?}", m.recs[i]),
            ));
        }
        let exp = match m.recs[i] {
            Live(v) => value(v),
            _ => value(1),
        };
        match (holds(c, l, &exp), live) {
            (Ok(true), true) | (Err(_), false) => (),
            (r, _) => {
                return Err((
                    "content disagrees".into(),
                    format!("location {i}: expected {:?}, comparing gives {r:?}", m.recs[i]),
                ))
            }
        }
        if deep && live {
            let mut other = exp.clone();
            other.push(1);
            if holds(c, l, &other) != Ok(false) {
                return Err(("comparison is vacuous".into(), format!("location {i}")));
            }
        }
    }
    for (v, p) in w.vaults.iter().enumerate() {
        let ex = c.vault_exists(p).map_err(|e| ("vault_exists fails".to_string(), e.to_string()))?;
        let bad = match m.vx[v] {
            Vx::Yes => !ex,
            Vx::No => ex,
            Vx::Either => false,
        };
        if bad {
            return Err(("vault_exists disagrees".into(), format!("vault {p}: {ex}, model {:?}", m.vx[v])));
        }
    }
    Ok(())
}

/// Execute one history against a fresh client, checking after every step (`from` skips earlier checks).
fn history(w: &World, ops: &[Op], from: usize, out: &mut Outcome) -> Option<Model> {
    let c = Client::default();
    let mut m = Model::new(w);
    for (k, op) in ops.iter().enumerate() {
        let r = apply(w, &c, *op);
        let opts = m.step(w, *op);
        let Some((_, next)) = opts.iter().find(|(ok, _)| *ok == r.is_ok()) else {
            out.fail(
                format!("{op:?} result"),
                format!("history {:?}: step {k} {op:?} returned {r:?} in state {m:?}", &ops[..=k]),
            );
            return None;
        };
        m = next.clone();
        out.count("transitions", 1);
        if k >= from {
            if let Err((key, d)) = observe(w, &c, &m, k + 1 == ops.len()) {
                out.fail(key, format!("history {:?}: after step {k}: {d}; model {m:?}", &ops[..=k]));
                return None;
            }
        }
    }
    out.see(&m);
    Some(m)
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C01", tier, "model_checking");
    let thorough = rep.thorough();

    // (a) every history up to a depth, over the full operation alphabet
    let plan: Vec<(usize, Vec<u8>, bool, usize)> = if thorough {
        vec![(2, vec![1, 2], true, 4), (3, vec![1], false, 5), (3, vec![1, 2, 0], true, 3)]
    } else {
        vec![(2, vec![1, 2], true, 3), (3, vec![1], false, 3)]
    };
    for (n, vals, full, depth) in plan {
        let w = World::new(n);
        let ops = w.ops(&vals, full);
        let total = (ops.len() as u64).pow(depth as u32);
        let seq = |i: u64| -> Vec<Op> { digits(i, ops.len() as u64, depth).into_iter().map(|d| ops[d]).collect() };
        let o = run_cases(
            total,
            120,
            &|i, out| {
                history(&w, &seq(i), 0, out);
                if i % 9973 == 0 {
                    out.sample(|| format!("{:?}", seq(i)));
                }
            },
            &|i| format!("{:?}", seq(i)),
        );
        rep.absorb(&format!("histories locs={n} vals={} full={full} depth={depth} alphabet={}", vals.len(), ops.len()), o);
    }

    // (b) closure of the abstract state graph: every operation from every reachable abstract state, each state
    // reached on the real client by its shortest history
    let n = if thorough { 4 } else { 3 };
    let w = World::new(n);
    let ops = w.ops(&[1, 2], true);
    let mut paths: HashMap<Model, Vec<Op>> = HashMap::new();
    let mut order: Vec<Model> = vec![];
    let mut q = VecDeque::new();
    paths.insert(Model::new(&w), vec![]);
    q.push_back(Model::new(&w));
    while let Some(m) = q.pop_front() {
        order.push(m.clone());
        for op in &ops {
            // follow the behaviour of the current implementation for the nondeterministic choices: first option
            let (_, nm) = &m.step(&w, *op)[0];
            if !paths.contains_key(nm) {
                let mut p = paths[&m].clone();
                p.push(*op);
                paths.insert(nm.clone(), p);
                q.push_back(nm.clone());
            }
        }
    }
    let total = (order.len() * ops.len()) as u64;
    let path = |i: u64| {
        let mut p = paths[&order[i as usize / ops.len()]].clone();
        p.push(ops[i as usize % ops.len()]);
        p
    };
    let o = run_cases(
        total,
        120,
        &|i, out| {
            let p = path(i);
            history(&w, &p, p.len().saturating_sub(2), out);
        },
        &|i| format!("{:?}", path(i)),
    );
    let states = order.len();
    rep.absorb(&format!("state graph locs={n} states={states} ops={}", ops.len()), o);

    // (c) every ordered pair of lengths around the boundaries: a value replaces one of another length, is copied
    // over a value
    let mut lens: Vec<usize> = vec![0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257];
    lens.extend([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193]);
    lens.extend([16384, 32767, 65535, 65536, 65537, 100_000, 1 << 20]);
    let n = lens.len() as u64;
    let fill = |len: usize, k: u8| -> Vec<u8> { (0..len).map(|i| (i as u8).wrapping_mul(31).wrapping_add(k)).collect() };
    let o = run_cases(
        n * n,
        120,
        &|i, out| {
            let (a, b) = (lens[(i / n) as usize], lens[(i % n) as usize]);
            let key = format!("value of {b} bytes over one of {a}");
            let s = Stronghold::default();
            let c = s.create_client("c").unwrap();
            let (l, t) = (loc("v", "r"), loc("w", "t"));
            let (x, y) = (fill(a, 1), fill(b, 2));
            let mut run = || -> Result<(), String> {
                let e = |x: &dyn std::fmt::Display| x.to_string();
                c.vault("v").write_secret(l.clone(), x.clone()).map_err(|x| e(&x))?;
                let mut want = |l: &Location, v: &[u8], when: &str| match guard(|| holds(&c, l, v)) {
                    Ok(Ok(true)) => Ok(()),
                    r => Err(format!("{when}: {r:?}")),
                };
                want(&l, &x, "first write")?;
                c.vault("w").write_secret(t.clone(), x.clone()).map_err(|x| e(&x))?;
                c.vault("v").write_secret(l.clone(), y.clone()).map_err(|x| e(&x))?;
                want(&l, &y, "overwritten")?;
                c.execute_procedure(CopyRecord { source: l.clone(), target: t.clone() }).map_err(|x| e(&x))?;
                want(&t, &y, "copied over a value")?;
                want(&l, &y, "source of the copy")
            };
            if let Err(e) = run() {
                out.fail(key, e);
            }
            out.see(&(a, b));
            out.count("transitions", 4);
        },
        &|i| format!("length pair {i}"),
    );
    rep.absorb(&format!("pairs of {} lengths", lens.len()), o);

    // (d) amounts: many records in one vault, in two, in one each; a part of them revoked, collected, written anew
    let mut sizes: Vec<usize> = (1..=20).collect();
    sizes.extend([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
    if thorough {
        sizes.extend([511, 512, 513, 1000, 1023, 1024, 1025, 4097]);
    }
    const SPREAD: [&str; 3] = ["one vault", "two vaults", "a vault each"];
    const PART: [&str; 7] = ["none", "all", "every second", "every second but the first", "the first half", "the last", "all but the last"];
    let mut plan: Vec<(usize, usize, usize)> = vec![];
    for n in &sizes {
        for sp in 0..3 {
            // every vault has a locked key
            if sp == 2 && *n > 257 {
                continue;
            }
            for part in 0..7 {
                plan.push((*n, sp, part));
            }
        }
    }
    let o = run_cases(
        plan.len() as u64,
        120,
        &|i, out| {
            let (n, sp, part) = plan[i as usize];
            let vault = |k: usize| match sp {
                0 => "v".to_string(),
                1 => format!("v{}", k % 2),
                _ => format!("v{k}"),
            };
            let at = |k: usize| loc(&vault(k), &format!("r{k}"));
            let val = |k: usize, g: u8| -> Vec<u8> { [&(k as u32).to_be_bytes()[..], &[g; 9]].concat() };
            let gone = |k: usize| match part {
                0 => false,
                1 => true,
                2 => k % 2 == 0,
                3 => k % 2 == 1,
                4 => k < n / 2,
                5 => k == n - 1,
                _ => k != n - 1,
            };
            let s = Stronghold::default();
            let c = s.create_client("c").unwrap();
            let mut run = || -> Result<(), String> {
                let e = |x: ClientError| x.to_string();
                let look = |when: &str, want: &dyn Fn(usize) -> Option<Vec<u8>>| -> Result<(), String> {
                    for k in 0..n {
                        let (w, l) = (want(k), at(k));
                        let ex = c.record_exists(&l).map_err(e)?;
                        if ex != w.is_some() {
                            return Err(format!("{when}: record_exists of record {k} says {ex}"));
                        }
                        let h = holds(&c, &l, &w.clone().unwrap_or_else(|| val(k, 1)));
                        if !matches!((&h, w.is_some()), (Ok(true), true) | (Err(_), false)) {
                            return Err(format!("{when}: record {k}: {h:?}, expected {}", if w.is_some() { "its value" } else { "nothing" }));
                        }
                    }
                    Ok(())
                };
                for k in 0..n {
                    c.vault(vault(k)).write_secret(at(k), val(k, 1)).map_err(e)?;
                }
                look("after the writes", &|k| Some(val(k, 1)))?;
                for k in (0..n).filter(|k| gone(*k)) {
                    c.vault(vault(k)).revoke_secret(format!("r{k}")).map_err(e)?;
                }
                look("after the revocations", &|k| (!gone(k)).then(|| val(k, 1)))?;
                for k in 0..n {
                    if sp == 2 || k < 2 {
                        c.vault(vault(k)).cleanup().map_err(e)?;
                    }
                }
                look("after the clean-up", &|k| (!gone(k)).then(|| val(k, 1)))?;
                for k in (0..n).filter(|k| gone(*k)) {
                    c.vault(vault(k)).write_secret(at(k), val(k, 2)).map_err(|x| format!("writing record {k} anew after the clean-up: {x}"))?;
                }
                look("written anew", &|k| Some(val(k, if gone(k) { 2 } else { 1 })))?;
                for k in (0..n).rev() {
                    c.vault(vault(k)).write_secret(at(k), val(k, 3)).map_err(e)?;
                }
                look("all overwritten", &|k| Some(val(k, 3)))?;
                for k in (0..n).filter(|k| gone(*k)) {
                    c.vault(vault(k)).delete_secret(format!("r{k}")).map_err(e)?;
                }
                look("deleted", &|k| (!gone(k)).then(|| val(k, 3)))
            };
            match guard(|| run()) {
                Ok(Ok(())) => (),
                r => out.fail(format!("{n} records in {}, {} revoked", SPREAD[sp], PART[part]), format!("{r:?}")),
            }
            out.see(&(n, sp, part));
            out.count("transitions", 3 * n as u64);
        },
        &|i| format!("{:?}", plan[i as usize]),
    );
    rep.absorb("amounts of records", o);

    // (e) one location, many times
    let o = run_cases(
        3,
        120,
        &|i, out| {
            let s = Stronghold::default();
            let c = s.create_client("c").unwrap();
            let l = loc("v", "r");
            let v = c.vault("v");
            for k in 0..if thorough { 70_000u32 } else { 1100 } {
                let x = k.to_be_bytes().to_vec();
                let r = match guard(|| -> Result<bool, String> {
                    v.write_secret(l.clone(), x.clone()).map_err(|e| e.to_string())?;
                    let h = holds(&c, &l, &x)?;
                    match i {
                        1 => drop(v.delete_secret("r").map_err(|e| e.to_string())?),
                        2 => {
                            v.revoke_secret("r").map_err(|e| e.to_string())?;
                            v.cleanup().map_err(|e| e.to_string())?;
                        }
                        _ => return Ok(h),
                    }
                    Ok(h && !c.record_exists(&l).map_err(|e| e.to_string())? && holds(&c, &l, &x).is_err())
                }) {
                    Ok(Ok(true)) => continue,
                    r => r,
                };
                out.fail(format!("time {k} of the same, way {i}"), format!("{r:?}"));
                break;
            }
            out.see(&i);
        },
        &|i| format!("way {i} many times"),
    );
    rep.absorb("one location many times", o);

    let mut hist: BTreeMap<usize, usize> = BTreeMap::new();
    for p in paths.values() {
        *hist.entry(p.len()).or_insert(0) += 1;
    }
    rep.set("states", states as u64);
    rep.set("transitions", rep.count("transitions"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.set("state_depths", serde_json::json!(hist));
    rep.assumptions.push("values are compared through the insecure CompareSecret procedure of the build under test".into());
    rep.finish()
}
