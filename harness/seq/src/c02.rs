//! C02: different locations, vaults, clients and store keys never alias.
//! Every ordered pair of adversarial names, every mutating operation on the first, everything observed on both.
use crate::util::*;
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use mc::*;

/// A cell: a location of a client, and the same-named key of that client's store.
#[derive(Clone)]
struct Cell {
    client: Vec<u8>,
    loc: Location,
}

impl Cell {
    fn show(&self) -> String {
        format!("{}:{}", show(&self.client), show_loc(&self.loc))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Overwrite,
    OverwriteProc,
    Revoke,
    Delete,
    Collect,
    CopyOut,
}
const OPS: [Op; 6] = [Op::Overwrite, Op::OverwriteProc, Op::Revoke, Op::Delete, Op::Collect, Op::CopyOut];

fn client(s: &Stronghold, p: &[u8]) -> Client {
    match s.get_client(p) {
        Ok(c) => c,
        Err(_) => s.create_client(p).expect("create_client"),
    }
}

fn check(s: &Stronghold, c: &Cell, want: Option<&[u8]>, when: &str, pair: &str, out: &mut Outcome) -> bool {
    let cl = match s.get_client(&c.client) {
        Ok(c) => c,
        Err(e) => {
            out.fail(format!("alias {pair}"), format!("{when}: client {} is gone: {e}", show(&c.client)));
            return false;
        }
    };
    let ex = cl.record_exists(&c.loc).expect("record_exists");
    let ok = match want {
        Some(w) => ex && holds(&cl, &c.loc, w) == Ok(true),
        None => !ex && holds(&cl, &c.loc, b"x").is_err(),
    };
    if !ok {
        out.fail(
            format!("alias {pair}"),
            format!("{when}: {} should hold {:?}; exists={ex}", c.show(), want.map(show)),
        );
    }
    out.count("observations", 1);
    ok
}

fn pair_case(a: &Cell, b: &Cell, op: Op, reload: bool, out: &mut Outcome) {
    let pair = format!("{} | {}", a.show(), b.show());
    let va: &[u8] = b"value of the first cell";
    let vb: &[u8] = b"value of the second";
    let s = Stronghold::default();
    let ca = client(&s, &a.client);
    let cb = client(&s, &b.client);
    let same_client = a.client == b.client;
    // a different vault does not exist because another one was written
    ca.vault(a.loc.vault_path()).write_secret(a.loc.clone(), va.to_vec()).expect("write");
    if !(same_client && a.loc.vault_path() == b.loc.vault_path()) {
        if cb.vault_exists(b.loc.vault_path()).unwrap() {
            return out.fail(format!("alias {pair}"), "the second vault exists after a write to the first".to_string());
        }
    }
    if !check(&s, b, None, "only the first is written", &pair, out) {
        return;
    }
    cb.execute_procedure(WriteVault { data: vb.to_vec(), location: b.loc.clone() }).expect("write");
    if !check(&s, a, Some(va), "the second is written", &pair, out)
        || !check(&s, b, Some(vb), "the second is written", &pair, out)
    {
        return;
    }
    let new: &[u8] = b"replacement, of another length";
    let proc_revoke = |gc| {
        ca.execute_procedure(RevokeData { location: a.loc.clone(), should_gc: gc }).map_err(|e| e.to_string())
    };
    let r: Result<(), String> = match op {
        Op::Overwrite => ca
            .vault(a.loc.vault_path())
            .write_secret(a.loc.clone(), new.to_vec())
            .map_err(|e| e.to_string()),
        Op::OverwriteProc => ca
            .execute_procedure(WriteVault { data: new.to_vec(), location: a.loc.clone() })
            .map_err(|e| e.to_string()),
        Op::Revoke => match &a.loc {
            Location::Generic { vault_path, record_path } => {
                ca.vault(vault_path).revoke_secret(record_path).map_err(|e| e.to_string())
            }
            _ => proc_revoke(false),
        },
        Op::Delete => match &a.loc {
            Location::Generic { vault_path, record_path } => {
                ca.vault(vault_path).delete_secret(record_path).map(|_| ()).map_err(|e| e.to_string())
            }
            _ => proc_revoke(true),
        },
        Op::Collect => proc_revoke(false).and_then(|_| {
            ca.execute_procedure(GarbageCollect { vault_path: a.loc.vault_path().to_vec() })
                .map(|_| ())
                .map_err(|e| e.to_string())
        }),
        Op::CopyOut => {
            let t = Location::generic(b"target of the copy".to_vec(), b"t".to_vec());
            ca.execute_procedure(CopyRecord { source: a.loc.clone(), target: t.clone() })
                .map_err(|e| e.to_string())
                .and_then(|_| match holds(&ca, &t, va) {
                    Ok(true) => Ok(()),
                    r => Err(format!("copy holds something else: {r:?}")),
                })
        }
    };
    if let Err(e) = r {
        return out.fail(format!("alias {pair}"), format!("{op:?} on the first fails: {e}"));
    }
    let wa = match op {
        Op::Overwrite | Op::OverwriteProc => Some(new),
        Op::CopyOut => Some(va),
        _ => None,
    };
    let when = format!("after {op:?} on the first");
    if !check(&s, a, wa, &when, &pair, out) || !check(&s, b, Some(vb), &when, &pair, out) {
        return;
    }
    if reload {
        let d = Scratch::new("c02");
        let path = SnapshotPath::from_path(d.path().join("s"));
        if let Err(e) = s.commit_with_keyprovider(&path, &kp(7)) {
            return out.fail(format!("alias {pair}"), format!("commit fails: {e}"));
        }
        let t = Stronghold::default();
        t.load_snapshot(&kp(7), &path).expect("load_snapshot");
        for p in [&a.client, &b.client] {
            if t.get_client(p).is_err() {
                if let Err(e) = t.load_client(p) {
                    return out.fail(format!("alias {pair}"), format!("loading {} fails: {e}", show(p)));
                }
            }
        }
        let when = format!("{when}, commit and reload");
        if check(&t, a, wa, &when, &pair, out) {
            check(&t, b, Some(vb), &when, &pair, out);
        }
    }
}

/// Paths chosen for the ways identifiers can collide: prefixes, padding, truncation at block or id sizes, formatting.
fn paths() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        b"".to_vec(),
        b"a".to_vec(),
        b"A".to_vec(),
        b"b".to_vec(),
        b"ab".to_vec(),
        b"ba".to_vec(),
        b"a/b".to_vec(),
        b" a".to_vec(),
        b"\0a".to_vec(),
        b"first_record".to_vec(),
        b"[97]first_record".to_vec(),
        b"\xff\xfe".to_vec(),
        vec![b'x'; 23],
        vec![b'x'; 24],
        vec![b'x'; 25],
        vec![b'x'; 32],
        vec![b'x'; 33],
        vec![b'x'; 64],
        vec![b'x'; 65],
        vec![b'x'; 128],
        vec![b'x'; 129],
        vec![b'x'; 300],
        vec![b'x'; 4096],
    ];
    let mut last = vec![b'x'; 300];
    last[299] = b'y';
    v.push(last);
    // the id of another path used as a path
    let (vid, rid) = loc("a", "b").resolve();
    v.push(vid.0.as_ref().to_vec());
    v.push(engine::vault::ChainId::from(rid).as_ref().to_vec());
    v
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C02", tier, "model_checking");
    let th = rep.thorough();
    let ps = paths();
    let mut cells: Vec<(&'static str, Vec<Cell>)> = vec![];
    let c0 = b"client".to_vec();
    cells.push((
        "record paths",
        ps.iter().map(|p| Cell { client: c0.clone(), loc: Location::generic(b"v".to_vec(), p.clone()) }).collect(),
    ));
    cells.push((
        "vault paths",
        ps.iter().map(|p| Cell { client: c0.clone(), loc: Location::generic(p.clone(), b"r".to_vec()) }).collect(),
    ));
    cells.push((
        "client paths",
        ps.iter().map(|p| Cell { client: p.clone(), loc: loc("v", "r") }).collect(),
    ));
    let mut mixed = vec![];
    for (v, r) in [
        ("", ""), ("", "a"), ("a", ""), ("a", "a"), ("a", "ab"), ("aa", "b"), ("aab", ""), ("a", "[97]first_record"),
        ("a", "first_record"), ("a", "0"), ("a", "1"), ("[97]", "1"), ("[97]1", "[97]1"), ("a", "[97]1"), ("a1", "1"),
    ] {
        mixed.push(loc(v, r));
    }
    for (v, n) in [
        ("a", 0usize), ("a", 1), ("a", 2), ("a", 10), ("a", 11), ("a", 12), ("a", 111), ("a", 256), ("a", 257),
        ("a", 65536), ("a", 1 << 32), ("a", usize::MAX), ("a1", 1), ("a1", 0), ("", 0), ("", 1), ("b", 0), ("b", 1),
        ("aa", 1), ("a", 9), ("a", 99), ("a", 100), ("a", 1000), ("a", 1001),
    ] {
        mixed.push(Location::counter(v, n));
    }
    cells.push((
        "concatenations and counters",
        mixed.iter().map(|l| Cell { client: c0.clone(), loc: l.clone() }).collect(),
    ));
    // the same adversarial name in different roles
    let mut roles = vec![];
    for c in ["", "x", "y", "xy"] {
        for (v, r) in [("", ""), ("x", "y"), ("y", "x"), ("xy", ""), ("", "xy"), ("x", "x")] {
            roles.push(Cell { client: c.as_bytes().to_vec(), loc: loc(v, r) });
        }
    }
    cells.push(("client/vault/record roles", roles));
    // HMAC pads short record paths with zeros and hashes long ones: known to alias
    let long = vec![b'L'; 129];
    let mut hashed = [0u8; 64];
    crypto::hashes::sha::SHA512(&long, &mut hashed);
    let padded: Vec<(&[u8], Vec<u8>)> =
        vec![(b"", b"\0".to_vec()), (b"a", b"a\0".to_vec()), (&long, hashed.to_vec())];

    let mut pairs_total = 0;
    for (label, cs) in &cells {
        let n = cs.len() as u64;
        let k = OPS.len() as u64;
        pairs_total += n * (n - 1);
        let dec = |i: u64| (&cs[(i / k / n) as usize], &cs[(i / k % n) as usize], OPS[(i % k) as usize]);
        let o = run_cases(
            n * n * k,
            60,
            &|i, out| {
                let (a, b, op) = dec(i);
                if i / k / n == i / k % n {
                    return;
                }
                out.see(&(a.show(), b.show()));
                pair_case(a, b, op, th || op == Op::Revoke || (op == Op::Overwrite && *label == "client paths"), out);
                out.sample(|| format!("{} | {} {op:?}", a.show(), b.show()));
            },
            &|i| {
                let (a, b, op) = dec(i);
                format!("{} | {} {op:?}", a.show(), b.show())
            },
        );
        rep.absorb(label, o);
    }
    for role in 0..3 {
        let cell = |p: &[u8]| match role {
            0 => Cell { client: c0.clone(), loc: Location::generic(b"v".to_vec(), p.to_vec()) },
            1 => Cell { client: c0.clone(), loc: Location::generic(p.to_vec(), b"r".to_vec()) },
            _ => Cell { client: p.to_vec(), loc: loc("v", "r") },
        };
        let o = run_cases(
            padded.len() as u64,
            60,
            &|i, out| {
                let (p, q) = &padded[i as usize];
                pair_case(&cell(p), &cell(q), Op::Revoke, true, out);
            },
            &|i| format!("padded pair {i} role {role}"),
        );
        rep.absorb(&format!("padded and hashed paths, role {role}"), o);
    }

    // store keys
    let n = ps.len() as u64;
    let o = run_cases(
        n * n * 3,
        60,
        &|i, out| {
            let (p, q, op) = (&ps[(i / 3 / n) as usize], &ps[(i / 3 % n) as usize], i % 3);
            if p == q {
                return;
            }
            let key = || format!("store alias {} | {}", show(p), show(q));
            let s = Stronghold::default();
            let st = s.create_client("c").unwrap().store();
            let other = s.create_client("d").unwrap().store();
            st.insert(p.clone(), b"1".to_vec(), None).unwrap();
            if st.get(q).unwrap().is_some() || other.get(p).unwrap().is_some() || s.store().get(p).unwrap().is_some() {
                out.fail(key(), "insert of the first makes another key visible");
            }
            st.insert(q.clone(), b"2".to_vec(), None).unwrap();
            other.insert(p.clone(), b"3".to_vec(), None).unwrap();
            s.store().insert(p.clone(), b"4".to_vec(), None).unwrap();
            let want = match op {
                0 => {
                    st.insert(p.clone(), b"9".to_vec(), None).unwrap();
                    Some(b"9".to_vec())
                }
                1 => {
                    st.delete(p).unwrap();
                    None
                }
                _ => Some(b"1".to_vec()),
            };
            let got = (
                st.get(p).unwrap(),
                st.get(q).unwrap(),
                other.get(p).unwrap(),
                other.get(q).unwrap(),
                s.store().get(p).unwrap(),
            );
            if got != (want.clone(), Some(b"2".to_vec()), Some(b"3".to_vec()), None, Some(b"4".to_vec())) {
                out.fail(key(), format!("op {op}: {got:?}"));
            }
            let mut keys = st.keys().unwrap();
            keys.sort();
            let mut wk = vec![q.clone()];
            if want.is_some() {
                wk.push(p.clone());
            }
            wk.sort();
            if keys != wk {
                out.fail(key(), format!("op {op}: keys() lists {keys:?}"));
            }
            out.see(&(p, q));
        },
        &|i| format!("store pair {i}"),
    );
    rep.absorb("store keys", o);

    // names that share all bytes but one, at every length up to a bound and around the powers of two beyond
    let mut lens: Vec<usize> = (0..if th { 2100 } else { 520 }).collect();
    for k in 10..=16 {
        lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let near = |n: usize, how: u64| -> (Vec<u8>, Vec<u8>) {
        let p = vec![b'p'; n];
        let cat = |x: &[u8], y: &[u8]| [x, y].concat();
        match how {
            0 => (cat(&p, b"1"), cat(&p, b"2")),
            1 => (cat(b"1", &p), cat(b"2", &p)),
            _ => (cat(b"1", &p), cat(&cat(b"1", &p), b"p")),
        }
    };
    let nl = lens.len() as u64;
    let o = run_cases(
        nl * 3 * 4,
        60,
        &|i, out| {
            let (n, how, role) = (lens[(i / 12) as usize], i / 4 % 3, i % 4);
            let (p, q) = near(n, how);
            let cell = |p: &[u8]| match role {
                0 => Cell { client: c0.clone(), loc: Location::generic(b"v".to_vec(), p.to_vec()) },
                1 => Cell { client: c0.clone(), loc: Location::generic(p.to_vec(), b"r".to_vec()) },
                _ => Cell { client: p.to_vec(), loc: loc("v", "r") },
            };
            if role < 3 {
                pair_case(&cell(&p), &cell(&q), Op::Revoke, false, out);
            } else {
                let s = Stronghold::default();
                let st = s.create_client("c").unwrap().store();
                st.insert(p.clone(), b"1".to_vec(), None).unwrap();
                st.insert(q.clone(), b"2".to_vec(), None).unwrap();
                if st.get(&p).unwrap() != Some(b"1".to_vec()) || st.delete(&q).unwrap() != Some(b"2".to_vec()) || !st.contains_key(&p).unwrap() {
                    out.fail(format!("store alias {} | {}", show(&p), show(&q)), "the keys are not independent");
                }
            }
            out.see(&(n, how, role));
        },
        &|i| format!("near names of length {} kind {} role {}", lens[(i / 12) as usize], i / 4 % 3, i % 4),
    );
    rep.absorb("near names at every length", o);

    // many names at once: each holds its own value afterwards (every single byte, every pair over an alphabet)
    let mut fam: Vec<Vec<u8>> = (1..=255u8).map(|b| vec![b]).collect();
    for a in 0..64u8 {
        for b in 1..64u8 {
            fam.push(vec![a.wrapping_mul(4).wrapping_add(1), b.wrapping_mul(4).wrapping_add(2)]);
        }
    }
    let o = run_cases(
        2,
        120,
        &|i, out| {
            let s = Stronghold::default();
            let c = s.create_client("c").unwrap();
            let l = |p: &[u8]| if i == 0 { Location::generic(b"v".to_vec(), p.to_vec()) } else { Location::generic(p[..1].to_vec(), p.to_vec()) };
            let v = |k: usize| format!("value {k}").into_bytes();
            for (k, p) in fam.iter().enumerate() {
                c.vault(l(p).vault_path()).write_secret(l(p), v(k)).unwrap();
            }
            for (k, p) in fam.iter().enumerate() {
                if holds(&c, &l(p), &v(k)) != Ok(true) {
                    out.fail(format!("family {i} {}", show(p)), "does not hold its own value after all were written");
                }
            }
            out.count("observations", fam.len() as u64);
        },
        &|i| format!("family {i}"),
    );
    rep.absorb(&format!("{} names at once", fam.len()), o);

    // identifiers are stable across processes: another process writes, this one reads
    let d = Scratch::new("c02x");
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("C02-child")
        .arg(d.path())
        .status()
        .expect("child");
    let mut o = Outcome::default();
    if !st.success() {
        o.fail("other process", format!("writing in another process fails: {st}"));
    } else {
        let s = Stronghold::default();
        match guard(|| s.load_client_from_snapshot("client", &kp(3), &SnapshotPath::from_path(d.path().join("s")))) {
            Ok(Ok(c)) => {
                for (i, l) in child_locs().iter().enumerate() {
                    if holds(&c, l, format!("value {i}").as_bytes()) != Ok(true) {
                        o.fail("other process", format!("{} written by another process is not found", show_loc(l)));
                    }
                    o.count("cases", 1);
                }
            }
            r => o.fail("other process", format!("load: {:?}", r.map(|x| x.map(|_| ()).map_err(|e| e.to_string())))),
        }
    }
    rep.absorb("read in another process", o);
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("observations"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("name_pairs", pairs_total);
    rep.set("exhaustive", true);
    rep.assumptions.push("distinctness is decided for the listed adversarial names; collisions of the 192-bit ids themselves are out of reach".into());
    rep.finish()
}

fn child_locs() -> Vec<Location> {
    let mut v: Vec<Location> = paths().iter().map(|p| Location::generic(p.clone(), p.clone())).collect();
    v.extend((0..4usize).map(|n| Location::counter("a", n)));
    v
}

pub fn child(dir: &str) -> i32 {
    let s = Stronghold::default();
    let c = s.create_client("client").unwrap();
    for (i, l) in child_locs().into_iter().enumerate() {
        c.vault(l.vault_path()).write_secret(l.clone(), format!("value {i}").into_bytes()).unwrap();
    }
    s.commit_with_keyprovider(&SnapshotPath::from_path(std::path::Path::new(dir).join("s")), &kp(3)).unwrap();
    0
}
