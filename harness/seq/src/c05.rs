//! C05: damaged snapshots and wrong keys are refused without harm.
use crate::util::*;
use iota_stronghold::*;
use mc::*;
use std::path::Path;

const KEY: [u8; 32] = [
    0xa8, 0x13, 0x37, 0x42, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff, 0x01, 0x02, 0x03, 0x04,
    0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x55,
];

fn prov(k: &[u8; 32]) -> KeyProvider {
    KeyProvider::try_from(k.to_vec()).unwrap()
}

/// Build one of the committed snapshots.
fn snapshot(kind: usize, path: &Path, key: &[u8; 32]) {
    let s = Stronghold::default();
    if kind >= 1 {
        let c = s.create_client("in file").unwrap();
        c.vault("v").write_secret(loc("v", "r"), b"secret in the file".to_vec()).unwrap();
    }
    if kind >= 2 {
        let c = s.create_client("other").unwrap();
        c.vault("w").write_secret(loc("w", "r"), vec![7; 300]).unwrap();
        c.store().insert(b"k".to_vec(), vec![9; 60], None).unwrap();
        s.get_client("in file").unwrap().vault("w").write_secret(loc("w", "2"), vec![]).unwrap();
    }
    s.commit_with_keyprovider(&SnapshotPath::from_path(path), &prov(key)).unwrap();
}

struct Session {
    s: Stronghold,
    c: Client,
    dir: Scratch,
}

impl Session {
    /// A session with a loaded client, a client that is only in the snapshot in memory, and a stored key.
    fn new() -> Session {
        let s = Stronghold::default();
        let dir = Scratch::new("c05");
        let old = s.create_client("old").unwrap();
        old.vault("v").write_secret(loc("v", "r"), b"old secret".to_vec()).unwrap();
        s.write_client("old").unwrap();
        s.unload_client(old).unwrap();
        let c = s.create_client("mine").unwrap();
        c.vault("v").write_secret(loc("v", "r"), b"my secret".to_vec()).unwrap();
        c.store().insert(b"k".to_vec(), b"v".to_vec(), None).unwrap();
        s.store().insert(b"s".to_vec(), b"t".to_vec(), None).unwrap();
        s.store_snapshot_key_at_location(kp(5), loc("key", "key")).unwrap();
        Session { s, c, dir }
    }
    fn intact(&self, deep: bool) -> Result<(), String> {
        let e = |x: ClientError| x.to_string();
        if holds(&self.c, &loc("v", "r"), b"my secret") != Ok(true) {
            return Err("the secret of the loaded client changed".into());
        }
        if self.c.store().get(b"k").map_err(e)? != Some(b"v".to_vec()) {
            return Err("the store of the loaded client changed".into());
        }
        if self.s.store().get(b"s").map_err(e)? != Some(b"t".to_vec()) {
            return Err("the session store changed".into());
        }
        for n in ["in file", "other"] {
            if self.s.get_client(n).is_ok() || self.s.load_client(n).is_ok() {
                return Err(format!("client {n:?} of the refused file is there"));
            }
        }
        let old = self.s.load_client("old").map_err(|e| format!("client in memory is gone: {e}"))?;
        if holds(&old, &loc("v", "r"), b"old secret") != Ok(true) {
            return Err("the secret of the client in memory changed".into());
        }
        self.s.unload_client(old).map_err(e)?;
        if deep {
            let p = SnapshotPath::from_path(self.dir.path().join("after"));
            self.s.commit(&p).map_err(|e| format!("commit afterwards: {e}"))?;
            let t = Stronghold::default();
            t.load_snapshot(&kp(5), &p).map_err(|e| format!("reload afterwards: {e}"))?;
            let c = t.load_client("mine").map_err(e)?;
            if holds(&c, &loc("v", "r"), b"my secret") != Ok(true) {
                return Err("commit afterwards lost the secret".into());
            }
        }
        Ok(())
    }
}

/// Every way of loading must refuse, and nothing may change.
fn refused(path: &Path, key: &[u8; 32], name: &str, deep: bool, out: &mut Outcome) {
    let w = Session::new();
    let p = SnapshotPath::from_path(path);
    let r = guard(|| {
        if w.s.load_snapshot(&prov(key), &p).is_ok() {
            return Err("load_snapshot accepts it".to_string());
        }
        w.intact(deep)?;
        if w.s.load_client_from_snapshot("in file", &prov(key), &p).is_ok() {
            return Err("load_client_from_snapshot accepts it".to_string());
        }
        if w.s.load_client_from_snapshot("mine", &prov(key), &p).is_ok() {
            return Err("load_client_from_snapshot of a loaded client accepts it".to_string());
        }
        w.intact(false)
    });
    out.count("attempts", 3);
    match r {
        Ok(Ok(())) => (),
        Ok(Err(e)) => out.fail(format!("{name}: {e}"), format!("{name}: {e}")),
        Err(p) => out.fail(format!("{name}: panic {}", first_line(&p)), format!("{name}: panic {p}")),
    }
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C05", tier, "model_checking");
    let th = rep.thorough();
    let base = Scratch::new("c05base");
    let mut files = vec![];
    for kind in 0..3 {
        for n in 0..2 {
            let p = base.path().join(format!("{kind}-{n}"));
            snapshot(kind, &p, &KEY);
            files.push(std::fs::read(&p).unwrap());
        }
    }
    let file = |kind: usize, n: usize| &files[kind * 2 + n];
    rep.set("file_sizes", serde_json::json!(files.iter().map(|f| f.len()).collect::<Vec<_>>()));
    // the undamaged files load
    let mut o = Outcome::default();
    for kind in 0..3 {
        let p = base.path().join(format!("{kind}-0"));
        let s = Stronghold::default();
        let ok = s.load_snapshot(&prov(&KEY), &SnapshotPath::from_path(&p)).is_ok()
            && (kind == 0
                || s.load_client("in file").map(|c| holds(&c, &loc("v", "r"), b"secret in the file") == Ok(true)).unwrap_or(false));
        if !ok {
            o.fail("undamaged file refused", format!("kind {kind}"));
        }
        o.count("cases", 1);
    }
    rep.absorb("undamaged files", o);

    // (label, images)
    let mut sets: Vec<(String, Vec<(String, Vec<u8>)>)> = vec![];
    for kind in 0..3 {
        let f = file(kind, 0);
        let mut v = vec![];
        for i in 0..f.len() {
            for b in 0..8 {
                let mut g = f.clone();
                g[i] ^= 1 << b;
                v.push((format!("bit {b} of byte {i} flipped"), g));
            }
        }
        sets.push((format!("bit flips, file {kind}"), v));
        if th && kind == 0 {
            let mut v = vec![];
            for i in 0..f.len() * 8 {
                for j in i + 1..f.len() * 8 {
                    let mut g = f.clone();
                    g[i / 8] ^= 1 << (i % 8);
                    g[j / 8] ^= 1 << (j % 8);
                    v.push((format!("bit {} of byte {} and bit {} of byte {} flipped", i % 8, i / 8, j % 8, j / 8), g));
                }
            }
            sets.push((format!("pairs of bit flips, file {kind}"), v));
        } else if th {
            // every byte set to every other value, every byte removed or doubled, neighbours swapped
            let mut v = vec![];
            for i in 0..f.len() {
                for x in 0..=255u8 {
                    if x != f[i] && (i < 60 || x % 16 == 0) {
                        let mut g = f.clone();
                        g[i] = x;
                        v.push((format!("byte {i} set to {x:#x}"), g));
                    }
                }
                let mut g = f.clone();
                g.remove(i);
                v.push((format!("byte {i} removed"), g));
                let mut g = f.clone();
                g.insert(i, f[i]);
                v.push((format!("byte {i} doubled"), g));
                if i + 1 < f.len() && f[i] != f[i + 1] {
                    let mut g = f.clone();
                    g.swap(i, i + 1);
                    v.push((format!("bytes {i} and {} swapped", i + 1), g));
                }
            }
            v.retain(|(_, g)| !files.contains(g));
            sets.push((format!("byte edits, file {kind}"), v));
        }
        let mut v = vec![];
        for n in 0..f.len() {
            v.push((format!("truncated to {n}"), f[..n].to_vec()));
        }
        for n in [1usize, 2, 7, 15, 16, 17, 32, 48, 64, f.len()] {
            for fill in [0u8, 0xff] {
                let mut g = f.clone();
                g.extend(std::iter::repeat(fill).take(n));
                v.push((format!("{n} bytes {fill:#x} appended"), g));
            }
            let mut g = f.clone();
            g.extend_from_slice(&f[..n.min(f.len())]);
            v.push((format!("its own first {n} bytes appended"), g));
            if n < f.len() {
                v.push((format!("first {n} bytes removed"), f[n..].to_vec()));
            }
        }
        // splices at every field boundary: header, ephemeral key, tag, cipher text
        let cuts = [0usize, 5, 7, 39, 55, f.len().clamp(56, 60), f.len().max(60)];
        for o in 0..3 {
            for n in 0..2 {
                let g = file(o, n);
                if g == f {
                    continue;
                }
                for a in 0..cuts.len() {
                    for b in a + 1..cuts.len() {
                        let (x, y) = (cuts[a].min(f.len()).min(g.len()), cuts[b].min(g.len()));
                        if x > y {
                            continue;
                        }
                        let mut h = f.clone();
                        h.splice(x..cuts[b].min(f.len()).max(x), g[x..y].iter().copied());
                        if h != *f && !files.contains(&h) {
                            v.push((format!("bytes {x}..{y} taken from file {o}-{n}"), h));
                        }
                    }
                }
            }
        }
        for (a, b) in [(0, 7), (7, 39), (39, 55), (55, f.len())] {
            for fill in [0u8, 0xff] {
                let mut g = f.clone();
                g[a..b].fill(fill);
                if g != *f {
                    v.push((format!("bytes {a}..{b} filled with {fill:#x}"), g));
                }
            }
            let mut g = f.clone();
            g[a..b].reverse();
            if g != *f {
                v.push((format!("bytes {a}..{b} reversed"), g));
            }
        }
        sets.push((format!("truncations, appends, splices, file {kind}"), v));
    }
    for (label, v) in &sets {
        let o = run_cases(
            v.len() as u64,
            60,
            &|i, out| {
                let (name, img) = &v[i as usize];
                let d = Scratch::new("c05img");
                let p = d.path().join("snap");
                std::fs::write(&p, img).unwrap();
                refused(&p, &KEY, name, i % 64 == 0, out);
                if std::fs::read(&p).unwrap() != *img {
                    out.fail(format!("{name}: file changed"), "the file was modified by loading".to_string());
                }
                out.see(img);
                out.sample(|| name.clone());
            },
            &|i| v[i as usize].0.clone(),
        );
        rep.absorb(label, o);
    }

    // wrong keys: every single bit, byte patterns, shifted keys
    let mut keys: Vec<(String, [u8; 32])> = vec![];
    for bit in 0..256usize {
        let mut k = KEY;
        k[bit / 8] ^= 1 << (bit % 8);
        keys.push((format!("key with bit {} of byte {} changed", bit % 8, bit / 8), k));
    }
    for i in 0..32 {
        let mut k = KEY;
        k[i] = !k[i];
        keys.push((format!("key with byte {i} inverted"), k));
        let mut k = KEY;
        k.rotate_left(i);
        if i > 0 {
            keys.push((format!("key rotated by {i}"), k));
            let mut k = KEY;
            k[i..].fill(0);
            keys.push((format!("key cut to {i} bytes"), k));
        }
    }
    for f in [0u8, 1, 0x7f, 0xff] {
        keys.push((format!("key of bytes {f:#x}"), [f; 32]));
    }
    for kind in 0..3 {
        let o = run_cases(
            keys.len() as u64,
            60,
            &|i, out| {
                let (name, k) = &keys[i as usize];
                out.see(k);
                refused(&base.path().join(format!("{kind}-0")), k, name, i % 64 == 0, out)
            },
            &|i| keys[i as usize].0.clone(),
        );
        rep.absorb(&format!("wrong keys, file {kind}"), o);
    }
    // the engine's own files: associated data, and contents of every size class
    let d = Scratch::new("c05engine");
    let data = |n: usize| -> Vec<u8> {
        let mut x = 0x9e37_79b9_7f4a_7c15u64;
        let mut step = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 32) as u8
        };
        (0..n).map(|_| step()).collect()
    };
    let mut ads: Vec<(usize, Vec<(String, Vec<u8>)>)> = vec![];
    for n in [0usize, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 70000] {
        let ad = data(n);
        let mut v = vec![("a zero byte more".to_string(), [&ad[..], &[0]].concat()), ("a zero byte before".to_string(), [&[0], &ad[..]].concat())];
        for i in (0..n).filter(|i| n <= 300 || i % 509 == 0 || n - i < 20) {
            let mut b = ad.clone();
            b[i] ^= 1 << (i % 8);
            v.push((format!("byte {i} changed"), b));
            v.push((format!("cut to {i}"), ad[..i].to_vec()));
        }
        ads.push((n, v));
    }
    let o = run_cases(
        ads.len() as u64,
        60,
        &|i, out| {
            let (n, v) = &ads[i as usize];
            let p = d.path().join(format!("ad{n}"));
            let (ad, plain) = (data(*n), b"content of the engine's file".to_vec());
            engine::snapshot::write_to(&plain, &p, &KEY, &ad).unwrap();
            if engine::snapshot::read_from(&p, &KEY, &ad).ok() != Some(plain) {
                out.fail(format!("associated data of {n}"), "the file does not open with its own associated data".to_string());
            }
            for (name, other) in v {
                out.count("attempts", 1);
                match guard(|| engine::snapshot::read_from(&p, &KEY, other)) {
                    Ok(Err(_)) => (),
                    Ok(Ok(_)) => out.fail(format!("associated data of {n}, {name}"), "accepted".to_string()),
                    Err(e) => out.fail(format!("associated data of {n}, {name}: panic"), e),
                }
            }
            let _ = std::fs::remove_file(p);
        },
        &|i| format!("associated data of {} bytes", ads[i as usize].0),
    );
    rep.absorb("associated data", o);
    let sizes = [64usize, 1000, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 200_000, if th { 5_000_000 } else { 1_100_000 }];
    let o = run_cases(
        sizes.len() as u64,
        120,
        &|i, out| {
            let n = sizes[i as usize];
            let p = d.path().join(format!("size{n}"));
            let plain = data(n);
            engine::snapshot::write_to(&plain, &p, &KEY, b"").unwrap();
            let f = std::fs::read(&p).unwrap();
            if engine::snapshot::read_from(&p, &KEY, b"").ok() != Some(plain) {
                out.fail(format!("content of {n} bytes"), "the undamaged file does not open".to_string());
            }
            // about 400 places spread over the file, all near its ends, round powers of two and round 4096 block borders
            let mut at: Vec<usize> = (0..f.len()).step_by((f.len() / 400).max(1)).collect();
            at.extend(0..80.min(f.len()));
            at.extend(f.len().saturating_sub(40)..f.len());
            for k in 6..23 {
                at.extend((1usize << k).saturating_sub(1)..(1 << k) + 2);
                at.extend((55 + (1usize << k)).saturating_sub(2)..55 + (1 << k) + 2);
            }
            at.retain(|x| *x < f.len());
            at.sort();
            at.dedup();
            if n > 500_000 && !th {
                at = at.into_iter().step_by(4).collect();
            }
            for x in at {
                let mut g = f.clone();
                g[x] ^= 1 << (x % 8);
                for (name, img) in [("changed", &g[..]), ("cut there", &f[..x])] {
                    out.count("attempts", 1);
                    std::fs::write(&p, img).unwrap();
                    match guard(|| engine::snapshot::read_from(&p, &KEY, b"")) {
                        Ok(Err(_)) => (),
                        Ok(Ok(_)) => out.fail(format!("content of {n} bytes, byte {x} {name}"), "accepted".to_string()),
                        Err(e) => out.fail(format!("content of {n} bytes, byte {x} {name}: panic"), e),
                    }
                }
            }
            let _ = std::fs::remove_file(p);
        },
        &|i| format!("content of {} bytes", sizes[i as usize]),
    );
    rep.absorb("larger contents", o);

    // things that are no snapshot file at all
    let d = Scratch::new("c05odd");
    std::fs::create_dir(d.path().join("dir")).unwrap();
    let odd = [d.path().join("dir"), d.path().join("missing"), d.path().join("dir/missing/x")];
    let o = run_cases(
        odd.len() as u64,
        60,
        &|i, out| refused(&odd[i as usize], &KEY, &format!("odd path {i}"), true, out),
        &|i| format!("odd path {i}"),
    );
    rep.absorb("directories and missing files", o);

    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("attempts"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.finish()
}
