//! C08: a failed procedure chain leaves no derived secret behind; a successful one equals its steps.
use crate::util::*;
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use mc::*;

/// initial content of a location
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Init {
    Absent,
    Live,
    Revoked,
}
use Init::*;

pub fn l(i: usize) -> Location {
    match i {
        0 => loc("v1", "a"),
        1 => loc("v1", "b"),
        2 => loc("v2", "c"),
        // sources and scratch targets of the producer family
        3 => loc("v3", "src32"),
        4 => loc("v3", "src64"),
        _ => loc(if i % 2 == 0 { "v4" } else { "v5" }, &format!("t{i}")),
    }
}
const V: [&str; 5] = ["v1", "v2", "v3", "v4", "v5"];
pub fn initial(i: usize) -> Vec<u8> {
    vec![0x11u8.wrapping_add(i as u8); if i == 4 { 64 } else { 32 }]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Step {
    Write(usize, u8),
    Copy(usize, usize),
    Hkdf(usize, usize),
    Gen(usize),
    Revoke(usize, bool),
    Gc(usize),
    Use(usize),
    /// fails inside the derivation although source and target are fine
    BadUnwrap(usize, usize),
    /// an AEAD decryption with a wrong tag
    BadOpen(usize),
    /// every kind of procedure that produces a secret
    Kind(usize, usize),
}
pub const KINDS: usize = 15;

fn step(s: Step) -> StrongholdProcedure {
    match s {
        Step::Write(t, v) => WriteVault { data: vec![v; 32], location: l(t) }.into(),
        Step::Copy(s, t) => CopyRecord { source: l(s), target: l(t) }.into(),
        Step::Hkdf(s, t) => Hkdf {
            hash_type: Sha2Hash::Sha256,
            salt: b"salt".to_vec(),
            label: b"label".to_vec(),
            ikm: l(s),
            okm: l(t),
        }
        .into(),
        Step::Gen(t) => GenerateKey { ty: KeyType::Ed25519, output: l(t) }.into(),
        Step::Revoke(t, gc) => RevokeData { location: l(t), should_gc: gc }.into(),
        Step::Gc(v) => GarbageCollect { vault_path: V[v].as_bytes().to_vec() }.into(),
        Step::Use(s) => Hmac { hash_type: Sha2Hash::Sha256, key: l(s), msg: b"msg".to_vec() }.into(),
        Step::BadUnwrap(s, t) => AesKeyWrapDecrypt {
            cipher: AesKeyWrapCipher::Aes256,
            decryption_key: l(s),
            wrapped_key: vec![7; 40],
            output: l(t),
        }
        .into(),
        Step::BadOpen(s) => AeadDecrypt {
            cipher: AeadCipher::Aes256Gcm,
            associated_data: vec![],
            ciphertext: vec![1; 8],
            tag: vec![2; 16],
            nonce: vec![3; 12],
            key: l(s),
        }
        .into(),
        Step::Kind(k, t) => kind(k, l(t)),
    }
}

pub fn kind(k: usize, output: Location) -> StrongholdProcedure {
    let pub_key = [9u8; 32];
    match k {
        0 => WriteVault { data: b"kind".to_vec(), location: output }.into(),
        1 => CopyRecord { source: l(3), target: output }.into(),
        2 => Slip10Generate { size_bytes: None, output }.into(),
        3 => Slip10Derive {
            chain: Chain::from_u32_hardened(vec![1, 2]),
            input: Slip10DeriveInput::Seed(l(4)),
            output,
        }
        .into(),
        4 => BIP39Generate { passphrase: Some("pass".into()), language: MnemonicLanguage::English, output }.into(),
        5 => BIP39Recover { passphrase: None, mnemonic: "some words".into(), output }.into(),
        6 => GenerateKey { ty: KeyType::Ed25519, output }.into(),
        7 => GenerateKey { ty: KeyType::X25519, output }.into(),
        8 => X25519DiffieHellman { public_key: pub_key, private_key: l(3), shared_key: output }.into(),
        9 => Hkdf { hash_type: Sha2Hash::Sha512, salt: vec![], label: vec![], ikm: l(3), okm: output }.into(),
        10 => ConcatKdf {
            hash: Sha2Hash::Sha256,
            algorithm_id: "alg".into(),
            shared_secret: l(3),
            key_len: 48,
            apu: vec![],
            apv: vec![],
            pub_info: vec![],
            priv_info: vec![],
            output,
        }
        .into(),
        11 => AesKeyWrapDecrypt {
            cipher: AesKeyWrapCipher::Aes256,
            decryption_key: l(3),
            wrapped_key: wrapped(),
            output,
        }
        .into(),
        12 => ConcatSecret { location_a: l(3), location_b: l(4), output_location: output }.into(),
        13 => Pbkdf2Hmac {
            hash_type: Sha2Hash::Sha256,
            password: b"pw".to_vec(),
            salt: b"salt".to_vec(),
            count: std::num::NonZeroU32::new(2).unwrap(),
            output,
        }
        .into(),
        _ => Slip10Derive {
            chain: Chain::from_u32_hardened(vec![7]),
            input: Slip10DeriveInput::Key(l(4)),
            output,
        }
        .into(),
    }
}

/// a key wrapped with the initial content of location 3
pub fn wrapped() -> Vec<u8> {
    use crypto::ciphers::aes_kw::Aes256Kw;
    let mut out = vec![0; 24];
    Aes256Kw::new(&initial(3)).wrap_key(&[5; 16], &mut out).unwrap();
    out
}

/// where a step puts a secret when it succeeds, and whether the secret is random
fn puts(s: Step) -> Option<(usize, bool)> {
    match s {
        Step::Write(t, _) | Step::Copy(_, t) | Step::Hkdf(_, t) | Step::BadUnwrap(_, t) => Some((t, false)),
        Step::Gen(t) => Some((t, true)),
        Step::Kind(k, t) => Some((t, matches!(k, 2 | 4 | 6 | 7))),
        _ => None,
    }
}
fn touches(s: Step) -> Vec<usize> {
    match s {
        Step::Revoke(t, _) => vec![t],
        _ => vec![],
    }
}

struct Case {
    init: Vec<(usize, Init)>,
    chain: Vec<Step>,
}

fn setup(case: &Case) -> Result<Client, String> {
    let c = Client::default();
    let e = |x: ClientError| x.to_string();
    for (i, st) in &case.init {
        if *st == Absent {
            continue;
        }
        let v = c.vault(l(*i).vault_path());
        v.write_secret(l(*i), initial(*i)).map_err(e)?;
        if *st == Revoked {
            c.execute_procedure(RevokeData { location: l(*i), should_gc: false }).map_err(|e| e.to_string())?;
        }
    }
    Ok(c)
}

/// what a location holds, as far as it can be told: the candidate that matches, or whether it is unusable
#[derive(Clone, PartialEq, Eq, Debug)]
enum Seen {
    Unusable,
    Is(Vec<u8>),
    Other,
}
fn look(c: &Client, i: usize, cands: &[Vec<u8>]) -> Seen {
    if cands.is_empty() {
        return match holds(c, &l(i), b"?") {
            Err(_) => Seen::Unusable,
            _ => Seen::Other,
        };
    }
    for x in cands {
        match holds(c, &l(i), x) {
            Err(_) => return Seen::Unusable,
            Ok(true) => return Seen::Is(x.clone()),
            Ok(false) => (),
        }
    }
    Seen::Other
}

fn run_case(case: &Case, out: &mut Outcome) -> Result<(), String> {
    let locs: Vec<usize> = {
        let mut v: Vec<usize> = case.init.iter().map(|x| x.0).collect();
        v.extend(case.chain.iter().filter_map(|s| puts(*s).map(|p| p.0)));
        v.sort();
        v.dedup();
        v
    };
    // every content that can possibly occur
    let mut cands: Vec<Vec<u8>> = case.init.iter().map(|x| initial(x.0)).collect();
    for s in &case.chain {
        match s {
            Step::Write(_, v) => cands.push(vec![*v; 32]),
            _ => (),
        }
    }
    // the twin runs the steps one by one
    let twin = setup(case)?;
    let mut expect: Vec<Vec<u8>> = vec![];
    let mut fails = None;
    for (k, s) in case.chain.iter().enumerate() {
        match twin.execute_procedure_chained(vec![step(*s)]) {
            Ok(o) if o.len() == 1 => expect.push(o[0].clone().into()),
            Ok(o) => return Err(format!("step {k} alone returned {} outputs", o.len())),
            Err(e) => {
                fails = Some((k, e.to_string()));
                break;
            }
        }
    }
    let c = setup(case)?;
    let chain: Vec<StrongholdProcedure> = case.chain.iter().map(|s| step(*s)).collect();
    let r = c.execute_procedure_chained(chain);
    out.count("steps", case.chain.len() as u64 * 2);
    match (&r, &fails) {
        (Ok(o), None) => {
            if o.len() != case.chain.len() {
                return Err(format!("{} outputs for {} steps", o.len(), case.chain.len()));
            }
            // what depends on generated secrets differs between the two clients
            let mut tainted: Vec<usize> = vec![];
            for (k, s) in case.chain.iter().enumerate() {
                let got: Vec<u8> = o[k].clone().into();
                let from = match s {
                    Step::Copy(s, _) | Step::Hkdf(s, _) | Step::Use(s) => tainted.contains(s),
                    _ => false,
                };
                let random = from || matches!(puts(*s), Some((_, true)));
                if let Some((t, _)) = puts(*s) {
                    tainted.retain(|x| *x != t);
                    if random {
                        tainted.push(t);
                    }
                }
                if !random && got != expect[k] {
                    return Err(format!("output {k} is {}, alone it is {}", show(&got), show(&expect[k])));
                }
            }
            let mut states = vec![];
            for i in &locs {
                let (a, b) = (look(&c, *i, &cands), look(&twin, *i, &cands));
                if a != b {
                    return Err(format!("{} is {a:?}, after the single steps it is {b:?}", show_loc(&l(*i))));
                }
                states.push(a == Seen::Unusable);
            }
            out.see(&("ok", states));
            out.count("chains that succeed", 1);
        }
        (Ok(_), Some((k, e))) => return Err(format!("the chain succeeded although step {k} fails alone: {e}")),
        (Err(e), None) => return Err(format!("the chain failed although every step succeeds alone: {e}")),
        (Err(_), Some((k, _))) => {
            let done = &case.chain[..*k];
            let mut states = vec![];
            for i in &locs {
                let before = case.init.iter().find(|x| x.0 == *i).map(|x| x.1).unwrap_or(Absent);
                let now = look(&c, *i, &cands);
                let old = Seen::Is(initial(*i));
                let unchanged = match before {
                    Live => now == old,
                    _ => now == Seen::Unusable,
                };
                let wrote = done.iter().any(|s| puts(*s).map(|p| p.0) == Some(*i));
                let touched = done.iter().any(|s| touches(*s).contains(i));
                states.push(now == Seen::Unusable);
                if wrote || touched {
                    // unusable, or the content from before the chain
                    if now != Seen::Unusable && !(unchanged && before == Live) {
                        return Err(format!(
                            "step {k} failed but {}, {} a completed step, holds {now:?}",
                            show_loc(&l(*i)),
                            if wrote { "written by" } else { "revoked by" }
                        ));
                    }
                } else if !unchanged {
                    return Err(format!(
                        "step {k} failed and {}, which no completed step wrote, was {before:?} and is now {now:?}",
                        show_loc(&l(*i))
                    ));
                }
                // what an unrelated record of the vault held before has not come back
                if before == Absent && c.record_exists(&l(*i)).map_err(|e| e.to_string())? {
                    return Err(format!("step {k} failed but {} exists", show_loc(&l(*i))));
                }
            }
            out.see(&("failed", *k, states));
            out.count("chains that fail", 1);
        }
    }
    // the client stays usable: after collection every unusable location takes a new secret
    for v in V {
        c.execute_procedure(GarbageCollect { vault_path: v.as_bytes().to_vec() }).map_err(|e| format!("afterwards: {e}"))?;
    }
    for i in &locs {
        c.vault(l(*i).vault_path())
            .write_secret(l(*i), b"after".to_vec())
            .map_err(|e| format!("afterwards {} refuses a write: {e}", show_loc(&l(*i))))?;
        if holds(&c, &l(*i), b"after") != Ok(true) {
            return Err(format!("afterwards {} does not hold what was written", show_loc(&l(*i))));
        }
    }
    Ok(())
}

fn alphabet(full: bool) -> Vec<Step> {
    use Step::*;
    let mut a = vec![];
    let n = 3;
    for t in 0..n {
        a.push(Write(t, 0xA0 + t as u8));
        if full || t != 1 {
            a.push(Revoke(t, false));
        }
        if full {
            a.push(Revoke(t, true));
            a.push(Gen(t));
            a.push(Use(t));
            a.push(BadOpen(t));
            a.push(Copy(t, t));
        }
        for s in 0..n {
            if s != t && (full || (s + 1) % n == t) {
                a.push(Copy(s, t));
            }
            if s != t && (full || (t + 1) % n == s) {
                a.push(BadUnwrap(s, t));
            }
            if full && (s + 1) % n == t {
                a.push(Hkdf(s, t));
            }
        }
    }
    a.push(Gc(0));
    if full {
        a.push(Gc(1));
    }
    a
}

fn family(alpha: &[Step], inits: &[Vec<(usize, Init)>], d: usize) -> Vec<Case> {
    let mut v = vec![];
    let a = alpha.len() as u64;
    for i in 0..a.pow(d as u32) {
        let chain: Vec<Step> = digits(i, a, d).into_iter().map(|k| alpha[k]).collect();
        for init in inits {
            v.push(Case { init: init.clone(), chain: chain.clone() });
        }
    }
    v
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C08", tier, "model_checking");
    let th = rep.thorough();
    let states = [Absent, Live, Revoked];
    let all: Vec<Vec<(usize, Init)>> = (0..27)
        .map(|i| digits(i, 3, 3).into_iter().enumerate().map(|(k, s)| (k, states[s])).collect())
        .collect();
    let some: Vec<Vec<(usize, Init)>> = [
        [Live, Live, Live],
        [Live, Absent, Absent],
        [Live, Absent, Live],
        [Live, Revoked, Live],
        [Revoked, Live, Absent],
    ]
    .iter()
    .map(|s| s.iter().enumerate().map(|(k, s)| (k, *s)).collect())
    .collect();
    let few: Vec<Vec<(usize, Init)>> = some.iter().cloned().chain([all[0].clone(), all[26].clone(), all[5].clone()]).collect();
    let full = alphabet(true);
    let small = alphabet(false);
    let mut fams: Vec<(String, Vec<Case>)> = vec![
        ("chains of 1 step, all initial states".into(), family(&full, &all, 1)),
        ("chains of 2 steps".into(), family(&full, if th { &all } else { &few }, 2)),
        (
            "chains of 3 steps".into(),
            if th { family(&full, &some, 3) } else { family(&small, &some[..4], 3) },
        ),
    ];
    if th {
        fams.push(("chains of 4 steps, reduced alphabet".into(), family(&small, &some[..2], 4)));
    }
    // kinds of producers
    let base = vec![(3, Live), (4, Live), (0, Live)];
    let mut kinds = vec![];
    for (fi, f) in [Step::BadUnwrap(3, 9), Step::BadOpen(3), Step::Copy(1, 0), Step::BadUnwrap(3, 0), Step::Write(6, 1)].into_iter().enumerate() {
        for k in 0..KINDS {
            for t in [5usize, 6, 0] {
                kinds.push(Case { init: base.clone(), chain: vec![Step::Kind(k, t), f] });
                kinds.push(Case { init: base.clone(), chain: vec![Step::Kind(k, t), Step::Use(t), f] });
                for k2 in 0..KINDS {
                    if th || fi < 2 {
                        kinds.push(Case { init: base.clone(), chain: vec![Step::Kind(k, t), Step::Kind(k2, 7), f] });
                    }
                    if fi == 0 {
                        // the second overwrites the first
                        kinds.push(Case { init: base.clone(), chain: vec![Step::Kind(k, t), Step::Kind(k2, t), f] });
                        kinds.push(Case { init: base.clone(), chain: vec![Step::Kind(k, t), Step::Kind(k2, t)] });
                    }
                }
            }
        }
    }
    fams.push(("every kind of producer before a failing step".into(), kinds));
    // long chains: the failing step at every position
    let mut long = vec![];
    for n in if th { vec![8usize, 20, 60] } else { vec![8, 20] } {
        for p in 0..=n {
            let mut chain: Vec<Step> = (0..n).map(|i| Step::Write(5 + i, i as u8)).collect();
            chain.insert(p, Step::BadOpen(3));
            long.push(Case { init: base.clone(), chain });
        }
    }
    for n in if th { vec![64, 65, 128, 129, 256, 257, 600, 1025] } else { vec![64, 65, 129, 257] } {
        let chain: Vec<Step> = (0..n).map(|i| Step::Write(5 + i, i as u8)).collect();
        long.push(Case { init: base.clone(), chain: chain.clone() });
        for p in [n / 2, n] {
            let mut c = chain.clone();
            c.insert(p, Step::BadOpen(3));
            long.push(Case { init: base.clone(), chain: c });
        }
    }
    fams.push(("long chains, the failing step at every position".into(), long));
    for (name, cases) in fams {
        let describe = |i: u64| {
            let c = &cases[i as usize];
            format!("initially {:?}, chain {:?}", c.init, c.chain)
        };
        let o = run_cases(
            cases.len() as u64,
            60,
            &|i, out| {
                if let Err(e) = run_case(&cases[i as usize], out) {
                    out.fail(format!("{}: {}", describe(i), first_line(&e)), format!("{}: {e}", describe(i)));
                }
                if i % 3001 == 17 {
                    out.sample(|| describe(i));
                }
            },
            &describe,
        );
        rep.absorb(&name, o);
    }
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("steps"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.finish()
}
