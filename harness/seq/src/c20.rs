//! C20: every procedure against a reference implementation, over every combination of stored secret lengths,
//! argument shapes and placements of source and target.
use crate::util::*;
use crypto::ciphers::aes_gcm::Aes256Gcm;
use crypto::ciphers::aes_kw::Aes256Kw;
use crypto::ciphers::chacha::XChaCha20Poly1305;
use crypto::ciphers::traits::Aead;
use crypto::hashes::sha::{SHA256, SHA384, SHA512};
use crypto::keys::{bip39, slip10, x25519};
use crypto::signatures::ed25519;
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use mc::*;

// ------------------------------------------------------------------ reference algorithms

fn sha(h: usize, data: &[u8]) -> Vec<u8> {
    match h {
        0 => {
            let mut o = [0; 32];
            SHA256(data, &mut o);
            o.to_vec()
        }
        1 => {
            let mut o = [0; 48];
            SHA384(data, &mut o);
            o.to_vec()
        }
        _ => {
            let mut o = [0; 64];
            SHA512(data, &mut o);
            o.to_vec()
        }
    }
}
fn hmac(h: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let block = if h == 0 { 64 } else { 128 };
    let mut k = if key.len() > block { sha(h, key) } else { key.to_vec() };
    k.resize(block, 0);
    let i: Vec<u8> = k.iter().map(|b| b ^ 0x36).chain(msg.iter().copied()).collect();
    let inner = sha(h, &i);
    let o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).chain(inner).collect();
    sha(h, &o)
}
fn hkdf(h: usize, salt: &[u8], ikm: &[u8], info: &[u8]) -> Vec<u8> {
    // one block: the output length is the hash length
    let prk = hmac(h, salt, ikm);
    hmac(h, &prk, &[info, &[1]].concat())
}
fn pbkdf2(h: usize, pw: &[u8], salt: &[u8], n: u32) -> Vec<u8> {
    let mut u = hmac(h, pw, &[salt, &[0, 0, 0, 1]].concat());
    let mut t = u.clone();
    for _ in 1..n {
        u = hmac(h, pw, &u);
        for (a, b) in t.iter_mut().zip(&u) {
            *a ^= b;
        }
    }
    t
}
fn concat_kdf(h: usize, z: &[u8], len: usize, alg: &str, apu: &[u8], apv: &[u8], p: &[u8], s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut n = 1u32;
    let l = |x: &[u8]| [&(x.len() as u32).to_be_bytes()[..], x].concat();
    while out.len() < len {
        out.extend(sha(h, &[&n.to_be_bytes()[..], z, &l(alg.as_bytes()), &l(apu), &l(apv), p, s].concat()));
        n += 1;
    }
    out.truncate(len);
    out
}
fn hash_type(h: usize) -> Sha2Hash {
    match h {
        0 => Sha2Hash::Sha256,
        1 => Sha2Hash::Sha384,
        _ => Sha2Hash::Sha512,
    }
}
pub fn bytes(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(seed).wrapping_mul(17).rotate_left(3) ^ seed).collect()
}
fn aead(gcm: bool, key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    if key.len() != 32 || nonce.len() != if gcm { 12 } else { 24 } {
        return None;
    }
    let (mut ct, mut tag) = (vec![0; pt.len()], vec![0; 16]);
    if gcm {
        Aes256Gcm::try_encrypt(key, nonce, ad, pt, &mut ct, &mut tag).ok()?;
    } else {
        XChaCha20Poly1305::try_encrypt(key, nonce, ad, pt, &mut ct, &mut tag).ok()?;
    }
    Some((tag, ct))
}

// ------------------------------------------------------------------ cases

/// What a call must give.
#[derive(Clone, Debug)]
enum Out {
    Exactly(Vec<u8>),
    /// checked by the case itself
    Any,
}
#[derive(Clone, Debug)]
enum Put {
    Nothing,
    Exactly(Vec<u8>),
    Any,
}

struct Case {
    name: String,
    /// the stored secrets, at `src 0` and `src 1`
    secrets: Vec<Vec<u8>>,
    proc: StrongholdProcedure,
    /// None: must be refused
    want: Option<(Out, Put)>,
    /// may be refused as well (sizes nobody can serve)
    may_fail: bool,
    /// more to be checked on success
    then: Option<Box<dyn Fn(&Client, &[u8]) -> Result<(), String> + Sync + Send>>,
}

fn src(i: usize) -> Location {
    loc("source vault", ["src 0", "src 1"][i])
}
fn tgt() -> Location {
    loc("target vault", "target")
}

fn case(name: String, secrets: Vec<Vec<u8>>, proc: impl Into<StrongholdProcedure>, want: Option<(Out, Put)>) -> Case {
    Case { name, secrets, proc: proc.into(), want, may_fail: false, then: None }
}

fn cases(th: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let lens: Vec<usize> = if th {
        (0..=200).chain([255, 256, 257, 1000, 4096, 5000]).collect()
    } else {
        vec![0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 96, 127, 128, 129, 200, 4096, 4097]
    };
    let few = [0usize, 1, 32, 65, 129];
    let nothing = |o: Vec<u8>| Some((Out::Exactly(o), Put::Nothing));
    let put = |s: Vec<u8>| Some((Out::Exactly(vec![]), Put::Exactly(s)));

    // writing, copying, concatenating, comparing
    for &n in &lens {
        v.push(case(format!("WriteVault {n}"), vec![], WriteVault { data: bytes(n, 9), location: tgt() }, put(bytes(n, 9))));
        v.push(case(format!("CopyRecord {n}"), vec![bytes(n, 3)], CopyRecord { source: src(0), target: tgt() }, put(bytes(n, 3))));
        for &k in if th { &lens } else { &few[..] } {
            let (a, b) = (bytes(n, 3), bytes(k, 4));
            v.push(case(
                format!("ConcatSecret {n}+{k}"),
                vec![a.clone(), b.clone()],
                ConcatSecret { location_a: src(0), location_b: src(1), output_location: tgt() },
                put([a.clone(), b.clone()].concat()),
            ));
            v.push(case(
                format!("CompareSecret {n} with {k}"),
                vec![a.clone()],
                CompareSecret { location: src(0), expected: bytes(k, 3) },
                nothing(vec![(n == k) as u8]),
            ));
        }
        v.push(case(
            format!("ConcatSecret {n} with itself"),
            vec![bytes(n, 3)],
            ConcatSecret { location_a: src(0), location_b: src(0), output_location: tgt() },
            put([bytes(n, 3), bytes(n, 3)].concat()),
        ));
        if n > 0 {
            let mut x = bytes(n, 3);
            x[n - 1] ^= 1;
            v.push(case(format!("CompareSecret {n} last bit"), vec![bytes(n, 3)], CompareSecret { location: src(0), expected: x }, nothing(vec![0])));
        }
    }
    v.push(case("RevokeData".into(), vec![vec![1]], RevokeData { location: loc("elsewhere", "x"), should_gc: false }, nothing(vec![])));
    v.push(case("GarbageCollect".into(), vec![vec![1]], GarbageCollect { vault_path: b"source vault".to_vec() }, nothing(vec![])));

    // hashes
    for h in 0..3 {
        for &n in &lens {
            let k = bytes(n, 5);
            for &m in &few {
                let msg = bytes(m, 6);
                v.push(case(
                    format!("Hmac {h} key {n} message {m}"),
                    vec![k.clone()],
                    Hmac { hash_type: hash_type(h), msg: msg.clone(), key: src(0) },
                    nothing(hmac(h, &k, &msg)),
                ));
                for &l in &[0usize, 40] {
                    let label = bytes(l, 8);
                    v.push(case(
                        format!("Hkdf {h} ikm {n} salt {m} label {l}"),
                        vec![k.clone()],
                        Hkdf { hash_type: hash_type(h), salt: msg.clone(), label: label.clone(), ikm: src(0), okm: tgt() },
                        put(hkdf(h, &msg, &k, &label)),
                    ));
                }
            }
        }
        for &pw in &few {
            for &salt in &few {
                for count in [1u32, 2, 3, 100] {
                    let (p, s) = (bytes(pw, 1), bytes(salt, 2));
                    v.push(case(
                        format!("Pbkdf2Hmac {h} password {pw} salt {salt} count {count}"),
                        vec![],
                        Pbkdf2Hmac {
                            hash_type: hash_type(h),
                            password: p.clone(),
                            salt: s.clone(),
                            count: count.try_into().unwrap(),
                            output: tgt(),
                        },
                        put(pbkdf2(h, &p, &s, count)),
                    ));
                }
            }
        }
        let hl = [32, 48, 64][h];
        let mut klens = vec![0usize, 1, hl - 1, hl, hl + 1, 2 * hl - 1, 2 * hl, 2 * hl + 1, 300];
        if th {
            klens.extend(2..140);
        }
        let huge = [usize::MAX, usize::MAX - 1, usize::MAX - hl + 2, usize::MAX - hl + 1, usize::MAX - hl, (u32::MAX as usize + 1) * hl];
        for (zi, z) in [bytes(32, 7), vec![], bytes(65, 1)].iter().enumerate() {
            for (ai, (alg, apu, apv, p, s)) in [
                ("A256GCM", &b"Alice"[..], &b"Bob"[..], &b"pub"[..], &b"priv"[..]),
                ("", b"", b"", b"", b""),
                ("ECDH-ES+A256KW", b"", b"B", b"", b"x"),
                ("A", b"A", b"", b"y", b""),
            ]
            .into_iter()
            .enumerate()
            {
                let mk = |len: usize| ConcatKdf {
                    hash: hash_type(h),
                    algorithm_id: alg.into(),
                    shared_secret: src(0),
                    key_len: len,
                    apu: apu.into(),
                    apv: apv.into(),
                    pub_info: p.into(),
                    priv_info: s.into(),
                    output: tgt(),
                };
                for &len in &klens {
                    v.push(case(
                        format!("ConcatKdf {h} secret {zi} args {ai} length {len}"),
                        vec![z.clone()],
                        mk(len),
                        put(concat_kdf(h, z, len, alg, apu, apv, p, s)),
                    ));
                }
                if ai == 0 && zi == 0 {
                    for len in huge {
                        v.push(case(format!("ConcatKdf {h} length {len}"), vec![z.clone()], mk(len), None));
                    }
                }
            }
        }
    }

    // seeds and key derivation
    for n in [None, Some(0), Some(1), Some(16), Some(32), Some(64), Some(1000)] {
        let mut c = case(
            format!("Slip10Generate {n:?}"),
            vec![],
            Slip10Generate { size_bytes: n, output: tgt() },
            Some((Out::Exactly(vec![]), Put::Any)),
        );
        let want = n.unwrap_or(64);
        c.then = Some(Box::new(move |c, _| length_is(c, want)));
        v.push(c);
    }
    for n in [usize::MAX, isize::MAX as usize + 1, isize::MAX as usize] {
        v.push(case(format!("Slip10Generate {n}"), vec![], Slip10Generate { size_bytes: Some(n), output: tgt() }, None));
    }
    let h = slip10::Segment::HARDEN_MASK;
    let chains: Vec<Vec<u32>> = vec![
        vec![],
        vec![h],
        vec![h, h + 1],
        vec![u32::MAX],
        vec![h + 44, h + 4218, h, h],
        vec![0],
        vec![h, 1],
        vec![1, h],
        vec![h - 1],
    ];
    for &n in &lens {
        let s = bytes(n, 11);
        for ch in &chains {
            let chain = Chain::from_u32(ch.clone());
            let hard = ch.iter().all(|x| x & h != 0);
            let want = |k: crypto::Result<slip10::Key>| {
                let k = k.ok()?;
                Some((Out::Exactly(k.chain_code().to_vec()), Put::Exactly(k.into())))
            };
            let w = want(slip10::Seed::from_bytes(&s).derive(slip10::Curve::Ed25519, &chain));
            assert_eq!(w.is_some(), hard);
            v.push(case(
                format!("Slip10Derive seed {n} chain {ch:x?}"),
                vec![s.clone()],
                Slip10Derive { chain: chain.clone(), input: Slip10DeriveInput::Seed(src(0)), output: tgt() },
                w,
            ));
            let w = want(slip10::Key::try_from(&s[..]).and_then(|k| k.derive(&chain)));
            assert_eq!(w.is_some(), hard && n == 64);
            v.push(case(
                format!("Slip10Derive key {n} chain {ch:x?}"),
                vec![s.clone()],
                Slip10Derive { chain, input: Slip10DeriveInput::Key(src(0)), output: tgt() },
                w,
            ));
        }
    }
    // deriving in one step and in two gives the same key
    for (a, b) in [(vec![h], vec![h + 1]), (vec![h + 44, h + 1], vec![h]), (vec![], vec![h + 7])] {
        let s = bytes(64, 12);
        let all = Chain::from_u32(a.iter().chain(&b).copied());
        let k = slip10::Seed::from_bytes(&s).derive(slip10::Curve::Ed25519, &all).unwrap();
        let first = slip10::Seed::from_bytes(&s).derive(slip10::Curve::Ed25519, &Chain::from_u32(a.clone())).unwrap();
        v.push(case(
            format!("Slip10Derive in two steps {a:x?} {b:x?}"),
            vec![first.into()],
            Slip10Derive { chain: Chain::from_u32(b), input: Slip10DeriveInput::Key(src(0)), output: tgt() },
            Some((Out::Exactly(k.chain_code().to_vec()), Put::Exactly(k.into()))),
        ));
    }
    for pass in [None, Some(""), Some("p"), Some("a long pässphrase with more than 128 bytes .............................................................................................................................")] {
        for jp in [false, true] {
            let language = if jp { MnemonicLanguage::Japanese } else { MnemonicLanguage::English };
            let mut c = case(
                format!("BIP39Generate {pass:?} japanese={jp}"),
                vec![],
                BIP39Generate { passphrase: pass.map(|s| s.into()), language, output: tgt() },
                Some((Out::Any, Put::Any)),
            );
            let p = pass.unwrap_or("").to_string();
            c.then = Some(Box::new(move |c, out| {
                let m = String::from_utf8(out.to_vec()).map_err(|e| e.to_string())?;
                let list = if jp { bip39::wordlist::JAPANESE } else { bip39::wordlist::ENGLISH };
                if m.split_whitespace().count() != 24 {
                    return Err(format!("mnemonic of {} words", m.split_whitespace().count()));
                }
                bip39::wordlist::verify(&m, &list).map_err(|_| "mnemonic does not verify".to_string())?;
                let mut seed = [0u8; 64];
                bip39::mnemonic_to_seed(&m, &p, &mut seed);
                if holds(c, &tgt(), &seed) != Ok(true) {
                    return Err("the seed does not belong to the mnemonic".into());
                }
                // recovering gives the same seed
                c.execute_procedure(BIP39Recover { passphrase: Some(p.clone()), mnemonic: m, output: loc("target vault", "again") })
                    .map_err(|e| e.to_string())?;
                if holds(c, &loc("target vault", "again"), &seed) != Ok(true) {
                    return Err("recovering gives another seed".into());
                }
                Ok(())
            }));
            v.push(c);
        }
        for m in [
            "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about",
            "そつう れきだい ほんやく わかす りくつ ばいか ろせん やちん そつう れきだい ほんやく わかめ",
            "",
            "no mnemonic",
        ] {
            let mut seed = [0u8; 64];
            bip39::mnemonic_to_seed(m, pass.unwrap_or(""), &mut seed);
            v.push(case(
                format!("BIP39Recover {pass:?} {m:?}"),
                vec![],
                BIP39Recover { passphrase: pass.map(|s| s.into()), mnemonic: m.into(), output: tgt() },
                put(seed.to_vec()),
            ));
        }
    }

    // keys
    for ed in [true, false] {
        let ty = || if ed { KeyType::Ed25519 } else { KeyType::X25519 };
        let mut c = case(
            format!("GenerateKey ed25519={ed}"),
            vec![],
            GenerateKey { ty: ty(), output: tgt() },
            Some((Out::Exactly(vec![]), Put::Any)),
        );
        c.then = Some(Box::new(move |c, _| {
            length_is(c, 32)?;
            let ty = || if ed { KeyType::Ed25519 } else { KeyType::X25519 };
            let pk = c.execute_procedure(PublicKey { ty: ty(), private_key: tgt() }).map_err(|e| e.to_string())?;
            if ed {
                let sig = c.execute_procedure(Ed25519Sign { msg: b"m".to_vec(), private_key: tgt() }).map_err(|e| e.to_string())?;
                let k = ed25519::PublicKey::try_from_bytes(pk).map_err(|e| e.to_string())?;
                if !k.verify(&ed25519::Signature::from_bytes(sig), b"m") {
                    return Err("signature does not verify".into());
                }
            } else {
                // agreement with another key pair
                let sk = x25519::SecretKey::generate().unwrap();
                let shared = sk.diffie_hellman(&x25519::PublicKey::from_bytes(pk));
                c.execute_procedure(X25519DiffieHellman {
                    public_key: sk.public_key().to_bytes(),
                    private_key: tgt(),
                    shared_key: loc("target vault", "shared"),
                })
                .map_err(|e| e.to_string())?;
                if holds(c, &loc("target vault", "shared"), shared.as_bytes()) != Ok(true) {
                    return Err("no agreement".into());
                }
            }
            // another key is another key
            c.execute_procedure(GenerateKey { ty: ty(), output: loc("target vault", "other") }).map_err(|e| e.to_string())?;
            let pk2 = c
                .execute_procedure(PublicKey { ty: ty(), private_key: loc("target vault", "other") })
                .map_err(|e| e.to_string())?;
            if pk == pk2 {
                return Err("two generated keys are equal".into());
            }
            Ok(())
        }));
        v.push(c);
        for &n in &lens {
            let s = bytes(n, 21);
            let w = if ed && n >= 32 {
                let k = ed25519::SecretKey::from_bytes(s[..32].try_into().unwrap());
                nothing(k.public_key().to_bytes().to_vec())
            } else if !ed && n == 32 {
                let k = x25519::SecretKey::try_from_slice(&s).unwrap();
                nothing(k.public_key().to_bytes().to_vec())
            } else {
                None
            };
            v.push(case(format!("PublicKey ed25519={ed} key {n}"), vec![s.clone()], PublicKey { ty: ty(), private_key: src(0) }, w));
            if ed {
                for &m in &few {
                    let msg = bytes(m, 2);
                    let w = if n >= 32 {
                        let k = ed25519::SecretKey::from_bytes(s[..32].try_into().unwrap());
                        nothing(k.sign(&msg).to_bytes().to_vec())
                    } else {
                        None
                    };
                    v.push(case(format!("Ed25519Sign key {n} message {m}"), vec![s.clone()], Ed25519Sign { msg, private_key: src(0) }, w));
                }
            } else {
                for (pi, pk) in [[9u8; 32], [0; 32], [0xff; 32], bytes(32, 77).try_into().unwrap()].into_iter().enumerate() {
                    let w = if n == 32 {
                        let k = x25519::SecretKey::try_from_slice(&s).unwrap();
                        put(k.diffie_hellman(&x25519::PublicKey::from_bytes(pk)).to_bytes().to_vec())
                    } else {
                        None
                    };
                    v.push(case(
                        format!("X25519DiffieHellman key {n} public {pi}"),
                        vec![s.clone()],
                        X25519DiffieHellman { public_key: pk, private_key: src(0), shared_key: tgt() },
                        w,
                    ));
                }
            }
        }
    }

    // authenticated encryption
    for gcm in [true, false] {
        let cipher = if gcm { AeadCipher::Aes256Gcm } else { AeadCipher::XChaCha20Poly1305 };
        let good = if gcm { 12 } else { 24 };
        for &n in &lens {
            let key = bytes(n, 31);
            for nl in [0, 11, 12, 13, 23, 24, 25] {
                if n != 32 && nl != good {
                    continue;
                }
                for al in [0usize, 5, 40] {
                    for pl in [0usize, 1, 15, 16, 17, 100] {
                        if n != 32 && (al != 5 || pl != 16) {
                            continue;
                        }
                        let (nonce, ad, pt) = (bytes(nl, 32), bytes(al, 33), bytes(pl, 34));
                        let r = aead(gcm, &key, &nonce, &ad, &pt);
                        v.push(case(
                            format!("AeadEncrypt gcm={gcm} key {n} nonce {nl} ad {al} text {pl}"),
                            vec![key.clone()],
                            AeadEncrypt { cipher, associated_data: ad.clone(), plaintext: pt.clone(), nonce: nonce.clone(), key: src(0) },
                            r.clone().and_then(|(t, c)| nothing([t, c].concat())),
                        ));
                        let (tag, ct) = r.clone().unwrap_or((vec![1; 16], pt.clone()));
                        let dec = |what: &str, tag: &[u8], ct: &[u8], nonce: &[u8], ad: &[u8], key: &[u8], ok: bool| {
                            case(
                                format!("AeadDecrypt gcm={gcm} key {n} nonce {nl} ad {al} text {pl} {what}"),
                                vec![key.to_vec()],
                                AeadDecrypt {
                                    cipher,
                                    associated_data: ad.to_vec(),
                                    ciphertext: ct.to_vec(),
                                    tag: tag.to_vec(),
                                    nonce: nonce.to_vec(),
                                    key: src(0),
                                },
                                if ok { nothing(pt.clone()) } else { None },
                            )
                        };
                        v.push(dec("as encrypted", &tag, &ct, &nonce, &ad, &key, r.is_some()));
                        if r.is_none() || al != 5 || !(pl == 16 || pl == 0 || th) {
                            continue;
                        }
                        let flips = |x: &[u8]| {
                            (0..x.len() * 8)
                                .filter(|i| th || i % 8 == (i / 8) % 8)
                                .map(|i| {
                                    let mut y = x.to_vec();
                                    y[i / 8] ^= 1 << (i % 8);
                                    (format!("bit {i}"), y)
                                })
                                .collect::<Vec<_>>()
                        };
                        for (w, t) in flips(&tag) {
                            v.push(dec(&format!("tag {w}"), &t, &ct, &nonce, &ad, &key, false));
                        }
                        for (w, t) in flips(&ct) {
                            v.push(dec(&format!("cipher text {w}"), &tag, &t, &nonce, &ad, &key, false));
                        }
                        for (w, t) in flips(&nonce) {
                            v.push(dec(&format!("nonce {w}"), &tag, &ct, &t, &ad, &key, false));
                        }
                        for (w, t) in flips(&ad) {
                            v.push(dec(&format!("associated data {w}"), &tag, &ct, &nonce, &t, &key, false));
                        }
                        for (w, t) in flips(&key) {
                            v.push(dec(&format!("key {w}"), &tag, &ct, &nonce, &ad, &t, false));
                        }
                        for k in [0, 1, 15, 17, 32] {
                            let mut t = tag.clone();
                            t.resize(k, 0);
                            v.push(dec(&format!("tag of {k} bytes"), &t, &ct, &nonce, &ad, &key, false));
                        }
                        if pl > 0 {
                            v.push(dec("cipher text cut", &tag, &ct[..pl - 1], &nonce, &ad, &key, false));
                        }
                        v.push(dec("cipher text longer", &tag, &[&ct[..], &[0]].concat(), &nonce, &ad, &key, false));
                    }
                }
            }
        }
    }

    // key wrapping
    for &n in &lens {
        let key = bytes(n, 41);
        for &m in if th { &lens } else { &[0usize, 1, 7, 8, 9, 16, 24, 32, 40, 64][..] } {
            if th && n != 32 && m > 65 {
                continue;
            }
            let sec = bytes(m, 42);
            let mut wrapped = vec![0; m + 8];
            let ok = n == 32 && m % 8 == 0 && Aes256Kw::new(&key).wrap_key(&sec, &mut wrapped).is_ok();
            let mut c = case(
                format!("AesKeyWrapEncrypt key {n} secret {m}"),
                vec![key.clone(), sec.clone()],
                AesKeyWrapEncrypt { cipher: AesKeyWrapCipher::Aes256, encryption_key: src(0), wrap_key: src(1) },
                if ok { nothing(wrapped.clone()) } else { None },
            );
            if ok {
                let sec = sec.clone();
                c.then = Some(Box::new(move |c, out| {
                    let r = c.execute_procedure(AesKeyWrapDecrypt {
                        cipher: AesKeyWrapCipher::Aes256,
                        decryption_key: src(0),
                        wrapped_key: out.to_vec(),
                        output: tgt(),
                    });
                    r.map_err(|e| format!("unwrapping: {e}"))?;
                    (holds(c, &tgt(), &sec) == Ok(true)).then_some(()).ok_or("unwrapped key differs".into())
                }));
            }
            // what the algorithm does with an empty key is left open: wrapping it gives the bare initial value
            c.may_fail = m == 0;
            v.push(c);
            let dec = |what: String, w: Vec<u8>, ok: bool| {
                let mut c = case(
                    format!("AesKeyWrapDecrypt key {n} {what}"),
                    vec![key.clone()],
                    AesKeyWrapDecrypt { cipher: AesKeyWrapCipher::Aes256, decryption_key: src(0), wrapped_key: w, output: tgt() },
                    if ok { put(sec.clone()) } else { None },
                );
                c.may_fail = m == 0;
                c
            };
            v.push(dec(format!("wrapped {m}"), wrapped.clone(), ok));
            if ok && (m == 16 || m == 32 || th) {
                for i in 0..wrapped.len() * 8 {
                    if !th && i % 8 != (i / 8) % 8 {
                        continue;
                    }
                    let mut w = wrapped.clone();
                    w[i / 8] ^= 1 << (i % 8);
                    v.push(dec(format!("wrapped {m} bit {i}"), w, false));
                }
                for i in 0..wrapped.len() {
                    v.push(dec(format!("wrapped {m} cut to {i}"), wrapped[..i].to_vec(), false));
                }
                for i in [1, 8, 16] {
                    let mut w = wrapped.clone();
                    w.resize(m + 8 + i, 0);
                    v.push(dec(format!("wrapped {m} longer by {i}"), w, false));
                }
            }
            if n != 32 {
                for i in [0usize, 7, 8, 16, 24] {
                    v.push(dec(format!("wrapped data of {i} bytes"), vec![7; i], false));
                }
            }
        }
    }
    v
}

/// Bytes without a period.
fn noise(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut step = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 29) as u8
    };
    (0..n).map(|_| step()).collect()
}

/// Every argument and every stored secret long, one at a time, with lengths round the powers of two; large counts.
fn long_cases(th: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let nothing = |o: Vec<u8>| Some((Out::Exactly(o), Put::Nothing));
    let put = |s: Vec<u8>| Some((Out::Exactly(vec![]), Put::Exactly(s)));
    let lens: Vec<usize> =
        (8..if th { 21 } else { 18 }).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)]).chain([10_000, 100_000]).collect();
    for &n in &lens {
        let (a, b) = (noise(n, 1), noise(20, 2));
        v.push(case(format!("WriteVault {n}"), vec![], WriteVault { data: a.clone(), location: tgt() }, put(a.clone())));
        v.push(case(format!("CopyRecord {n}"), vec![a.clone()], CopyRecord { source: src(0), target: tgt() }, put(a.clone())));
        for (x, y) in [(&a, &b), (&b, &a), (&a, &a)] {
            v.push(case(
                format!("ConcatSecret {}+{}", x.len(), y.len()),
                vec![x.clone(), y.clone()],
                ConcatSecret { location_a: src(0), location_b: src(1), output_location: tgt() },
                put([&x[..], &y[..]].concat()),
            ));
        }
        for at in [0, 1, 32, n / 2, n - 33, n - 1] {
            let mut x = a.clone();
            x[at] ^= 0x40;
            v.push(case(format!("CompareSecret {n} changed at {at}"), vec![a.clone()], CompareSecret { location: src(0), expected: x }, nothing(vec![0])));
        }
        for cut in [n - 1, n.saturating_sub(256), 255, 0] {
            v.push(case(
                format!("CompareSecret {n} with its first {cut}"),
                vec![a.clone()],
                CompareSecret { location: src(0), expected: a[..cut].to_vec() },
                nothing(vec![(cut == n) as u8]),
            ));
        }
        v.push(case(format!("CompareSecret {n}"), vec![a.clone()], CompareSecret { location: src(0), expected: a.clone() }, nothing(vec![1])));
        for h in 0..3 {
            for (k, m) in [(&a, &b), (&b, &a)] {
                v.push(case(
                    format!("Hmac {h} key {} message {}", k.len(), m.len()),
                    vec![k.clone()],
                    Hmac { hash_type: hash_type(h), msg: m.clone(), key: src(0) },
                    nothing(hmac(h, k, m)),
                ));
            }
            for (i, s, l) in [(&a, &b, &b), (&b, &a, &b), (&b, &b, &a)] {
                v.push(case(
                    format!("Hkdf {h} ikm {} salt {} label {}", i.len(), s.len(), l.len()),
                    vec![i.clone()],
                    Hkdf { hash_type: hash_type(h), salt: s.clone(), label: l.clone(), ikm: src(0), okm: tgt() },
                    put(hkdf(h, s, i, l)),
                ));
            }
            for (p, s) in [(&a, &b), (&b, &a)] {
                v.push(case(
                    format!("Pbkdf2Hmac {h} password {} salt {}", p.len(), s.len()),
                    vec![],
                    Pbkdf2Hmac { hash_type: hash_type(h), password: p.clone(), salt: s.clone(), count: 2.try_into().unwrap(), output: tgt() },
                    put(pbkdf2(h, p, s, 2)),
                ));
            }
            for at in 0..6 {
                let f = |i: usize| if i == at { a.clone() } else { b.clone() };
                let alg: String = f(1).iter().map(|b| (b % 26 + b'a') as char).collect();
                v.push(case(
                    format!("ConcatKdf {h} argument {at} of {n}"),
                    vec![f(0)],
                    ConcatKdf {
                        hash: hash_type(h),
                        algorithm_id: alg.clone(),
                        shared_secret: src(0),
                        key_len: 32,
                        apu: f(2),
                        apv: f(3),
                        pub_info: f(4),
                        priv_info: f(5),
                        output: tgt(),
                    },
                    put(concat_kdf(h, &f(0), 32, &alg, &f(2), &f(3), &f(4), &f(5))),
                ));
            }
            v.push(case(
                format!("ConcatKdf {h} length {n}"),
                vec![b.clone()],
                ConcatKdf {
                    hash: hash_type(h),
                    algorithm_id: "a".into(),
                    shared_secret: src(0),
                    key_len: n,
                    apu: vec![],
                    apv: vec![],
                    pub_info: vec![],
                    priv_info: vec![],
                    output: tgt(),
                },
                put(concat_kdf(h, &b, n, "a", &[], &[], &[], &[])),
            ));
        }
        let k = ed25519::SecretKey::from_bytes(noise(32, 5)[..].try_into().unwrap());
        v.push(case(
            format!("Ed25519Sign message {n}"),
            vec![noise(32, 5)],
            Ed25519Sign { msg: a.clone(), private_key: src(0) },
            nothing(k.sign(&a).to_bytes().to_vec()),
        ));
        for gcm in [true, false] {
            let cipher = if gcm { AeadCipher::Aes256Gcm } else { AeadCipher::XChaCha20Poly1305 };
            let (key, nonce) = (noise(32, 6), noise(if gcm { 12 } else { 24 }, 7));
            for (ad, pt) in [(&a, &b), (&b, &a)] {
                let (tag, ct) = aead(gcm, &key, &nonce, ad, pt).unwrap();
                let name = format!("gcm={gcm} ad {} text {}", ad.len(), pt.len());
                v.push(case(
                    format!("AeadEncrypt {name}"),
                    vec![key.clone()],
                    AeadEncrypt { cipher, associated_data: ad.clone(), plaintext: pt.clone(), nonce: nonce.clone(), key: src(0) },
                    nothing([&tag[..], &ct[..]].concat()),
                ));
                let mut dec = |what: String, ct: &[u8], ad: &[u8], ok: bool| {
                    v.push(case(
                        format!("AeadDecrypt {name} {what}"),
                        vec![key.clone()],
                        AeadDecrypt {
                            cipher,
                            associated_data: ad.to_vec(),
                            ciphertext: ct.to_vec(),
                            tag: tag.clone(),
                            nonce: nonce.clone(),
                            key: src(0),
                        },
                        if ok { nothing(pt.clone()) } else { None },
                    ))
                };
                dec("as encrypted".into(), &ct, ad, true);
                for at in [0, 64, n / 2, n - 1] {
                    let mut x = if ad.len() == n { ad.clone() } else { ct.clone() };
                    x[at] ^= 4;
                    if ad.len() == n {
                        dec(format!("associated data changed at {at}"), &ct, &x, false);
                    } else {
                        dec(format!("text changed at {at}"), &x, ad, false);
                    }
                }
            }
        }
        if n % 8 == 0 {
            let key = noise(32, 8);
            let mut w = vec![0; n + 8];
            Aes256Kw::new(&key).wrap_key(&a, &mut w).unwrap();
            v.push(case(
                format!("AesKeyWrapEncrypt secret {n}"),
                vec![key.clone(), a.clone()],
                AesKeyWrapEncrypt { cipher: AesKeyWrapCipher::Aes256, encryption_key: src(0), wrap_key: src(1) },
                nothing(w.clone()),
            ));
            let mut bad = w.clone();
            bad[n] ^= 1;
            for (w, ok) in [(w, true), (bad, false)] {
                v.push(case(
                    format!("AesKeyWrapDecrypt wrapped {n} {ok}"),
                    vec![key.clone()],
                    AesKeyWrapDecrypt { cipher: AesKeyWrapCipher::Aes256, decryption_key: src(0), wrapped_key: w, output: tgt() },
                    if ok { put(a.clone()) } else { None },
                ));
            }
        }
        let text: String = a.iter().map(|b| (b % 26 + b'a') as char).collect();
        for (m, p) in [(text.clone(), "p".to_string()), ("no mnemonic".to_string(), text.clone())] {
            let mut seed = [0u8; 64];
            bip39::mnemonic_to_seed(&m, &p, &mut seed);
            v.push(case(
                format!("BIP39Recover mnemonic {} passphrase {}", m.len(), p.len()),
                vec![],
                BIP39Recover { passphrase: Some(p), mnemonic: m, output: tgt() },
                put(seed.to_vec()),
            ));
        }
        let seed = slip10::Seed::from_bytes(&a);
        let chain = Chain::from_u32(vec![slip10::Segment::HARDEN_MASK]);
        let k = seed.derive(slip10::Curve::Ed25519, &chain).unwrap();
        v.push(case(
            format!("Slip10Derive seed {n}"),
            vec![a.clone()],
            Slip10Derive { chain, input: Slip10DeriveInput::Seed(src(0)), output: tgt() },
            Some((Out::Exactly(k.chain_code().to_vec()), Put::Exactly(k.into()))),
        ));
    }
    for count in [255u32, 256, 257, 1000, 1023, 2048, 4096, 4097, 10_000, 65_535, 65_536, 65_537, 100_000, if th { 1_000_000 } else { 200_000 }] {
        for h in 0..3 {
            v.push(case(
                format!("Pbkdf2Hmac {h} count {count}"),
                vec![],
                Pbkdf2Hmac { hash_type: hash_type(h), password: noise(9, 1), salt: noise(9, 2), count: count.try_into().unwrap(), output: tgt() },
                put(pbkdf2(h, &noise(9, 1), &noise(9, 2), count)),
            ));
        }
    }
    // long chains of derivation, with other indices than the small ones
    for n in (1..=40usize).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]) {
        for step in [1u32, 0x0101_0101, 0x7fff_ffff] {
            let ch: Vec<u32> = (0..n as u32).map(|i| slip10::Segment::HARDEN_MASK | i.wrapping_mul(step)).collect();
            let chain = Chain::from_u32(ch);
            let s = noise(64, 3);
            let k = slip10::Seed::from_bytes(&s).derive(slip10::Curve::Ed25519, &chain).unwrap();
            v.push(case(
                format!("Slip10Derive seed, chain of {n} by {step:x}"),
                vec![s.clone()],
                Slip10Derive { chain: chain.clone(), input: Slip10DeriveInput::Seed(src(0)), output: tgt() },
                Some((Out::Exactly(k.chain_code().to_vec()), Put::Exactly(k.into()))),
            ));
            let k = slip10::Key::try_from(&s[..]).unwrap().derive(&chain).unwrap();
            v.push(case(
                format!("Slip10Derive key, chain of {n} by {step:x}"),
                vec![s],
                Slip10Derive { chain, input: Slip10DeriveInput::Key(src(0)), output: tgt() },
                Some((Out::Exactly(k.chain_code().to_vec()), Put::Exactly(k.into()))),
            ));
        }
    }
    v
}

fn length_is(c: &Client, n: usize) -> Result<(), String> {
    // the length shows in the wrapped length or in a comparison of a concatenation: use Hmac-free means
    let tmp = loc("target vault", "length probe");
    // wrap pads nothing, so take CompareSecret over all-zero only for n == 0
    if n == 0 {
        return (holds(c, &tgt(), &[]) == Ok(true)).then_some(()).ok_or("secret is not empty".into());
    }
    if n % 8 == 0 {
        c.vault("target vault").write_secret(tmp.clone(), vec![5; 32]).map_err(|e| e.to_string())?;
        let w = c
            .execute_procedure(AesKeyWrapEncrypt { cipher: AesKeyWrapCipher::Aes256, encryption_key: tmp, wrap_key: tgt() })
            .map_err(|e| e.to_string())?;
        if w.len() != n + 8 {
            return Err(format!("secret has {} bytes, expected {n}", w.len() - 8));
        }
        let mut plain = vec![0; n];
        Aes256Kw::new(&[5; 32]).unwrap_key(&w, &mut plain).map_err(|e| e.to_string())?;
        if n >= 16 && plain.iter().all(|b| *b == plain[0]) {
            return Err("generated secret is not random".into());
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Placement {
    Plain,
    TargetLive,
    TargetSameVault,
    TargetIsSource,
    TargetRevoked,
    SourceMissingVault,
    SourceMissingRecord,
    SourceRevoked,
}
use Placement::*;
const PLACEMENTS: [Placement; 8] =
    [Plain, TargetLive, TargetSameVault, TargetIsSource, TargetRevoked, SourceMissingVault, SourceMissingRecord, SourceRevoked];

fn same(a: &Location, b: &Location) -> bool {
    a.vault_path() == b.vault_path() && format!("{a:?}") == format!("{b:?}")
}

fn uses(p: &StrongholdProcedure, l: &Location) -> bool {
    relocate_(p, l, l).1
}

/// Replace a location inside a procedure.
fn relocate(p: &StrongholdProcedure, from: &Location, to: &Location) -> StrongholdProcedure {
    relocate_(p, from, to).0
}

fn relocate_(p: &StrongholdProcedure, from: &Location, to: &Location) -> (StrongholdProcedure, bool) {
    use StrongholdProcedure as P;
    let hit = std::cell::Cell::new(false);
    let m = |l: &mut Location| {
        if same(l, from) {
            *l = to.clone();
            hit.set(true);
        }
    };
    let mut p = p.clone();
    match &mut p {
        P::WriteVault(x) => m(&mut x.location),
        P::RevokeData(x) => m(&mut x.location),
        P::GarbageCollect(_) => (),
        P::CopyRecord(x) => {
            m(&mut x.source);
            m(&mut x.target)
        }
        P::Slip10Generate(x) => m(&mut x.output),
        P::Slip10Derive(x) => {
            match &mut x.input {
                Slip10DeriveInput::Seed(l) | Slip10DeriveInput::Key(l) => m(l),
            }
            m(&mut x.output)
        }
        P::BIP39Generate(x) => m(&mut x.output),
        P::BIP39Recover(x) => m(&mut x.output),
        P::PublicKey(x) => m(&mut x.private_key),
        P::GenerateKey(x) => m(&mut x.output),
        P::Ed25519Sign(x) => m(&mut x.private_key),
        P::X25519DiffieHellman(x) => {
            m(&mut x.private_key);
            m(&mut x.shared_key)
        }
        P::Hmac(x) => m(&mut x.key),
        P::Hkdf(x) => {
            m(&mut x.ikm);
            m(&mut x.okm)
        }
        P::ConcatKdf(x) => {
            m(&mut x.shared_secret);
            m(&mut x.output)
        }
        P::AesKeyWrapEncrypt(x) => {
            m(&mut x.encryption_key);
            m(&mut x.wrap_key)
        }
        P::AesKeyWrapDecrypt(x) => {
            m(&mut x.decryption_key);
            m(&mut x.output)
        }
        P::Pbkdf2Hmac(x) => m(&mut x.output),
        P::AeadEncrypt(x) => m(&mut x.key),
        P::AeadDecrypt(x) => m(&mut x.key),
        P::ConcatSecret(x) => {
            m(&mut x.location_a);
            m(&mut x.location_b);
            m(&mut x.output_location)
        }
        P::CompareSecret(x) => m(&mut x.location),
    }
    (p, hit.get())
}

fn run_case(case: &Case, pl: Placement, out: &mut Outcome) -> Result<(), String> {
    let c = Client::default();
    let e = |x: ClientError| x.to_string();
    let n = case.secrets.len();
    for (i, s) in case.secrets.iter().enumerate() {
        c.vault("source vault").write_secret(src(i), s.clone()).map_err(e)?;
    }
    c.vault("target vault").write_secret(loc("target vault", "bystander"), b"bystander".to_vec()).map_err(e)?;
    let puts = matches!(case.want, Some((_, Put::Exactly(_) | Put::Any)))
        || uses(&case.proc, &tgt());
    let mut proc = case.proc.clone();
    let mut target = tgt();
    let mut refuse = case.want.is_none();
    let mut source_kept = true;
    match pl {
        Plain => (),
        TargetLive => c.vault("target vault").write_secret(tgt(), b"old".to_vec()).map_err(e)?,
        TargetSameVault => {
            target = loc("source vault", "target");
            proc = relocate(&proc, &tgt(), &target);
        }
        TargetIsSource => {
            target = src(0);
            proc = relocate(&proc, &tgt(), &target);
            source_kept = false;
        }
        TargetRevoked => {
            c.vault("target vault").write_secret(tgt(), b"old".to_vec()).map_err(e)?;
            c.vault("target vault").revoke_secret("target").map_err(e)?;
            refuse = true;
        }
        SourceMissingVault => {
            proc = relocate(&proc, &src(0), &loc("no vault", "src 0"));
            refuse = true;
        }
        SourceMissingRecord => {
            proc = relocate(&proc, &src(0), &loc("source vault", "no record"));
            refuse = true;
        }
        SourceRevoked => {
            c.vault("source vault").revoke_secret("src 0").map_err(e)?;
            refuse = true;
        }
    }
    let r = guard(|| c.execute_procedure_chained(vec![proc.clone()])).map_err(|p| format!("panic: {p}"));
    out.count("calls", 1);
    let bystander = |c: &Client| -> Result<(), String> {
        for (i, s) in case.secrets.iter().enumerate() {
            if i == 0 && (!source_kept && r.as_ref().map(|r| r.is_ok()).unwrap_or(false) || pl == SourceRevoked) {
                continue;
            }
            if holds(c, &src(i), s) != Ok(true) {
                return Err(format!("the source secret {i} changed"));
            }
        }
        if holds(c, &loc("target vault", "bystander"), b"bystander") != Ok(true) {
            return Err("another record of the target vault changed or became unusable".into());
        }
        c.vault("target vault").write_secret(loc("target vault", "new"), vec![1]).map_err(|e| format!("client unusable afterwards: {e}"))?;
        c.vault("fresh vault").write_secret(loc("fresh vault", "new"), vec![1]).map_err(|e| format!("client unusable afterwards: {e}"))?;
        Ok(())
    };
    let r = match &r {
        Err(p) => return Err(format!("{p}{}", bystander(&c).err().map(|e| format!("; then: {e}")).unwrap_or_default())),
        Ok(r) => r,
    };
    match r {
        Ok(_) if refuse => return Err("accepted, must be refused".into()),
        Err(e) if !refuse && !case.may_fail => return Err(format!("refused: {e}")),
        Err(_) => {
            bystander(&c)?;
            let old = match pl {
                TargetLive => Some(b"old".to_vec()),
                TargetIsSource if n > 0 => Some(case.secrets[0].clone()),
                _ => None,
            };
            match old {
                Some(o) if holds(&c, &target, &o) != Ok(true) => return Err("the target changed although the procedure failed".into()),
                None if puts && (holds(&c, &target, b"").is_ok() || c.record_exists(&target).unwrap_or(true)) => {
                    return Err("a record was created although the procedure failed".into())
                }
                _ => (),
            }
            out.see(&("refused", &case.name));
        }
        Ok(outs) => {
            let got: Vec<u8> = match outs.as_slice() {
                [o] => o.clone().into(),
                o => return Err(format!("{} outputs", o.len())),
            };
            let (wo, wp) = case.want.as_ref().unwrap();
            if let Out::Exactly(w) = wo {
                if *w != got {
                    return Err(format!("output {got:02x?}, expected {w:02x?}"));
                }
            }
            match wp {
                Put::Exactly(s) => match holds(&c, &target, s) {
                    Ok(true) => (),
                    x => return Err(format!("the stored secret is not the expected one ({x:?})")),
                },
                Put::Any => {
                    holds(&c, &target, b"?").map_err(|e| format!("nothing stored: {e}"))?;
                }
                Put::Nothing => {
                    if pl == Plain && (holds(&c, &target, b"").is_ok() || c.record_exists(&target).unwrap_or(true)) {
                        return Err("the target exists".into());
                    }
                }
            }
            if let (Some(t), true) = (&case.then, pl == Plain) {
                t(&c, &got)?;
            }
            bystander(&c)?;
            out.see(&("ok", &case.name, &got));
        }
    }
    Ok(())
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C20", tier, "model_checking");
    let th = rep.thorough();
    let mut cases = cases(th);
    // the placements are applied to one representative per kind of procedure and outcome, and to all in the thorough tier
    let mut work: Vec<(usize, Placement)> = vec![];
    let mut seen = std::collections::HashMap::new();
    for (i, c) in cases.iter().enumerate() {
        work.push((i, Plain));
        let kind = (c.name.split(' ').next().unwrap().to_string(), c.want.is_some());
        let k = seen.entry(kind).or_insert(0);
        *k += 1;
        if *k > if th { 60 } else { 12 } {
            continue;
        }
        for p in PLACEMENTS {
            let uses_target = uses(&c.proc, &tgt());
            let uses_source = uses(&c.proc, &src(0));
            let ok = match p {
                Plain => false,
                TargetLive | TargetSameVault | TargetRevoked => uses_target,
                TargetIsSource => uses_target && uses_source,
                _ => uses_source && !c.secrets.is_empty(),
            };
            if ok {
                work.push((i, p));
            }
        }
    }
    let short = cases.len();
    cases.extend(long_cases(th));
    work.extend((short..cases.len()).map(|i| (i, Plain)));
    rep.set("cases_with_long_arguments", serde_json::json!(cases.len() - short));
    let describe = |i: u64| format!("{} {:?}", cases[work[i as usize].0].name, work[i as usize].1);
    let o = run_cases(
        work.len() as u64,
        60,
        &|i, out| {
            let (ci, pl) = work[i as usize];
            let r = run_case(&cases[ci], pl, out);
            if let Err(e) = r {
                out.fail(format!("{}: {}", describe(i), first_line(&e)), format!("{}: {e}", describe(i)));
            }
            if i % 500 == 3 {
                out.sample(|| describe(i));
            }
        },
        &describe,
    );
    rep.absorb("procedures", o);
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("calls"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.finish()
}
