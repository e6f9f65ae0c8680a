//! C19: secrets never leave a vault in the clear. Every way to put a secret into a vault is combined with every
//! way data leaves it, and everything that leaves is searched for every secret.
use crate::c08::{initial, kind, l, KINDS};
use crate::util::*;
use engine::runtime::locked_memory::LockedMemory;
use engine::runtime::memories::{buffer::Buffer, frag::FragStrategy, file_memory::FileMemory, noncontiguous_memory::*, ram_memory::RamMemory};
use engine::vault::{ClientId, Key, NCKey};
use iota_stronghold::internal::Provider;
use iota_stronghold::procedures::*;
use iota_stronghold::sync::{SyncClientsConfig, SyncSnapshotsConfig};
use iota_stronghold::utils::LoadFromPath;
use iota_stronghold::*;
use mc::*;
use std::fmt::{Debug, Display};

const W: usize = 8;

/// Everything that left the system, and the secrets that were in it.
#[derive(Default)]
struct Net {
    raw: Vec<(String, Vec<u8>)>,
    text: Vec<(String, String)>,
    secrets: Vec<(String, Vec<u8>)>,
}

impl Net {
    fn secret(&mut self, name: impl Into<String>, b: &[u8]) {
        if b.len() >= W && !self.secrets.iter().any(|s| s.1 == b) {
            self.secrets.push((name.into(), b.to_vec()));
        }
    }
    fn bytes(&mut self, name: impl Into<String>, b: &[u8]) {
        self.raw.push((name.into(), b.to_vec()));
    }
    fn debug<T: Debug + ?Sized>(&mut self, name: impl Into<String>, t: &T) {
        let n = name.into();
        self.text.push((format!("Debug of {n}"), format!("{t:?}")));
        self.text.push((format!("Debug of {n} (pretty)"), format!("{t:#?}")));
        self.text.push((format!("Debug of {n} (hex)"), format!("{t:x?}")));
    }
    fn display<T: Display + ?Sized>(&mut self, name: impl Into<String>, t: &T) {
        self.text.push((format!("Display of {}", name.into()), t.to_string()));
    }
    fn error<E: Debug + Display>(&mut self, name: &str, e: &E) {
        self.debug(format!("the error of {name}"), e);
        self.display(format!("the error of {name}"), e);
    }

    fn check(&self, out: &mut Outcome) -> Result<(), String> {
        use std::collections::HashMap;
        // index of all windows of all secrets
        let mut idx: HashMap<[u8; W], &str> = HashMap::new();
        for (n, s) in &self.secrets {
            for w in s.windows(W) {
                // constant runs are no evidence
                if w.iter().all(|b| *b == w[0]) && w[0] < 4 {
                    continue;
                }
                idx.insert(w.try_into().unwrap(), n);
            }
        }
        let raw = |b: &[u8]| b.windows(W).find_map(|w| idx.get(<&[u8; W]>::try_from(w).unwrap())).copied();
        for (n, b) in &self.raw {
            out.count("bytes searched", b.len() as u64);
            if let Some(s) = raw(b) {
                return Err(format!("{n} contains bytes of {s}"));
            }
        }
        for (n, t) in &self.text {
            out.count("bytes searched", t.len() as u64);
            for (how, d) in decodings(t) {
                if let Some(s) = raw(&d) {
                    return Err(format!("{n} contains bytes of {s} ({how})"));
                }
            }
        }
        for (n, b) in &self.raw {
            // text hidden in binary artefacts
            for (how, d) in decodings(&String::from_utf8_lossy(b)).into_iter().skip(1) {
                if let Some(s) = raw(&d) {
                    return Err(format!("{n} contains bytes of {s} ({how})"));
                }
            }
        }
        Ok(())
    }
}

/// Ways in which bytes may be written as text.
fn decodings(t: &str) -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![("as is", t.as_bytes().to_vec())];
    // hexadecimal, both phases
    for phase in 0..2 {
        let digits: Vec<Option<u8>> = t.chars().map(|c| c.to_digit(16).map(|d| d as u8)).collect();
        let mut d = vec![];
        for p in digits[phase.min(digits.len())..].chunks(2) {
            match p {
                [Some(a), Some(b)] => d.push(a * 16 + b),
                _ => d.push(0),
            }
        }
        v.push(("in hex", d));
    }
    // lists of numbers
    let number = |radix: u32| {
        let mut d = vec![];
        for tok in t.split(|c: char| !c.is_ascii_alphanumeric()).filter(|s| !s.is_empty()) {
            let tok = tok.strip_prefix("0x").unwrap_or(tok);
            match u8::from_str_radix(tok, radix) {
                Ok(b) => d.push(b),
                Err(_) => d.extend([0, 0]),
            }
        }
        d
    };
    v.push(("as decimal numbers", number(10)));
    v.push(("as hexadecimal numbers", number(16)));
    // escaped strings
    let mut d = vec![];
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            let mut b = [0; 4];
            d.extend(c.encode_utf8(&mut b).bytes());
            continue;
        }
        match it.next() {
            Some('n') => d.push(b'\n'),
            Some('r') => d.push(b'\r'),
            Some('t') => d.push(b'\t'),
            Some('0') => d.push(0),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                d.push(u8::from_str_radix(&h, 16).unwrap_or(0));
            }
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                d.push(u32::from_str_radix(&h, 16).unwrap_or(0) as u8);
            }
            Some(c) => d.push(c as u8),
            None => (),
        }
    }
    v.push(("escaped", d));
    // base64, all phases
    for phase in 0..4 {
        let s: Vec<u8> = t.bytes().filter(|b| !b.is_ascii_whitespace()).skip(phase).collect();
        let mut d = vec![];
        for q in s.chunks(4) {
            let val = |c: u8| match c {
                b'A'..=b'Z' => Some(c - b'A'),
                b'a'..=b'z' => Some(c - b'a' + 26),
                b'0'..=b'9' => Some(c - b'0' + 52),
                b'+' | b'-' => Some(62),
                b'/' | b'_' => Some(63),
                _ => None,
            };
            let x: Vec<u8> = q.iter().filter_map(|c| val(*c)).collect();
            if x.len() == 4 {
                d.extend([x[0] << 2 | x[1] >> 4, x[1] << 4 | x[2] >> 2, x[2] << 6 | x[3]]);
            } else {
                d.push(0);
            }
        }
        v.push(("in base64", d));
    }
    v
}

fn pattern(i: usize) -> Vec<u8> {
    match i {
        0 => (0..32).map(|x: u8| 0xC1u8.wrapping_add(x.wrapping_mul(37))).collect(),
        1 => b"Tr0ub4dor&3/qwzx!77k#vjp;MUg^5 ".repeat(30),
        2 => b"8 bytes!".to_vec(),
        3 => (0..4096u32).map(|x| (x.wrapping_mul(2654435761) >> 13) as u8).collect(),
        _ => vec![0xEE; 64],
    }
}
const PATTERNS: usize = 5;

/// How a secret gets into the vault.
#[derive(Clone, Copy, Debug)]
enum Put {
    Write(usize),
    WriteProc(usize),
    Make(usize),
    /// a chain that uses its own products and fails or succeeds
    Chain(usize, bool),
}
/// What happens to it afterwards.
#[derive(Clone, Copy, Debug)]
enum Then {
    Nothing,
    Use,
    Revoke,
    Collect,
    Overwrite,
    Reload,
    Sync,
    Purge,
}
const THEN: [Then; 8] =
    [Then::Nothing, Then::Use, Then::Revoke, Then::Collect, Then::Overwrite, Then::Reload, Then::Sync, Then::Purge];

fn snapshot_key() -> Vec<u8> {
    (0..32).map(|i| 0x48 ^ (i as u8 * 7)).collect()
}
fn provider() -> KeyProvider {
    KeyProvider::try_from(snapshot_key()).unwrap()
}

/// the secrets in a snapshot file, and the form in which its clients keep them
fn decode(p: &SnapshotPath, clients: &[&str], net: &mut Net) -> Result<(), String> {
    let key: [u8; 32] = snapshot_key().try_into().unwrap();
    let snap = Snapshot::read_from_snapshot(p, key, None).map_err(|e| format!("read: {e}"))?;
    for c in clients {
        let id = ClientId::load_from_path(c.as_bytes(), c.as_bytes());
        if !snap.has_data(id) {
            continue;
        }
        let (keys, db, _) = snap.get_state(id).map_err(|e| e.to_string())?;
        for v in db.list_vaults() {
            let Some(k) = keys.get(&v) else { continue };
            let kb = k.key.borrow().to_vec();
            net.secret("a vault key", &kb);
            for r in db.list_records(&v) {
                let _ = db.get_guard::<std::convert::Infallible, _>(k, v, r, |b| {
                    net.secret(format!("a record of client {c}"), &b.borrow());
                    Ok(())
                });
            }
            // the records as they are kept
            for (_, rec) in db.export_records(v, db.list_records(&v)).map_err(|e| e.to_string())? {
                net.bytes("a stored record", &bincode::serialize(&rec).unwrap());
            }
            net.debug("a vault key", k);
        }
        net.debug("a client id", &id);
    }
    Ok(())
}

fn scenario(put: Put, then: Then, out: &mut Outcome) -> Result<(), String> {
    let e = |x: ClientError| x.to_string();
    let pe = |x: ProcedureError| x.to_string();
    let dir = Scratch::new("c19");
    let path = SnapshotPath::from_path(dir.path().join("snapshot"));
    let mut net = Net::default();
    net.secret("the snapshot key", &snapshot_key());
    let s = Stronghold::default();
    let c = s.create_client("client").map_err(e)?;
    // the inputs of the procedures
    for i in [3usize, 4] {
        let b: Vec<u8> = (0..initial(i).len()).map(|x| (x as u8).wrapping_mul(29) ^ (0x31 + i as u8)).collect();
        net.secret(format!("the input {i}"), &b);
        c.vault(l(i).vault_path()).write_secret(l(i), b).map_err(e)?;
    }
    let target = loc("v4", "target");
    let mut procs: Vec<StrongholdProcedure> = vec![];
    let mut outputs: Vec<(String, Vec<u8>)> = vec![];
    let input3 = net.secrets[1].1.clone();
    let make = |k: usize, t: Location| -> StrongholdProcedure {
        if k == 11 {
            use crypto::ciphers::aes_kw::Aes256Kw;
            let mut w = vec![0; 40];
            Aes256Kw::new(&input3).wrap_key(&pattern(0), &mut w).unwrap();
            return AesKeyWrapDecrypt {
                cipher: AesKeyWrapCipher::Aes256,
                decryption_key: l(3),
                wrapped_key: w,
                output: t,
            }
            .into();
        }
        kind(k, t)
    };
    match put {
        Put::Write(p) => {
            net.secret("the written secret", &pattern(p));
            c.vault("v4").write_secret(target.clone(), pattern(p)).map_err(e)?;
        }
        Put::WriteProc(p) => {
            net.secret("the written secret", &pattern(p));
            procs.push(WriteVault { data: pattern(p), location: target.clone() }.into());
        }
        Put::Make(k) => procs.push(make(k, target.clone())),
        Put::Chain(k, good) => {
            net.secret("the written secret", &pattern(1));
            procs.push(WriteVault { data: pattern(1), location: loc("v5", "w") }.into());
            procs.push(make(k, target.clone()));
            procs.push(CopyRecord { source: target.clone(), target: loc("v5", "copy") }.into());
            if !good {
                procs.push(Ed25519Sign { msg: vec![1], private_key: loc("v5", "none") }.into());
            }
        }
    }
    for p in &procs {
        net.debug(format!("{p:?}"), p);
    }
    if let Put::Make(k) = put {
        if k > 0 {
            // the argument of the procedure that writes is a secret itself
            debug_parts(&make(k, target.clone()), &mut net);
        }
    }
    if !procs.is_empty() {
        let chain_code = matches!(put, Put::Make(3 | 14) | Put::Chain(3 | 14, _));
        match c.execute_procedure_chained(procs.clone()) {
            Ok(o) => {
                for (i, o) in o.into_iter().enumerate() {
                    if !chain_code {
                        net.debug("an output", &o);
                    }
                    outputs.push((format!("output {i}"), o.into()));
                }
            }
            Err(er) => net.error("the chain", &er),
        }
        // a SLIP-10 key is kept together with its chain code, and the chain code is what the call returns
        if !chain_code {
            for (n, o) in &outputs {
                net.bytes(n.clone(), o);
            }
        }
    }
    // uses of the secret
    if let Then::Use = then {
        let uses: Vec<StrongholdProcedure> = vec![
            PublicKey { ty: KeyType::Ed25519, private_key: target.clone() }.into(),
            PublicKey { ty: KeyType::X25519, private_key: target.clone() }.into(),
            Ed25519Sign { msg: b"message".to_vec(), private_key: target.clone() }.into(),
            Hmac { hash_type: Sha2Hash::Sha256, msg: b"message".to_vec(), key: target.clone() }.into(),
            Hmac { hash_type: Sha2Hash::Sha512, msg: vec![], key: target.clone() }.into(),
            AeadEncrypt {
                cipher: AeadCipher::Aes256Gcm,
                associated_data: vec![],
                plaintext: b"text".to_vec(),
                nonce: vec![1; 12],
                key: target.clone(),
            }
            .into(),
            AeadEncrypt {
                cipher: AeadCipher::XChaCha20Poly1305,
                associated_data: vec![],
                plaintext: vec![],
                nonce: vec![1; 24],
                key: target.clone(),
            }
            .into(),
            AeadDecrypt {
                cipher: AeadCipher::Aes256Gcm,
                associated_data: vec![],
                ciphertext: vec![1; 20],
                tag: vec![2; 16],
                nonce: vec![3; 12],
                key: target.clone(),
            }
            .into(),
            AesKeyWrapEncrypt { cipher: AesKeyWrapCipher::Aes256, encryption_key: l(3), wrap_key: target.clone() }.into(),
            AesKeyWrapEncrypt { cipher: AesKeyWrapCipher::Aes256, encryption_key: target.clone(), wrap_key: l(3) }.into(),
            CompareSecret { location: target.clone(), expected: vec![] }.into(),
            X25519DiffieHellman { public_key: [5; 32], private_key: target.clone(), shared_key: loc("v5", "s") }.into(),
            Hkdf { hash_type: Sha2Hash::Sha256, salt: vec![], label: vec![], ikm: target.clone(), okm: loc("v5", "h") }.into(),
            ConcatSecret { location_a: target.clone(), location_b: l(4), output_location: loc("v5", "c") }.into(),
            GarbageCollect { vault_path: b"v4".to_vec() }.into(),
        ];
        for u in uses {
            net.debug("a procedure", &u);
            let name = format!("use {}", outputs.len());
            match c.execute_procedure_chained(vec![u]) {
                Ok(o) => {
                    for o in o {
                        net.debug("an output", &o);
                        let b: Vec<u8> = o.into();
                        net.bytes("an output", &b);
                        outputs.push((name.clone(), b));
                    }
                }
                Err(er) => net.error(&name, &er),
            }
        }
    }
    // what the program can look at
    let look = |net: &mut Net| -> Result<(), String> {
        net.debug("Stronghold", &s);
        net.debug("Client", &c);
        net.debug("a location", &target);
        net.debug("SnapshotPath", &path);
        net.display("SnapshotPath", &path);
        net.debug("KeyProvider", &provider());
        net.debug("UseKey", &UseKey::Key(snapshot_key().try_into().unwrap()));
        net.debug("UseKey stored", &UseKey::Stored(target.clone()));
        net.debug("the keys of the store", &c.store().keys().map_err(|x| x.to_string())?);
        Ok(())
    };
    look(&mut net)?;
    let file = |net: &mut Net, name: &str| -> Result<(), String> {
        for f in std::fs::read_dir(dir.path()).map_err(|x| x.to_string())?.flatten() {
            if f.path().is_dir() {
                continue;
            }
            let b = std::fs::read(f.path()).map_err(|x| x.to_string())?;
            net.bytes(format!("the file {name} ({:?})", f.file_name().to_string_lossy().len()), &b);
        }
        Ok(())
    };
    // first commit: also tells the secrets that were made inside
    s.commit_with_keyprovider(&path, &provider()).map_err(|x| x.to_string())?;
    file(&mut net, "of the first commit")?;
    decode(&path, &["client"], &mut net)?;
    match then {
        Then::Nothing | Then::Use => (),
        Then::Revoke => {
            c.execute_procedure(RevokeData { location: target.clone(), should_gc: false }).map_err(pe)?;
        }
        Then::Collect => {
            c.execute_procedure(RevokeData { location: target.clone(), should_gc: true }).map_err(pe)?;
        }
        Then::Overwrite => {
            let _ = c.vault("v4").write_secret(target.clone(), pattern(0));
            net.secret("the second secret", &pattern(0));
        }
        Then::Reload => {
            let n = Stronghold::default();
            let c2 = n.load_client_from_snapshot("client", &provider(), &path).map_err(e)?;
            net.debug("a loaded Stronghold", &n);
            net.debug("a loaded Client", &c2);
            // the wrong key
            let wrong = Stronghold::default();
            if let Err(er) = wrong.load_client_from_snapshot("client", &kp(1), &path) {
                net.error("loading with the wrong key", &er);
            }
            if let Err(er) = n.load_client("nobody") {
                net.error("loading a missing client", &er);
            }
            let p2 = SnapshotPath::from_path(dir.path().join("missing/dir/file"));
            if let Err(er) = n.commit_with_keyprovider(&p2, &provider()) {
                net.error("committing to a missing directory", &er);
            }
            n.commit_with_keyprovider(&path, &provider()).map_err(|x| x.to_string())?;
        }
        Then::Sync => {
            let d = s.create_client("other").map_err(e)?;
            let cfg = SyncClientsConfig::new(iota_stronghold::sync::MergePolicy::Replace);
            net.debug("a configuration", &cfg);
            d.sync_with(&c, cfg).map_err(e)?;
            net.debug("the synchronised client", &d);
        }
        Then::Purge => {
            s.purge_client(c.clone()).map_err(e)?;
        }
    }
    s.commit_with_keyprovider(&path, &provider()).map_err(|x| x.to_string())?;
    file(&mut net, "of the second commit")?;
    decode(&path, &["client", "other"], &mut net)?;
    look(&mut net)?;
    // exports
    let key: [u8; 32] = snapshot_key().try_into().unwrap();
    let snap = Snapshot::read_from_snapshot(&path, key, None).map_err(|x| x.to_string())?;
    let secret = crypto::keys::x25519::SecretKey::from_bytes([0x77; 32]);
    let other_secret = crypto::keys::x25519::SecretKey::from_bytes(std::array::from_fn(|i| 0x90 ^ i as u8 * 5));
    net.secret("the private key of the exchange", other_secret.to_bytes().as_slice());
    for pk in [secret.public_key(), other_secret.public_key()] {
        let mut sel: std::collections::HashMap<ClientId, std::collections::HashMap<_, Vec<_>>> = Default::default();
        for name in ["client", "other"] {
            let id = ClientId::load_from_path(name.as_bytes(), name.as_bytes());
            if !snap.has_data(id) {
                continue;
            }
            let (_, db, _) = snap.get_state(id).map_err(|x| x.to_string())?;
            sel.insert(id, db.list_vaults().into_iter().map(|v| (v, db.list_records(&v))).collect());
        }
        match snap.export_to_serialized_state(sel, pk) {
            Ok((_, b)) => net.bytes("an exported state", &b),
            Err(er) => net.error("the export", &er),
        }
    }
    let mut to = Snapshot::default();
    if let Err(er) = to.import_from_serialized_state(vec![1; 90], target.clone(), secret.public_key(), SyncSnapshotsConfig::default()) {
        net.error("an import", &er);
    }
    // errors of every procedure on what is not there
    for k in 0..KINDS {
        let r = c.execute_procedure_chained(vec![kind(k, target.clone()), CopyRecord { source: loc("no", "no"), target: target.clone() }.into()]);
        if let Err(er) = r {
            net.error("a failing chain", &er);
        }
    }
    for (i, n) in net.secrets.iter().enumerate() {
        out.see(&(i, n.1.len()));
    }
    out.count("secrets", net.secrets.len() as u64);
    out.count("things searched", (net.raw.len() + net.text.len()) as u64);
    net.check(out)
}

/// The individual procedure types, as a program formats them.
fn debug_parts(p: &StrongholdProcedure, net: &mut Net) {
    use StrongholdProcedure as P;
    match p {
        P::WriteVault(x) => net.debug("WriteVault", x),
        P::CopyRecord(x) => net.debug("CopyRecord", x),
        P::Slip10Generate(x) => net.debug("Slip10Generate", x),
        P::Slip10Derive(x) => net.debug("Slip10Derive", x),
        P::BIP39Generate(x) => net.debug("BIP39Generate", x),
        P::BIP39Recover(x) => net.debug("BIP39Recover", x),
        P::GenerateKey(x) => net.debug("GenerateKey", x),
        P::X25519DiffieHellman(x) => net.debug("X25519DiffieHellman", x),
        P::Hkdf(x) => net.debug("Hkdf", x),
        P::ConcatKdf(x) => net.debug("ConcatKdf", x),
        P::AesKeyWrapDecrypt(x) => net.debug("AesKeyWrapDecrypt", x),
        P::ConcatSecret(x) => net.debug("ConcatSecret", x),
        P::Pbkdf2Hmac(x) => net.debug("Pbkdf2Hmac", x),
        _ => (),
    }
}

/// Arguments that are secrets themselves, in the text of the types that carry them.
fn arguments(i: u64) -> Result<(), String> {
    let mut net = Net::default();
    let words = "legal winner thank year wave sausage worth useful legal winner thank yellow";
    let pass = "a passphrase nobody knows";
    let o = loc("v", "r");
    net.secret("the mnemonic", words.as_bytes());
    net.secret("the passphrase", pass.as_bytes());
    let p = pattern((i % PATTERNS as u64) as usize);
    net.secret("the secret", &p);
    match i / PATTERNS as u64 {
        0 => {
            let w = WriteVault { data: p.clone(), location: o };
            net.debug("WriteVault", &w);
            net.debug("StrongholdProcedure", &StrongholdProcedure::from(w));
        }
        1 => {
            let w = BIP39Generate { passphrase: Some(pass.into()), language: MnemonicLanguage::English, output: o };
            net.debug("BIP39Generate", &w);
            net.debug("StrongholdProcedure", &StrongholdProcedure::from(w));
        }
        2 => {
            let w = BIP39Recover { passphrase: Some(pass.into()), mnemonic: words.into(), output: o };
            net.debug("BIP39Recover", &w);
            net.debug("StrongholdProcedure", &StrongholdProcedure::from(w));
        }
        3 => {
            let w = Pbkdf2Hmac {
                hash_type: Sha2Hash::Sha256,
                password: pass.as_bytes().to_vec(),
                salt: vec![],
                count: std::num::NonZeroU32::new(1).unwrap(),
                output: o,
            };
            net.debug("Pbkdf2Hmac", &w);
            net.debug("StrongholdProcedure", &StrongholdProcedure::from(w));
        }
        4 => {
            let w = CompareSecret { location: o, expected: p.clone() };
            net.debug("StrongholdProcedure", &StrongholdProcedure::from(w));
        }
        5 => {
            let k: Vec<u8> = p.iter().copied().cycle().take(32).collect();
            net.secret("the key", &k);
            net.debug("UseKey", &UseKey::Key(k.clone().try_into().unwrap()));
            let key = Key::<Provider>::load(k.clone()).ok_or("no key")?;
            net.debug("Key", &key);
            let nc = NCKey::<Provider>::load(k.clone()).ok_or("no key")?;
            net.debug("NCKey", &nc);
            net.bytes("a sealed key", &nc.encrypt_key(&key, b"ad").map_err(|e| e.to_string())?);
            let kp = KeyProvider::try_from(k.clone()).map_err(|e| e.to_string())?;
            net.debug("KeyProvider", &kp);
            for bad in [vec![], k[..31].to_vec(), [&k[..], &[1]].concat()] {
                if let Err(e) = KeyProvider::try_from(bad) {
                    net.error("KeyProvider::try_from", &e);
                }
            }
            if let Ok(b) = kp.try_unlock() {
                net.debug("an unlocked key", &b);
            }
        }
        6 => {
            let b = Buffer::alloc(&p, p.len());
            net.debug("Buffer", &b);
            net.debug("Ref", &b.borrow());
            let mut m = b.clone();
            net.debug("RefMut", &m.borrow_mut());
        }
        7 => {
            let m = RamMemory::alloc(&p, p.len()).map_err(|e| e.to_string())?;
            net.debug("RamMemory", &m);
            net.debug("an unlocked RamMemory", &m.unlock().map_err(|e| e.to_string())?);
        }
        8 => {
            let k: Vec<u8> = p.iter().copied().cycle().take(32).collect();
            net.secret("the key", &k);
            for c in configs() {
                let m = NonContiguousMemory::alloc(&k, 32, c.clone()).map_err(|e| e.to_string())?;
                net.debug("NonContiguousMemory", &m);
                net.debug("an unlocked NonContiguousMemory", &m.unlock().map_err(|e| e.to_string())?);
                net.debug("NCConfig", &c);
            }
        }
        9 => {
            let m = FileMemory::alloc(&p, p.len()).map_err(|e| e.to_string())?;
            net.debug("FileMemory", &m);
            net.debug("an unlocked FileMemory", &m.unlock().map_err(|e| e.to_string())?);
        }
        _ => {
            let pass = p.clone();
            for r in [
                KeyProvider::with_passphrase_truncated(pass.clone()),
                KeyProvider::with_passphrase_hashed_blake2b(pass.clone()),
                KeyProvider::with_passphrase_hashed_argon2(pass.clone(), vec![1; 8]),
                KeyProvider::with_passphrase_hashed_argon2(pass.clone(), vec![]),
            ] {
                match r {
                    Ok(k) => net.debug("KeyProvider", &k),
                    Err(e) => net.error("a key provider", &e),
                }
            }
        }
    }
    net.check(&mut Outcome::default())
}
const ARGUMENTS: u64 = 11;

fn configs() -> Vec<NCConfig> {
    vec![
        NCConfig::FullRam,
        NCConfig::RamAndFile,
        NCConfig::FullFile,
        NCConfig::FragAllocation(FragStrategy::Direct),
        NCConfig::FragAllocation(FragStrategy::Map),
        NCConfig::FragAllocation(FragStrategy::Hybrid),
    ]
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C19", tier, "model_checking");
    let th = rep.thorough();
    // files of file memories go to a directory of their own
    let home = Scratch::new("c19-home");
    std::env::set_var("HOME", home.path());
    std::env::set_var("XDG_DATA_HOME", home.path());
    let describe = |i: u64| format!("argument type {} with pattern {}", i / PATTERNS as u64, i % PATTERNS as u64);
    let o = run_cases(
        ARGUMENTS * PATTERNS as u64,
        60,
        &|i, out| {
            out.see(&("arg", i));
            if let Err(e) = arguments(i) {
                out.fail(first_line(&e), format!("{}: {e}", describe(i)));
            }
        },
        &describe,
    );
    rep.absorb("types that carry secrets", o);

    let mut puts = vec![];
    for p in 0..PATTERNS {
        puts.push(Put::Write(p));
        puts.push(Put::WriteProc(p));
    }
    for k in 0..KINDS {
        puts.push(Put::Make(k));
        puts.push(Put::Chain(k, true));
        puts.push(Put::Chain(k, false));
    }
    let n = (puts.len() * THEN.len()) as u64;
    let reps = if th { 8 } else { 1 };
    let describe = |i: u64| format!("{:?} then {:?}", puts[(i % n) as usize / THEN.len()], THEN[(i % n) as usize % THEN.len()]);
    let o = run_cases(
        n * reps,
        60,
        &|i, out| {
            let r = scenario(puts[(i % n) as usize / THEN.len()], THEN[(i % n) as usize % THEN.len()], out);
            if let Err(e) = r {
                out.fail(first_line(&e), format!("{}: {e}", describe(i)));
            }
            if i % 97 == 3 {
                out.sample(|| describe(i));
            }
        },
        &describe,
    );
    rep.absorb("ways in, fates and ways out", o);
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("things searched"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.finish()
}
