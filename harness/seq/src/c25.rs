//! C25: everything random is fresh and complete, and without randomness nothing is made. The operating system's
//! random source is replaced by a stream the check controls: every byte of every call is flipped in turn, every call
//! is made to fail in turn, and every history up to a depth is searched for anything that occurs twice.
use crate::rnd::{self, Plan};
use crate::util::*;
use crypto::keys::x25519;
use engine::runtime::locked_memory::LockedMemory;
use engine::vault::{BoxProvider, ClientId, Key, NCKey, RecordId, VaultId};
use iota_stronghold::internal::Provider;
use iota_stronghold::procedures::*;
use iota_stronghold::sync::{MergePolicy, SyncClientsConfig};
use iota_stronghold::utils::LoadFromPath;
use iota_stronghold::*;
use mc::*;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Write(usize),
    WriteProc(usize),
    Ed(usize),
    X(usize),
    Bip(usize, bool),
    Slip(usize, Option<usize>),
    Copy(usize, usize),
    Revoke(usize),
    Collect,
    Sync,
    /// vault v of the client into its vault w
    Within,
    Export,
    Commit,
    Store,
    /// the snapshot is loaded into another instance, which goes on
    Reload,
}
use Op::*;
const PLACES: [(&str, &str); 3] = [("v", "a"), ("v", "b"), ("w", "a")];
fn place(i: usize) -> Location {
    loc(PLACES[i].0, PLACES[i].1)
}
const NAMES: [&str; 2] = ["c", "d"];
fn value(i: usize) -> Vec<u8> {
    (0..32).map(|k| (k as u8).wrapping_mul(37).wrapping_add(71 * (i as u8 + 1))).collect()
}

impl Op {
    fn target(&self) -> Option<usize> {
        match *self {
            Write(i) | WriteProc(i) | Ed(i) | X(i) | Bip(i, _) | Slip(i, _) | Copy(_, i) => Some(i),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Kind {
    Ephemeral,
    Key,
    Nonce,
    BlobId,
    Secret,
    Words,
}
use Kind::*;

#[derive(Default, Clone)]
struct Seen {
    atoms: BTreeMap<String, (Kind, Vec<u8>)>,
    /// boxes by name
    boxes: BTreeMap<String, Vec<u8>>,
}
impl Seen {
    fn atom(&mut self, name: String, k: Kind, b: &[u8]) {
        self.atoms.insert(name, (k, b.to_vec()));
    }
    fn sealed(&mut self, name: String, b: &[u8]) -> Result<(), String> {
        // tag, nonce, text
        let n = b.get(16..40).ok_or(format!("{name}: a box of {} bytes", b.len()))?;
        self.atom(format!("nonce of the {name}"), Nonce, n);
        self.boxes.insert(name, b.to_vec());
        Ok(())
    }
}

struct World {
    s: Stronghold,
    c: [Client; 2],
    dir: Scratch,
    extra: Seen,
}
const SNAP: u8 = 0x5b;

impl World {
    fn new() -> World {
        let s = Stronghold::default();
        let c = NAMES.map(|n| s.create_client(n).unwrap());
        World { s, c, dir: Scratch::new("c25"), extra: Seen::default() }
    }
    fn path(&self, i: u8) -> SnapshotPath {
        SnapshotPath::from_path(self.dir.path().join(format!("s{i}")))
    }
    fn apply(&mut self, op: Op) -> Result<(), String> {
        let e = |x: ClientError| x.to_string();
        let pe = |x: ProcedureError| x.to_string();
        let c = &self.c[0];
        match op {
            Write(i) => c.vault(PLACES[i].0).write_secret(place(i), value(i)).map_err(e)?,
            WriteProc(i) => {
                c.execute_procedure(WriteVault { data: value(i), location: place(i) }).map_err(pe)?;
            }
            Ed(i) => {
                c.execute_procedure(GenerateKey { ty: KeyType::Ed25519, output: place(i) }).map_err(pe)?;
            }
            X(i) => {
                c.execute_procedure(GenerateKey { ty: KeyType::X25519, output: place(i) }).map_err(pe)?;
            }
            Bip(i, jp) => {
                let language = if jp { MnemonicLanguage::Japanese } else { MnemonicLanguage::English };
                let w = c.execute_procedure(BIP39Generate { passphrase: None, language, output: place(i) }).map_err(pe)?;
                self.extra.atom(format!("mnemonic of {i}"), Words, w.as_bytes());
            }
            Slip(i, n) => {
                c.execute_procedure(Slip10Generate { size_bytes: n, output: place(i) }).map_err(pe)?;
            }
            Copy(i, j) => {
                c.execute_procedure(CopyRecord { source: place(i), target: place(j) }).map_err(pe)?;
            }
            Revoke(i) => {
                c.execute_procedure(RevokeData { location: place(i), should_gc: false }).map_err(pe)?;
            }
            Collect => {
                c.execute_procedure(GarbageCollect { vault_path: b"v".to_vec() }).map_err(pe)?;
            }
            Sync => self.c[1].sync_with(c, SyncClientsConfig::new(MergePolicy::Replace)).map_err(e)?,
            Within => c.sync_vaults(b"v".to_vec(), b"w".to_vec(), None, MergePolicy::Replace).map_err(e)?,
            Export => {
                // to another instance, by hand as an application does
                let p = self.path(7);
                self.s.commit_with_keyprovider(&p, &kp(SNAP)).map_err(e)?;
                let snap = Snapshot::read_from_snapshot(&p, [SNAP; 32], None).map_err(|x| x.to_string())?;
                let mut sel: HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> = HashMap::new();
                for n in NAMES {
                    let id = ClientId::load_from_path(n.as_bytes(), n.as_bytes());
                    let (_, db, _) = snap.get_state(id).map_err(|x| x.to_string())?;
                    sel.insert(id, db.list_vaults().into_iter().map(|v| (v, db.list_records(&v))).collect());
                }
                let other = x25519::SecretKey::from_bytes([0x4c; 32]);
                let (pk, bytes) = snap.export_to_serialized_state(sel, other.public_key()).map_err(|x| x.to_string())?;
                self.extra.atom("public key of the exchange".into(), Ephemeral, &pk.to_bytes());
                self.extra.atom("ephemeral key of the export".into(), Ephemeral, &bytes[..32]);
                self.extra.boxes.insert("export".into(), bytes[32..].to_vec());
            }
            Commit => self.s.commit_with_keyprovider(&self.path(1), &kp(SNAP)).map_err(e)?,
            Reload => {
                self.s.commit_with_keyprovider(&self.path(6), &kp(SNAP)).map_err(e)?;
                self.reload()?;
            }
            Store => self.s.write_client(NAMES[0]).map_err(e)?,
        }
        Ok(())
    }
    fn reload(&mut self) -> Result<(), String> {
        let s = Stronghold::default();
        s.load_snapshot(&kp(SNAP), &self.path(6)).map_err(|x| format!("load: {x}"))?;
        let mut load = |n: &str| s.load_client(n).map_err(|x| format!("load {n}: {x}"));
        self.c = [load(NAMES[0])?, load(NAMES[1])?];
        self.s = s;
        Ok(())
    }
    /// everything a snapshot of the instance has in it
    fn observe(&mut self, file: u8) -> Result<Seen, String> {
        let p = self.path(file);
        self.s.commit_with_keyprovider(&p, &kp(SNAP)).map_err(|x| format!("commit: {x}"))?;
        let mut seen = decode(&p)?;
        seen.atoms.append(&mut self.extra.atoms.clone());
        seen.boxes.append(&mut self.extra.boxes.clone());
        Ok(seen)
    }
}

fn decode(p: &SnapshotPath) -> Result<Seen, String> {
    let mut seen = Seen::default();
    let raw = std::fs::read(p.as_path()).map_err(|x| x.to_string())?;
    seen.atom("ephemeral key of the snapshot".into(), Ephemeral, raw.get(7..39).ok_or("a short file")?);
    seen.boxes.insert("snapshot".into(), raw[39..].to_vec());
    let snap = Snapshot::read_from_snapshot(p, [SNAP; 32], None).map_err(|x| format!("read: {x}"))?;
    for n in NAMES {
        let id = ClientId::load_from_path(n.as_bytes(), n.as_bytes());
        if !snap.has_data(id) {
            continue;
        }
        let (keys, db, _) = snap.get_state(id).map_err(|x| x.to_string())?;
        for v in ["v", "w"] {
            let vid = VaultId::load_from_path(v.as_bytes(), v.as_bytes());
            let Some(key) = keys.get(&vid) else { continue };
            if !db.contains_vault(&vid) {
                continue;
            }
            seen.atom(format!("key of {n}/{v}"), Kind::Key, &key.key.borrow());
            // mapped vaults keep the ids of their records
            for i in 0..PLACES.len() {
                let (_, rid) = place(i).resolve();
                let name = format!("{n}/{v}/{i}");
                if !db.contains_record(vid, rid) {
                    continue;
                }
                db.get_guard::<std::convert::Infallible, _>(key, vid, rid, |b| {
                    seen.atom(format!("secret {name}"), Secret, &b.borrow());
                    Ok(())
                })
                .map_err(|x| format!("{name}: {x}"))?;
                let blob = db.get_blob_id(key, vid, rid).map_err(|x| format!("{name}: {x}"))?;
                seen.atom(format!("blob id of {name}"), BlobId, blob.as_ref());
                let rec = db.export_records(vid, [rid]).map_err(|x| format!("{name}: {x}"))?.remove(0).1;
                let b = bincode::serialize(&rec).unwrap();
                // id, metadata, revocation, data
                let len = |at: usize| u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) as usize;
                let m = len(24);
                seen.sealed(format!("metadata of {name}"), &b[32..32 + m])?;
                if b[32 + m] != 0 {
                    return Err(format!("{name}: revoked, but there"));
                }
                let d = len(33 + m);
                seen.sealed(format!("data of {name}"), &b[41 + m..41 + m + d])?;
            }
        }
    }
    Ok(seen)
}

fn run_last(ops: &[Op]) -> Result<Seen, String> {
    let mut w = World::new();
    for op in ops {
        w.apply(*op).map_err(|e| format!("{op:?}: {e}"))?;
    }
    w.observe(1)
}

/// What random bytes the engine makes by itself.
fn engine_atoms() -> Result<Seen, String> {
    let mut s = Seen::default();
    let e = |x: crypto::Error| x.to_string();
    let k = Key::<Provider>::random();
    s.atom("Key::random".into(), Kind::Key, &k.key.borrow());
    // a key in non-contiguous memory shows in what it opens
    let nc = NCKey::<Provider>::random();
    s.atom("NCKey::random".into(), Kind::Key, &nc.key.unlock().map_err(|x| x.to_string())?.borrow());
    s.atom("RecordId::random".into(), BlobId, &bincode::serialize(&RecordId::random::<Provider>().map_err(e)?).unwrap());
    s.atom("VaultId::random".into(), BlobId, &bincode::serialize(&VaultId::random::<Provider>().map_err(e)?).unwrap());
    s.atom("ClientId::random".into(), BlobId, &bincode::serialize(&ClientId::random::<Provider>().map_err(e)?).unwrap());
    for n in [1usize, 16, 24, 31, 32, 33, 64, 100] {
        s.atom(format!("random_vec({n})"), Secret, &Provider::random_vec(n).map_err(e)?);
        let mut b = vec![0; n];
        Provider::random_buf(&mut b).map_err(e)?;
        s.atom(format!("random_buf({n})"), Secret, &b);
    }
    let sealed = Provider::box_seal(&k, b"ad", b"data").map_err(e)?;
    s.atom("nonce of box_seal".into(), Nonce, &sealed[16..40]);
    let sealed = nc.encrypt_key(&k, b"ad").map_err(e)?;
    s.atom("nonce of encrypt_key".into(), Nonce, &sealed[16..40]);
    let mut out = vec![];
    engine::snapshot::write(b"plain", &mut out, &[3; 32], b"").map_err(|x| x.to_string())?;
    s.atom("ephemeral key of write".into(), Ephemeral, &out[..32]);
    Ok(s)
}

/// How many random bytes must matter for it?
fn needed(k: Kind, b: &[u8]) -> usize {
    match k {
        Ephemeral | Kind::Key | Words => 32,
        Nonce | BlobId => 24,
        Secret => b.len().min(32),
    }
}


fn secrets(s: &Seen) -> BTreeMap<String, Vec<u8>> {
    s.atoms.iter().filter(|(_, a)| a.0 == Secret).map(|(n, a)| (n.clone(), a.1.clone())).collect()
}

/// One history with everything compared with everything.
fn fresh(ops: &[Op], out: &mut Outcome) -> Result<(), String> {
    let mut w = World::new();
    // value -> name under which it occurred
    let mut nonces: HashMap<Vec<u8>, (String, Vec<u8>)> = HashMap::new();
    let mut once: HashMap<(Kind, Vec<u8>), String> = HashMap::new();
    let mut windows: HashMap<Vec<u8>, (String, Vec<u8>)> = HashMap::new();
    let mut last = Seen::default();
    for op in ops {
        w.extra = Seen::default();
        let done = w.apply(*op);
        out.count("transitions", 1);
        let now = w.observe(1).map_err(|e| format!("after {op:?}: {e}"))?;
        // what the operation had to make afresh
        let mut must: Vec<String> = vec!["ephemeral key of the snapshot".into()];
        if done.is_ok() {
            if let Some(t) = op.target() {
                let n = format!("c/{}/{t}", PLACES[t].0);
                must.push(format!("blob id of {n}"));
                must.push(format!("nonce of the data of {n}"));
                must.push(format!("nonce of the metadata of {n}"));
                if matches!(op, Ed(_) | X(_) | Bip(..) | Slip(..)) {
                    must.push(format!("secret {n}"));
                }
            }
            match op {
                // what has not changed since is not copied again
                Sync | Within => must.extend(now.boxes.keys().filter_map(|n| n.split_once(" of c/")).filter_map(|(k, n)| {
                    let to = if *op == Sync { format!("d/{n}") } else { format!("c/w/{}", n.strip_prefix("v/")?) };
                    let blob = |s: &Seen, r: &str| s.atoms.get(&format!("blob id of {r}")).cloned();
                    (blob(&last, &to) != blob(&now, &format!("c/{n}"))).then(|| format!("nonce of the {k} of {to}"))
                })),
                Export => must.extend(["public key of the exchange".into(), "ephemeral key of the export".into()]),
                Bip(t, _) => must.push(format!("mnemonic of {t}")),
                _ => (),
            }
        }
        for (name, (kind, b)) in &now.atoms {
            let had = last.atoms.get(name).map(|(_, o)| o) == Some(b);
            if had && !must.contains(name) {
                continue;
            }
            out.see(&(hash(&ops), name));
            // copies keep the secret, synchronisation the blob id
            let may_repeat = match kind {
                Secret => !must.contains(name),
                BlobId => matches!(op, Sync | Within),
                // synchronised vaults of this client that were there before
                Kind::Key => false,
                _ => false,
            };
            if let Some(other) = once.get(&(*kind, b.clone())) {
                if !may_repeat {
                    return Err(format!("the {name} after {op:?} is the {other} from before"));
                }
            }
            for w in b.windows(8).filter(|_| *kind != Words && (*kind != Secret || must.contains(name))) {
                if let Some((other, of)) = windows.get(w) {
                    if of != b {
                        return Err(format!("the {name} after {op:?} shares bytes with the {other}"));
                    }
                }
                windows.insert(w.to_vec(), (name.clone(), b.clone()));
            }
            once.insert((*kind, b.clone()), name.clone());
        }
        for m in &must {
            if !now.atoms.contains_key(m) {
                return Err(format!("there is no {m} after {op:?}"));
            }
        }
        // one nonce, one box
        for (name, b) in now.boxes.iter().filter(|(n, _)| n.contains(" of ")) {
            if let Some((other, o)) = nonces.get(&b[16..40]) {
                if o != b {
                    return Err(format!("after {op:?} the {name} has the nonce of the {other}"));
                }
            }
            nonces.insert(b[16..40].to_vec(), (name.clone(), b.clone()));
        }
        last = now;
    }
    Ok(())
}

/// The call that starts after `setup` with the random source failing at its `k`-th call.
fn fault(setup: &[Op], op: Op, k: usize, once: bool, calls: usize, out: &mut Outcome) -> Result<(), String> {
    let mut w = World::new();
    for o in setup {
        w.apply(*o).map_err(|e| format!("{o:?}: {e}"))?;
    }
    let before = w.observe(1)?;
    let n0 = rnd::count();
    rnd::set_fail(Some((n0 + k, if once { n0 + k + 1 } else { usize::MAX })));
    let r = catch_unwind(AssertUnwindSafe(|| w.apply(op)));
    rnd::set_fail(None);
    out.count("transitions", 1);
    let drawn = rnd::count() - n0;
    if rnd::failed() == 0 {
        return Err("the random source was not asked".into());
    }
    let old = secrets(&before);
    let good = matches!(r, Ok(Ok(())));
    out.count(if good { "went well" } else if r.is_err() { "panicked" } else { "error" }, 1);
    if good && drawn <= calls {
        return Err("the call goes well although the random source failed".into());
    }
    let after = catch_unwind(AssertUnwindSafe(|| w.observe(2)));
    if let Ok(Ok(now)) = after {
        let new = secrets(&now);
        out.count("usable afterwards", 1);
        out.see(&(hash(&setup), op, new.len(), good));
        // what a synchronisation that stopped half way may have copied
        let from = |n: &String| match op {
            Sync => old.get(&format!("secret c/{}", n.strip_prefix("secret d/")?)),
            Within => old.get(&format!("secret c/v/{}", n.strip_prefix("secret c/w/")?)),
            _ => None,
        };
        if !good {
            for (n, v) in &old {
                let copied = from(n).is_some() && from(n) == new.get(n);
                if new.get(n) != Some(v) && !copied {
                    return Err(format!("the call fails, and the {n} is {}", if new.contains_key(n) { "another" } else { "gone" }));
                }
            }
            for (n, v) in &new {
                let copied = from(n) == Some(v);
                if !old.contains_key(n) && !copied {
                    return Err(format!("the call fails, and there is a {n}"));
                }
            }
        }
    }
    let kept = decode(&w.path(1)).map_err(|e| format!("the snapshot of before: {e}"))?;
    if secrets(&kept) != old {
        return Err("the snapshot of before has changed".into());
    }
    Ok(())
}

pub fn run(tier: &str) -> i32 {
    let mut rep = Report::new("C25", tier, "model_checking");
    let th = rep.thorough();
    rep.assumptions = vec![
        "the kernel's random numbers are good, and getrandom(2) is the only source of them".into(),
        "a byte counts as used if any of its flipped bits changes the result".into(),
    ];
    // everything that happens once per process
    let _ = run_last(&[Write(0), Ed(1), Sync, Export]);
    let _ = engine_atoms();
    // rand seeds its generators once more in a process that was forked, as the workers are: so must this one be
    unsafe {
        let child = libc::fork();
        if child > 0 {
            let mut st = 0;
            libc::waitpid(child, &mut st, 0);
            return if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 2 };
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }

    // every byte of every call matters
    let scenarios: Vec<Option<Vec<Op>>> = vec![
        None,
        Some(vec![Write(0)]),
        Some(vec![Write(0), Write(0)]),
        Some(vec![WriteProc(2)]),
        Some(vec![Ed(0)]),
        Some(vec![X(0)]),
        Some(vec![Write(0), Ed(0)]),
        Some(vec![Bip(0, false)]),
        Some(vec![Bip(0, true)]),
        Some(vec![Slip(0, None)]),
        Some(vec![Slip(0, Some(16))]),
        Some(vec![Slip(0, Some(32))]),
        Some(vec![Slip(0, Some(33))]),
        Some(vec![Ed(0), Copy(0, 2)]),
        Some(vec![Write(0), Sync]),
        Some(vec![Write(0), Within]),
        Some(vec![Write(0), Export]),
        Some(vec![Write(0), Revoke(0), Collect, Write(0)]),
        Some(vec![Write(0), Store, Commit]),
    ];
    let one = |ops: &Option<Vec<Op>>, plan: Plan| {
        rnd::under(plan, || {
            let r = catch_unwind(AssertUnwindSafe(|| match ops {
                None => engine_atoms(),
                Some(o) => run_last(o),
            }));
            (r.unwrap_or_else(|p| Err(panic_text(p))), rnd::calls())
        })
    };
    let seeds: &[u64] = if th { &[1, 2] } else { &[1] };
    let mut cases: Vec<(usize, u64, usize)> = vec![];
    let mut base: HashMap<(usize, u64), (Seen, Vec<usize>)> = HashMap::new();
    let mut early = Outcome::default();
    for (i, ops) in scenarios.iter().enumerate() {
        for seed in seeds {
            let (r, calls) = one(ops, Plan { seed: *seed, ..Plan::default() });
            match r {
                Ok(s) => {
                    cases.extend((0..calls.len()).map(|c| (i, *seed, c)));
                    base.insert((i, *seed), (s, calls));
                }
                Err(e) => early.fail(format!("{ops:?}: {e}"), format!("{ops:?} with random numbers {seed}: {e}")),
            }
        }
    }
    let describe = |i: u64| {
        let (s, seed, c) = cases[i as usize];
        format!("{:?}, random numbers {seed}, call {c} altered", scenarios[s])
    };
    let mut o = run_cases(
        cases.len() as u64,
        120,
        &|i, out| {
            let (s, seed, c) = cases[i as usize];
            let ops = &scenarios[s];
            let (seen, calls) = &base[&(s, seed)];
            let (again, calls2) = one(ops, Plan { seed, ..Plan::default() });
            match &again {
                Ok(a) if a.atoms == seen.atoms && calls2 == *calls => (),
                Ok(a) => {
                    let d: Vec<&String> = a.atoms.iter().filter(|(n, v)| seen.atoms.get(*n) != Some(v)).map(|(n, _)| n).collect();
                    return out.fail(
                        "other results with the same random numbers",
                        format!("{}: {d:?} differ between two runs", describe(i)),
                    );
                }
                Err(e) => return out.fail(format!("an error: {}", first_line(e)), format!("{}: {e}", describe(i))),
            }
            for byte in 0..calls[c] {
                let mut changed: BTreeMap<&String, u64> = BTreeMap::new();
                for bit in 0..8 {
                    if !th && s > 1 && bit != 4 {
                        continue;
                    }
                    let (r, _) = one(ops, Plan { seed, flip: Some((c, byte, 1 << bit)), fail: None });
                    out.count("transitions", 1);
                    match r {
                        Ok(r) => {
                            for (n, v) in &seen.atoms {
                                if r.atoms.get(n) != Some(v) {
                                    *changed.entry(n).or_default() += 1;
                                }
                            }
                        }
                        Err(e) => out.fail(
                            format!("an error: {}", first_line(&e)),
                            format!("{}, bit {bit} of byte {byte}: {e}", describe(i)),
                        ),
                    }
                }
                for (n, bits) in changed {
                    out.count(&format!("~{s}~{seed}~{n}~bytes"), 1);
                    out.count(&format!("~{s}~{seed}~{n}~bits"), bits);
                    out.see(&(s, n, c, byte));
                }
            }
        },
        &describe,
    );
    let influence: BTreeMap<String, u64> = o.counts.iter().filter(|(k, _)| k.starts_with('~')).map(|(k, v)| (k.clone(), *v)).collect();
    o.counts.retain(|k, _| !k.starts_with('~'));
    o.merge(early);
    for ((s, seed), (seen, _)) in &base {
        for (n, (kind, b)) in &seen.atoms {
            // secrets that were not generated
            if *kind == Secret && scenarios[*s].as_ref().map_or(false, |o| !o.iter().any(|x| matches!(x, Ed(_) | X(_) | Bip(..) | Slip(..)))) {
                continue;
            }
            let get = |what: &str| influence.get(&format!("~{s}~{seed}~{n}~{what}")).copied().unwrap_or(0);
            let (bytes, bits) = (get("bytes"), get("bits"));
            let need = needed(*kind, b) as u64;
            // x25519 ignores five bits of a key
            let need_bits = if th || *s <= 1 { need * 8 - if *kind == Ephemeral { 5 } else { 0 } } else { 0 };
            o.count("random results", 1);
            o.sample(|| format!("{:?}: the {n} depends on {bytes} random bytes", scenarios[*s]));
            if bytes < need || bits < need_bits {
                o.fail(
                    format!("the {n} has too little randomness in it"),
                    format!("{:?}: the {n} of {} bytes depends on {bytes} random bytes ({bits} bits), {need} are needed", scenarios[*s], b.len()),
                );
            }
        }
    }
    rep.absorb("every random byte flipped", o);

    // every history: nothing occurs twice
    let alphabet: Vec<Op> = if th {
        vec![Write(0), Write(2), Ed(0), Bip(1, false), Copy(0, 1), Revoke(0), Collect, Sync, Within, Export, Reload, Store]
    } else {
        vec![Write(0), Write(2), Ed(0), Copy(0, 1), Revoke(0), Collect, Sync, Within, Reload]
    };
    for depth in 1..=if th { 5 } else { 4 } {
        let n = (alphabet.len() as u64).pow(depth as u32);
        let ops = |i: u64| -> Vec<Op> { digits(i, alphabet.len() as u64, depth).into_iter().map(|k| alphabet[k]).collect() };
        let o = run_cases(
            n,
            120,
            &|i, out| {
                let ops = ops(i);
                let r = {
                    let out = &mut *out;
                    rnd::under(Plan { seed: 1000 + i, ..Plan::default() }, || {
                        catch_unwind(AssertUnwindSafe(|| fresh(&ops, out))).unwrap_or_else(|p| Err(panic_text(p)))
                    })
                };
                if let Err(e) = r {
                    out.fail(first_line(&e), format!("{ops:?}: {e}"));
                }
            },
            &|i| format!("{:?}", ops(i)),
        );
        rep.absorb(&format!("histories of {depth} operations"), o);
    }

    // every call of the random source fails
    let setups: Vec<Vec<Op>> = vec![
        vec![],
        vec![Write(0), Ed(2)],
        vec![Write(0), Write(1), Ed(2), Sync],
        vec![Write(0), Ed(2), Reload],
    ];
    let all = [
        Write(0), Write(1), WriteProc(0), WriteProc(2), Ed(0), Ed(1), X(0), Bip(0, false), Bip(1, true), Slip(0, None), Copy(0, 1), Copy(0, 2),
        Revoke(0), Collect, Sync, Within, Export, Commit, Store,
    ];
    let mut list: Vec<(usize, Op, usize, bool, usize)> = vec![];
    let mut early = Outcome::default();
    for (i, setup) in setups.iter().enumerate() {
        for op in all {
            let calls = rnd::under(Plan { seed: 5, ..Plan::default() }, || {
                let r = catch_unwind(AssertUnwindSafe(|| -> Result<(usize, bool), String> {
                    let mut w = World::new();
                    for o in setup {
                        w.apply(*o)?;
                    }
                    w.observe(1)?;
                    let n = rnd::count();
                    let r = w.apply(op);
                    Ok((rnd::count() - n, r.is_ok()))
                }));
                r.unwrap_or_else(|p| Err(panic_text(p)))
            });
            match calls {
                Ok((calls, true)) => list.extend((0..calls).flat_map(|k| [false, true].map(|once| (i, op, k, once, calls)))),
                Ok(_) => (),
                Err(e) => early.fail(format!("{op:?}: {}", first_line(&e)), format!("{setup:?} then {op:?}: {e}")),
            }
        }
    }
    let describe = |i: u64| {
        let (s, op, k, once, _) = list[i as usize];
        format!("after {:?} {op:?} with the random source failing {} its call {k}", setups[s], if once { "at" } else { "from" })
    };
    let mut o = run_cases(
        list.len() as u64,
        120,
        &|i, out| {
            let (s, op, k, once, calls) = list[i as usize];
            let r = {
                let out = &mut *out;
                rnd::under(Plan { seed: 5, ..Plan::default() }, || {
                    catch_unwind(AssertUnwindSafe(|| fault(&setups[s], op, k, once, calls, out))).unwrap_or_else(|p| Err(panic_text(p)))
                })
            };
            if let Err(e) = r {
                out.fail(first_line(&e), format!("{}: {e}", describe(i)));
            }
        },
        &describe,
    );
    o.merge(early);
    // the engine by itself
    let n = rnd::under(Plan { seed: 5, ..Plan::default() }, || {
        let _ = engine_atoms();
        rnd::count()
    });
    for k in 0..n {
        let r = rnd::under(Plan { seed: 5, fail: Some((k, k + 1)), flip: None }, || {
            catch_unwind(AssertUnwindSafe(|| (engine_atoms().is_ok(), rnd::failed(), rnd::count())))
        });
        o.count("cases", 1);
        if let Ok((true, 1, c)) = r {
            if c <= n {
                o.fail("the engine ignores that the random source failed", format!("call {k} of {n} in engine_atoms fails, and all goes well"));
            }
        }
    }
    rep.absorb("every call of the random source failing", o);
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("transitions"));
    rep.set("traces_validated_against_impl", rep.count("cases"));
    rep.set("exhaustive", true);
    rep.finish()
}
