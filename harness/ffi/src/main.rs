//! C22: the native bindings, called as a C program calls them: every history of exported calls, hostile sizes and
//! names, and a failing file call at every position, under an allocator that faults on any wrong access.
#[path = "../../seq/src/fsx.rs"]
#[allow(dead_code)]
mod fsx;
#[path = "../../seq/src/rnd.rs"]
#[allow(dead_code)]
mod rnd;
mod fence;

use crypto::hashes::{blake2b::Blake2b256, Digest};
use crypto::keys::slip10;
use crypto::signatures::ed25519;
use fsx::Fault;
use iota_stronghold::{procedures::*, KeyProvider, Location, SnapshotPath, Stronghold};
use mc::*;
use std::collections::BTreeMap;
use std::ffi::{c_char, CStr, CString};
use std::path::PathBuf;

#[global_allocator]
static A: fence::Fence = fence::Fence;

// as a C header would declare them
use stronghold_native as n;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// handle, file, key
    Create(usize, usize, usize),
    Load(usize, usize, usize),
    Destroy(usize),
    /// handle, key, record
    Gen(usize, usize, usize),
    Write(usize, usize, usize, usize),
    Seed(usize, usize),
    Derive(usize, usize, u32),
    Pub(usize, usize),
    Sign(usize, usize, usize),
    /// give back the oldest data pointer
    Free,
}
use Op::*;

#[derive(Clone, Debug, PartialEq)]
enum Sec {
    Known(Vec<u8>),
    /// generated: its number
    Gen(usize),
    /// derived from a generated one
    Derived(usize, u32),
}
type Recs = BTreeMap<Vec<u8>, Sec>;

struct Env {
    keys: Vec<String>,
    recs: Vec<String>,
    data: Vec<Vec<u8>>,
    files: Vec<PathBuf>,
}

#[derive(Default)]
struct World {
    /// file, records
    handles: [Option<(usize, Recs, usize)>; 2],
    /// key, records
    disk: BTreeMap<usize, (usize, Recs)>,
    made: usize,
    pins: BTreeMap<String, Vec<u8>>,
    /// pointers handed out and what they must point to
    out: Vec<(usize, Vec<u8>)>,
    texts: Vec<String>,
    /// the last failing call's error has not been asked for
    pending: bool,
    fetch: bool,
    /// a file call is made to fail in this operation
    faulty: bool,
    failed: bool,
}

fn hash_key(k: &str) -> Vec<u8> {
    let mut h = Blake2b256::new();
    h.update(k.as_bytes());
    h.finalize().to_vec()
}
fn vloc(r: &[u8]) -> Location {
    Location::generic(b"wasp".to_vec(), r.to_vec())
}

impl World {
    fn error_text(&mut self) -> Result<String, String> {
        unsafe {
            let p = n::stronghold_get_last_error();
            if p.is_null() {
                return Err("a call failed and there is no error text".into());
            }
            let s = CStr::from_ptr(p).to_str().map_err(|_| "the error text is not UTF-8".to_string())?.to_string();
            n::stronghold_destroy_error(p as *mut c_char);
            if s.is_empty() {
                return Err("the error text is empty".into());
            }
            let p = n::stronghold_get_last_error();
            if !p.is_null() {
                return Err("an error that was fetched is there again".into());
            }
            self.pending = false;
            Ok(s)
        }
    }
    fn failure(&mut self) -> Result<(), String> {
        self.failed = true;
        self.pending = true;
        if self.fetch {
            let t = self.error_text()?;
            self.texts.push(t);
        }
        Ok(())
    }
    /// what `ok` says must agree with the model
    fn outcome(&mut self, ok: bool, want: bool) -> Result<bool, String> {
        self.failed = false;
        if !ok {
            self.failure()?;
        }
        if ok != want && !(self.faulty && !ok) {
            return Err(if want { "fails".into() } else { "succeeds, but must not".to_string() });
        }
        Ok(ok)
    }
    fn applies(&self, op: &Op) -> bool {
        match op {
            Create(h, ..) | Load(h, ..) => self.handles[*h].is_none(),
            Free => !self.out.is_empty(),
            Destroy(h) | Gen(h, ..) | Write(h, ..) | Seed(h, _) | Derive(h, ..) | Pub(h, _) | Sign(h, ..) => self.handles[*h].is_some(),
        }
    }
    fn public(&mut self, s: &Sec) -> Result<Option<Vec<u8>>, ()> {
        // Ok(None): any, not seen yet
        match s {
            Sec::Known(b) if b.len() < 32 => Err(()),
            Sec::Known(b) => Ok(Some(ed25519::SecretKey::from_bytes(b[..32].try_into().unwrap()).public_key().to_bytes().to_vec())),
            s => Ok(self.pins.get(&format!("{s:?}")).cloned()),
        }
    }
    fn pin(&mut self, s: &Sec, pk: &[u8]) -> Result<(), String> {
        if !matches!(s, Sec::Known(_)) {
            let k = format!("{s:?}");
            if self.pins.iter().any(|(x, y)| *x != k && y == pk) {
                return Err("two different keys are equal".into());
            }
            self.pins.insert(k, pk.to_vec());
        }
        Ok(())
    }
    fn take(&mut self, p: *mut u8, len: usize) -> Result<Vec<u8>, String> {
        match fence::room(p) {
            None => Err("the returned pointer points nowhere".into()),
            Some(r) if r < len => Err(format!("only {r} of the {len} bytes at the returned pointer exist")),
            _ => {
                let b = unsafe { std::slice::from_raw_parts(p, len) }.to_vec();
                self.out.push((p as usize, b.clone()));
                Ok(b)
            }
        }
    }
    fn commit(&mut self, h: usize, k: usize) {
        let (f, r, _) = self.handles[h].clone().unwrap();
        self.disk.insert(f, (k, r));
    }
    fn apply(&mut self, e: &Env, op: &Op) -> Result<(), String> {
        let key = |k: &usize| CString::new(e.keys[*k].clone()).unwrap();
        let file = |f: &usize| CString::new(e.files[*f].to_str().unwrap()).unwrap();
        let rec = |r: &usize| CString::new(e.recs[*r].clone()).unwrap();
        let good = |f: usize| !e.files[f].ends_with("plain/none");
        let ptr = |w: &World, h: usize| w.handles[h].as_ref().unwrap().2 as *mut _;
        unsafe {
            match op {
                Create(h, f, k) => {
                    let p = n::stronghold_create(file(f).as_ptr(), key(k).as_ptr());
                    if self.outcome(!p.is_null(), good(*f))? {
                        self.handles[*h] = Some((*f, Recs::new(), p as usize));
                        self.commit(*h, *k);
                    }
                }
                Load(h, f, k) => {
                    let p = n::stronghold_load(file(f).as_ptr(), key(k).as_ptr());
                    let want = self.disk.get(f).map_or(false, |(x, _)| e.keys[*x] == e.keys[*k]);
                    if self.outcome(!p.is_null(), want)? {
                        self.handles[*h] = Some((*f, self.disk[f].1.clone(), p as usize));
                    }
                }
                Destroy(h) => {
                    n::stronghold_destroy_stronghold(ptr(self, *h));
                    self.handles[*h] = None;
                }
                Gen(h, k, r) => {
                    let p = n::stronghold_generate_ed25519_keypair(ptr(self, *h), key(k).as_ptr(), rec(r).as_ptr());
                    let f = self.handles[*h].as_ref().unwrap().0;
                    self.made += 1;
                    let s = Sec::Gen(self.made);
                    let ok = self.outcome(!p.is_null(), good(f))?;
                    self.handles[*h].as_mut().unwrap().1.insert(e.recs[*r].clone().into_bytes(), s);
                    if ok {
                        if fence::room(p).map_or(true, |r| r < 1) {
                            return Err("the returned pointer points nowhere".into());
                        }
                        let b = self.take(p, 1)?;
                        let _ = b;
                        self.commit(*h, *k);
                    }
                }
                Write(h, k, r, d) => {
                    let b = e.data[*d].clone();
                    let ok = n::stronghold_write_vault(ptr(self, *h), key(k).as_ptr(), rec(r).as_ptr(), b.as_ptr(), b.len());
                    let f = self.handles[*h].as_ref().unwrap().0;
                    let ok = self.outcome(ok, good(f))?;
                    self.handles[*h].as_mut().unwrap().1.insert(e.recs[*r].clone().into_bytes(), Sec::Known(b));
                    if ok {
                        self.commit(*h, *k);
                    }
                }
                Seed(h, k) => {
                    let ok = n::stronghold_generate_seed(ptr(self, *h), key(k).as_ptr());
                    let f = self.handles[*h].as_ref().unwrap().0;
                    self.made += 1;
                    let s = Sec::Gen(self.made);
                    let ok = self.outcome(ok, good(f))?;
                    self.handles[*h].as_mut().unwrap().1.insert(b"seed".to_vec(), s);
                    if ok {
                        self.commit(*h, *k);
                    }
                }
                Derive(h, k, i) => {
                    let ok = n::stronghold_derive_seed(ptr(self, *h), key(k).as_ptr(), *i);
                    let (f, r, _) = self.handles[*h].as_ref().unwrap();
                    let hard = i | slip10::Segment::HARDEN_MASK;
                    let new = match r.get(&b"seed"[..]) {
                        None => None,
                        Some(Sec::Known(b)) => {
                            let m = slip10::Segment::HARDEN_MASK;
                            let c = slip10::Chain::from_u32([44, 4218, 0, 0, *i].map(|s| s | m).to_vec());
                            slip10::Seed::from_bytes(b).derive(slip10::Curve::Ed25519, &c).ok().map(|k| Sec::Known(k.into()))
                        }
                        Some(Sec::Gen(g)) => Some(Sec::Derived(*g, hard)),
                        Some(Sec::Derived(..)) => unreachable!(),
                    };
                    let want = new.is_some() && good(*f);
                    let ok = self.outcome(ok, want)?;
                    if let Some(s) = new {
                        self.handles[*h].as_mut().unwrap().1.insert(format!("seed.{i}").into_bytes(), s);
                    }
                    if ok {
                        self.commit(*h, *k);
                    }
                }
                Pub(h, r) => {
                    let p = n::stronghold_get_public_key(ptr(self, *h), rec(r).as_ptr());
                    let s = self.handles[*h].as_ref().unwrap().1.get(e.recs[*r].as_bytes()).cloned();
                    let want = s.as_ref().map(|s| self.public(s));
                    let ok = self.outcome(!p.is_null(), matches!(want, Some(Ok(_))))?;
                    if ok {
                        let b = self.take(p, 32)?;
                        match want {
                            Some(Ok(Some(w))) if w != b => return Err(format!("another public key: {}", hex(&b))),
                            _ => self.pin(&s.unwrap(), &b)?,
                        }
                    }
                }
                Sign(h, r, d) => {
                    let m = e.data[*d].clone();
                    let p = n::stronghold_sign(ptr(self, *h), rec(r).as_ptr(), m.as_ptr(), m.len());
                    let s = self.handles[*h].as_ref().unwrap().1.get(e.recs[*r].as_bytes()).cloned();
                    let want = s.as_ref().map(|s| self.public(s));
                    let ok = self.outcome(!p.is_null(), matches!(want, Some(Ok(_))))?;
                    if ok {
                        let b = self.take(p, 64)?;
                        let pk = match want {
                            Some(Ok(Some(w))) => w,
                            _ => {
                                let p = n::stronghold_get_public_key(ptr(self, *h), rec(r).as_ptr());
                                if p.is_null() {
                                    return Err("there is a signature but no public key".into());
                                }
                                let b = self.take(p, 32)?;
                                self.pin(&s.unwrap(), &b)?;
                                b
                            }
                        };
                        let pk = ed25519::PublicKey::try_from_bytes(pk[..].try_into().unwrap()).map_err(|e| e.to_string())?;
                        if !pk.verify(&ed25519::Signature::from_bytes(b[..].try_into().unwrap()), &m) {
                            return Err("the signature does not verify".into());
                        }
                    }
                }
                Free => self.release()?,
            }
        }
        match fence::complaint() {
            Some(c) => Err(c.into()),
            None => Ok(()),
        }
    }
    fn release(&mut self) -> Result<(), String> {
        let (p, b) = self.out.remove(0);
        if fence::room(p as *const u8).map_or(true, |r| r < b.len()) {
            return Err("memory that was handed out is gone".into());
        }
        if unsafe { std::slice::from_raw_parts(p as *const u8, b.len()) } != &b[..] {
            return Err("memory that was handed out has changed".into());
        }
        unsafe { n::stronghold_destroy_data_pointer(p as *mut u8) };
        if fence::room(p as *const u8).is_some() {
            return Err("destroy_data_pointer does not release the memory".into());
        }
        Ok(())
    }
    /// What is in the files, through the library.
    fn look(&mut self, e: &Env) -> Result<(), String> {
        fence::off();
        let r = self.look_(e);
        fence::on();
        r
    }
    fn look_(&mut self, e: &Env) -> Result<(), String> {
        for (f, path) in e.files.iter().enumerate() {
            let name = path.file_name().unwrap().to_string_lossy().to_string();
            let Some((k, recs)) = self.disk.get(&f).cloned() else {
                if path.exists() {
                    return Err(format!("file {name} exists"));
                }
                continue;
            };
            let sp = SnapshotPath::from_path(path);
            for (i, key) in e.keys.iter().enumerate() {
                let s = Stronghold::default();
                let c = s.load_client_from_snapshot("wasp", &KeyProvider::try_from(hash_key(key)).unwrap(), &sp);
                if *key != e.keys[k] {
                    if c.is_ok() {
                        return Err(format!("file {name} opens with key {i} instead of {k}"));
                    }
                    continue;
                }
                let c = c.map_err(|x| format!("file {name} does not open with its key: {x}"))?;
                for r in e.recs.iter().map(|r| r.as_bytes().to_vec()).chain(recs.keys().cloned()) {
                    let at = |m: String| format!("file {name}, record {:?}: {m}", String::from_utf8_lossy(&r));
                    let is = c.record_exists(&vloc(&r)).map_err(|x| at(x.to_string()))?;
                    let Some(sec) = recs.get(&r) else {
                        if is {
                            return Err(at("exists".into()));
                        }
                        continue;
                    };
                    if !is {
                        return Err(at("is missing".into()));
                    }
                    if let Sec::Known(b) = sec {
                        let q = CompareSecret { location: vloc(&r), expected: b.clone() };
                        let same = c.execute_procedure(q).map(|v| v == vec![1]).map_err(|x| at(x.to_string()))?;
                        if !same {
                            return Err(at("other bytes than were written".into()));
                        }
                    }
                    let pk = c.execute_procedure(PublicKey { ty: KeyType::Ed25519, private_key: vloc(&r) });
                    match (self.public(sec), pk) {
                        (Err(()), Err(_)) => (),
                        (Ok(Some(w)), Ok(b)) if w[..] == b[..] => (),
                        (Ok(None), Ok(b)) => self.pin(sec, &b[..]).map_err(at)?,
                        (_, Ok(_)) => return Err(at("another key than through the bindings".into())),
                        (_, Err(x)) => return Err(at(x.to_string())),
                    }
                }
            }
        }
        Ok(())
    }
    fn finish(&mut self) -> Result<(), String> {
        for h in 0..2 {
            if let Some((_, _, p)) = self.handles[h].take() {
                unsafe { n::stronghold_destroy_stronghold(p as *mut _) };
            }
        }
        // what was handed out outlives the handles
        while !self.out.is_empty() {
            self.release()?;
        }
        if self.pending {
            let t = self.error_text()?;
            self.texts.push(t);
        }
        match fence::complaint() {
            Some(c) => Err(c.into()),
            None => Ok(()),
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn env() -> Env {
    Env {
        keys: vec!["secret".into(), "Secret".into()],
        recs: vec!["a".into(), "seed".into(), "seed.7".into()],
        data: vec![vec![], vec![5; 5], (0..32).collect(), (1..65).collect()],
        files: vec![],
    }
}

/// One history; gives the model at its end, or nothing if an operation does not apply.
fn history(mut e: Env, ops: &[Op], fetch: bool, look: bool, out: &mut Outcome) -> Option<Vec<String>> {
    fence::off();
    let d = Scratch::new("c22");
    std::fs::write(d.path().join("plain"), b"").unwrap();
    e.files = vec![d.path().join("one"), d.path().join("two"), d.path().join("plain/none")];
    let mut w = World { fetch, ..Default::default() };
    fence::on();
    for (i, op) in ops.iter().enumerate() {
        if !w.applies(op) {
            let _ = w.finish();
            return None;
        }
        out.count("transitions", 1);
        if let Err(x) = w.apply(&e, op) {
            out.fail(format!("{ops:?}"), format!("step {i} {op:?}: {x}"));
            return None;
        }
        fence::off();
        out.see(&(op, w.failed, w.handles.iter().map(|h| h.as_ref().map(|h| h.1.keys().cloned().collect::<Vec<_>>())).collect::<Vec<_>>()));
        fence::on();
    }
    let r = (if look { w.look(&e) } else { Ok(()) }).and_then(|_| w.finish());
    if let Err(x) = r {
        out.fail(format!("{ops:?}"), format!("at the end: {x}"));
        return None;
    }
    fence::off();
    Some(std::mem::take(&mut w.texts))
}

/// The operation at the end with its `k`-th file call failing; false: there is no such call.
fn faulty(begin: &[Op], op: &Op, k: usize, f: Fault, out: &mut Outcome) -> bool {
    let name = format!("{begin:?} then {op:?}, file call {k}: {f:?}");
    let mut e = env();
    fence::off();
    let d = Scratch::new("c22f");
    let snap = d.path().join("snap");
    std::fs::create_dir(&snap).unwrap();
    std::fs::write(d.path().join("plain"), b"").unwrap();
    e.files = vec![snap.join("one"), snap.join("two"), d.path().join("plain/none")];
    let mut w = World { fetch: true, ..Default::default() };
    let mut more = false;
    fence::on();
    let r = (|| -> Result<(), String> {
        for o in begin {
            w.apply(&e, o)?;
        }
        if !w.applies(op) {
            return Ok(());
        }
        let only = |e: &Env| Env { keys: e.keys.clone(), recs: e.recs.clone(), data: vec![], files: vec![e.files[0].clone()] };
        // learn the generated keys
        w.look(&only(&e))?;
        fsx::start(&snap, vec![(k, f, false)]);
        w.faulty = true;
        let r = w.apply(&e, op);
        w.faulty = false;
        let failed = fsx::failed();
        fsx::set_faults(vec![]);
        more = fsx::stop().injected > 0;
        if !more {
            return Ok(());
        }
        fence::off();
        out.see(&(failed.first().map(|c| c.split('(').next().unwrap_or("").to_string()), format!("{op:?}"), w.failed));
        fence::on();
        r.map_err(|x| format!("{x}; failed call {failed:?}"))?;
        if w.failed {
            // the file is as before, or as if the call had succeeded
            let h = match op {
                Create(_, f, k) => Some((*f, (*k, Recs::new()))),
                Gen(h, k, _) | Write(h, k, ..) | Seed(h, k) | Derive(h, k, _) => w.handles[*h].as_ref().map(|x| (x.0, (*k, x.1.clone()))),
                _ => None,
            };
            let mut ok = false;
            let mut why = String::new();
            for new in [false, true] {
                let keep = (w.disk.clone(), w.pins.clone());
                if new {
                    match &h {
                        Some((f, x)) => w.disk.insert(*f, x.clone()),
                        None => break,
                    };
                }
                match w.look(&only(&e)) {
                    Ok(()) => {
                        ok = true;
                        break;
                    }
                    Err(x) => why = format!("{why}; {x}"),
                }
                (w.disk, w.pins) = keep;
            }
            if !ok {
                return Err(format!("the file is neither old nor new: {why} (failed call {failed:?})"));
            }
        }
        // life goes on
        if w.handles[0].is_none() {
            w.apply(&e, &Create(0, 0, 0))?;
        }
        w.apply(&e, &Write(0, 0, 2, 2))?;
        w.apply(&e, &Pub(0, 2))?;
        w.look(&only(&e))
    })();
    fence::off();
    if let Err(x) = r.and_then(|_| w.finish()) {
        out.fail(name, x);
    }
    more
}

fn logging(level: usize, out: &mut Outcome) {
    let d = Scratch::new("c22l");
    let log = std::ffi::CString::new(d.path().join("log").to_str().unwrap()).unwrap();
    let mut e = env();
    e.files = vec![d.path().join("one")];
    e.keys = vec!["my passphrase".into()];
    e.data = vec![(100..164).collect()];
    unsafe {
        let fd = libc::open(log.as_ptr(), libc::O_CREAT | libc::O_RDWR, 0o600);
        let (o, r) = (libc::dup(1), libc::dup(2));
        libc::dup2(fd, 1);
        libc::dup2(fd, 2);
        fence::on();
        n::stronghold_set_log_level(if level == 7 { usize::MAX } else { level });
        let mut w = World { fetch: true, ..Default::default() };
        let mut res = Ok(());
        for op in [Create(0, 0, 0), Write(0, 0, 0, 0), Write(0, 0, 1, 0), Derive(0, 0, 7), Pub(0, 0), Sign(0, 0, 0), Gen(0, 0, 2), Pub(0, 1), Free, Destroy(0), Load(0, 0, 0)] {
            res = res.and_then(|_| w.apply(&e, &op).map_err(|x| format!("{op:?}: {x}")));
        }
        n::stronghold_destroy_data_pointer(std::ptr::null_mut());
        n::stronghold_destroy_error(std::ptr::null_mut());
        n::stronghold_destroy_stronghold(std::ptr::null_mut());
        res = res.and_then(|_| w.finish());
        libc::dup2(o, 1);
        libc::dup2(r, 2);
        fence::off();
        if let Err(x) = res {
            out.fail(format!("log level {level}"), x);
        }
    }
    let text = std::fs::read(d.path().join("log")).unwrap_or_default();
    out.count("log_bytes", text.len() as u64);
    let list = |a: u8| (a..a + 6).map(|x| x.to_string()).collect::<Vec<_>>().join(", ").into_bytes();
    let hexa = |a: u8| hex(&(a..a + 6).collect::<Vec<_>>()).into_bytes();
    let mut bad: Vec<Vec<u8>> = vec![b"passphrase".to_vec(), hex(&hash_key("my passphrase")).into_bytes(), b"defghijk".to_vec()];
    for a in 100..150 {
        bad.push(list(a));
        bad.push(hexa(a));
    }
    for b in bad {
        if text.windows(b.len()).any(|x| x == b) {
            out.fail(format!("log level {level}"), format!("the log shows {:?}", String::from_utf8_lossy(&b)));
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tier = args.get(2).map(|s| s.as_str()).unwrap_or("quick");
    std::process::exit(run(tier));
}

fn run(tier: &str) -> i32 {
    use std::sync::atomic::Ordering::SeqCst;
    let mut rep = Report::new("C22", tier, "model_checking");
    let th = rep.thorough();

    // (a) histories
    let mut ab = vec![Create(1, 0, 0), Create(1, 1, 0), Create(1, 2, 0), Load(0, 0, 0), Load(1, 0, 0), Load(1, 0, 1), Load(1, 1, 0), Destroy(0), Destroy(1), Free];
    ab.extend([Gen(0, 0, 0), Gen(0, 1, 0), Gen(1, 0, 1), Write(0, 0, 0, 2), Write(0, 0, 1, 3), Write(1, 0, 1, 2), Write(0, 0, 2, 1), Seed(0, 0), Seed(1, 1)]);
    ab.extend([Derive(0, 0, 7), Derive(1, 0, 7), Pub(0, 0), Pub(0, 2), Pub(1, 1), Sign(0, 0, 0), Sign(0, 2, 3), Sign(1, 1, 1)]);
    let na = ab.len() as u64;
    let depth = if th { 4 } else { 3 };
    let begin = |i: u64| -> Vec<Op> {
        let mut v = vec![Create(0, 0, 0)];
        v.extend(digits(i, na, depth - 1).into_iter().map(|d| ab[d].clone()));
        v
    };
    // one case: every last operation after one beginning
    let o = run_cases(
        na.pow(depth as u32 - 1),
        120,
        &|i, out| {
            for last in &ab {
                let mut ops = begin(i);
                ops.push(last.clone());
                let Some(texts) = history(env(), &ops, true, true, out) else {
                    // the beginning does not apply?
                    let mut o = Outcome::default();
                    if *last == ab[0] && ops.len() > 1 && history(env(), &ops[..ops.len() - 1], true, false, &mut o).is_none() {
                        return;
                    }
                    continue;
                };
                let before = fence::LIVE.load(SeqCst);
                // the error is asked for only at the end: it is the last one
                let late = history(env(), &ops, false, false, out);
                match late {
                    None => return,
                    Some(l) if l.last() != texts.last() => out.fail(format!("{ops:?}"), format!("the last error is {:?}, later {:?}", texts.last(), l.last())),
                    Some(l) => drop(l),
                }
                let after = fence::LIVE.load(SeqCst);
                if after > before {
                    out.count("leaks", 1);
                    out.fail(format!("{ops:?}"), format!("{} allocations remain when everything was given back", after - before));
                }
                out.count("histories", 1);
            }
        },
        &|i| format!("{:?} and one more", begin(i)),
    );
    rep.absorb(&format!("histories of {} calls", depth + 1), o);

    // (b) inputs
    let long = |n: usize| "n".repeat(n);
    let names: Vec<String> = ["a", "A", "a ", " a", "a/b", "a.b", "\u{e9}", "e\u{301}", "\u{1f511}", "seed", "seed ", "seed.0", "seed.00", "", "wasp", "%s%n", "\n"]
        .iter().map(|s| s.to_string()).chain([63, 64, 65, 127, 128, 129, 300, 5000].map(long)).collect();
    let mut lens: Vec<usize> = (0..=if th { 300 } else { 140 }).collect();
    lens.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]);
    let mut inputs: Vec<(String, Env, Vec<Op>)> = vec![];
    // every name, all at once
    let mut e = env();
    e.recs = names.clone();
    e.data = (0..names.len()).map(|i| vec![i as u8 + 1; 32]).collect();
    let mut ops = vec![Create(0, 0, 0)];
    ops.extend((0..names.len()).map(|i| Write(0, 0, i, i)));
    ops.extend((0..names.len()).flat_map(|i| [Pub(0, i), Sign(0, i, i)]));
    inputs.push(("record names".into(), e, ops));
    // every name alone, through every function
    for (i, nm) in names.iter().enumerate() {
        let mut e = env();
        e.recs = vec![nm.clone(), "other".into()];
        let ops = vec![Create(0, 0, 0), Pub(0, 0), Gen(0, 0, 0), Sign(0, 0, 3), Write(0, 0, 1, 2), Destroy(0), Load(0, 0, 0), Pub(0, 0), Pub(0, 1), Write(0, 0, 0, 2), Pub(0, 0)];
        inputs.push((format!("record name {i}"), e, ops));
    }
    // keys: each opens only itself
    let keys: Vec<String> = names.iter().cloned().chain(["n", "secret", "secret\0x", "Secret"].map(|s| s.split('\0').next().unwrap().to_string())).collect();
    for k in 0..keys.len() {
        let mut e = env();
        e.keys = keys.clone();
        let mut ops = vec![Create(0, 0, k), Write(0, k, 0, 2), Destroy(0)];
        for j in 0..keys.len() {
            ops.push(Load(0, 0, j));
            if keys[j] == keys[k] {
                ops.push(Pub(0, 0));
                ops.push(Destroy(0));
            }
        }
        inputs.push((format!("key {k}"), e, ops));
    }
    // data of every length is stored, signs and is signed
    for n in &lens {
        let mut e = env();
        e.data = vec![(0..*n).map(|i| (i * 7 + 3) as u8).collect(), (0..32).collect()];
        inputs.push((
            format!("data of {n} bytes"),
            e,
            vec![Create(0, 0, 0), Write(0, 0, 0, 0), Pub(0, 0), Sign(0, 0, 0), Write(0, 0, 1, 1), Sign(0, 1, 0), Destroy(0), Load(0, 0, 0), Pub(0, 0), Sign(0, 1, 0), Free, Free],
        ));
    }
    // derivation, from seeds of every length
    for n in [0usize, 1, 5, 15, 16, 31, 32, 33, 63, 64, 65, 128] {
        let idx = [0u32, 1, 7, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0007, u32::MAX];
        let mut e = env();
        e.data = vec![(0..n).map(|i| (i * 11 + 1) as u8).collect()];
        e.recs = vec!["seed".into()];
        e.recs.extend(idx.iter().map(|i| format!("seed.{i}")));
        let mut ops = vec![Create(0, 0, 0), Derive(0, 0, 0), Write(0, 0, 0, 0)];
        ops.extend(idx.iter().map(|i| Derive(0, 0, *i)));
        ops.extend((0..e.recs.len()).map(|r| Pub(0, r)));
        inputs.push((format!("derive from a seed of {n} bytes"), e, ops));
    }
    let o = run_cases(
        inputs.len() as u64,
        120,
        &|i, out| {
            let (nm, e, ops) = &inputs[i as usize];
            let e = Env { keys: e.keys.clone(), recs: e.recs.clone(), data: e.data.clone(), files: vec![] };
            let mut o = Outcome::default();
            if history(e, ops, true, true, &mut o).is_none() && o.failures.is_empty() {
                o.fail(nm.clone(), "the history does not apply");
            }
            for f in o.failures {
                out.fail(nm.clone(), f.detail);
            }
        },
        &|i| inputs[i as usize].0.clone(),
    );
    rep.absorb("inputs", o);

    // (c) one file call fails
    let begins: Vec<Vec<Op>> = vec![
        vec![],
        vec![Create(0, 0, 0)],
        vec![Create(0, 0, 0), Write(0, 0, 0, 2), Seed(0, 0)],
        vec![Create(0, 0, 0), Write(0, 0, 0, 2), Destroy(0)],
        vec![Create(0, 0, 0), Gen(0, 1, 0), Destroy(0), Load(0, 0, 1)],
    ];
    let lasts = [Create(0, 0, 0), Create(0, 0, 1), Load(0, 0, 0), Gen(0, 0, 0), Write(0, 1, 0, 3), Seed(0, 0), Derive(0, 0, 7), Pub(0, 0), Sign(0, 0, 1)];
    let nl = lasts.len() as u64;
    let o = run_cases(
        begins.len() as u64 * nl,
        120,
        &|i, out| {
            let (b, l) = (&begins[(i / nl) as usize], &lasts[(i % nl) as usize]);
            for f in [Fault::Errno(libc::EIO), Fault::Errno(libc::ENOSPC), Fault::Errno(libc::EACCES), Fault::Errno(libc::EINTR), Fault::Short(0), Fault::Short(1), Fault::Zero] {
                let mut k = 0;
                while faulty(b, l, k, f, out) {
                    k += 1;
                    out.count("faults", 1);
                }
            }
        },
        &|i| format!("{:?} {:?}, faults", begins[(i / nl) as usize], lasts[(i % nl) as usize]),
    );
    rep.absorb("a failing file call", o);

    // (d) every log level: nothing secret is logged
    let o = run_cases(8, 60, &|i, out| logging(i as usize, out), &|i| format!("log level {i}"));
    rep.absorb("log levels", o);
    rep.set("states", rep.total.seen.len() as u64);
    rep.set("transitions", rep.count("transitions"));
    rep.set("traces_validated_against_impl", rep.count("histories") + inputs.len() as u64 + rep.count("faults"));
    rep.set("faults_injected", rep.count("faults"));
    rep.set("exhaustive", true);
    rep.assumptions.push("arguments are valid: terminated UTF-8 strings, handles and pointers that were handed out and not given back".into());
    rep.assumptions.push("the bindings are compiled into the check with the work factor of the snapshot encryption at its minimum".into());
    rep.finish()
}
