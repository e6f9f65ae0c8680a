//! C07: concurrent use of one Stronghold instance.
use crate::lin::{scenario, Bounds, World};
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use mc::*;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

const NAMES: [&str; 3] = ["anna", "bert", "carl"];

fn kp() -> KeyProvider {
    KeyProvider::try_from(vec![3u8; 32]).unwrap()
}
fn loc() -> Location {
    Location::generic("vault", "record")
}
fn key_loc() -> Location {
    Location::generic("keys", "snapshot")
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Create(usize),
    Load(usize),
    LoadFrom(usize),
    LoadFromNew(usize),
    LoadSnap,
    Get(usize),
    Unload,
    Purge,
    WriteClient,
    Commit,
    CommitNew,
    StoreKey,
    CommitStored,
    Clear,
    /// through the handle of the first client
    Write(u8),
    Revoke,
    StoreIns(u8),
    Use,
    Sess(u8),
}
use Op::*;

fn ops() -> Vec<Op> {
    vec![
        Create(0), Create(2), Load(0), Load(1), LoadFrom(1), LoadFromNew(0), LoadSnap, Get(0), Get(2), Unload, Purge, WriteClient,
        Commit, CommitNew, StoreKey, CommitStored, Clear, Write(2), Revoke, StoreIns(2), Use, Sess(2),
    ]
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        for n in ["a", "sub/new", "sub"] {
            let p = self.0.join(n);
            let _ = std::fs::remove_file(&p);
            let _ = std::fs::remove_dir(&p);
        }
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone)]
pub struct W {
    s: Stronghold,
    anna: Client,
    dir: Arc<Dir>,
}

fn text<T: std::fmt::Debug, E: std::fmt::Display>(r: Result<T, E>) -> String {
    match r {
        Ok(t) => format!("{t:?}"),
        Err(e) => format!("error {e}"),
    }
}
fn hmac(c: &Client) -> String {
    match c.execute_procedure(Hmac { hash_type: Sha2Hash::Sha256, msg: b"which".to_vec(), key: loc() }) {
        Ok(h) => h.iter().take(4).map(|b| format!("{b:02x}")).collect(),
        Err(e) => match &e.to_string() {
            s if s.contains("not exist") => "no vault".into(),
            s => s.clone(),
        },
    }
}
fn content(c: &Client) -> String {
    format!("[{} {} {}]", text(c.record_exists(&loc())), hmac(c), text(c.store().get(b"k")))
}
fn state<E: std::fmt::Display>(r: Result<Client, E>) -> String {
    match r {
        Ok(c) => content(&c),
        Err(e) => format!("error {e}"),
    }
}

impl W {
    fn file(&self) -> SnapshotPath {
        SnapshotPath::from_path(self.dir.0.join("a"))
    }
    fn new_file(&self) -> SnapshotPath {
        SnapshotPath::from_path(self.dir.0.join("sub").join("new"))
    }
    /// error texts contain the directory
    fn plain(&self, s: String) -> String {
        s.replace(self.dir.0.to_str().unwrap(), "DIR")
    }
}

impl World for W {
    type Op = Op;
    type Local = ();
    fn steps(_: &Op) -> usize {
        1
    }
    fn step(&self, _: &Op, _: usize, _: &mut ()) -> Option<String> {
        unreachable!()
    }
    fn call(&self, op: &Op) -> String {
        let s = &self.s;
        let r = match *op {
            Create(n) => text(s.create_client(NAMES[n]).map(|_| ())),
            Load(n) => text(s.load_client(NAMES[n]).map(|_| ())),
            LoadFrom(n) => text(s.load_client_from_snapshot(NAMES[n], &kp(), &self.file()).map(|_| ())),
            LoadFromNew(n) => text(s.load_client_from_snapshot(NAMES[n], &kp(), &self.new_file()).map(|_| ())),
            LoadSnap => text(s.load_snapshot(&kp(), &self.file())),
            Get(n) => text(s.get_client(NAMES[n]).map(|_| ())),
            Unload => text(s.unload_client(self.anna.clone()).map(|_| ())),
            Purge => text(s.purge_client(self.anna.clone())),
            WriteClient => text(s.write_client(NAMES[0])),
            Commit => text(s.commit_with_keyprovider(&self.file(), &kp())),
            CommitNew => text(s.commit_with_keyprovider(&self.new_file(), &kp())),
            StoreKey => text(s.store_snapshot_key_at_location(kp(), key_loc())),
            CommitStored => text(s.commit(&self.file())),
            Clear => text(s.clear()),
            Write(v) => text(self.anna.vault("vault").write_secret(loc(), vec![v; 32])),
            Revoke => text(self.anna.vault("vault").revoke_secret("record")),
            StoreIns(v) => text(self.anna.store().insert(b"k".to_vec(), vec![v], None)),
            Use => hmac(&self.anna),
            Sess(v) => text(s.store().insert(b"k".to_vec(), vec![v], None)),
        };
        self.plain(r)
    }
    fn last(&self) -> String {
        let s = &self.s;
        let mut t = format!("handle {} session {}", content(&self.anna), text(s.store().get(b"k")));
        for n in NAMES {
            t += &format!(" {n} {}", state(s.get_client(n)));
        }
        // is the loaded one the one of the handle?
        let _ = self.anna.store().insert(b"mark".to_vec(), vec![1], None);
        t += &format!(" same {}", text(s.get_client(NAMES[0]).map(|c| c.store().get(b"mark").is_ok_and(|x| x.is_some()))));
        let _ = self.anna.store().delete(b"mark");
        for (what, f) in [("file", self.file()), ("new file", self.new_file())] {
            if !f.exists() {
                t += &format!(" {what}: none");
                continue;
            }
            let o = Stronghold::default();
            t += &format!(" {what}: {}", text(o.load_snapshot(&kp(), &f)));
            for n in NAMES {
                t += &format!(" {n} {}", state(o.load_client(n)));
            }
            t += &format!(" with key {}", self.dir.0.join("sub").exists());
        }
        t += &format!(" stored key: {}", text(s.commit(&SnapshotPath::from_path(self.dir.0.join("b")))));
        // the snapshot in memory, without the clients
        for n in NAMES {
            if let Ok(c) = s.get_client(n) {
                let _ = s.unload_client(c);
            }
        }
        for n in NAMES {
            t += &format!(" then {n} {}", state(s.load_client(n)));
        }
        self.plain(t)
    }
}

static COUNT: AtomicU64 = AtomicU64::new(0);
static IMAGE: Mutex<Vec<u8>> = Mutex::new(vec![]);

/// a snapshot with the first two clients
fn image(root: &std::path::Path) {
    let s = Stronghold::default();
    for (n, v) in [(0, 3u8), (1, 5)] {
        let c = s.create_client(NAMES[n]).unwrap();
        c.vault("vault").write_secret(loc(), vec![v; 32]).unwrap();
        c.store().insert(b"k".to_vec(), vec![v], None).unwrap();
    }
    let p = root.join("image");
    s.commit_with_keyprovider(&SnapshotPath::from_path(&p), &kp()).unwrap();
    *IMAGE.lock().unwrap() = std::fs::read(&p).unwrap();
}

fn setup(root: &std::path::Path, kind: u8) -> W {
    let d = root.join(format!("{}-{}", std::process::id(), COUNT.fetch_add(1, SeqCst)));
    std::fs::create_dir(&d).unwrap();
    std::fs::write(d.join("a"), &*IMAGE.lock().unwrap()).unwrap();
    let s = Stronghold::default();
    let anna = if kind == 0 {
        let a = s.create_client(NAMES[0]).unwrap();
        a.vault("vault").write_secret(loc(), vec![1; 32]).unwrap();
        a
    } else {
        let a = s.load_client_from_snapshot(NAMES[0], &kp(), &SnapshotPath::from_path(d.join("a"))).unwrap();
        s.store_snapshot_key_at_location(kp(), key_loc()).unwrap();
        a.vault("vault").write_secret(loc(), vec![1; 32]).unwrap();
        a
    };
    W { s, anna, dir: Arc::new(Dir(d)) }
}
const SETUPS: [&str; 2] = ["a client created, a snapshot file, nothing loaded", "a client loaded from the file and changed, a stored key"];

pub fn run(tier: &str) -> i32 {
    shim_sodium::light();
    let mut r = Report::new("C07", tier, "model_checking");
    let scratch = Scratch::new("c07");
    image(scratch.path());
    let root = scratch.path().to_path_buf();
    let o = ops();
    let t = r.thorough();
    let mut all: Vec<(u8, Vec<Vec<Op>>, u32)> = vec![];
    for k in 0..2u8 {
        for a in 0..o.len() {
            for b in a..o.len() {
                all.push((k, vec![vec![o[a]], vec![o[b]]], if t { 6 } else { 3 }));
            }
        }
    }
    let p_pairs = all.len();
    // the session store and the stored key are apart from the clients: calls on both at once come in pairs only
    let few: Vec<Op> = if t {
        o.iter().copied().filter(|x| !matches!(x, Sess(_) | StoreKey | Use | Get(2))).collect()
    } else {
        vec![LoadFrom(0), Load(0), Unload, Purge, WriteClient, Commit, Clear, Write(2)]
    };
    for k in if t { vec![0u8, 1] } else { vec![1u8] } {
        for a in 0..few.len() {
            for b in 0..few.len() {
                for c in 0..few.len() {
                    all.push((k, vec![vec![few[a], few[b]], vec![few[c]]], if t { 3 } else { 2 }));
                    if a <= b && b <= c {
                        all.push((k, vec![vec![few[a]], vec![few[b]], vec![few[c]]], if t { 2 } else { 1 }));
                    }
                }
            }
        }
    }
    let p_more = all.len() - p_pairs;
    let case = |i: u64, out: &mut Outcome| {
        let (k, threads, bound) = &all[i as usize];
        crate::rnd::seed(hash(&(i, 7)) | 1);
        let (k, root) = (*k, root.clone());
        scenario(out, SETUPS[k as usize], Arc::new(move || setup(&root, k)), threads, &Bounds { preemptions: *bound, executions: 500_000, steps: 50_000, detail: false, weak: false });
    };
    let describe = |i: u64| {
        let (k, threads, _) = &all[i as usize];
        format!("{}: {}", SETUPS[*k as usize], crate::lin::show(threads))
    };
    r.absorb("schedules", run_cases(all.len() as u64, 300, &case, &describe));
    r.set("bounds", serde_json::json!({
        "two threads with one call each, 3-6 preemptions": p_pairs,
        "two calls against one, three threads, 1-3 preemptions": p_more,
    }));
    r.finish()
}
