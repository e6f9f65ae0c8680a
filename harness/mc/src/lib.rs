//! Shared machinery of the checks: bookkeeping, known findings, evidence files, and the crash-tolerant
//! exhaustive executor that runs every case of a finite case space in forked workers.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::Instant;

pub use serde_json;

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// One thing that went wrong. `key` identifies the failing input / call site / history and is what the
/// known-findings file matches on; `detail` is what a human needs to replay it.
#[derive(Clone, Debug)]
pub struct Failure {
    pub key: String,
    pub detail: String,
}

impl Failure {
    pub fn new(key: impl Into<String>, detail: impl Into<String>) -> Self {
        Failure { key: key.into(), detail: detail.into() }
    }
}

/// What a case (one execution of the system) reports back.
#[derive(Default, Clone, Debug)]
pub struct Outcome {
    pub failures: Vec<Failure>,
    /// named counters, summed over all cases
    pub counts: BTreeMap<String, u64>,
    /// distinct things seen (abstract states, effects...), unioned over all cases
    pub seen: BTreeSet<u64>,
    /// a few samples
    pub samples: Vec<String>,
}

impl Outcome {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn fail(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        if self.failures.len() < 20 {
            self.failures.push(Failure::new(key, detail));
        }
    }
    pub fn see<T: std::hash::Hash>(&mut self, t: &T) {
        self.seen.insert(hash(t));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(s());
        }
    }
    pub fn merge(&mut self, o: Outcome) {
        for f in o.failures {
            if self.failures.iter().filter(|x| x.key == f.key).count() < 2 && self.failures.len() < 200 {
                self.failures.push(f);
            }
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.seen.extend(o.seen);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
    fn to_json(&self) -> Value {
        json!({
            "failures": self.failures.iter().map(|f| json!([f.key, f.detail])).collect::<Vec<_>>(),
            "counts": self.counts,
            "seen": self.seen,
            "samples": self.samples,
        })
    }
    fn from_json(v: &Value) -> Outcome {
        let mut o = Outcome::default();
        for f in v["failures"].as_array().into_iter().flatten() {
            o.failures.push(Failure::new(
                f[0].as_str().unwrap_or(""),
                f[1].as_str().unwrap_or(""),
            ));
        }
        for (k, n) in v["counts"].as_object().into_iter().flatten() {
            o.counts.insert(k.clone(), n.as_u64().unwrap_or(0));
        }
        for n in v["seen"].as_array().into_iter().flatten() {
            o.seen.insert(n.as_u64().unwrap_or(0));
        }
        for s in v["samples"].as_array().into_iter().flatten() {
            o.samples.push(s.as_str().unwrap_or("").to_string());
        }
        o
    }
}

/// FNV-1a, stable across runs.
pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    struct F(u64);
    impl std::hash::Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

thread_local! {
    static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Install a panic hook which is silent (panics of the code under test are results, not noise).
pub fn quiet_panics() {
    if std::env::var("MC_LOUD").is_ok() {
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
}

/// Run `f`, turning a panic into an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

pub fn workers() -> usize {
    std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    })
}

struct Shared {
    ptr: *mut u64,
    words: usize,
}
impl Shared {
    fn new(words: usize) -> Shared {
        let len = words * 8;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shared { ptr: p as *mut u64, words }
    }
    fn at(&self, i: usize) -> &std::sync::atomic::AtomicU64 {
        assert!(i < self.words);
        unsafe { &*(self.ptr.add(i) as *const std::sync::atomic::AtomicU64) }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.ptr as *mut _, self.words * 8) };
    }
}

/// Run cases `0..n` in forked workers. A worker that dies (signal, abort, exit) or hangs on a case yields a
/// failure for exactly that case and is restarted behind it. `describe(i)` names a case for replay.
pub fn run_cases(
    n: u64,
    hang_s: u64,
    case: &(dyn Fn(u64, &mut Outcome) + Sync),
    describe: &dyn Fn(u64) -> String,
) -> Outcome {
    use std::sync::atomic::Ordering::SeqCst;
    let mut total = Outcome::default();
    if n == 0 {
        return total;
    }
    let w = workers().min(n as usize).max(1);
    // per worker: [next chunk start is global], current case+1, done marker
    let sh = Shared::new(1 + 3 * w);
    let chunk = (n / (w as u64 * 16)).clamp(1, 512);
    struct Kid {
        pid: i32,
        fd: i32,
        buf: Vec<u8>,
        last: u64,
        last_t: Instant,
        alive: bool,
        kill: bool,
    }
    // resume: chunk [from, to) to be finished by a restarted worker
    let spawn = |slot: usize, resume: Option<(u64, u64)>, sh: &Shared| -> Kid {
        let mut fds = [0i32; 2];
        assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let mut out = Outcome::default();
            let mut range = resume;
            loop {
                let (a, b) = match range.take() {
                    Some(r) => r,
                    None => {
                        let a = sh.at(0).fetch_add(chunk, SeqCst);
                        if a >= n {
                            break;
                        }
                        (a, (a + chunk).min(n))
                    }
                };
                for i in a..b {
                    sh.at(1 + 3 * slot + 2).store(b, SeqCst);
                    sh.at(1 + 3 * slot).store(i + 1, SeqCst);
                    if let Err(p) = guard(|| case(i, &mut out)) {
                        out.fail(format!("panic: {}", first_line(&p)), format!("case {}: panicked: {p}", describe(i)));
                    }
                    out.count("cases", 1);
                }
                if out.failures.len() >= 20 {
                    // enough evidence; do not explore further in this worker
                    sh.at(0).store(n, SeqCst);
                }
            }
            sh.at(1 + 3 * slot + 1).store(1, SeqCst);
            let s = serde_json::to_vec(&out.to_json()).unwrap();
            let mut off = 0;
            while off < s.len() {
                let r = unsafe { libc::write(fds[1], s[off..].as_ptr() as *const _, s.len() - off) };
                if r <= 0 {
                    break;
                }
                off += r as usize;
            }
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fds[1]) };
        unsafe { libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK) };
        Kid { pid, fd: fds[0], buf: vec![], last: u64::MAX, last_t: Instant::now(), alive: true, kill: false }
    };
    let mut kids: Vec<Kid> = (0..w).map(|s| spawn(s, None, &sh)).collect();
    let mut crashes = 0;
    while kids.iter().any(|k| k.alive) {
        let mut idle = true;
        for slot in 0..w {
            let k = &mut kids[slot];
            if !k.alive {
                continue;
            }
            let mut tmp = [0u8; 65536];
            let eof = loop {
                let r = unsafe { libc::read(k.fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
                if r > 0 {
                    k.buf.extend_from_slice(&tmp[..r as usize]);
                    idle = false;
                } else {
                    break r == 0;
                }
            };
            if eof {
                let mut st = 0;
                unsafe { libc::waitpid(k.pid, &mut st, 0) };
                unsafe { libc::close(k.fd) };
                k.alive = false;
                let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
                let parsed = if ok { serde_json::from_slice::<Value>(&k.buf).ok() } else { None };
                match parsed {
                    Some(v) => total.merge(Outcome::from_json(&v)),
                    None => {
                        let cur = sh.at(1 + 3 * slot).load(SeqCst);
                        let end = sh.at(1 + 3 * slot + 2).load(SeqCst);
                        let how = if k.kill {
                            format!("no progress for {hang_s} s (hang)")
                        } else if libc::WIFSIGNALED(st) {
                            format!("killed by signal {}", libc::WTERMSIG(st))
                        } else {
                            format!("exited with status {}", libc::WEXITSTATUS(st))
                        };
                        let d = if cur > 0 { describe(cur - 1) } else { "start-up".into() };
                        total.failures.push(Failure::new(
                            format!("process died: {how}"),
                            format!("case {d}: {how}"),
                        ));
                        crashes += 1;
                        if cur > 0 && crashes < 6 {
                            sh.at(1 + 3 * slot + 1).store(0, SeqCst);
                            kids[slot] = spawn(slot, Some((cur, end)), &sh);
                        } else if crashes >= 6 {
                            sh.at(0).store(n, SeqCst);
                        }
                    }
                }
                continue;
            }
            let cur = sh.at(1 + 3 * slot).load(SeqCst);
            if cur != k.last {
                k.last = cur;
                k.last_t = Instant::now();
            } else if k.last_t.elapsed().as_secs() > hang_s && !k.kill && sh.at(1 + 3 * slot + 1).load(SeqCst) == 0 {
                k.kill = true;
                unsafe { libc::kill(k.pid, libc::SIGKILL) };
            }
        }
        if idle {
            std::thread::sleep(std::time::Duration::from_millis(3));
        }
    }
    total
}

pub fn first_line(s: &str) -> String {
    let l = s.lines().next().unwrap_or("");
    l.chars().take(160).collect()
}

/// The record of one check run.
pub struct Report {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub level: String,
    pub t0: Instant,
    pub total: Outcome,
    pub coverage: Map<String, Value>,
    pub assumptions: Vec<String>,
}

impl Report {
    pub fn new(property: &str, tier: &str, level: &str) -> Report {
        quiet_panics();
        Report {
            property: property.into(),
            tier: tier.into(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            level: level.into(),
            t0: Instant::now(),
            total: Outcome::default(),
            coverage: Map::new(),
            assumptions: vec![],
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn absorb(&mut self, label: &str, o: Outcome) {
        let t = self.t0.elapsed().as_secs_f64();
        let cases = o.counts.get("cases").copied().unwrap_or(0);
        eprintln!(
            "[{} {t:7.2}s] {label}: {cases} cases, {} distinct states/effects, {} failures",
            self.property,
            o.seen.len(),
            o.failures.len()
        );
        let mut part = Map::new();
        for (k, v) in &o.counts {
            part.insert(k.clone(), json!(v));
        }
        part.insert("distinct".into(), json!(o.seen.len()));
        let parts = self.coverage.entry("parts").or_insert_with(|| json!({}));
        parts.as_object_mut().unwrap().insert(label.into(), Value::Object(part));
        self.total.merge(o);
    }
    pub fn set(&mut self, k: &str, v: impl Into<Value>) {
        self.coverage.insert(k.into(), v.into());
    }
    pub fn count(&self, k: &str) -> u64 {
        self.total.counts.get(k).copied().unwrap_or(0)
    }
    /// Write evidence, print verdict lines, and return the exit code.
    pub fn finish(mut self) -> i32 {
        let dir = verif_dir();
        let known = load_known(&dir, &self.property);
        let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
        let mut fresh: Vec<Failure> = vec![];
        for f in &self.total.failures {
            match known.iter().find(|(k, _)| *k == f.key) {
                Some((k, _)) => *known_hit.entry(k.clone()).or_insert(0) += 1,
                None => fresh.push(f.clone()),
            }
        }
        for (k, what) in known.iter().filter(|(k, _)| known_hit.contains_key(k)) {
            println!("KNOWN-FINDING: property={} {what}", self.property);
            let _ = k;
        }
        let mut code = 0;
        let rdir = dir.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, f) in fresh.iter().enumerate() {
            code = 1;
            if i >= 10 {
                break;
            }
            let p = rdir.join(format!("{}-{}-{}.txt", self.property, self.tier, i));
            let _ = std::fs::write(
                &p,
                format!("property {}\nkey: {}\n{}\n", self.property, f.key, f.detail),
            );
            println!("VIOLATION property={} replay={} {}", self.property, p.display(), one_line(&f.key));
            eprintln!("  {}", f.detail);
        }
        self.coverage.insert(
            "samples".into(),
            json!(if self.total.samples.is_empty() { vec!["(none)".to_string()] } else { self.total.samples.clone() }),
        );
        self.coverage.insert("cases".into(), json!(self.count("cases")));
        let mut ev = json!({
            "property": self.property,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": Value::Object(self.coverage),
            "wall_s": (self.t0.elapsed().as_secs_f64()*100.0).round()/100.0,
            "assumptions": self.assumptions,
        });
        ev["violations"] = json!(fresh.len());
        if !fresh.is_empty() {
            ev["violation_list"] = json!(fresh
                .iter()
                .take(10)
                .map(|f| json!({"replay": f.detail, "key": f.key}))
                .collect::<Vec<_>>());
        }
        if !known_hit.is_empty() {
            ev["known_findings_hit"] = json!(known_hit);
        }
        let p = dir.join("evidence").join(format!("{}.json", self.property));
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        let mut f = std::fs::File::create(&p).expect("evidence file");
        f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
        code
    }
}

fn one_line(s: &str) -> String {
    s.replace('\n', " ")
}

/// entries of /verif/known_findings.json for a property: (key, what)
fn load_known(dir: &Path, property: &str) -> Vec<(String, String)> {
    let mut s = String::new();
    match std::fs::File::open(dir.join("known_findings.json")) {
        Ok(mut f) => {
            let _ = f.read_to_string(&mut s);
        }
        Err(_) => return vec![],
    }
    let v: Value = serde_json::from_str(&s).expect("known_findings.json is valid JSON");
    v["findings"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|e| e["property"] == property)
        .map(|e| (e["key"].as_str().unwrap().to_string(), e["what"].as_str().unwrap().to_string()))
        .collect()
}

/// Decode `i` as a sequence of `d` digits base `a` (first op first).
pub fn digits(mut i: u64, a: u64, d: usize) -> Vec<usize> {
    let mut v = vec![0usize; d];
    for k in (0..d).rev() {
        v[k] = (i % a) as usize;
        i /= a;
    }
    v
}

/// A scratch directory removed on drop; on tmpfs when possible.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let base = std::env::var("MC_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| {
            if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() }
        });
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = base.join(format!("mc-{tag}-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
