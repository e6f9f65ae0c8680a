//! C03: every name of a snapshot file is a file of its own, and nothing else in its directory is touched.
use crate::util::*;
use iota_stronghold::*;
use mc::*;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

fn names() -> Vec<OsString> {
    let mut v: Vec<Vec<u8>> = vec![];
    for s in [
        "a", "A", "a ", " a", "a\n", "a\t", "a.", "a..", ".a", "..a", "a.b", "a.B", "a.b.c", "a.tmp", "a.stronghold", "a.bak", "a~", "~a", "~", "$HOME", "%20", "a%20", "a b", "a+b",
        "a,b", "a;b", "a'b", "a\"b", "a\\b", "\\", "a*", "?", "[a]", "{a}", "-", "-a", "--", "#a", "a#", "a:b", "C:", "a|b", "a&b", "a\u{e9}", "a\u{65}\u{301}", "\u{212b}",
        "\u{e5}", "\u{dc}", "\u{fc}", "\u{1f600}", "\u{feff}a", "a\u{200b}", "\u{fffd}", "\u{fffd}\u{fffd}", "0", "00", "main", "snapshots", "null", "con", "...", ". ", "a.0000",
        "a.000000000000", "a.0123456789ab", "a.000000000000.000000000000",
    ] {
        v.push(s.into());
    }
    v.extend([vec![0xff], vec![0xfe], vec![0x80], vec![b'a', 0xff], vec![b'a', 0xc3], vec![0xff, 0xff], vec![0xed, 0xa0, 0x80], vec![1], vec![0x7f], vec![0x1b, b'[', b'2', b'J']]);
    // room is left for a temporary file with a longer name
    for n in [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 220] {
        v.push(vec![b'n'; n]);
        v.push([vec![b'n'; n - 1], vec![b'm']].concat());
        v.push([vec![b'm'], vec![b'n'; n - 1]].concat());
        v.push([vec![b'n'; n - 4], b".ext".to_vec()].concat());
    }
    v.into_iter().map(OsString::from_vec).collect()
}

fn put(path: &Path, secret: &[u8]) -> Result<(), String> {
    let s = Stronghold::default();
    let c = s.create_client("c").map_err(|e| e.to_string())?;
    c.vault("v").write_secret(loc("v", "r"), secret.to_vec()).map_err(|e| e.to_string())?;
    let p = SnapshotPath::from_path(path);
    if p.as_path() != path || p.clone().exists() != path.exists() {
        return Err("the path is not kept".into());
    }
    s.commit_with_keyprovider(&p, &kp(5)).map_err(|e| format!("commit: {e}"))
}
fn has(path: &Path, secret: &[u8]) -> Result<(), String> {
    let c = Stronghold::default()
        .load_client_from_snapshot("c", &kp(5), &SnapshotPath::from_path(path))
        .map_err(|e| format!("load: {e}"))?;
    match holds(&c, &loc("v", "r"), secret) {
        Ok(true) => Ok(()),
        r => Err(format!("the file has another content: {r:?}")),
    }
}
fn listing(d: &Path) -> BTreeMap<OsString, Vec<u8>> {
    std::fs::read_dir(d)
        .unwrap()
        .map(|e| e.unwrap())
        .map(|e| (e.file_name(), if e.path().is_file() { std::fs::read(e.path()).unwrap() } else { vec![] }))
        .collect()
}
/// Writes one file and looks whether it, and nothing else, has changed.
fn step(dir: &Path, path: &Path, file: &OsString, secret: &[u8]) -> Result<(), String> {
    let mut before = listing(dir);
    put(path, secret)?;
    let mut after = listing(dir);
    if before.remove(file) == after.remove(file) {
        return Err("the file has not changed".into());
    }
    if before != after {
        let odd: Vec<_> = before.keys().filter(|k| !after.contains_key(*k)).chain(after.keys().filter(|k| before.get(*k) != after.get(*k))).collect();
        return Err(format!("other files changed, came or went: {odd:?}"));
    }
    has(path, secret)
}

pub fn c03(rep: &mut Report) {
    let names = names();
    let n = names.len();
    // all names in one directory, in both orders, twice over
    let orders: Vec<Vec<usize>> = vec![(0..n).chain(0..n).collect(), (0..n).rev().chain(0..n).collect()];
    let o = run_cases(
        2,
        300,
        &|i, out| {
            let d = Scratch::new("c03names");
            let mut last = BTreeMap::new();
            for (k, x) in orders[i as usize].iter().enumerate() {
                let secret = format!("secret {k}").into_bytes();
                let p = d.path().join(&names[*x]);
                if let Err(e) = guard(|| step(d.path(), &p, &names[*x], &secret)).unwrap_or_else(|e| Err(format!("panic: {e}"))) {
                    out.fail(format!("file {:?}: {e}", names[*x]), format!("written as number {k}: {e}"));
                }
                last.insert(*x, secret);
                out.count("transitions", 1);
                out.see(&(i, k));
            }
            for (x, secret) in last {
                if let Err(e) = has(&d.path().join(&names[x]), &secret) {
                    out.fail(format!("file {:?} in the end: {e}", names[x]), e);
                }
            }
        },
        &|i| format!("names in order {i}"),
    );
    rep.absorb("file names side by side", o);

    // ways of giving the path, each from its own working directory
    let o = run_cases(
        n as u64,
        60,
        &|i, out| {
            let name = &names[i as usize];
            let d = Scratch::new("c03paths");
            let real = d.path().join("real dir");
            let sub = real.join("sub");
            std::fs::create_dir_all(&sub).unwrap();
            std::os::unix::fs::symlink(&real, d.path().join("link")).unwrap();
            let home = std::env::current_dir().unwrap();
            std::env::set_current_dir(&real).unwrap();
            let ways: Vec<PathBuf> = vec![
                PathBuf::from(name),
                Path::new(".").join(name),
                Path::new("sub/..").join(name),
                Path::new("./sub/../.").join(name),
                real.join(name),
                d.path().join("link").join(name),
                Path::new("../link").join(name),
                sub.join("..").join(name),
            ];
            for (k, w) in ways.iter().enumerate() {
                let secret = format!("secret {k}").into_bytes();
                let r = guard(|| step(&real, w, name, &secret).and_then(|_| ways.iter().try_for_each(|x| has(x, &secret))));
                if let Err(e) = r.unwrap_or_else(|e| Err(format!("panic: {e}"))) {
                    out.fail(format!("path {w:?}: {e}"), e);
                }
                out.count("transitions", 1);
                out.see(&(i, k));
            }
            if listing(&sub).len() + listing(d.path()).len() != 2 {
                out.fail(format!("{name:?}: files elsewhere"), format!("{:?}", listing(d.path()).keys()));
            }
            // by name, in the home directory
            std::env::set_var("STRONGHOLD", d.path().join("home"));
            let p = SnapshotPath::named(name);
            let at = d.path().join("home/.stronghold");
            if p.as_path() != at.join(name) {
                out.fail(format!("name {name:?}: the path is another"), format!("{:?}", p.as_path()));
            } else if let Err(e) = step(&at, p.as_path(), name, b"named") {
                out.fail(format!("name {name:?}: {e}"), e);
            }
            std::env::set_current_dir(home).unwrap();
        },
        &|i| format!("paths of {:?}", names[i as usize]),
    );
    rep.absorb("ways of giving the path", o);
}
