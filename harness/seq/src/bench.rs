use crate::util::*;
use iota_stronghold::*;
pub fn run() -> i32 {
    let t = |n: &str, f: &mut dyn FnMut()| {
        let a = std::time::Instant::now();
        for _ in 0..200 { f() }
        println!("{n}: {:?}", a.elapsed() / 200);
    };
    t("stronghold", &mut || { Stronghold::default(); });
    let s = Stronghold::default();
    let mut i = 0;
    t("create_client", &mut || { i += 1; s.create_client(format!("{i}")).unwrap(); });
    let s = Stronghold::default();
    let c = s.create_client("c").unwrap();
    t("write", &mut || c.vault("v").write_secret(loc("v", "r"), vec![1; 20]).unwrap());
    t("holds", &mut || { holds(&c, &loc("v", "r"), &[1; 20]).unwrap(); });
    t("holds missing", &mut || { let _ = holds(&c, &loc("v", "q"), &[1; 20]); });
    t("exists", &mut || { c.record_exists(&loc("v", "r")).unwrap(); });
    let d = mc::Scratch::new("x");
    let p = SnapshotPath::from_path(d.path().join("s"));
    t("commit", &mut || s.commit_with_keyprovider(&p, &kp(3)).unwrap());
    t("read", &mut || { Snapshot::read_from_snapshot(&p, [3; 32], None).unwrap(); });
    let sn = Snapshot::read_from_snapshot(&p, [3; 32], None).unwrap();
    let id: engine::vault::ClientId = iota_stronghold::utils::LoadFromPath::load_from_path(b"c", b"c");
    t("get_state", &mut || { sn.get_state(id).unwrap(); });
    let c2 = s.create_client("c2").unwrap();
    t("sync", &mut || c2.sync_with(&c, Default::default()).unwrap());
    0
}
