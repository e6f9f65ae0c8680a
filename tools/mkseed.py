#!/usr/bin/env python3
"""mkseed.py SPEC...: builds seeded/<id>/ from tools-independent spec files (python: ID, PROPERTY, EDITS, NEEDS, BREAKS, MAIN).
Run with /repo clean; the edits are applied, diffed, the demonstration is tried on both trees, and the edits undone."""
import json, os, subprocess, sys
REPO, V = "/repo", "/verif"
DEMO = '''#!/bin/bash
# Exit 0 if the behaviour is right. Everything is built and run in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/demo/src" "$W/home" "$W/run"
cp "$D/main.rs" "$W/demo/src/main.rs"
cp "$D/Cargo.demo.toml" "$W/demo/Cargo.toml"
cp /repo/Cargo.lock "$W/demo/Cargo.lock" 2>/dev/null
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$W/target RUSTUP_TOOLCHAIN=stable
cd "$W/demo" || exit 3
cargo build --offline -q 2>"$W/log" || { tail -30 "$W/log"; exit 0; }
cd "$W/run" || exit 3
STRONGHOLD=$W/home XDG_DATA_HOME=$W/home HOME=$W/home timeout 120 "$W/target/debug/demo" "$W/run"
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
iota_stronghold = { path = "/repo/client", features = ["insecure"] }
engine = { package = "stronghold_engine", path = "/repo/engine" }
libc = "0.2"
bincode = "1"
'''
def sh(c, **k): return subprocess.run(c, shell=True, **k)
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    i = ns["ID"]; d = f"{V}/seeded/{i}"
    assert not subprocess.check_output(["git", "-C", REPO, "status", "--short"]), "/repo not clean"
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in ns["EDITS"]:
            t = open(f"{REPO}/{f}").read()
            assert t.count(a) >= 1, (f, a)
            open(f"{REPO}/{f}", "w").write(t.replace(a, b, 1))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", REPO, "diff"], text=True))
        open(d + "/main.rs", "w").write(ns["MAIN"])
        open(d + "/Cargo.demo.toml", "w").write(ns.get("TOML", TOML))
        demo = DEMO
        if "NATIVE" in ns:
            open(d + "/Cargo.native.toml", "w").write(ns["NATIVE"])
            demo = demo.replace('cp "$D/Cargo.demo.toml"', 'mkdir -p "$W/native"\ncp "$D/Cargo.native.toml" "$W/native/Cargo.toml"\ncp "$D/Cargo.demo.toml"')
        open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        r1 = sh(f"bash {d}/demo.sh", cwd=REPO)
        t1 = None
        if "--tests" in sys.argv: pass
        b = sh("bash /opt/vp/build.sh >/tmp/seedb.log 2>&1 && bash /opt/vp/test.sh /tmp/seedt.json >/tmp/seedt.log 2>&1", cwd=REPO)
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(json.load(open("/tmp/seedt.json"))["passed"]) if b.returncode == 0 or os.path.exists("/tmp/seedt.json") else set()
        missing = [x for x in base if x not in passed]
    finally:
        sh(f"git -C {REPO} checkout -- .")
    r0 = sh(f"bash {d}/demo.sh", cwd=REPO)
    ok = r0.returncode == 0 and r1.returncode not in (0,) and not missing and b.returncode == 0
    print(f"{i}: {'OK' if ok else 'BAD'} clean={r0.returncode} patched={r1.returncode} build/test={b.returncode} missing={missing[:3]}", flush=True)
