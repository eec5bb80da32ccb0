#!/usr/bin/env python3
"""Confirms a planted bug and keeps it as /verif/seeded/<id>/.

    plant.py SPEC.py [ID ...]

SPEC.py defines BUGS: a list of dicts with id, property, edits [(file, old, new)],
main (the demonstration's main.rs: exits 0 on the unchanged tree), needs, breaks.
Everything is tried in a scratch copy of /repo under /tmp/pl.
"""
import json, os, subprocess, sys, shutil

SCRATCH = "/tmp/pl/repo"
DEMO = r'''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
work=$(mktemp -d) || exit 9
trap 'rm -rf -- "${work:?}"' EXIT
mkdir "$work/src" "$work/tmp" "$work/run"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
figment = { path = "$repo", features = ["env", "json", "toml", "yaml", "test"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
TOML
cp "$here/main.rs" "$work/src/main.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$work/"; elif [ -f /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock "$work/"; fi
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
(cd "$work" && cargo build -q --offline 2> "$work/log") || { cat "$work/log"; exit 8; }
cd "$work/run" && TMPDIR="$work/tmp" timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''

def sh(cmd, cwd=None, **env):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, **env})
    return r.returncode, r.stdout

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    os.makedirs("/tmp/pl", exist_ok=True)
    if not os.path.isdir(SCRATCH):
        sh(f"cp -a /repo {SCRATCH}")
    sh("git fetch -q /repo && git reset -q --hard FETCH_HEAD", SCRATCH)
    for b in ns["BUGS"]:
        if want and b["id"] not in want: continue
        sh("git checkout -q -- .", SCRATCH)
        d = f"/tmp/pl/new/{b['id']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(f"{d}/main.rs", "w").write(b["main"].strip() + "\n")
        open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        env = dict(DEMO_TARGET="/tmp/pl/target")
        rc, out = sh(f"bash {d}/demo.sh", SCRATCH, **env)
        if rc != 0:
            print(b["id"], "DEMO FAILS WITHOUT THE CHANGE", rc, out[-1500:]); continue
        ok = True
        for f, old, new in b["edits"]:
            p = f"{SCRATCH}/src/{f}"; s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT MATCHES", s.count(old), repr(old)); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        _, diff = sh("git diff", SCRATCH); open(f"{d}/patch.diff", "w").write(diff)
        rc, out = sh(f"bash {d}/demo.sh", SCRATCH, **env)
        if rc in (0, 8, 9):
            print(b["id"], "DEMO WITH THE CHANGE:", rc, out[-1500:]); continue
        demo_out = out.strip().splitlines()[-1:] 
        _, out = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", SCRATCH, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
        open("/tmp/pl/test.log", "w").write(out)
        sh("python3 /opt/vp/results.py /tmp/pl/o.json cargo:/tmp/pl/test.log")
        o = json.load(open("/tmp/pl/o.json"))
        missing = base - set(o["passed"])
        if missing:
            print(b["id"], "TESTS FAIL", sorted(missing)[:4], len(missing)); continue
        dst = f"/verif/seeded/{b['id']}"
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        print(b["id"], "KEPT", rc, demo_out)
    sh("git checkout -q -- .", SCRATCH)

main()
