#!/usr/bin/env python3
"""Makes and verifies planted bugs.

plant.py make SPEC.py     writes /verif/seeded/<id>/ for each bug of SPEC.py's BUGS
plant.py verify [ID...]   in a scratch copy of /repo: applies, builds, runs the tests, runs demo.sh both ways
"""
import glob, json, os, re, shutil, subprocess, sys

SEEDED = "/verif/seeded"
SCRATCH = "/tmp/plant/repo"

DEMO = r'''#!/bin/bash
# Run with cwd = the crate under test. Exits 0 if the property holds on this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
rm -rf /tmp/matreex-demo-@ID@
mkdir -p /tmp/matreex-demo-@ID@/src
trap 'rm -rf /tmp/matreex-demo-@ID@' EXIT
cp "$here/demo.rs" /tmp/matreex-demo-@ID@/src/main.rs
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" /tmp/matreex-demo-@ID@/Cargo.lock
cat > /tmp/matreex-demo-@ID@/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
matreex = { path = "$repo"@FEATURES@ }
[workspace]
EOF
cd /tmp/matreex-demo-@ID@
export CARGO_TARGET_DIR=/tmp/matreex-demo-@ID@/target
@RUN@
'''
RUN = "timeout -k 5 250 cargo run --offline --quiet"
MIRI = 'export MIRIFLAGS="@MF@"\ntimeout -k 5 280 cargo +nightly miri run --offline --quiet'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d = f"{SEEDED}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        sh("git checkout -q -- . && git clean -qfd -e target", SCRATCH)
        sh("git fetch -q && git reset -q --hard origin/HEAD", SCRATCH) if False else None
        for f, old, new in b["edits"]:
            p = f"{SCRATCH}/{f}"
            s = open(p).read()
            assert s.count(old) >= 1, (b["id"], f, old)
            if s.count(old) > 1:
                n = b.get("nth", {}).get(old)
                assert n is not None, (b["id"], "ambiguous", s.count(old), old)
                parts = s.split(old)
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = sh("git diff", SCRATCH).stdout
        sh("git checkout -q -- .", SCRATCH)
        open(d + "/patch.diff", "w").write(diff)
        feats = b.get("features")
        feats = "" if feats is None else ", default-features = false, features = " + json.dumps(feats)
        run = b.get("run") or (MIRI.replace("@MF@", b["miri"]) if "miri" in b else RUN)
        open(d + "/demo.sh", "w").write(DEMO.replace("@RUN@", run).replace("@ID@", b["id"]).replace("@FEATURES@", feats))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(b["demo"].lstrip("\n"))
        for name, body in b.get("extra", {}).items():
            open(f"{d}/{name}", "w").write(body)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", b["id"])


def verify(ids):
    bad = []
    for i in ids:
        d = f"{SEEDED}/{i}"
        sh("git checkout -q -- .", SCRATCH)
        run_dir = f"/tmp/plant/demo-{i}"
        shutil.rmtree(run_dir, ignore_errors=True)
        shutil.copytree(d, run_dir, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        clean = sh(f"bash {run_dir}/demo.sh", SCRATCH)
        a = sh(f"git apply {d}/patch.diff", SCRATCH)
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stdout); bad.append(i); continue
        t = sh("timeout 600 cargo test --workspace --features full --no-fail-fast --offline -- --test-threads 8", SCRATCH)
        ok = sum(map(int, re.findall(r"test result: \w+\. (\d+) passed", t.stdout)))
        failed = sum(map(int, re.findall(r"(\d+) failed", t.stdout)))
        dirty = sh(f"bash {run_dir}/demo.sh", SCRATCH)
        sh("git checkout -q -- .", SCRATCH)
        shutil.rmtree(run_dir, ignore_errors=True)
        good = clean.returncode == 0 and dirty.returncode not in (0, 124) and ok == 248 and not failed
        print(i, "ok" if good else "BAD", f"clean={clean.returncode} patched={dirty.returncode} tests={ok} failed={failed}", flush=True)
        if not good:
            bad.append(i)
            if ok != 248: print(*[l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error") or "panicked" in l][:8], sep="\n")
            if clean.returncode: print("clean demo:", clean.stdout[-1500:])
            if dirty.returncode in (0, 124): print("patched demo:", dirty.stdout[-800:])
        else:
            print("   patched:", next((l for l in reversed(dirty.stdout.splitlines()) if "panicked" in l or "rror" in l or "signal" in l), dirty.stdout[-100:])[:200])
    print("bad:", bad)


if not os.path.isdir(SCRATCH):
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", SCRATCH], check=True)
sh("git checkout -q -- . && git pull -q /repo HEAD || true", SCRATCH)
if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    verify(sys.argv[2:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(SEEDED + "/*/patch.diff")))
