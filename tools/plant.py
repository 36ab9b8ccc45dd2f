#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from tools/plants/*.py (development tool, no check uses it).

  plant.py make [ID..]   make the change in a scratch copy, confirm it, store it
  plant.py hit  [ID..]   apply each stored patch to /repo, run the property's check, undo
"""
import json, os, re, shutil, subprocess, sys, tempfile, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = VERIF + "/seeded"
SCR = "/tmp/plant/repo"

DEMO_SH = """#!/bin/bash
# exits 0 when the property holds, nonzero when it does not; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
imgproc-rs = {{ path = "$repo", default-features = false, features = [{feat}] }}
TOML
cd "$tmp" || exit 3
export CARGO_TARGET_DIR="$tmp/target" SCRATCH="$tmp"
cargo run --offline -q
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def load():
    out = []
    for f in sorted(glob.glob(VERIF + "/tools/plants/*.py")):
        ns = {}
        exec(open(f).read(), ns)
        out += ns["BUGS"]
    return out

def make(b):
    d = f"{SEED}/{b['id']}"
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.isdir(SCR):
        subprocess.check_call(["cp", "-a", "/repo", SCR])
    sh(f"git -C {SCR} checkout -q -- .")
    sh(f"cd {SCR} && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    for f, old, new in b["edits"]:
        p = f"{SCR}/{f}"
        s = open(p).read()
        n = b.get("nth", {}).get(old, None)
        if n is None:
            assert s.count(old) == 1, (b["id"], f, "count", s.count(old), old)
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, "w").write(s)
    patch = sh(f"git -C {SCR} diff").stdout
    # the removed lines must be original ones
    base = sh("git -C /repo log --format=%h | tail -1").stdout.strip()
    orig_ok = False
    for f in {e[0] for e in b["edits"]}:
        diff = sh(f"git -C {SCR} diff -U0 -- {f}").stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            if n == 0: continue
            bl = sh(f"git -C /repo blame -s -L {a},{a+n-1} HEAD -- {f}").stdout
            for line in bl.splitlines():
                if line.lstrip("^").startswith(base) or line.startswith("^"): orig_ok = True
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.rs", "w").write(b["demo"].strip() + "\n")
    feat = ", ".join('"%s"' % x for x in b.get("features", ["simd"]))
    open(d + "/demo.sh", "w").write(DEMO_SH.format(feat=feat))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    r0 = sh(f"cd /repo && bash {d}/demo.sh")
    r1 = sh(f"cd {SCR} && bash {d}/demo.sh")
    base_t = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ)
    t = sh(f"cd {SCR} && CARGO_TARGET_DIR=/tmp/plant/target cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1")
    passed = set(re.findall(r"^test (\S+).* \.\.\. ok", t.stdout, re.M))
    need = base_t if isinstance(base_t, list) else base_t.get("stable") or base_t.get("passed") or base_t.get("tests") or list(base_t)
    if isinstance(need, dict): need = list(need)
    miss = [x for x in need if x.split("::")[-1].split(" ")[-1] not in {p.split("::")[-1] for p in passed}]
    docbad = re.findall(r"^test src/.*FAILED", t.stdout, re.M)
    miss = [x for x in miss if not x.startswith("doc:")] + docbad
    ok = r0.returncode == 0 and r1.returncode != 0 and not miss and orig_ok
    print(b["id"], b["prop"], "OK" if ok else "BAD", "clean", r0.returncode, "bug", r1.returncode, "missing", miss[:3], "orig", orig_ok)
    if not ok:
        if r0.returncode: print("   ", r0.stderr[-600:])
        if r1.returncode == 0: print("    demo passes with the bug")
        if "error" in t.stdout and miss: print(re.findall(r"error.*", t.stdout)[:3])
    elif r1.returncode != 0:
        print("   ", [l for l in r1.stderr.splitlines() if l.strip()][:2])
    return ok

def hit(b, prop=None):
    d = f"{SEED}/{b}"
    m = json.load(open(d + "/meta.json"))
    prop = prop or m["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    r = sh(f"git -C /repo apply {d}/patch.diff")
    assert r.returncode == 0, r.stderr
    try:
        c = sh(f"cd {VERIF} && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {prop}")
    finally:
        sh("git -C /repo checkout -- .")
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    print(b, prop, "CAUGHT" if c.returncode == 1 and v else "missed", c.returncode, (v or [c.stderr[-200:]])[0][:160])
    sys.stdout.flush()
    return c.returncode == 1

if __name__ == "__main__":
    mode, ids = sys.argv[1], sys.argv[2:]
    if mode == "make":
        for b in load():
            if not ids or b["id"] in ids:
                try:
                    make(b)
                except AssertionError as e:
                    print(b["id"], "ASSERT", str(e)[:300])
                sys.stdout.flush()
    else:
        for b in sorted(os.listdir(SEED)):
            if not ids or b in ids: hit(b)
