#!/usr/bin/env python3
"""Make and confirm a planted bug.  seed.py FILE.py [id-regex]
FILE defines S = [dict(id, prop, needs, breaks, edits=[(file, old, new)], main=<rust source>, feats=[...], deps='')].
Each is built in a scratch copy, must pass the stable tests, and its demo must pass before and fail after."""
import sys, os, re, json, subprocess, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = "/tmp/seedw"
DEMO = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds for the demonstrated input.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
vinezombie = {{ path = "$repo", default-features = false, features = [{feats}] }}
{deps}
[workspace]
T
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2> "$d/log" || {{ {nb} }}
timeout {to} "$d/target/debug/demo"
'''


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


for s in ns["S"]:
    if len(sys.argv) > 2 and not re.search(sys.argv[2], s["id"]):
        continue
    d = f"{ROOT}/seeded/{s['id']}"
    repo = W + "/repo"
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(repo):
        run(f"cp -a /repo {repo}", "/")
    run("git checkout -q -f . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", repo)
    for f, o, n in s["edits"]:
        p = repo + "/" + f
        t = open(p).read()
        assert o in t, (s["id"], f, o)
        open(p, "w").write(t.replace(o, n, 1))
    diff = run("git diff", repo).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(s["main"])
    feats = ", ".join(f'"{x}"' for x in s.get("feats", ["client", "base64"]))
    nb = s.get("nobuild", 'cat "$d/log"; exit 3;')
    open(d + "/demo.sh", "w").write(DEMO.format(feats=feats, deps=s.get("deps", ""), to=s.get("timeout", 60), nb=nb))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = run("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/seedw/log 2>&1; python3 /opt/vp/results.py /tmp/seedw/out.json cargo:/tmp/seedw/log; cat /tmp/seedw/out.json", repo)
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or json.load(open("/opt/vp/BASELINE.json")).get("tests", []))
    try:
        o = json.load(open("/tmp/seedw/out.json"))
        passed = set(o.get("passed", o.get("pass", [])))
        miss = base - passed
    except Exception as e:
        miss = {str(e)}
    bad = run(f"bash {d}/demo.sh", repo)
    good = run(f"bash {d}/demo.sh", "/repo")
    ok = not miss and bad.returncode != 0 and good.returncode == 0
    print(s["id"], "OK" if ok else "BAD", "missing", sorted(miss)[:3], "demo patched", bad.returncode, "clean", good.returncode,
          "" if ok else (good.stdout + good.stderr)[-800:] + "|" + (bad.stdout + bad.stderr)[-300:])
