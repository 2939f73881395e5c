#!/usr/bin/env python3
"""Development harness: apply small edits to scratch copies of /repo and run every check on each.

  mut.py FILE.py [name-regex]   FILE defines M = [(name, kind, props, [(file, old, new), ...]), ...]
                                kind 'bug': one of props must alarm; 'ref': nothing may alarm.
Nothing here is used by a registered check.
"""
import sys, os, re, subprocess, shutil, concurrent.futures as cf, threading, queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MW", "/tmp/mw")
N = int(os.environ.get("JOBS", "7"))
ns = {}
exec(open(sys.argv[1]).read(), ns)
M = [m for m in ns["M"] if len(sys.argv) < 3 or re.search(sys.argv[2], m[0])]
slots = queue.Queue()
for i in range(N):
    slots.put(i)
sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()


def one(m):
    name, kind, props, edits = m[:4]
    i = slots.get()
    try:
        d = f"{W}/{i}"
        repo = d + "/repo"
        os.makedirs(d, exist_ok=True)
        if os.path.exists(repo):
            shutil.rmtree(repo)
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git"))
        for (f, old, new) in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if old == "PATCH":
                continue
            if s.count(old) < 1:
                return name, kind, "NOEDIT " + f + ": " + old[:60], []
            open(p, "w").write(s.replace(old, new) if kind.endswith("*") else s.replace(old, new, 1))
        out = d + "/facts.json"
        if os.path.exists(out):
            os.remove(out)
        fp = d + "/tgt/debug/.fingerprint"
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("vinezombie-"):
                    shutil.rmtree(os.path.join(fp, x))
        e = dict(os.environ, CARGO_INCREMENTAL="0", LD_LIBRARY_PATH=sysroot + "/lib", VZ_OUT=out, CARGO_TARGET_DIR=d + "/tgt",
                 RUSTC_WORKSPACE_WRAPPER=ROOT + "/.build/driver/debug/vzfacts")
        shutil.rmtree(d + "/tgt/debug/build/vinezombie", ignore_errors=True)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--all-features"], cwd=repo, env=e, capture_output=True, text=True)
        if not os.path.exists(out):
            return name, kind, "NOCOMPILE", [l for l in r.stderr.split("\n") if l.startswith("error")][:5]
        ps = props.split() if os.environ.get("ONLY") == "2" or kind.startswith("bug") and os.environ.get("ONLY") else ["--all"]
        r = subprocess.run([sys.executable, ROOT + "/vz/run.py", *ps, "--facts", out], env=dict(e, VZ_EVID=d + "/ev"), capture_output=True, text=True)
        lines = r.stdout.split("\n")
        al = re.findall(r"VIOLATION property=(\S+)", r.stdout)
        det = [l for l in lines if re.match(r"C\d\d \[", l)]
        if r.returncode not in (0, 1):
            det.append("RC %d %s" % (r.returncode, r.stderr[-500:]))
        if kind.startswith("bug"):
            ok = any(p in al for p in props.split())
            return name, kind, ("caught by " + ",".join(al)) if ok else ("MISSED (" + ",".join(al) + ")"), det
        return name, kind, "quiet" if not al else "FALSE ALARM " + ",".join(al), det
    finally:
        slots.put(i)


with cf.ThreadPoolExecutor(N) as ex:
    for name, kind, res, det in ex.map(one, M):
        print(f"{name:34} {kind:5} {res}")
        for l in det[: int(os.environ.get("DET", "2"))]:
            print("      " + l[:int(os.environ.get("COLS", "220"))])
