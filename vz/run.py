#!/usr/bin/env python3
"""Run the static check of one property against /repo's working tree.

  run.py <property> [--tier quick|thorough] [--facts FILE]     decide one property
  run.py --setup                                                build the facts driver
  run.py --all                                                  every property, shared facts (development)
"""
import sys, os, json, time, hashlib, subprocess, importlib, fcntl, traceback, re, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VZ_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
EVID = os.environ.get("VZ_EVID", os.path.join(ROOT, "evidence"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from facts import Facts, Missing  # noqa: E402
from interp import Interp, Budget  # noqa: E402


class Infra(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def driver():
    src = [os.path.join(ROOT, "driver", "Cargo.toml"), os.path.join(ROOT, "driver", "src", "main.rs")]
    hv = file_hash(src)
    out = os.path.join(BUILD, "driver", "debug", "vzfacts")
    stamp = os.path.join(BUILD, "driver.stamp")
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == hv:
        return out, hv
    r = sh(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(ROOT, "driver", "Cargo.toml")],
           env={"CARGO_TARGET_DIR": os.path.join(BUILD, "driver")})
    if r.returncode != 0 or not os.path.exists(out):
        raise Infra("the facts driver does not build:\n" + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(hv)
    return out, hv


def sources():
    out = []
    for base in ("src",):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            out += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def facts(features=("--all-features",)):
    """Type-check /repo's working tree under the driver and return the path of the dumped facts."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, hv = driver()
        key = file_hash(sources()) + hv[:8] + hashlib.sha256(" ".join(features).encode()).hexdigest()[:6]
        out = os.path.join(BUILD, f"facts-{key}.json")
        if os.path.exists(out):
            os.utime(out)
            return out
        # keep the cache small
        old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("facts-")), key=os.path.getmtime)
        for f in old[:-6]:
            os.remove(f)
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
        tgt = os.path.join(BUILD, "target")
        # cargo's freshness cache would skip the wrapper: forget the crate itself, keep its dependencies
        for p in (("debug", "build", "vinezombie"), ("debug", ".fingerprint")):
            d = os.path.join(tgt, *p)
            if p[-1] == ".fingerprint" and os.path.isdir(d):
                for f in os.listdir(d):
                    if f.startswith("vinezombie-"):
                        shutil.rmtree(os.path.join(d, f))
            elif os.path.isdir(d):
                shutil.rmtree(d)
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        r = sh(["cargo", "+nightly", "check", "--offline", "--lib", *features],
               env={"CARGO_INCREMENTAL": "0", "LD_LIBRARY_PATH": sysroot + "/lib", "VZ_OUT": tmp,
                    "RUSTC_WORKSPACE_WRAPPER": drv, "CARGO_TARGET_DIR": tgt}, cwd=REPO)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise Infra("/repo does not type-check under the facts driver:\n" + r.stdout[-3000:])
        os.rename(tmp, out)
        return out


class Ctx:
    """What a rule sees: the facts, and where it records obligations and violations."""

    def __init__(self, F, prop, tier):
        self.F, self.prop, self.tier = F, prop, tier
        self.viols = []
        self.obs = {}
        self.samples = []
        self.fns = set()
        self.assumptions = []
        self.notes = []

    def ob(self, rule, what, n=1):
        """One obligation of `rule` was examined (and discharged unless a violation is recorded)."""
        d = self.obs.setdefault(rule, [])
        d.append(what)

    def viol(self, key, where, msg):
        if not any(v[0] == key for v in self.viols):
            self.viols.append((key, where, msg))

    def need(self, rule, n):
        """Fail closed when fewer instances than confirmed by hand were found."""
        got = len(set(self.obs.get(rule, [])))
        if got < n:
            self.viol(f"count:{rule}", "-", f"only {got} instance(s) of rule '{rule}' found, {n} expected: its anchors are gone")

    def cover(self, *fns):
        for f in fns:
            self.fns.add(f.p)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def guard(self, key, f, *a):
        """Run one obligation; what cannot be analysed is reported, not skipped."""
        try:
            return f(*a)
        except Missing as e:
            self.viol(key + ":anchor", "-", f"anchor missing: {e}")
        except Budget as e:
            self.viol(key + ":undecided", "-", f"analysis budget exhausted, obligation not established: {e}")
        except RecursionError:
            self.viol(key + ":undecided", "-", "analysis recursion limit, obligation not established")


def known_findings(prop):
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def decide(prop, tier, F):
    t0 = time.time()
    mod = importlib.import_module("rules." + prop.lower())
    cx = Ctx(F, prop, tier)
    try:
        mod.check(cx)
    except (Missing, Budget) as e:
        cx.viol("anchor", "-", f"{type(e).__name__}: {e}")
    except Exception as e:
        if os.environ.get("VZ_DEBUG"):
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        cx.viol("undecided", "-", f"the program has a shape the rule cannot analyse ({type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}); the property is not established")
    known = known_findings(prop)
    fresh = [v for v in cx.viols if v[0] not in known]
    for v in cx.viols:
        if v[0] in known:
            print(f"KNOWN-FINDING: property={prop} {known[v[0]]} [{v[0]}]")
    bad = {v[0] for v in cx.viols}
    nob = sum(len(set(x)) for x in cx.obs.values())
    os.makedirs(EVID, exist_ok=True)
    samples = cx.samples[:8] or [f"{r}: {x}" for r, xs in cx.obs.items() for x in xs[:2]][:8]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": mod.EXPLAIN,
            "obligations": nob,
            "discharged": max(0, nob - len(bad)),
            "obligations_by_rule": {r: len(set(x)) for r, x in cx.obs.items()},
            "functions_analysed": len(cx.fns),
            "program": {"functions": len(F.fns), "impls": len(F.impls), "types": len(F.adts)},
            "functions": sorted(cx.fns)[:200],
            "samples": samples,
            "notes": cx.notes,
        },
        "assumptions": cx.assumptions + list(getattr(mod, "ASSUME", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    replay = os.path.join(EVID, prop + ".report.txt")
    with open(replay, "w") as f:
        for (k, w, m) in cx.viols:
            f.write(f"[{k}] {w}\n    {m}\n")
    for (k, w, m) in fresh:
        print(f"{prop} [{k}] {w}: {m}")
    if fresh:
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    print(f"OK property={prop} obligations={nob} functions={len(cx.fns)} wall={ev['wall_s']}s")
    return 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    fpath = None
    props = []
    do_all = False
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 1
        elif a[i] == "--facts":
            fpath = a[i + 1]
            i += 1
        elif a[i] == "--setup":
            try:
                facts()
            except Infra as e:
                print(e)
                return 2
            return 0
        elif a[i] == "--all":
            do_all = True
        else:
            props.append(a[i])
        i += 1
    if do_all:
        props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "rules")) if re.fullmatch(r"c\d\d\.py", f))
    try:
        F = Facts(fpath or facts())
    except Infra as e:
        print(e)
        return 2
    rc = 0
    for p in props:
        rc = max(rc, decide(p, tier, F))
    return rc


if __name__ == "__main__":
    sys.exit(main())
