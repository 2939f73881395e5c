"""Loading and querying of the program facts dumped by the rustc driver."""
import json, re, sys

_LT = re.compile(r"'[a-z_]\w*,? ?|<'[a-z_]\w*>|'_,? ?")


def strip_lt(s):
    """Drop lifetimes from a printed path or type."""
    s = re.sub(r"for<('[a-z_]\w*(, )?)+> ", "", s)
    s = re.sub(r"&'[a-z_]\w* ", "&", s)
    s = re.sub(r"::<('[a-z_]\w*(, )?)+>", "", s)
    s = re.sub(r"<('[a-z_]\w*(, )?)+>", "", s)
    s = re.sub(r"'[a-z_]\w*, ", "", s)
    s = re.sub(r" \+ '[a-z_]\w*", "", s)
    return s


class Fn:
    __slots__ = ("p", "id", "kind", "sp", "nm", "mod", "raw", "body", "parent", "impl", "trait", "name",
                 "unsafe", "reach", "coroutine", "ins", "out", "closures")

    def __init__(self, raw):
        self.raw = raw
        self.p = strip_lt(raw["p"])
        self.id = raw["id"]
        self.kind = raw.get("kind", "Ext")
        self.sp = raw.get("sp", "?")
        self.nm = raw.get("nm", "")
        self.mod = raw.get("mod", "")
        self.body = raw["body"]
        self.parent = raw.get("parent")
        self.impl = None
        self.trait = None
        self.unsafe = raw.get("unsafe", False)
        self.reach = raw.get("reach", False)
        self.coroutine = raw.get("coroutine", False)
        self.ins = raw.get("in", [])
        self.out = raw.get("out")
        self.closures = []

    @property
    def file(self):
        return self.sp.rsplit(":", 1)[0]

    def __repr__(self):
        return f"<Fn {self.p}>"


class Facts:
    def __init__(self, path):
        with open(path) as f:
            r = json.load(f)
        self.raw = r
        self.types = r["types"]
        self.tstr = [strip_lt(t["s"]) if t else "?" for t in self.types]
        self.adts = {strip_lt(a["p"]): a for a in r["adts"]}
        self.impls = r["impls"]
        self.traits = {strip_lt(t["p"]): t for t in r["traits"]}
        self.consts = {c["id"]: c for c in r["consts"]}
        self.constp = {}
        for c in r["consts"]:
            self.constp.setdefault(strip_lt(c["p"]), c)
        self.fns = {}
        self.by_path = {}
        for f in r["fns"]:
            fn = Fn(f)
            self.fns[fn.id] = fn
            self.by_path.setdefault(fn.p, []).append(fn)
        self.ext = {}
        for f in r["ext"]:
            fn = Fn(f)
            self.ext[fn.id] = fn
        self.promoted = {(p["id"], p["i"]): p["body"] for p in r["promoted"]}
        impl_by_id = {i["id"]: i for i in self.impls}
        trait_by_id = {t["id"]: t for t in r["traits"]}
        for fn in self.fns.values():
            if fn.raw.get("pk", "").startswith("Impl"):
                fn.impl = impl_by_id.get(fn.parent)
            elif fn.raw.get("pk", "") == "Trait":
                fn.trait = trait_by_id.get(fn.parent)
            elif fn.parent in self.fns:
                self.fns[fn.parent].closures.append(fn)
        self.erase_transparent()
        # trait -> [(self type idx, impl)]
        self.impls_of = {}
        for i in self.impls:
            if "tr" in i:
                self.impls_of.setdefault(i["tr"], []).append(i)

    def erase_transparent(self):
        """Single-field repr(transparent) string newtypes are the value they wrap: drop their projections."""
        er = set()
        for p, a in self.adts.items():
            if p.startswith("string::subtypes::") and len(a["vs"]) == 1 and len(a["vs"][0]["f"]) == 1:
                a["erased"] = True
                er.add(p)
        cache = {}

        def erased(ti):
            r = cache.get(ti)
            if r is None:
                t = self.types[ti]
                r = cache[ti] = t.get("k") == "adt" and strip_lt(t["d"]) in er
            return r

        def fix(body, pl):
            if len(pl) < 2:
                return
            ti = body["locals"][pl[0]][0]
            out = [pl[0]]
            for e in pl[1:]:
                t = self.types[ti]
                if e == "*":
                    ti = t.get("t", ti) if t.get("k") in ("ref", "ptr") else (t["a"][0] if t.get("a") and isinstance(t["a"][0], int) else ti)
                elif e[0] == "f":
                    drop = erased(ti)
                    ti = e[2]
                    if drop:
                        continue
                elif e[0] in ("i", "ci"):
                    ti = t.get("t", ti)
                out.append(e)
            pl[:] = out

        def walk(body, x):
            if isinstance(x, dict):
                if x.get("k") in ("copy", "move") and "p" in x:
                    fix(body, x["p"])
                    return
                for v in x.values():
                    walk(body, v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (list, dict)):
                        walk(body, v)

        bodies = [f.body for f in self.fns.values()] + list(self.promoted.values())
        for body in bodies:
            for b in body["bbs"]:
                for s in b["s"]:
                    if s[0] == "=":
                        fix(body, s[1])
                        r = s[2]
                        if r[0] in ("ref", "rawptr"):
                            fix(body, r[2])
                        elif r[0] == "discr":
                            fix(body, r[1])
                        else:
                            walk(body, r)
                    elif s[0] == "setd":
                        fix(body, s[1])
                t = b["t"]
                k = t["k"]
                if k == "switch":
                    walk(body, t["d"])
                elif k == "call":
                    walk(body, t["f"])
                    walk(body, t["a"])
                    fix(body, t["d"])
                elif k == "drop":
                    fix(body, t["p"])
                elif k == "assert":
                    walk(body, t["c"])
                    walk(body, t["mo"])
                elif k == "yield":
                    walk(body, t["y"])

    def fn(self, path, must=True):
        l = self.by_path.get(path, [])
        if len(l) == 1:
            return l[0]
        if not l:
            if must:
                raise Missing(f"function {path} not found")
            return None
        raise Missing(f"function {path} ambiguous ({len(l)})")

    def ty(self, i):
        return self.types[i]

    def ts(self, i):
        return self.tstr[i]

    def adt_of(self, ti):
        t = self.types[ti]
        while t.get("k") in ("ref", "ptr"):
            t = self.types[t["t"]]
        return strip_lt(t["d"]) if t.get("k") == "adt" else None

    def impl_fn(self, trait_re, self_re, name):
        """Functions `name` of impls of traits matching trait_re for self types matching self_re."""
        out = []
        for i in self.impls:
            if "tr" not in i or not re.fullmatch(trait_re, i["tr"]):
                continue
            if not re.fullmatch(self_re, self.ts(i["self"])):
                continue
            for (n, fid, _) in i["items"]:
                if n == name and fid in self.fns:
                    out.append(self.fns[fid])
        return out

    def inherent(self, self_re, name):
        out = []
        for i in self.impls:
            if "tr" in i or not re.fullmatch(self_re, self.ts(i["self"])):
                continue
            for (n, fid, _) in i["items"]:
                if n == name and fid in self.fns:
                    out.append(self.fns[fid])
        return out


class Missing(Exception):
    pass


# ---------------------------------------------------------------- printing
def place_s(p):
    s = f"_{p[0]}"
    for e in p[1:]:
        if e == "*":
            s = f"(*{s})"
        elif e[0] == "f":
            s += f".{e[1]}"
        elif e[0] == "dc":
            s += f"@{e[2]}"
        elif e[0] == "i":
            s += f"[_{e[1]}]"
        else:
            s += f"{e}"
    return s


def op_s(F, o):
    if o["k"] in ("copy", "move"):
        return ("" if o["k"] == "copy" else "move ") + place_s(o["p"])
    if o["k"] == "const":
        if "fn" in o:
            return "fn " + strip_lt(o["fn"].get("r", o["fn"]["p"]))
        if "v" in o:
            return f"{o['v']}:{F.ts(o['t'])}"
        if "bytes" in o:
            return repr(bytes(o["bytes"]))
        if "def" in o:
            return "const " + strip_lt(o["def"]) + (f"#p{o['promoted']}" if "promoted" in o else "")
        return "const:" + F.ts(o["t"])
    return "?"


def rv_s(F, r):
    k = r[0]
    if k == "use":
        return op_s(F, r[1])
    if k in ("ref", "rawptr"):
        return ("&" if k == "ref" else "&raw ") + ("mut " if r[1] else "") + place_s(r[2])
    if k == "cast":
        return f"{op_s(F, r[2])} as {F.ts(r[3])} ({r[1]})"
    if k == "bin":
        return f"{r[1]}({op_s(F, r[2])}, {op_s(F, r[3])})"
    if k == "un":
        return f"{r[1]}({op_s(F, r[2])})"
    if k == "discr":
        return f"discr({place_s(r[1])})"
    if k == "agg":
        kk = r[1]
        nm = kk[0] if kk[0] != "adt" else f"{strip_lt(kk[1])}::{kk[3]}"
        if kk[0] == "closure":
            nm = strip_lt(kk[1])
        return f"{nm}({', '.join(op_s(F, x) for x in r[2])})"
    return str(r)


def show(F, fn, cleanup=False, out=sys.stdout):
    b = fn.body if hasattr(fn, "body") else fn
    if hasattr(fn, "p"):
        print(f"fn {fn.p}  [{fn.sp}] argc={b['argc']}", file=out)
    for i, (t, nm) in enumerate(b["locals"]):
        print(f"   let _{i}: {F.ts(t)}" + (f"  // {nm}" if nm else ""), file=out)
    for i, bb in enumerate(b["bbs"]):
        if bb["c"] and not cleanup:
            continue
        print(f" bb{i}:", file=out)
        for st in bb["s"]:
            if st[0] == "=":
                print(f"    {place_s(st[1])} = {rv_s(F, st[2])}   //{st[3]}", file=out)
            elif st[0] != "dead":
                print("   ", st, file=out)
        t = bb["t"]
        k = t["k"]
        if k == "goto":
            s = f"goto {t['t']}"
        elif k == "switch":
            s = f"switch {op_s(F, t['d'])} " + ", ".join(f"{v}->bb{x}" for v, x in t["v"]) + f", else->bb{t['o']}"
        elif k == "call":
            s = f"{place_s(t['d'])} = {op_s(F, t['f'])}({', '.join(op_s(F, x) for x in t['a'])}) -> bb{t['t']}"
        elif k == "drop":
            s = f"drop {place_s(t['p'])}:{F.ts(t['ty'])} -> bb{t['t']}"
        elif k == "assert":
            s = f"assert {op_s(F, t['c'])}=={t['e']} {t['m']} -> bb{t['t']}"
        else:
            s = k + (f" -> bb{t['t']}" if t.get("t") is not None else "")
        print(f"    {s}   //{t['ln']}", file=out)


if __name__ == "__main__":
    F = Facts(sys.argv[1])
    for p in sys.argv[2:]:
        for f in F.fns.values():
            if re.search(p, f.p):
                show(F, f)


def calls(fn):
    """(block index, terminator, callee) of every call in a function with a known callee."""
    for i, b in enumerate(fn.body["bbs"] if fn.body else []):
        t = b.get("t") or {}
        if t.get("k") == "call":
            f = t.get("f") or {}
            if f.get("fn"):
                yield i, t, f["fn"]
