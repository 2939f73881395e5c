"""C02: safe operations never produce an invalid restricted string."""
import re
from facts import strip_lt, Missing
from interp import Interp
from seqs import ALLB
from rules.strs import (SPEC, MOD, BUILDER, StrHook, newtype_of, newtype_ti, bytes_ti, slice_verdict, slice_first, val_slice)

EXPLAIN = ("Every place that makes a restricted string without validating (constructor expression, transmute, call of an "
           "unsafe constructor) is found in MIR; the safe function containing it is interpreted abstractly over all inputs "
           "and, for generic code, over every string type, and the bytes wrapped must be provably in the type's class on "
           "every path that reaches the place. Type-level rules cover the rest: infallible conversions only widen, no "
           "mutable access to a restricted string's bytes is handed out, transforms are bounded by the type's own marker.")
ASSUME = ["the base64 crate's standard engine only produces characters of the base64 alphabet"]
B64 = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=")
DIGITS = frozenset(b"0123456789")
LETTERS = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")


class H(StrHook):
    max_depth = 12

    def __init__(self, F, root):
        super().__init__(F)
        self.root = root
        self.events = {}

    def mine(self, I, site):
        """Is the event caused by the root itself, not by another safe public function it calls?"""
        ids = [c[0] for c in site.chain] + [site.fn.id]
        for i in ids:
            f = self.F.fns.get(i)
            if f is None or f.id == self.root.id or f.unsafe or "{closure" in f.p:
                continue
            if f.reach or f.impl is not None or f.trait is not None:
                return False
        return True

    def made(self, I, st, name, v, site):
        # a value made by using_value() inside unsafe code may be a carrier; what leaves the function is checked at its end
        if any("using_value" == self.F.fns[c[0]].nm for c in site.chain if c[0] in self.F.fns) or site.fn.nm == "using_value":
            return
        if self.mine(I, site):
            w = slice_verdict(I, st, val_slice(I, st, v), name)
            self.events.setdefault((name, site.fn.p), []).append((w, site.where))

    def agg(self, I, st, kk, vals, site):
        if kk[1].startswith(MOD) and kk[1][len(MOD):] in SPEC:
            self.made(I, st, kk[1][len(MOD):], vals[0], site)

    def cast(self, I, st, kind, v, ti, site):
        n = newtype_of(self.F, ti[1])
        if n and "ransmute" in kind:
            self.made(I, st, n, v, site)

    def call(self, I, st, cal, args, site):
        if cal.nm in ("encode", "encode_string", "encode_slice") and "base64" in cal.r:
            if cal.nm == "encode":
                t = I.slice_term(st, args[-1])
                if t is not None and not slice_first(I, st, t)[1]:
                    (s2, v), = fresh(I, st, B64, site)
                    return [(s2, ("vec", (("one", v), ("any", B64))))]
                return [(st, ("vec", (("any", B64),)))]
            if cal.nm == "encode_string":
                loc = args[-1][1] if args[-1][0] == "ref" else None
                if loc is not None:
                    s2 = st.copy()
                    old = I.read(s2, loc)
                    I.set_vec(s2, loc, (old[1] if old[0] == "vec" else (("any", ALLB),)) + (("any", B64),), site)
                    return [(s2, ("adt", "tuple", 0, ()))]
        fn = self.F.fns.get(cal.id)
        if fn is not None and fn.impl and "tr" not in fn.impl and fn.out is not None and len(fn.ins) == 1:
            sf = self.F.adt_of(fn.impl["self"])
            out = self.F.ts(fn.out)
            # Numeric holds three digits (C18) and Mode one letter (C33)
            if sf == "ircmsg::numeric::Numeric" and out in ("&str", "&[u8]", "&[u8; 3]", "[u8; 3]"):
                return known_bytes(I, st, [DIGITS] * 3, site)
            if sf == "state::mode::Mode" and out == "char":
                return fresh(I, st, LETTERS, site)
        if cal.nm == "encode_utf8" and "char" in cal.r and args:
            t = I.term(args[0], st)
            bs = frozenset(I.byteset(st, t))
            if I.fact(st, t) and max(bs, default=255) < 128:
                return [(st, ("s", ("deref", ("vec", (("one", args[0]),)))))]
        return super().call(I, st, cal, args, site)


def fresh(I, st, bs, site, k=0):
    t = ("oneof", site.fn.id, site.bb, k)
    s2 = st.copy()
    s2.facts[t] = ("in", frozenset(bs))
    return [(s2, ("s", t))]


def known_bytes(I, st, sets, site):
    segs = []
    for k, bs in enumerate(sets):
        (st, v), = fresh(I, st, bs, site, k)
        segs.append(("one", v))
    return [(st, ("s", ("deref", ("vec", tuple(segs)))))]


def creation_sites(F):
    """id -> fn of functions that contain an unvalidated creation of a restricted (or generic) string."""
    out = {}
    bn = {fid for i in F.impls for (n, fid, _) in i["items"] if F.fns.get(fid) is not None and F.fns[fid].unsafe and F.fns[fid].out is not None
          and (newtype_of(F, F.fns[fid].out))}
    # unsafe methods of the trait that make a value of the implementing type
    names = {F.fns[fid].nm for i in F.impls_of.get(MOD + "BytesNewtype", []) for (n, fid, _) in i["items"]
             if F.fns.get(fid) is not None and F.fns[fid].unsafe and F.fns[fid].out is not None and newtype_of(F, F.fns[fid].out)}
    for fn in F.fns.values():
        if fn.body is None:
            continue
        for b in fn.body["bbs"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] == "agg" and r[1][0] == "adt" and F.adts.get(strip_lt(r[1][1]), {}).get("erased"):
                    out[fn.id] = fn
                elif r[0] == "cast" and "ransmute" in r[1] and newtype_of(F, r[3]):
                    out[fn.id] = fn
            t = b["t"]
            if t["k"] == "call":
                c = t["f"].get("fn") or t["f"]
                cid = c.get("rid") or c.get("id") if isinstance(c, dict) else None
                g = F.fns.get(cid)
                if g is not None and g.unsafe and (g.id in bn or g.impl and F.adt_of(g.impl["self"]) == BUILDER):
                    out[fn.id] = fn
                elif isinstance(c, dict) and c.get("tr") == MOD + "BytesNewtype" and c.get("nm") in names:
                    out[fn.id] = fn
    return out


def params_of(F, fn):
    """Indices of type parameters of a body, from its local types."""
    out = {}

    def walk(ti, d=0):
        t = F.types[ti]
        if t is None or d > 6:
            return
        if t.get("k") == "param":
            out[t["i"]] = t["s"]
        for x in list(t.get("a", [])) + ([t["t"]] if isinstance(t.get("t"), int) else []):
            if isinstance(x, int):
                walk(x, d + 1)

    for l in fn.body["locals"]:
        walk(l[0])
    return out


def subs(F, fn):
    """Instantiations of the BytesNewtype parameters of fn; (label, sub)."""
    preds = list(fn.raw.get("preds") or []) + list((fn.impl or {}).get("preds") or [])
    ps = params_of(F, fn)
    bn = {}
    for i, nm in ps.items():
        n = nm.split("/")[0]
        if any(re.match(rf"<?{re.escape(n)} as string::subtypes::BytesNewtype|{re.escape(n)}: .*BytesNewtype", p) or
               ("BytesNewtype" in p and re.search(rf"\b{re.escape(n)}\b", p)) for p in preds):
            bn[i] = n
    if not bn:
        return [("", ())]
    names = list(SPEC) + ["Bytes"]
    idx = sorted(bn)
    out = []

    def rec(k, cur):
        if k == len(idx):
            hi = max(idx) + 1
            sub = [None] * hi
            for i, n in cur.items():
                sub[i] = bytes_ti(F) if n == "Bytes" else newtype_ti(F, n)
            out.append((",".join(cur[i] for i in idx), tuple(sub)))
            return
        for n in names:
            rec(k + 1, dict(cur, **{}) | {idx[k]: n})
    rec(0, {})
    # From bounds between the parameters
    froms = [(m.group(1), m.group(2)) for p in preds for m in [re.search(r"(\w+): core::convert::From<(\w+)>", p)] if m]
    if froms:
        inv = {v: k for k, v in bn.items()}
        pairs = from_pairs(F)
        keep = []
        for lab, sub in out:
            d = dict(zip(idx, lab.split(",")))
            if all(b in inv and a in inv and (d[inv[b]], d[inv[a]]) in pairs for a, b in froms if a in inv and b in inv):
                keep.append((lab, sub))
        out = keep
    return out


def from_pairs(F):
    """(source, target) with an infallible conversion, reflexive included."""
    out = {(n, n) for n in list(SPEC) + ["Bytes"]}
    for i in F.impls_of.get("core::convert::From", []):
        d = newtype_of(F, i["self"]) or ("Bytes" if F.adt_of(i["self"]) == "string::bytes::Bytes" and F.types[i["self"]]["k"] == "adt" else None)
        s = i["ta"][1] if len(i["ta"]) > 1 and isinstance(i["ta"][1], int) else None
        if d and s is not None:
            n = newtype_of(F, s)
            if n:
                out.add((n, d))
    return out


def unchecked(cx, fn, quick=True):
    F = cx.F
    for lab, sub in subs(F, fn):
        cx.cover(fn)
        h = H(F, fn)
        I = Interp(F, h)
        outs = I.run(fn, sub=sub)
        ot = I.subst(fn.out, sub) if fn.out is not None else None
        for st, v in outs:
            leaves(cx, I, st, v, ot, fn, lab)
        for (name, where), evs in h.events.items():
            cx.ob("unvalidated creation", f"{fn.p}[{lab}] {name} in {where}")
            for w, at in evs:
                if w:
                    cx.viol(f"create:{fn.p}:{name}", at.split(" in ")[0], f"{fn.p}{'<' + lab + '>' if lab else ''} makes a {name} without validation and its content is not established: {w}")


def leaves(cx, I, st, v, ti, fn, lab, d=0):
    """Restricted strings inside a returned value."""
    F = cx.F
    if ti is None or d > 3:
        return
    n = newtype_of(F, ti)
    if n:
        cx.ob("returned string", f"{fn.p}[{lab}] {n}")
        w = slice_verdict(I, st, val_slice(I, st, v), n)
        if w:
            cx.viol(f"return:{fn.p}:{n}", fn.sp, f"{fn.p}{'<' + lab + '>' if lab else ''} can return a {n} whose content is not established: {w}")
        return
    t = F.types[ti]
    if v[0] == "adt" and t.get("k") == "adt" and strip_lt(t["d"]) in ("core::option::Option", "core::result::Result"):
        a = [x for x in t["a"] if isinstance(x, int)]
        if v[3]:
            leaves(cx, I, st, v[3][0], a[v[2] if t["d"].endswith("Result") else 0], fn, lab, d + 1)


def builder(cx, fn):
    """Builder<T>'s buffer holds a valid T after every safe method."""
    F = cx.F
    for lab, sub in subs(F, fn):
        name = lab.split(",")[0]
        if name == "Bytes" or name not in SPEC:
            continue
        if not SPEC[name][1] and any("Default" in p for p in (fn.impl.get("preds") or [])):
            continue   # the impl requires T: Default, which types that cannot be empty do not have
        h = H(F, fn)
        I = Interp(F, h)
        cx.cover(fn)
        cx.ob("builder invariant", f"{fn.p}[{lab}]")
        st0 = None
        for st, v in I.run(fn, sub=sub):
            if F.ts(fn.out).startswith(BUILDER):
                b = v
            else:
                b = I.read(st, (("M", ("arg", 1)), ()))
            buf = I.project(b, (("f", 0),))
            if buf[0] == "vec":
                s = ("s", ("deref", buf))
            else:
                s = ("s", ("deref", I.term(buf)))
            w = slice_verdict(I, st, s, name)
            if w:
                cx.viol(f"builder:{fn.p}", fn.sp, f"{fn.p} can leave a Builder<{name}> whose text is not a valid {name}: {w}")


def sup(a, b):
    """Is every valid a a valid b?"""
    if b == "Bytes":
        return True
    if a == "Bytes":
        return False
    x, y = SPEC[a], SPEC[b]
    return x[0] <= y[0] and (y[1] or not x[1]) and (y[2] or not x[2] or 58 not in x[0])


def types(cx):
    F = cx.F
    for (a, b) in sorted(from_pairs(F)):
        if a == b:
            continue
        cx.ob("widening conversion", f"{a} -> {b}")
        if not sup(a, b):
            cx.viol(f"from:{a}:{b}", "-", f"{b} can be made from any {a} without validation, but not every {a} is a valid {b}")
    for i in F.impls:
        n = newtype_of(F, i["self"])
        if not n or "tr" not in i:
            continue
        tr = i["tr"]
        if tr in ("core::ops::deref::DerefMut", "core::convert::AsMut", "core::borrow::BorrowMut", "core::ops::index::IndexMut"):
            cx.viol(f"mut:{n}:{tr}", i["sp"], f"{tr} for {n} lets safe code change its bytes")
        if tr == "core::ops::deref::Deref":
            t = next((x for x in i.get("at", []) if x[0] == "Target"), None)
            cx.ob("deref target", n)
            if t is not None and isinstance(t[1], int):
                d = newtype_of(F, t[1]) or "Bytes"
                if not sup(n, d):
                    cx.viol(f"deref:{n}", i["sp"], f"{n} dereferences to {d}, which it does not always satisfy")
    for n in SPEC:
        a = F.adts.get(MOD + n)
        if a is None:
            raise Missing(f"type {n}")
        for f in a["vs"][0]["f"]:
            if f["vis"] == "Public" or ("Restricted" in f["vis"] and "::string::subtypes" not in f["vis"]):
                cx.viol(f"field:{n}", a["sp"], f"the bytes of {n} are a public field: safe code can construct an invalid {n}")
        cx.ob("private content", n)
    # transforms of a restricted string are bounded by its own marker
    for fn in F.fns.values():
        n = newtype_of(F, fn.impl["self"]) if fn.impl and "tr" not in fn.impl else None
        if n and fn.nm == "transform":
            cx.ob("bounded transform", fn.p)
            preds = " ".join(fn.raw.get("preds") or [])
            if f"{n}Safe" not in preds:
                cx.viol(f"transform:{n}", fn.sp, f"{fn.p} accepts transforms not declared safe for {n}")


def check(cx):
    F = cx.F
    cx.guard("types", types, cx)
    sites = creation_sites(F)
    for fn in sites.values():
        if fn.unsafe or "{closure" in fn.p or fn.body is None:
            continue
        if fn.impl and fn.impl.get("derived"):
            continue
        cx.guard(f"create:{fn.p}", unchecked, cx, fn)
    for fn in F.fns.values():
        if fn.unsafe or "{closure" in fn.p or not fn.impl or F.adt_of(fn.impl["self"]) != BUILDER:
            continue
        ret = fn.out is not None and F.adt_of(fn.out) == BUILDER and F.types[fn.out]["k"] == "adt"
        mut = fn.ins and F.ts(fn.ins[0]).startswith("&mut " + BUILDER)
        if (ret or mut) and not fn.impl.get("derived"):
            cx.guard(f"builder:{fn.p}", builder, cx, fn)
