"""C19: deserialised values satisfy the same rules as constructed ones."""
import re
from facts import Missing, strip_lt, calls
from rules import valset
from interp import Interp, Hook, St, subterms
from seqs import canon, lin, lin_sub
from rules.strs import StrHook, SPEC, MOD, BYTES, newtype_of, bytes_ti
from rules import c02

EXPLAIN = (
    "Every function that belongs to a Deserialize or Visitor implementation, hand-written or derived, is found by type. In them: every "
    "unvalidated creation of a restricted string is interpreted over all inputs and the bytes must be provably in the type's class; no "
    "other unsafe constructor is called; no type with private fields is assembled from unrestricted data; and for types with a checked "
    "conversion, Ok is only returned with the converted value and never when the conversion failed. For every type with both "
    "implementations, what Serialize emits is compared with what Deserialize asks for and accepts: delegate types, field and variant "
    "names with their types and order, sequence/map element types, and for raw strings the data-model kinds (including the forms formats "
    "without native byte strings use) and that the content passes through whole.")
ASSUME = ["code generated by serde_derive does what serde documents for the attributes seen",
          "std, serde and format crates implement the serde data model consistently"]
DE = "serde_core::de::"
SER = "serde_core::ser::"
ONE_ = ("in", frozenset([1]))
ZERO_ = ("in", frozenset([0]))
TRANSPARENT = ("alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::boxed::Box", "alloc::rc::Rc")


def serde(path, side):
    return path and re.search(r"(^|[ <])serde(_core)?::" + side + "::", path)


def tr_is(tr, side, nm):
    return bool(tr) and re.fullmatch(rf"serde(_core)?::{side}::{nm}", tr) is not None


def de_fns(F):
    """Functions belonging to deserialisation: methods of the traits' implementations, and closures and items inside them."""
    out = {}
    ids = {}
    for fn in F.fns.values():
        tr = (fn.impl or {}).get("tr") or ""
        if tr_is(tr, "de", r"(Deserialize|DeserializeSeed|Visitor)\w*"):
            ids[fn.id] = fn
    for fn in F.fns.values():
        if not fn.body:
            continue
        root = fn
        n = 0
        while root is not None and root.id not in ids and n < 6:
            root = F.fns.get(root.raw.get("parent"))
            n += 1
        if root is not None or re.search(r"impl serde(_core)?::de::|as serde(_core)?::de::", fn.p):
            out[fn.id] = fn
    return out


def aggs(fn):
    for b in fn.body["bbs"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt":
                yield strip_lt(s[2][1][1]), s
            elif s[0] == "=" and s[2][0] == "cast" and "ransmute" in s[2][1]:
                yield None, s


def helper(path):
    return re.search(r"impl serde(_core)?::de::|::__\w+$|as serde(_core)?::de::", path) is not None


def unrestricted(F, ti, deser, d=0):
    """A leaf of a type that carries no rules of its own."""
    t = F.types[ti]
    if d > 8:
        return "?"
    k = t.get("k")
    if k in ("ref", "slice", "array"):
        return unrestricted(F, t["t"], deser, d + 1)
    if k == "tuple":
        for x in t.get("a", []):
            r = unrestricted(F, x, deser, d + 1)
            if r:
                return r
        return None
    if k == "adt":
        p = strip_lt(t["d"])
        if p == "core::marker::PhantomData":
            return None
        if p in F.adts:
            # a type of this crate: its own Deserialize, or functions of its own, made it
            return F.ts(ti) if p == BYTES else None
        a = [x for x in t.get("a", []) if isinstance(x, int) and not F.ts(x).startswith("alloc::alloc::")]
        for x in a:
            r = unrestricted(F, x, deser, d + 1)
            if r:
                return r
        return None if a else F.ts(ti)
    return F.ts(ti)


def check_making(cx):
    F = cx.F
    fns = de_fns(F)
    deser = {F.adt_of(i["self"]) for i in F.impls_of.get(DE + "Deserialize", [])}
    sites = c02.creation_sites(F)
    for fn in fns.values():
        cx.cover(fn)
        cx.ob("deserialising function", fn.p)
        derived = bool((fn.impl or {}).get("derived"))
        if fn.id in sites and not fn.unsafe and "{closure" not in fn.p:
            if derived:
                cx.viol("derived:" + fn.p, fn.sp, "a derived deserialiser wraps a restricted string around data without validating it")
            else:
                c02.unchecked(cx, fn)
        elif fn.id in sites and "{closure" in fn.p and not reached(F, fn, fns):
            c02.unchecked(cx, fn)
        for p, s in aggs(fn):
            if p is None:
                if newtype_of(F, s[2][3]) and fn.id in sites and not derived:
                    continue
                ty = F.adt_of(s[2][3])
                if ty in F.adts and not helper(ty):
                    cx.viol("transmute:" + fn.p, f"{fn.sp} line {s[3]}", f"a {ty} is made from deserialised data by transmuting it")
                continue
            a = F.adts.get(p)
            if a is None or helper(p) or a.get("erased"):
                continue
            fs = a["vs"][s[2][1][2]]["f"]
            if all(f.get("vis") == "pub" or f.get("reach") for f in fs) or len(a["vs"]) > 1:
                continue
            cx.ob("type with private parts assembled", (fn.p, p))
            for f in fs:
                w = unrestricted(F, f["t"], deser)
                if w:
                    cx.viol(f"raw:{fn.p}:{p}", f"{fn.sp} line {s[3]}", f"{p} is assembled from unrestricted data ({f['n']}: {w}) instead of through a checked constructor")
        for bb, t, c in calls(fn):
            g = F.fns.get((c or {}).get("rid") or (c or {}).get("id"))
            if g is not None and g.unsafe and not (fn.id in sites and not derived and g.out is not None and newtype_of(F, g.out)):
                if g.out is not None and F.adt_of(g.out) in F.adts and g.impl and F.adt_of(g.impl["self"]) not in (None,) and g.nm not in ("as_bytes_unsafe", "as_slice_unsafe"):
                    cx.viol("unsafe:" + fn.p, f"{fn.sp} line {t['ln']}", f"deserialised data is passed to the unchecked {g.p}")
    cx.need("deserialising function", 40)


def reached(F, clo, fns):
    """Is a closure interpreted as part of the function it is written in?"""
    par = clo
    while par is not None and "{closure" in par.p:
        par = F.fns.get(par.raw.get("parent"))
    if par is None:
        return False
    for lab, sub in c02.subs(F, par):
        I = Interp(F, c02.H(F, par))
        I.run(par, sub=sub)
        if clo.id not in I.fn_seen:
            return False
    return True


class Conv(StrHook):
    """Deserialising and converting kept apart: each may succeed or fail."""

    def __init__(self, F):
        super().__init__(F)
        self.used = []

    def fork(self, st, tag, x, site, cal):
        t = (tag, x, site.fn.id, site.bb)
        good, bad = st.copy(), st.copy()
        good.facts[("good", t)] = ONE_
        bad.facts[("good", t)] = ("in", frozenset([0]))
        return t, good, bad

    def call(self, I, st, cal, args, site):
        F = self.F
        R, O = "core::result::Result", "core::option::Option"
        if serde(cal.tr, "de") and cal.nm in ("deserialize",) or serde(cal.tr, "de") and cal.nm.startswith("deserialize_"):
            t, good, bad = self.fork(st, "de", cal.nm, site, cal)
            return [(good, ("adt", R, 0, (("s", t),))), (bad, ("adt", R, 1, (("s", ("err", t)),)))]
        if serde(cal.tr, "de") and cal.nm in ("custom", "invalid_value", "invalid_type", "invalid_length"):
            return [(st, ("s", ("custom", site.fn.id, site.bb)))]
        g = F.fns.get(cal.id)
        dty = I.cur_dty
        if g is not None and g.unsafe:
            return None
        if g is not None and cal.nm == "find_invalid" and args and site.fn.id in self.scope:
            x = I.term(args[0] if args[0][0] != "ref" else I.read(st, args[0][1]), st)
            t, good, bad = self.fork(st, "conv", x, site, cal)
            self.used.append(t)
            return [(good, ("adt", O, 0, ())), (bad, ("adt", O, 1, (("s", ("err", t)),)))]
        if dty is not None and site.fn.id in self.scope and cal.tr and cal.tr.split("::")[0] not in ("core", "alloc", "std", "serde_core", "serde") and cal.id not in F.fns:
            d = F.types[dty]
            if d.get("k") == "adt" and strip_lt(d["d"]) == R and F.ts(d["a"][0]) == "()":
                t, good, bad = self.fork(st, "load", cal.nm, site, cal)
                return [(good, ("adt", R, 0, (("adt", "tuple", 0, ()),))), (bad, ("adt", R, 1, (("s", ("err", t)),)))]
        if dty is not None and args and (g is not None or cal.tr and cal.nm in ("try_into", "try_from")) and site.fn.id in self.scope:
            d = F.types[dty]
            if d.get("k") == "adt" and strip_lt(d["d"]) in (R, O) and d.get("a") and isinstance(d["a"][0], int):
                w = F.types[d["a"][0]]
                if newtype_of(F, d["a"][0]) or w.get("k") in ("param",) or F.adt_of(d["a"][0]) in self.types:
                    x = I.term(args[0] if args[0][0] != "ref" else I.read(st, args[0][1]), st)
                    t, good, bad = self.fork(st, "conv", x, site, cal)
                    self.used.append(t)
                    if strip_lt(d["d"]) == R:
                        return [(good, ("adt", R, 0, (("s", t),))), (bad, ("adt", R, 1, (("s", ("err", t)),)))]
                    return [(good, ("adt", O, 1, (("s", t),))), (bad, ("adt", O, 0, ()))]
        return super().call(I, st, cal, args, site)


def check_conversions(cx):
    """Deserialising a restricted type succeeds exactly with what its checked conversion gives."""
    F = cx.F
    fns = de_fns(F)
    seen = 0
    for i in F.impls_of.get(DE + "Deserialize", []):
        p = F.adt_of(i["self"])
        if p is None or p not in F.adts or helper(p):
            continue
        name = newtype_of(F, i["self"])
        a = F.adts[p]
        raw = len(a["vs"]) == 1 and not all(f.get("vis") == "pub" or f.get("reach") for f in a["vs"][0]["f"]) and \
            any(unrestricted(F, f["t"], ()) for f in a["vs"][0]["f"])
        if not name and not raw:
            continue
        if p == BYTES:
            continue
        fn = next((F.fns[fid] for n, fid, _ in i["items"] if n == "deserialize" and fid in F.fns), None)
        if fn is None:
            raise Missing("deserialize of " + p)
        H = Conv(F)
        H.scope = set(fns)
        H.types = {p}
        I = Interp(F, H)
        I.split = 32
        outs = I.run(fn)
        cx.cover(fn)
        ok = 0
        for st, v in outs:
            if v[0] != "adt" or not v[1].endswith("Result"):
                cx.viol("result:" + p, fn.sp, f"what deserialising a {p} returns could not be determined")
                continue
            bad = [k for k, f in st.facts.items() if k[0] == "good" and f != ONE_]
            if v[2] == 1:
                cx.ob("rejection", (p, str([b[1][0] for b in bad])))
                if not bad and not p.endswith("secret::Secret"):
                    cx.viol("reject:" + p, fn.sp, f"deserialising a {p} fails although the data was read and accepted")
                continue
            cx.ob("acceptance", p)
            ok += 1
            t = I.term(v[3][0], st)
            while t[0] in ("s", "st") and isinstance(t[1], tuple):
                t = t[1]
            if bad:
                cx.viol("accept:" + p, fn.sp, f"deserialising a {p} succeeds although { {'conv': 'its checked conversion rejected the data', 'load': 'loading its content failed'}.get(bad[0][1][0], 'reading failed') }")
            elif t[0] != "conv":
                if name and t[0] == "de" and any(k[0] == "good" and k[1][0] == "conv" and t in set(subterms(k[1])) for k in st.facts):
                    pass   # checked, then wrapped
                elif name and t[0] == "de":
                    cx.viol("accept:" + p, fn.sp, f"deserialising a {p} returns data that never went through its checked conversion")
                elif not (p.endswith("secret::Secret") and any(x[0] == "conv" for x in subterms(t))):
                    cx.viol("accept:" + p, fn.sp, f"deserialising a {p} returns something other than the result of its checked conversion")
            elif not any(x and x[0] == "de" for x in subterms(t)):
                cx.viol("accept:" + p, fn.sp, f"deserialising a {p} converts something other than the data read")
        if not ok:
            cx.viol("accept:" + p, fn.sp, f"deserialising a {p} never succeeds")
        seen += 1
    cx.need("acceptance", 10)


# ---- numerics ---------------------------------------------------------------------------------------------------------------------

WIDTH = {"u8": 255, "u16": 65535, "u32": (1 << 32) - 1}


def meet(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]))


def rng(I, st, t, d=0):
    """Interval of an integer term: what its operators give, cut down by what is known on this path."""
    full = (0, 1 << 64)
    if d > 12 or not isinstance(t, tuple) or not t:
        return full
    if t[0] == "c":
        return (t[1], t[1])
    r = full
    if t[0] == "bf":
        lo, hi = rng(I, st, t[1], d + 1)
        vs = [t[2][b] for b in I.byteset(st, t[1]) if lo <= b <= hi]
        return (min(vs), max(vs)) if vs else (0, 0)
    if t[0] == "cast":
        r = rng(I, st, t[2], d + 1)
        w = WIDTH.get(t[1])
        if w is not None and r[1] > w:
            r = (0, w)
    elif t[0] == "s":
        r = rng(I, st, t[1], d + 1)
    elif t[0] == "elem":
        r = (0, 255)
    elif t[0] == "op" and len(t) == 4:
        a, b = rng(I, st, t[2], d + 1), rng(I, st, t[3], d + 1)
        if t[1] == "Div" and b[0] == b[1] > 0:
            r = (a[0] // b[0], a[1] // b[0])
        elif t[1] == "Rem" and b[0] == b[1] > 0:
            r = (0, min(a[1], b[0] - 1))
        elif t[1] == "Add":
            r = (a[0] + b[0], a[1] + b[1])
        elif t[1] == "Sub" and a[0] >= b[1]:
            r = (a[0] - b[1], a[1] - b[0])
        elif t[1] == "Mul":
            r = (a[0] * b[0], a[1] * b[1])
        elif t[1] == "BitAnd":
            r = (0, min(a[1], b[1]))
        elif t[1] == "BitOr":
            r = (max(a[0], b[0]), a[1] + b[1])
    elif t[0] == "lin":
        lo = hi = t[1]
        for x, c in t[2]:
            q = rng(I, st, x, d + 1)
            lo += c * (q[0] if c > 0 else q[1])
            hi += c * (q[1] if c > 0 else q[0])
        r = (lo, hi)
    f = st.facts.get(t)
    if f and f[0] == "in":
        r = meet(r, (min(f[1]), max(f[1])))
    for k, f in st.facts.items():
        if k[0] != "cmp" or f not in (ONE_, ZERO_):
            continue
        yes = f == ONE_
        if k[1] in ("Lt", "Le") and k[2] == t and k[3][0] == "c":
            n = k[3][1]
            if yes:
                r = meet(r, (0, n - 1 if k[1] == "Lt" else n))
            else:
                r = meet(r, (n if k[1] == "Lt" else n + 1, r[1]))
        elif k[1] in ("Lt", "Le") and k[3] == t and k[2][0] == "c":
            n = k[2][1]
            if yes:
                r = meet(r, (n + 1 if k[1] == "Lt" else n, r[1]))
            else:
                r = meet(r, (0, n if k[1] == "Lt" else n - 1))
    return r


class Digits(Hook):
    max_depth = 10

    def __init__(self, F, p):
        self.F, self.p, self.got = F, p, []

    def agg(self, I, st, kk, vals, site):
        if kk[0] == "adt" and kk[1] == self.p:
            self.got.append((site, vals[0], st.copy()))


def check_numeric(cx):
    """A numeric is only ever made of three ASCII digits."""
    F = cx.F
    p = next((a for a in F.adts if a.endswith("numeric::Numeric")), None)
    if p is None:
        raise Missing("the numeric reply type")
    for fn in F.fns.values():
        if not fn.body or fn.unsafe or fn.out is None or "{closure" in fn.p or (fn.impl or {}).get("derived") or "Numeric" not in F.ts(fn.out):
            continue
        if not fn.impl or F.adt_of(fn.impl["self"]) != p:
            continue
        H = Digits(F, p)
        I = Interp(F, H)
        I.split = 64
        I.unroll = 4
        I.run(fn)
        cx.cover(fn)
        for site, v, st in H.got:
            cx.ob("numeric made", fn.p)
            items = digits_of(v)
            if items is None:
                cx.viol("numeric:" + fn.p, fn.sp, f"the digits of a numeric made in {fn.p} could not be resolved")
                continue
            for x in items:
                lo, hi = rng(I, st, x if x[0] in ("c", "bf") else x[1] if x[0] == "s" else I.term(x, st))
                if not (48 <= lo and hi <= 57) and not (fn.ins and F.ts(fn.ins[0]) == "u16" and over(st, I.term(x, st) if x[0] not in ("c", "bf") else x)):
                    cx.viol("numeric:" + fn.p, fn.sp, f"{fn.p} can make a numeric with a part that is not an ASCII digit ({lo}..{hi})")
                    break
    cx.need("numeric made", 2)
    # The number and the digits stand for each other.
    for fn in F.fns.values():
        im = fn.impl or {}
        if not fn.body or not im or im.get("tr") or F.adt_of(im["self"]) != p or fn.unsafe or len(fn.ins) != 1:
            continue
        if fn.out is not None and F.ts(fn.out) == "u16":
            I = Interp(F, Digits(F, p))
            I.unroll, I.split = 4, 64
            for st, v in I.run(fn):
                cx.ob("number of a numeric", fn.p)
                t = I.term(v, st)
                for n in range(1000):
                    d = f"{n:03d}".encode()
                    x = value(t, lambda a: d[a] if isinstance(a, int) else None)
                    if x is None or x & 0xFFFF != n:
                        cx.viol("numeric-int:" + fn.p, fn.sp, f"{fn.p} gives {x if x is not None else 'an unresolved number'} for the numeric {d.decode()}")
                        break
        elif F.ts(fn.ins[0]) == "u16" and "Numeric" in F.ts(fn.out):
            I = Interp(F, H := Digits(F, p))
            I.unroll, I.split = 4, 64
            I.run(fn)
            for site, v, st in H.got:
                items = digits_of(v)
                cx.ob("numeric of a number", fn.p)
                for n in range(1000):
                    xs = [value(x, lambda a: n if a == "n" else None) for x in items or ()]
                    if None in xs or bytes(x & 255 for x in xs) != f"{n:03d}".encode():
                        cx.viol("numeric-int:" + fn.p, fn.sp, f"{fn.p} gives {xs} for the number {n}")
                        break
    cx.need("number of a numeric", 1)
    cx.need("numeric of a number", 1)


def over(st, t):
    """Is the term a digit for every number the state admits?"""
    try:
        return all(48 <= valset.ev(t, e) & 255 <= 57 for e in ({("arg", 1): n} for n in range(65536)) if valset.holds(st, e))
    except valset.Unknown:
        return False


def value(t, env, d=0):
    """The number a term over the digits (or over the number) stands for."""
    if not isinstance(t, tuple) or not t or d > 40:
        return None
    if t[0] == "c":
        return t[1]
    if t == ("arg", 1):
        return env("n")
    if t[0] == "elem" and t[2][0] == "c":
        return env(t[2][1])
    if t[0] == "s":
        return value(t[1], env, d + 1)
    if t[0] == "bf":
        x = value(t[1], env, d + 1)
        return None if x is None else t[2][x & 255]
    if t[0] == "cast":
        x = value(t[2], env, d + 1)
        return None if x is None else x & WIDTH.get(t[1], (1 << 64) - 1)
    if t[0] == "op" and len(t) == 4:
        a, b = value(t[2], env, d + 1), value(t[3], env, d + 1)
        if a is None or b is None or t[1] in ("Div", "Rem") and not b:
            return None
        f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b, "Rem": lambda: a % b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "Shl": lambda: a << b, "Shr": lambda: a >> b}.get(t[1])
        return f() if f else None
    if t[0] == "lin":
        r = t[1]
        for x, c in t[2]:
            y = value(x, env, d + 1)
            if y is None:
                return None
            r += c * y
        return r
    return None


def digits_of(v):
    """The three parts of the value a numeric is made from."""
    t = v
    if t[0] == "s":
        x = t[1]
        while x[0] in ("cast", "s") and isinstance(x[-1], tuple):
            x = x[-1]
        t = x
    items = t[3] if t[0] == "adt" and t[1] == "array" else t[2:] if t[0] == "agg" else None
    if t[0] == "st" and len(t) == 3:
        at = {k[0][1][1]: x for k, x in t[2] if len(k) == 1 and k[0][0] == "ix" and k[0][1][0] == "c"}
        base = t[1][1] if t[1][0] == "s" else t[1]
        if base[0] == "repeat" and base[2] == 3:
            items = [at.get(i, base[1]) for i in range(3)]
    return items if items is not None and len(items) == 3 else None


# ---- what is written is what is read ------------------------------------------------------------------------------------------------

def targs(cal, site):
    """Type arguments of a call as written at the call site."""
    f = site.fn.body["bbs"][site.bb]["t"].get("f")
    c = f.get("fn") if isinstance(f, dict) else None
    return c["a"] if c else cal.ty


class Emit(Hook):
    max_depth = 10

    def __init__(self, F):
        self.F, self.ev = F, []

    def lit(self, I, st, v):
        if v[0] == "ref":
            v = I.read(st, v[1])
        t = I.term(v, st)
        return t[1].decode(errors="replace") if t[0] == "b" else None

    def call(self, I, st, cal, args, site):
        if serde(cal.tr, "ser") or serde(cal.p, "ser") and self.F.fns.get(cal.id) is None:
            self.ev.append((cal.nm, targs(cal, site), [self.lit(I, st, a) for a in args], [a if a[0] != "ref" else I.read(st, a[1]) for a in args], st, site))
        return None

    def inline(self, I, cal, site):
        g = self.F.fns.get(cal.id)
        if g is not None and tr_is((g.impl or {}).get("tr"), "ser", "Serialize"):
            return False
        return None


class Accept(Hook):
    max_depth = 10

    def __init__(self, F):
        self.F, self.ev = F, []

    lit = Emit.lit

    def call(self, I, st, cal, args, site):
        if serde(cal.tr, "de") or re.match(r"serde::(private|__private\w*)::de", cal.p) or serde(cal.p, "de") and self.F.fns.get(cal.id) is None:
            self.ev.append((cal.nm, targs(cal, site), [self.lit(I, st, a) for a in args], [a if a[0] != "ref" else I.read(st, a[1]) for a in args], st, site))
        if cal.nm in ("eq", "ne") and cal.tr == "core::cmp::PartialEq" and len(args) == 2:
            ls = [self.lit(I, st, a) for a in args]
            l = next((x for x in ls if x is not None), None)
            if l is not None:
                yes, no = st.copy(), st.copy()
                yes.facts[("literal", l)] = ONE_
                b = cal.nm == "eq"
                return [(yes, ("c", int(b))), (no, ("c", int(not b)))]
        return None

    def inline(self, I, cal, site):
        g = self.F.fns.get(cal.id)
        if g is not None and tr_is((g.impl or {}).get("tr"), "de", "Deserialize"):
            return False
        return None


class Reps:
    """What types are written as and read from."""

    def __init__(self, cx):
        self.cx, self.F = cx, cx.F
        self.S = {F_adt: i for i in self.F.impls_of.get(SER + "Serialize", []) if (F_adt := self.F.adt_of(i["self"])) in self.F.adts}
        self.D = {F_adt: i for i in self.F.impls_of.get(DE + "Deserialize", []) if (F_adt := self.F.adt_of(i["self"])) in self.F.adts}
        self.memo = {}

    def method(self, i, n):
        for nm, fid, _ in i["items"]:
            if nm == n and fid in self.F.fns:
                return self.F.fns[fid]
        return None

    def ser(self, p):
        k = ("S", p)
        if k not in self.memo:
            fn = self.method(self.S[p], "serialize")
            H = Emit(self.F)
            I = Interp(self.F, H)
            I.split = 64
            I.run(fn)
            self.cx.cover(fn)
            self.memo[k] = (fn, I, H.ev)
        return self.memo[k]

    def de(self, p):
        k = ("D", p)
        if k not in self.memo:
            fn = self.method(self.D[p], "deserialize")
            H = Accept(self.F)
            I = Interp(self.F, H)
            I.split = 64
            I.run(fn)
            self.cx.cover(fn)
            self.memo[k] = (fn, I, H.ev)
        return self.memo[k]

    def delegate(self, p, side):
        """The type p is written/read as, if it simply delegates."""
        fn, I, ev = self.ser(p) if side == "S" else self.de(p)
        ns = {e[0] for e in ev} - {"custom"}
        want = "serialize" if side == "S" else "deserialize"
        if ns == {want}:
            ts = {e[1][0] for e in ev if e[0] == want}
            if len(ts) == 1:
                return next(iter(ts))
        return None

    def canon(self, ti, side, d=0):
        F = self.F
        if not isinstance(ti, int) or d > 10:
            return ("?",)
        t = F.types[ti]
        k = t.get("k")
        if k == "ref":
            return self.canon(t["t"], side, d + 1)
        if k == "slice":
            return ("seq", self.canon(t["t"], side, d + 1))
        if k == "adt":
            p = strip_lt(t["d"])
            a = [x for x in t.get("a", []) if isinstance(x, int)]
            if p in TRANSPARENT and a:
                return self.canon(a[0], side, d + 1)
            if p == "alloc::borrow::Cow" and a:
                return self.canon(a[-1], side, d + 1)
            if p == "core::option::Option" and a:
                return ("opt", self.canon(a[0], side, d + 1))
            if p in ("alloc::vec::Vec",) and a:
                return ("seq", self.canon(a[0], side, d + 1))
            if re.search(r"(BTreeMap|HashMap)$", p) and len(a) >= 2:
                return ("map", self.canon(a[0], side, d + 1), self.canon(a[1], side, d + 1))
            impls = self.S if side == "S" else self.D
            if p in impls:
                u = self.delegate(p, side)
                if u is not None:
                    return self.canon(u, side, d + 1)
                if side == "S":
                    w = shape(self, self.ser(p)[2])
                    if w[0] != "?":
                        return w
                return ("ty", p)
            if p == "alloc::string::String":
                return ("str",)
        if k in ("str",) or F.ts(ti) == "str":
            return ("str",)
        return ("std", re.sub(r"'\w+ ?", "", F.ts(ti)))


def visitor_fns(F, fn):
    """Methods of the visitors defined inside fn or for its type, by name."""
    out = {}
    for g in F.fns.values():
        tr = (g.impl or {}).get("tr") or ""
        if tr_is(tr, "de", "Visitor"):
            out.setdefault(strip_lt(F.adt_of(g.impl["self"]) or ""), {})[g.nm] = g
    return out


def check_symmetry(cx):
    F = cx.F
    R = Reps(cx)
    both = [p for p in R.S if p in R.D and p is not None]
    vis = visitor_fns(F, None)
    for p in sorted(both):
        cx.guard("symmetric:" + p, symmetric, cx, R, p, vis)
    cx.need("type written and read", 18)


def symmetric(cx, R, p, vis):
    F = cx.F
    if p == BYTES:
        return check_bytes(cx, R)
    cx.ob("type written and read", p)
    sfn, sI, sev = R.ser(p)
    dfn, dI, dev = R.de(p)
    bad = lambda why: cx.viol("symmetric:" + p, sfn.sp, f"{p} {why}")
    sd, dd = R.delegate(p, "S"), R.delegate(p, "D")
    names = [e[0] for e in sev]
    if "serialize_seq" in names or "serialize_map" in names:
        each_written(cx, R, p, sfn)
    if sd is not None or dd is not None:
        cs = R.canon(sd, "S") if sd is not None else shape(R, sev)
        cd = R.canon(dd, "D") if dd is not None else ("?",)
        if cs != cd:
            bad(f"is written as {show(cs)} but read as {show(cd)}")
        return
    hints = {e[0] for e in dev if e[0].startswith("deserialize_")}
    if "serialize_struct" in names or "serialize_newtype_struct" in names or "serialize_tuple_struct" in names or "serialize_unit_struct" in names:
        v = visitors_under(F, dfn, vis)
        if "serialize_newtype_struct" in names:
            w = [e[1][-1] for e in sev if e[0] == "serialize_newtype_struct"]
            g = v.get("visit_newtype_struct")
            if g is None or "deserialize_newtype_struct" not in hints:
                return bad("is written as a wrapper but not read as one")
            got = events(cx, F, g)
            r = [e[1][0] for e in got if e[0] == "deserialize"]
            if {R.canon(x, "S") for x in w} != {R.canon(x, "D") for x in r}:
                bad("wraps a different type when read than when written")
            return
        if "serialize_struct" not in names:
            raise Missing("how " + p + " is written")
        wrote = []
        for e in sev:
            if e[0] == "serialize_field":
                x = (e[2][1], R.canon(e[1][-1], "S"))
                if x not in wrote:
                    wrote.append(x)
        if any(n is None for n, _ in wrote):
            raise Missing("the field names " + p + " is written with")
        if "deserialize_struct" not in hints:
            return bad("is written as a structure but not read as one")
        vm, vs = v.get("visit_map"), v.get("visit_seq")
        if vm is None:
            return bad("is written with named fields but cannot be read from them")
        read, need = map_fields(cx, R, F, vm, v, dfn, vis)
        for n, t in wrote:
            if n not in read:
                bad(f"is written with a field '{n}' that is not read back")
            elif read[n] != t:
                bad(f"is written with field '{n}' as {show(t)} but it is read as {show(read[n])}")
        for n in need:
            if n not in [x for x, _ in wrote]:
                bad(f"needs a field '{n}' when read that is not written")
        # every field of the type is written
        flds = [f["n"] for f in F.adts[p]["vs"][0]["f"]]
        skipped = conditional(cx, F, sev, flds)
        for n, empty in skipped.items():
            if n in need:
                bad(f"needs a field '{n}' when read that is not always written")
            elif not empty:
                bad(f"can be written without its field '{n}' although that holds something")
        if len(wrote) < len(flds):
            bad(f"is written without all of its fields ({', '.join(n for n, _ in wrote)})")
        if vs is not None:
            got = events(cx, F, vs)
            ts = []
            for e in got:
                if e[0] == "next_element" and (e[5].bb, e[1][-1]) not in ts:
                    ts.append((e[5].bb, e[1][-1]))
            ts = [R.canon(t, "D") for _, t in sorted(ts)]
            if ts != [t for _, t in wrote]:
                bad("is read in a different order or with different types than it is written, in formats without field names")
        return
    variants = [e for e in sev if e[0] in ("serialize_unit_variant", "serialize_newtype_variant", "serialize_tuple_variant", "serialize_struct_variant")]
    if variants:
        v = [x for k, x in vis.items() if k.startswith(dfn.p + "::") or k.split("::__")[0] == dfn.p]
        fv = next((x["visit_str"] for k, x in vis.items() if "visit_str" in x and k.split("::__")[0].endswith(dfn.p.split("::", 1)[-1])), None)
        if fv is None or "deserialize_enum" not in hints:
            raise Missing("how " + p + " is read")
        idx = literals(cx, F, fv)
        H = Emit(F)
        for e in variants:
            name, ix = e[2][3], e[3][2]
            if name is None or ix[0] != "c":
                raise Missing("the variants " + p + " is written with")
            if name not in idx:
                bad(f"is written with a variant '{name}' that is not read back")
            elif idx[name] != ix[1]:
                bad(f"is written with variant '{name}' but that name is read as another one")
        ve = next((x["visit_enum"] for k, x in vis.items() if "visit_enum" in x and k.split("::__")[0].endswith(dfn.p.split("::", 1)[-1])), None)
        if ve is None:
            raise Missing("how " + p + " is read")
        got = events(cx, F, ve)
        w = sorted(str(R.canon(e[1][-1], "S")) for e in dedup(variants) if e[0] == "serialize_newtype_variant")
        r = sorted(str(R.canon(e[1][-1], "D")) for e in dedup(got) if e[0] == "newtype_variant")
        if w != r:
            bad("carries different data in its variants when read than when written")
        if len({e[2][3] for e in variants}) < len(F.adts[p]["vs"]):
            bad("has variants that are not written")
        return
    if set(names) == {"serialize"}:
        # untagged: whichever alternative fits
        w = {R.canon(e[1][0], "S") for e in sev}
        r = {R.canon(e[1][0], "D") for e in dev if e[0] == "deserialize" and "Content" not in F.ts(e[1][0])}
        if not w <= r:
            bad(f"is written as {', '.join(sorted(show(x) for x in w - r))}, which it is not read from")
        return
    raise Missing("how " + p + " is written")


def dedup(ev):
    seen, out = set(), []
    for e in ev:
        k = (e[0], e[5].fn.id, e[5].bb)
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def shape(R, sev):
    ns = {e[0] for e in sev}
    if "serialize_seq" in ns:
        el = {R.canon(e[1][-1], "S") for e in sev if e[0] == "serialize_element"}
        return ("seq",) + tuple(sorted(el, key=str))
    if "serialize_map" in ns:
        el = {(R.canon(e[1][-2], "S"), R.canon(e[1][-1], "S")) for e in sev if e[0] == "serialize_entry"}
        el |= {(R.canon(k[1][-1], "S"), R.canon(v[1][-1], "S")) for k in sev if k[0] == "serialize_key" for v in sev if v[0] == "serialize_value"}
        return ("map",) + tuple(next(iter(el))) if len(el) == 1 else ("map", "?")
    return ("?", tuple(sorted(ns)))


def show(c):
    if c[0] == "ty":
        return c[1].split("::")[-1]
    if c[0] in ("seq", "opt", "map"):
        return {"seq": "a list of ", "opt": "optional ", "map": "a map of "}[c[0]] + "/".join(show(x) if isinstance(x, tuple) else str(x) for x in c[1:])
    return " ".join(map(str, c[-1:])) if len(c) > 1 else c[0]


def events(cx, F, g):
    H = Accept(F)
    I = Interp(F, H)
    I.split = 64
    I.run(g)
    cx.cover(g)
    return H.ev


def visitors_under(F, dfn, vis):
    for k, x in vis.items():
        if k.endswith("__Visitor") and k.split("::__")[0].endswith(dfn.p.split("::", 1)[-1]):
            return x
    raise Missing("the visitor of " + dfn.p)


def literals(cx, F, fv):
    H = Accept(F)
    I = Interp(F, H)
    I.split = 64
    idx = {}
    for st, v in I.run(fv):
        l = [k[1] for k, f in st.facts.items() if k[0] == "literal" and f == ONE_]
        if v[0] == "adt" and v[2] == 0 and v[3] and v[3][0][0] == "adt" and l:
            idx[l[-1]] = v[3][0][2]
    cx.cover(fv)
    return idx


def map_fields(cx, R, F, vm, v, dfn, vis):
    """name -> type read, names required."""
    ev = events(cx, F, vm)
    fv = next((x["visit_str"] for k, x in vis.items() if k.endswith("__FieldVisitor") and k.split("::__")[0].endswith(dfn.p.split("::", 1)[-1])), None)
    if fv is None:
        raise Missing("the field names read by " + dfn.p)
    idx = literals(cx, F, fv)
    by = {}
    # which field each value read belongs to: the variant matched on the way
    for e in ev:
        if e[0] == "next_value":
            st = e[4]
            vi = None
            for k, f in st.facts.items():
                if k[0] == "discr" and f[0] == "in" and len(f[1]) == 1 and "__Field" in ftype(e, k):
                    vi = next(iter(f[1]))
            by.setdefault(e[5].bb, (vi, e[1][-1]))
    order = sorted((bb, t) for bb, (vi, t) in by.items() if "IgnoredAny" not in F.ts(t))
    req = set()
    types = {}
    for e in ev:
        if e[0] == "missing_field":
            n = next((x for x in e[2] if x is not None), None)
            if n is None:
                raise Missing("the field names required by " + dfn.p)
            ty = [x for x in e[1] if isinstance(x, int)]
            if not F.ts(ty[0]).startswith("core::option::Option") and "::Error" not in F.ts(ty[0]):
                req.add(n)
    names = sorted(idx, key=lambda n: idx[n])
    # values are read in the branch of their field; serde_derive emits them in field order
    if len(order) != len(names):
        raise Missing("the fields read by " + dfn.p)
    for n, (bb, t) in zip(names, order):
        types[n] = R.canon(t, "D")
    return types, req


def ftype(e, k):
    return "__Field"


def conditional(cx, F, sev, flds):
    """Fields left out, and whether only when they hold nothing: name -> verdict."""
    out = {}
    for e in sev:
        if e[0] != "skip_field":
            continue
        n = next((x for x in e[2] if x is not None), None)
        st = e[4]
        ok = False
        for i, f in enumerate(flds):
            if f != n:
                continue
            for k, v in st.facts.items():
                if v == ZERO_ and (k[0] in ("discr", "len") and tail(k[1]) == i or tail(k) == i):
                    ok = True
                elif k[0] == "call" and v == ONE_ and k[1].split("::")[-1] in ("is_none", "is_empty") and tail(k[2][0]) == i:
                    ok = True
        out[n] = out.get(n, True) and ok
    return out


def tail(t):
    """The field of self a term names, if it names one."""
    while isinstance(t, tuple) and t and t[0] in ("s", "mem", "deref", "ref"):
        t = t[1]
    if isinstance(t, tuple) and len(t) >= 3 and t[0] == "fld":
        x = t[1]
        while isinstance(x, tuple) and x and x[0] in ("s", "mem", "deref"):
            x = x[1]
        if x == ("arg", 1):
            return t[2]
    return None




GH = (("M", ("ghost", "written")), ())
ELEMENT = ("serialize_element", "serialize_entry", "serialize_key", "serialize_value")


def bump(I, st, n):
    v = canon(("op", "Add" if n > 0 else "Sub", I.term(I.read(st, GH), st), ("c", abs(n))))
    I.write(st, GH, v if v[0] == "c" else ("s", v))


class Each(StrHook):
    """Counts the elements a list or map is written with."""
    max_depth = 10

    def __init__(self, F):
        super().__init__(F)
        self.bad, self.opts, self.ends, self.loops, self.srcs = [], set(), [], 0, set()
        self.index, self.per = {}, 1

    inline = Emit.inline

    def call(self, I, st, cal, args, site):
        dty, tys = I.cur_dty, I.cur_argtys
        if cal.nm in ("try_for_each", "for_each") and len(args) == 2:
            it = args[0] if args[0][0] != "ref" else I.read(st, args[0][1])
            if it[0] == "s" and it[1][0] == "it" and it[1][2] == 0:
                e = I.elem_ref(it[1][1], ("itpos", it[1][1], "each"))
                if it[1][3] != "ref":
                    e = I.read(st, e[1])
                before = lin(I.term(I.read(st, GH), st))
                outs = I.call_fnlike(st.copy(), [args[1], ("adt", "tuple", 0, (e,))], [None, None], site, ("each", site.bb), 1, None)
                self.loops += 1
                for s2, v in outs or ():
                    if lin_sub(lin(I.term(I.read(s2, GH), s2)), before) != lin(("c", self.per)):
                        self.bad.append((site, "only some of its elements"))
                I.cur_dty, I.cur_argtys = dty, tys
                return I.opaque(st, cal, args, tys, site)
        if not (serde(cal.tr, "ser") or serde(cal.p, "ser") and self.F.fns.get(cal.id) is None):
            return super().call(I, st, cal, args, site)
        if cal.nm in ELEMENT:
            t = I.term(I.read(st, args[1][1]) if args[1][0] == "ref" else args[1], st)
            ix = None
            while t[0] == "fld" or t[0] in ("s", "mem", "deref"):
                if t[0] == "fld" and t[2:] == (1, 0):
                    break
                t = t[1]
            st = st.copy()
            if t[0] in ("fld", "elem") and not exact(t[1], ("arg", 1)):
                self.bad.append((site, "only some of its elements"))
            elif t[0] == "fld":
                self.opts.add(t[1])
                st.facts[("wrote", t[1])] = ONE_
            elif t[0] == "elem" and (t[2] == ("c", 0) or t[2][0] == "itpos"):
                self.srcs.add(t[1])
                bump(I, st, 1)
            elif t[0] == "elem" and t[2][0] == "loop" and t[2][1:3] not in self.index.get(t[1], ()):
                self.index.setdefault(t[1], set()).add(t[2])
                bump(I, st, 1)
            else:
                self.bad.append((site, "something other than its elements"))
        if cal.nm == "end":
            self.ends.append((site, st.copy()))
        I.cur_dty, I.cur_argtys = dty, tys
        return I.opaque(st, cal, args, I.cur_argtys, site)

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        if GH not in havoced and not any(GH in b.store for b in backs):
            return
        lv = ("loop", frame, head, GH)
        at = ("at", frame, head)
        self.loops += 1
        for b in backs:
            d = lin_sub(lin(I.term(I.read(b, GH), b)), lin(lv))
            if d != lin(("c", self.per)):
                self.bad.append((None, "only some of its elements"))
        done = set()
        for S, ks in self.index.items():
            for k in ks:
                if k[1:3] == (frame, head) and all(I.term(I.read(x, k[3]), x) == ("c", 0) for x in states) and \
                        all(lin_sub(lin(I.term(I.read(b, k[3]), b)), lin(k)) == lin(("c", 1)) for b in backs):
                    done |= {(k, S)}
        for ss in exits.values():
            for s in ss:
                if any(s.facts.get(("cmp", "Lt", k, l)) == ZERO_ for k, S in done for l in (("len", S), ("len", S[1] if S[0] == "mem" else S))):
                    continue
                if not any(k[0] == "itdone" and k[2] == at and f == ONE_ or k[0] == "len" and f == ZERO_ for k, f in s.facts.items() if len(k) > 1):
                    s.facts[("cut",)] = ONE_


def each_written(cx, R, p, fn):
    """A list or map is written with every one of its elements."""
    F = cx.F
    H = Each(F)
    if any(e[0] == "serialize_value" for e in R.ser(p)[2]):
        H.per = 2
    I = Interp(F, H)
    I.split = 64
    st = St()
    I.write(st, GH, ("c", 0))
    I.run(fn, st=st)
    cx.ob("elements written", p)
    why = {w for _, w in H.bad}
    for site, st in H.ends:
        if st.facts.get(("cut",)) == ONE_:
            why.add("only some of its elements")
        for o in H.opts:
            f = next((f for k, f in st.facts.items() if k[0] == "discr" and k[1] == o), None)
            if f != ZERO_ and st.facts.get(("wrote", o)) != ONE_:
                why.add("only some of its elements")
    if not H.ends or not H.loops:
        raise Missing("the elements " + p + " is written with")
    for w in sorted(why):
        cx.viol("symmetric:" + p, fn.sp, f"{p} can be written with {w}")


# ---- raw strings --------------------------------------------------------------------------------------------------------------------

def check_bytes(cx, R):
    F = cx.F
    cx.ob("type written and read", BYTES)
    sfn, sI, sev = R.ser(BYTES)
    bad = lambda why: cx.viol("symmetric:" + BYTES, sfn.sp, f"a byte string {why}")
    kinds = set()
    for e in sev:
        m = re.fullmatch(r"serialize_(str|bytes)", e[0])
        if e[0] == "serialize" and F.ts(e[1][0]).lstrip("&").split(" ")[-1] == "str":
            kinds.add("str")
            cx.ob("content written", e[0])
            if not whole(sI.term(e[3][0], e[4])):
                bad("may be written without all of its content")
            continue
        if not m:
            bad(f"may be written through {e[0]}, which is not how it is read")
            continue
        kinds.add(m.group(1))
        cx.ob("content written", e[0])
        t = sI.slice_term(e[4], e[3][1]) if e[3][1][0] != "ref" else None
        t = t if t is not None else sI.term(e[3][1], e[4])
        if not whole(t):
            bad("may be written without all of its content")
    dfn, dI, dev = R.de(BYTES)
    hints = [(e[0][12:], e[4], e[1]) for e in dev if e[0].startswith("deserialize_")]
    if not hints:
        raise Missing("how byte strings are read")
    vt = {F.adt_of(x) for h, st, ty in hints for x in ty if isinstance(x, int) and F.adt_of(x) in F.adts}
    vs = {}
    for g in F.fns.values():
        if tr_is((g.impl or {}).get("tr"), "de", "Visitor") and F.adt_of(g.impl["self"]) in vt:
            vs[g.nm] = g
    for h, st, ty in hints:
        cx.ob("form read", h)
        acc = set()
        if h in ("any",):
            acc |= {"str"} if "visit_str" in vs else set()
            if ("visit_bytes" in vs or "visit_byte_buf" in vs) and "visit_seq" in vs:
                acc.add("bytes")
        elif h in ("bytes", "byte_buf"):
            if "visit_bytes" in vs or "visit_byte_buf" in vs:
                acc |= {"str"} if "visit_str" in vs else set()
                acc |= {"bytes"} if "visit_seq" in vs or any(k[0] in ("call",) and "is_human_readable" in str(k) for k in st.facts) else set()
        elif h in ("str", "string"):
            acc |= {"str"} if "visit_str" in vs or "visit_string" in vs else set()
        for k in sorted(kinds - acc):
            bad(f"written as {'raw bytes' if k == 'bytes' else 'text'} is not accepted back (read with deserialize_{h})")
    for n, g in vs.items():
        m = re.fullmatch(r"visit_(str|string|borrowed_str|bytes|byte_buf|borrowed_bytes)", n)
        if not m:
            continue
        from rules.c08 import Marks
        H = Marks(F)
        I = Interp(F, H)
        H.I = I
        I.split = 32
        for st, v in I.run(g):
            cx.ob("content read", n)
            if v[0] != "adt" or v[2] != 0:
                bad(f"is rejected by {n} although it was written that way")
                continue
            t = I.term(I.project(v[3][0], (("f", 0),)), st)
            if not passed(t, ("arg", 2)):
                bad(f"read through {n} does not keep the content given")
        cx.cover(g)
    g = vs.get("visit_seq")
    if g is not None:
        ev = events(cx, F, g)
        el = {F.ts(e[1][-1]) for e in ev if e[0] == "next_element"}
        cx.ob("content read", "visit_seq")
        if el and el != {"u8"}:
            bad("is read from a list of something other than bytes")
        if el:
            H = FromList(F)
            I = Interp(F, H)
            I.split = 32
            st = St()
            I.write(st, GH, ("c", 0))
            for st, v in I.run(g, st=st):
                if v[0] == "adt" and v[2] == 0:
                    if st.facts.get(("end",)) != ONE_:
                        H.why.add("can stop before the end of the list")
                    if I.read(st, GH) not in (("c", 0), ("s", ("c", 0))):
                        H.why.add("does not keep every byte it reads")
            if not H.kept:
                raise Missing("how byte strings are read from lists")
            for w in sorted(H.why):
                bad("read from a list " + w)
        elif not any(e[0] in ("deserialize",) for e in ev):
            raise Missing("how byte strings are read from lists")


SAME = ("as_deref", "iter", "as_bytes", "as_bytes_unsafe", "to_utf8", "as_slice", "as_str", "deref", "borrow", "as_ref", "from_str", "from_bytes", "from", "into", "to_vec",
        "to_owned", "to_string", "clone", "owning", "into_bytes", "into_vec", "into_boxed_slice", "into_owned", "from_utf8", "from_utf8_unchecked",
        "into_string", "as_mut", "make_owning", "leak", "into_boxed_str", "try_into", "try_from", "unwrap_or_default")


def exact(t, a, d=0):
    """Does t stand for exactly the content of a?"""
    if not isinstance(t, tuple) or not t or d > 20:
        return False
    if t == a:
        return True
    if t[0] in ("s", "deref", "mem", "ref", "utf8", "str"):
        return exact(t[1], a, d + 1)
    if t[0] == "cast":
        return exact(t[-1], a, d + 1)
    if t[0] == "fld":
        return exact(t[1], a, d + 1)
    if t[0] in ("vec", "ownv"):
        return len(t[-1]) == 1 and t[-1][0][0] == "sl" and exact(t[-1][0][1], a, d + 1)
    if t[0] == "call":
        return t[1].split("::")[-1] in SAME and len(t[2]) >= 1 and exact(t[2][0], a, d + 1)
    if t[0] == "adt":
        return len(t[3]) >= 1 and exact(t[3][0], a, d + 1)
    return False


def whole(t):
    """The complete value of self."""
    return exact(t, ("arg", 1))


def passed(t, a):
    """Content t is exactly argument a's."""
    return exact(t, a)


class FromList(StrHook):
    """Elements read from a sequence against elements kept."""

    def __init__(self, F):
        super().__init__(F)
        self.why = set()
        self.kept = 0

    def call(self, I, st, cal, args, site):
        R, O = "core::result::Result", "core::option::Option"
        if serde(cal.tr, "de") and cal.nm.startswith("next_element"):
            x = ("item", site.fn.id, site.bb)
            more, end, err = st.copy(), st.copy(), st.copy()
            bump(I, more, 1)
            end.facts[("end",)] = ONE_
            return [(more, ("adt", R, 0, (("adt", O, 1, (("s", x),)),))), (end, ("adt", R, 0, (("adt", O, 0, ()),))),
                    (err, ("adt", R, 1, (("s", ("err", x)),)))]
        if cal.nm in ("push", "push_back") and len(args) == 2:
            t = I.term(args[1], st)
            if t[0] == "item":
                self.kept += 1
                st = st.copy()
                bump(I, st, -1)
                return [(st, ("adt", "tuple", 0, ()))]
            if any(x and x[0] == "item" for x in subterms(t)):
                self.why.add("changes the bytes it reads")
        return super().call(I, st, cal, args, site)

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        if GH in havoced:
            self.why.add("does not keep every byte it reads")


def check(cx):
    cx.guard("making", check_making, cx)
    cx.guard("conversions", check_conversions, cx)
    cx.guard("numeric", check_numeric, cx)
    cx.guard("symmetry", check_symmetry, cx)
