"""C06: secret contents never appear in formatted output."""
from facts import strip_lt, Missing, calls
from interp import Interp
from rules.strs import BYTES, BUILDER
from rules.c05 import H as H5, is_str, fidx, content_terms, SECRETBUF, strings_of, strings_in

EXPLAIN = ("Every formatting implementation (Display, Debug and the rest, derived ones included) of the crate is interpreted "
           "abstractly with all its strings assumed secret: no value built from the bytes of a string, builder or secret "
           "buffer may reach a formatter, a format argument or a debug builder. Functions that load a credential must hand "
           "a secret string to the conversion, and logging in the sending and authentication code only formats types "
           "covered by the first rule.")
ASSUME = ["a string-typed value given to a formatter is printed by that type's own implementation, which is itself analysed"]
FMT = ("Display", "Debug", "LowerHex", "UpperHex", "Octal", "Binary", "LowerExp", "UpperExp", "Pointer")


class H(H5):
    max_depth = 12

    def __init__(self, F):
        super().__init__(F, None, True)
        self.sbi = fidx(F, SECRETBUF, F.adts[SECRETBUF]["vs"][0]["f"][0]["n"])
        self.hits = []
        self.sinks = 0

    def inline(self, I, fn, cal):
        return not fn.p.startswith(("core::fmt::", "<core::fmt::", "alloc::fmt", "alloc::string"))

    def raw(self, I, st, v, d=0):
        """A secret whose bytes the formatted value holds outside a string type, if any."""
        if d > 8:
            return None
        if v[0] == "ref":
            return self.raw(I, st, I.read(st, v[1]), d + 1)
        if v[0] == "adt":
            if v[1] in (BYTES, BUILDER) or v[1].startswith("string::subtypes::"):
                return None
            for x in v[3]:
                r = self.raw(I, st, x, d + 1)
                if r:
                    return r
            return None
        if v[0] == "st":
            return self.raw(I, st, v[1], d + 1)
        if v[0] == "c" or v[0] == "b":
            return None
        t = v[1] if v[0] == "s" else I.term(v)
        for x in content_terms(t):
            if x[0] in ("adt",) and x[1] in (BYTES, BUILDER) and t is not x:
                continue
            if x[0] != "fld" or len(x) != 3:
                continue
            ti = I.ttype(x[1])
            if ti is None:
                continue
            if x[2] == self.vi and is_str(self.F, ti):
                return x[1]
            ad = self.F.adt_of(ti) if self.F.types[ti].get("k") == "adt" else None
            if ad == BUILDER and x[2] == self.bvi or ad == SECRETBUF and x[2] == self.sbi:
                return x[1]
        return None

    def call(self, I, st, cal, args, site):
        F = self.F
        fmt = cal.p.startswith(("core::fmt::", "<core::fmt::", "alloc::fmt::")) or (cal.tr or "").startswith("core::fmt::")
        if fmt and cal.id not in F.fns:
            self.sinks += 1
            for a in args:
                S = self.raw(I, st, a)
                if S is not None:
                    self.hits.append((site, cal.p, S))
            if cal.p.startswith("core::fmt::rt::"):
                return [(st, ("s", ("fmtarg", site.fn.p, site.bb)))]
        return None


def impl_root(cx, fn):
    h = H(cx.F)
    h.I = I = Interp(cx.F, h)
    I.run(fn)
    cx.cover(fn)
    cx.ob("formatting implementation", f"{fn.p} ({h.sinks} formatter calls)")
    for site, p, S in h.hits[:1]:
        cx.viol(f"leak:{fn.p}", site.where, f"{fn.p} passes the bytes of a secret string or buffer to {p.split('::')[-1]}")


def loader(cx, fn):
    F = cx.F
    seen = []

    class L(H5):
        max_depth = 6

        def __init__(s):
            super().__init__(F, None, True)

        def tfact(s, I, st, t):
            return None

        def call(s, I, st, cal, args, site):
            if cal.nm in ("try_from", "try_into", "from", "into", "new") and cal.id not in F.fns:
                for a in args:
                    for sv in strings_of(F, I, a):
                        seen.append((site, I.known(st, I.project(sv, (("f", s.si),)))))
            return None
    h = L()
    h.I = I = Interp(F, h)
    I.run(fn)
    cx.cover(fn)
    if not seen:
        raise Missing(f"no conversion of the loaded bytes found in {fn.p}")
    for site, k in seen:
        cx.ob("credential conversion", fn.p)
        if k != 1:
            cx.viol(f"load:{fn.p}", site.where, f"{fn.p} turns a loaded credential into a string that is not secret")


def rawtext(F, ti, d=0):
    t = F.types[ti]
    s = F.ts(ti)
    if t.get("k") == "ref" and not isinstance(t.get("t"), int):
        return False
    if s in ("u8", "[u8]", "alloc::string::String", "str") or s.startswith(("[u8; ", "alloc::borrow::Cow<", "alloc::vec::Vec<u8")):
        return True
    if d < 4 and t.get("k") in ("ref", "slice", "array", "ptr"):
        return isinstance(t.get("t"), int) and rawtext(F, t["t"], d + 1)
    if d < 4 and t.get("k") == "adt" and strip_lt(t["d"]) not in F.adts:
        return any(isinstance(x, int) and rawtext(F, x, d + 1) for x in t.get("a", []))
    return False


def logging(cx):
    F = cx.F
    for fn in F.fns.values():
        if not fn.body or not any(m in fn.p for m in ("client::conn", "client::queue", "client::auth", "client::Client", "client::logic")) or "tests" in fn.p:
            continue
        if fn.impl and (fn.impl.get("tr") or "").startswith("core::fmt::"):
            continue
        for _, t, f in calls(fn):
            if not f["p"].startswith("core::fmt::rt::Argument") or "::new_" not in f["p"]:
                continue
            ty = [x for x in f["a"] if isinstance(x, int)]
            cx.ob("formatted value in client code", f"{fn.p} {F.ts(ty[-1]) if ty else '?'}")
            cx.cover(fn)
            if ty and rawtext(F, ty[-1]):
                cx.viol(f"log:{fn.p}", fn.sp, f"{fn.p} formats raw text of type {F.ts(ty[-1])} where messages and credentials are handled")


def check(cx):
    F = cx.F
    for fn in F.fns.values():
        if fn.body is None or not fn.impl or "{closure" in fn.p:
            continue
        tr = fn.impl.get("tr") or ""
        if tr.startswith("core::fmt::") and tr.split("::")[-1] in FMT and fn.nm == "fmt":
            cx.guard(f"fn:{fn.p}", impl_root, cx, fn)
    n = 0
    for fn in F.fns.values():
        if fn.body is None or fn.out is None:
            continue
        if any((c.get("tr") or "").endswith("auth::secret::LoadSecret") and c["nm"] == "load_secret" for _, _, c in calls(fn)):
            n += 1
            cx.guard(f"fn:{fn.p}", loader, cx, fn)
    cx.guard("logging", logging, cx)
    cx.need("formatting implementation", 30)
    cx.need("credential conversion", 2)
    cx.need("formatted value in client code", 1)
