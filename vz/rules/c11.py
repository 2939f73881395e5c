"""C11: string equality, ordering and hashing depend on content alone."""
from facts import strip_lt, Missing
from interp import Interp
from rules.strs import SPEC, MOD, BYTES, StrHook
from rules.c05 import fidx

EXPLAIN = ("Every comparison, ordering, hashing and key-borrowing implementation of the string types, numerics and message "
           "kinds is interpreted abstractly on all paths: an equality result must be the comparison of the two contents (or a "
           "constant on a path where that comparison, or something that implies it, has been decided), an ordering must be "
           "the byte-slice ordering of left and right in that order, and a hash must feed the hasher exactly the byte slice "
           "that the type lends out as a lookup key.")
NUM = "ircmsg::numeric::Numeric"
KIND = "ircmsg::servermsgkind::ServerMsgKindRaw"
PASS = ("as_slice", "as_bytes", "as_ref", "deref", "borrow", "as_str", "as_bytes_unsafe", "from_utf8_unchecked")


class H(StrHook):
    max_depth = 14

    def call(self, I, st, cal, args, site):
        if cal.nm == "hash" and cal.tr == "core::hash::Hash" and cal.id not in self.F.fns and len(args) == 2:
            self.hits.append((site, I.term(args[0]) if args[0][0] != "ref" else ("mem", args[0]), self.F.ts(cal.args[0]) if cal.args and isinstance(cal.args[0], int) else "?", I.term(args[0], st)))
            s2 = st.copy()
            s2.auto = (s2.auto or ()) + ((I.term(args[0], st), self.F.ts(cal.args[0])),)
            return [(s2, ("adt", "tuple", 0, ()))]
        if (cal.tr or "").startswith("core::hash::Hasher") or cal.p.startswith("core::hash::Hasher"):
            s2 = st.copy()
            s2.auto = (s2.auto or ()) + ((("raw",), cal.nm),)
            return [(s2, ("s", ("hasher", site.bb)))]
        return super().call(I, st, cal, args, site)

    def __init__(self, F):
        super().__init__(F)
        self.hits = []


def side(F, I, t, vi, d=0):
    """(argument index, why not the whole content or None) of a term that is (part of) one side."""
    path = []
    while True:
        if t[0] == "ref":
            base, proj = t[1]
            path[:0] = [p[1] for p in proj if p[0] == "f"]
            if base[0] != "M":
                return None
            t = base[1]
        elif t[0] in ("mem", "deref"):
            t = t[1]
        elif t[0] == "fld":
            path.insert(0, t[-1])
            t = t[1]
        elif t[0] == "call":
            nm = t[1].split("::")[-1]
            a = [x for x in t[2:] if isinstance(x, tuple)]
            while a and isinstance(a[0], tuple) and a[0] and isinstance(a[0][0], tuple):
                a = list(a[0])
            if nm not in PASS or not a:
                return None
            t = a[0]
        elif t[0] == "arg":
            return t[1], tuple(path)
        elif t[0] in ("static", "const"):
            return t[1], tuple(path)
        else:
            return None


def is_content(F, fn, t, which, I, vi):
    """Is t the whole content of argument `which` (1 or 2)?"""
    s = side(F, I, t, vi)
    if s is None or s[0] != which and not isinstance(s[0], str):
        return False
    ti = fn.ins[which - 1]
    while F.types[ti].get("k") == "ref":
        ti = F.types[ti]["t"]
    adt = strip_lt(F.types[ti]["d"]) if F.types[ti].get("k") == "adt" else None
    p = s[1]
    if isinstance(s[0], str):             # a name constant's own text
        return adt is not None and adt.startswith("names::") and s[0].startswith(adt + "::") and p in ((vi,), (0, vi), (0, 0))
    if adt is None:                       # a slice, str or array
        return p == ()
    if adt == KIND:
        return len(p) in (1, 2) and p[0] == 0 and (len(p) == 1 or p[1] in (vi, 0))
    if adt == NUM:
        return p == (0,)
    return p == (vi,)                     # newtypes are transparent


def eq_terms(t):
    if t[0] == "cmp" and t[1] == "Eq":
        return t[2], t[3]
    return None


def content_eq(cx, fn, I, t, vi):
    e = eq_terms(t)
    if not e:
        return False
    F = cx.F
    return any(is_content(F, fn, a, 1, I, vi) and is_content(F, fn, b, 2, I, vi) for a, b in (e, e[::-1]))


def eq_fn(cx, fn, vi):
    F = cx.F
    h = H(F)
    I = Interp(F, h)
    outs = I.run(fn)
    cx.cover(fn)
    if not outs:
        raise Missing("no result")
    strs = F.ts(fn.ins[1]).lstrip("&") == "str"
    for st, v in outs:
        cx.ob("equality", fn.p)
        if v[0] == "s" and content_eq(cx, fn, I, v[1], vi):
            continue
        k = I.known(st, v)
        f = {t: next(iter(x[1])) for t, x in st.facts.items() if x[0] == "in" and len(x[1]) == 1}
        ok = False
        for t, x in f.items():
            if content_eq(cx, fn, I, t, vi) and x == k:
                ok = True
            e = eq_terms(t)
            if k == 0 and x == 0 and e:
                if e[0][0] == "discr" and e[1][0] == "discr":
                    ok = True
                if e[0][0] == "len" and e[1][0] == "len" and any(is_content(F, fn, a[1], 1, I, vi) and is_content(F, fn, b[1], 2, I, vi) for a, b in (e, e[::-1])):
                    ok = True
            # known not to be UTF-8, compared with a Rust string
            if k == 0 and strs and x in (-1, 255) and t[0] in ("call", "fld"):
                ok = True
        if k == 0 and strs is False:
            # different variants of an enum can never be equal here
            d = {t: x for t, x in f.items() if t[0] == "discr"}
            if len(d) == 2 and len(set(d.values())) == 2 and all("ServerMsgKindRaw" in F.ts(I.ttype(t[1])) for t in d if I.ttype(t[1]) is not None):
                ok = True
            if len(d) == 1 and KIND in (F.ts(fn.impl["self"]),) and F.ts(fn.ins[1]).lstrip("&").split("<")[0] in (NUM, MOD + "Cmd") or len(d) == 1 and KIND == F.ts(fn.impl["self"]).split("<")[0] and F.ts(fn.ins[1]).lstrip("&").startswith("names::cmd::"):
                want = 0 if F.ts(fn.ins[1]).lstrip("&").startswith(NUM) else 1
                names = [vv["n"] for vv in F.adts[KIND]["vs"]]
                ok = ok or next(iter(d.values())) != [i for i, n in enumerate(names) if ("Num" in n) == (want == 0)][0]
        if not ok:
            cx.viol(f"eq:{fn.p}", fn.sp, f"{fn.p} can return a result that the contents do not determine")


def cmp_terms(F, I, fn, v, vi):
    t = v[1] if v[0] == "s" else None
    if t is None or t[0] != "call":
        return False
    return True


def ord_fn(cx, fn, vi):
    F = cx.F

    class O(H):
        def call(self, I, st, cal, args, site):
            if cal.nm in ("cmp", "partial_cmp") and cal.id not in F.fns and len(args) == 2 and cal.tr in ("core::cmp::Ord", "core::cmp::PartialOrd"):
                ts = F.ts(cal.args[0]) if cal.args and isinstance(cal.args[0], int) else "?"
                if ts in ("[u8]", "&[u8]", "str") or ts.startswith(("[u8", "[core::num::nonzero::NonZero<u8>")):
                    a, b = (I.term(x, st) for x in args)
                    r = ("s", ("order", a, b))
                    return [(st, r if cal.nm == "cmp" else ("adt", "core::option::Option", 1, (r,)))]
            return super().call(I, st, cal, args, site)
    h = O(F)
    I = Interp(F, h)
    outs = I.run(fn)
    cx.cover(fn)
    for st, v in outs:
        if v[0] == "adt" and v[1] == "core::option::Option":
            v = v[3][0] if v[3] else v
        cx.ob("ordering", fn.p)
        t = v[1] if v[0] == "s" else None
        ok = t is not None and t[0] == "order" and is_content(F, fn, t[1], 1, I, vi) and is_content(F, fn, t[2], 2, I, vi)
        if t is not None and t[0] == "op" and t[1] == "Cmp" and all(x[0] == "discr" for x in t[2:]):
            ok = side(F, I, t[2][1], vi)[0] == 1 and side(F, I, t[3][1], vi)[0] == 2
        if not ok:
            cx.viol(f"ord:{fn.p}", fn.sp, f"{fn.p} does not order by comparing the bytes of left and right")


def hash_fn(cx, fn, vi):
    F = cx.F
    h = H(F)
    I = Interp(F, h)
    outs = I.run(fn, auto=())
    cx.cover(fn)
    for st, v in outs:
        cx.ob("hash", fn.p)
        ev = st.auto or ()
        if len(ev) != 1 or ev[0][1] not in ("[u8]", "&[u8]") or not is_content(F, fn, ev[0][0], 1, I, vi):
            cx.viol(f"hash:{fn.p}", fn.sp, f"{fn.p} does not hash exactly the byte slice of the content, so borrowed keys do not find it")


def borrow_fn(cx, fn, vi):
    F = cx.F
    h = H(F)
    I = Interp(F, h)
    for st, v in I.run(fn):
        cx.cover(fn)
        cx.ob("borrowed key", fn.p)
        if not is_content(F, fn, I.term(v), 1, I, vi):
            cx.viol(f"borrow:{fn.p}", fn.sp, f"{fn.p} lends out something other than the content")


def check(cx):
    F = cx.F
    vi = fidx(F, BYTES, "value")
    mine = {BYTES, NUM, KIND} | {MOD + n for n in SPEC}
    for fn in F.fns.values():
        if fn.body is None or not fn.impl or "{closure" in fn.p:
            continue
        s = fn.impl.get("self")
        if not isinstance(s, int) or F.types[s].get("k") != "adt" or strip_lt(F.types[s]["d"]) not in mine:
            continue
        tr = fn.impl.get("tr") or ""
        if tr == "core::cmp::PartialEq" and fn.nm in ("eq", "ne"):
            cx.guard(f"fn:{fn.p}", eq_fn, cx, fn, vi)
        elif tr in ("core::cmp::Ord", "core::cmp::PartialOrd") and fn.nm in ("cmp", "partial_cmp"):
            cx.guard(f"fn:{fn.p}", ord_fn, cx, fn, vi)
        elif tr in ("core::cmp::Ord", "core::cmp::PartialOrd"):
            cx.viol(f"fn:{fn.p}", fn.sp, f"{fn.p} overrides a derived comparison")
        elif tr == "core::hash::Hash":
            cx.guard(f"fn:{fn.p}", hash_fn, cx, fn, vi)
        elif tr == "core::borrow::Borrow":
            cx.guard(f"fn:{fn.p}", borrow_fn, cx, fn, vi)
    cx.need("equality", 60)
    cx.need("ordering", 20)
    cx.need("hash", 11)
    cx.need("borrowed key", 11)
