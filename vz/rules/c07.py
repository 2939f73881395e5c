"""C07: secret buffers are wiped before their memory is released."""
from facts import strip_lt, Missing
from interp import Interp
from rules.strs import BYTES
from rules.c05 import SECRETBUF, fidx
from rules.mem import PtrHook, filled

EXPLAIN = ("Abstract interpretation of the functions that own secret buffers: at every point where an owned allocation is "
           "dropped there, a loop of volatile writes must have covered it from its start to its capacity on that path "
           "(derived from the loop itself, not from its name). The destructor of a shared buffer must do so whenever the "
           "buffer is marked secret, and every secret string that is built or marked must hold a buffer marked secret "
           "(or none).")
ASSUME = ["a Vec's as_mut_ptr and capacity describe its whole allocation", "the Vec handed back by into_vec is the caller's to wipe"]
OS = "util::ownedslice::OwnedSlice"
OB = "string::bytes::OwnedBytes"
OBUF = "string::bytes::OwnedBuf"


def one_f(I, st, v):
    return I.known(st, v) == 1


class W(PtrHook):
    max_depth = 10

    def __init__(self, F, secret=None):
        self.F = F
        self.drops = []
        self.secret = secret
        self.bufs = []
        self.obf = boolfield(F, OBUF)

    def tfact(self, I, st, t):
        return ("in", frozenset([1])) if self.secret and t in self.secret(I) else None

    def inline(self, I, fn, cal):
        return True

    def slices(self, I, st, v, ti, d=0):
        """(value, certain) of the OwnedSlices a dropped value owns."""
        F = self.F
        t = F.types[ti]
        if t.get("k") != "adt" or d > 5:
            if t.get("k") == "tuple":
                for i, x in enumerate(t["a"]):
                    yield from self.slices(I, st, I.project(v, (("f", i),)), x, d + 1)
            return
        p = strip_lt(t["d"])
        if p == OS:
            yield v
        elif p == "core::option::Option":
            dv = I.known(st, I.discr(st, v))
            if dv == 0:
                return
            a = [x for x in t["a"] if isinstance(x, int)]
            yield from self.slices(I, st, v[3][0] if v[0] == "adt" and v[3] else ("s", ("fld", I.term(v), 1, 0)), a[0], d + 1)
        elif p == OBUF:
            sec = I.project(v, (("f", fidx(F, OBUF, self.obf)),))
            if I.known(st, sec) != 1:
                yield ("unwiped",)

    def dropped(self, I, st, v, ti, site):
        if ti is None:
            return
        for x in self.slices(I, st, v, ti):
            if x == ("unwiped",):
                ok = False
            else:
                ok = filled(I, st, I.project(x, (("f", 0),)), I.project(x, (("f", 1),)))
            self.drops.append((site, ok))

    def drop(self, I, st, v, ti, site):
        self.dropped(I, st, v, ti, site)
        return None

    def call(self, I, st, cal, args, site):
        p = cal.p
        if p.startswith("core::mem::manually_drop::ManuallyDrop"):
            if cal.nm == "drop" and args[0][0] == "ref":
                self.dropped(I, st, I.read(st, args[0][1]), cal.args[0] if cal.args and isinstance(cal.args[0], int) else None, site)
                return [(st, ("adt", "tuple", 0, ()))]
            if cal.nm == "drop":
                self.dropped(I, st, ("s", ("mem", I.term(args[0]))), cal.args[0] if cal.args and isinstance(cal.args[0], int) else None, site)
                return [(st, ("adt", "tuple", 0, ()))]
            if cal.nm == "take" and args[0][0] == "ref":
                return [(st, I.read(st, args[0][1]))]
            if cal.nm == "into_inner":
                return [(st, args[0])]
        if p.startswith("util::ownedslice::OwnedSlice") and cal.nm.startswith("into_vec"):
            return None
        return super().call(I, st, cal, args, site)

    def agg(self, I, st, kk, vals, site):
        if kk[1] == OBUF:
            self.bufs.append((site, I.known(st, vals[fidx(self.F, OBUF, self.obf)])))


def impl_fns(F, path):
    for fn in F.fns.values():
        if fn.body is None or not fn.impl or "{closure" in fn.p:
            continue
        s = fn.impl.get("self")
        if isinstance(s, int) and F.types[s].get("k") == "adt" and strip_lt(F.types[s]["d"]) == path:
            yield fn


def boolfield(F, path):
    """Name of the (only) boolean field of a struct."""
    b = [f["n"] for f in F.adts[path]["vs"][0]["f"] if F.ts(f["t"]) == "bool"]
    if len(b) != 1:
        raise Missing(f"the secrecy flag of {path}")
    return b[0]


def osfield(F, path):
    for i, f in enumerate(F.adts[path]["vs"][0]["f"]):
        if "OwnedSlice" in F.ts(f["t"]):
            return i, f
    raise Missing(f"the buffer of {path}")


def buf_fn(cx, fn):
    F = cx.F
    h = W(F)
    I = Interp(F, h)
    outs = I.run(fn)
    cx.cover(fn)
    cx.ob("secret buffer function", f"{fn.p}: {len(h.drops)} releases")
    for site, ok in h.drops:
        cx.ob("release in a secret buffer function", fn.p)
        if not ok:
            cx.viol(f"unwiped:{fn.p}", site.where, f"{fn.p} releases a buffer that was not completely overwritten on this path")
    tr = fn.impl.get("tr") or ""
    if tr.endswith("ops::drop::Drop"):
        i, _ = osfield(F, SECRETBUF)
        for st, v in outs:
            d = ("s", ("fld", ("mem", ("arg", 1)), i))
            cx.ob("secret buffer destructor", fn.p)
            if not filled(I, st, I.project(d, (("f", 0),)), I.project(d, (("f", 1),))):
                cx.viol("drop:SecretBuf", fn.sp, "dropping a SecretBuf can leave part of its buffer as it was")


def obuf_drop(cx, fn):
    F = cx.F
    i, f = osfield(F, OBUF)
    si = fidx(F, OBUF, boolfield(F, OBUF))
    me = ("mem", ("arg", 1))
    h = W(F, lambda I: {("fld", me, si)})
    h.obf = boolfield(F, OBUF)
    I = Interp(F, h)
    outs = I.run(fn)
    cx.cover(fn)
    n = 0
    opt = F.adt_of(f["t"]) == "core::option::Option"
    for st, v in outs:
        cur = ("s", ("fld", me, i))
        if opt:
            if I.known(st, I.discr(st, cur)) == 0:
                continue
            cur = ("s", ("fld", ("fld", me, i), 1, 0))
        n += 1
        cx.ob("shared buffer destructor", fn.p)
        if not filled(I, st, I.project(cur, (("f", 0),)), I.project(cur, (("f", 1),))):
            cx.viol("drop:OwnedBuf", fn.sp, "dropping the last reference to a secret string's buffer can leave part of it as it was")
    if not n:
        raise Missing("no path of the shared buffer's destructor holds a buffer")


def owned_fn(cx, fn):
    F = cx.F
    bools = [i + 1 for i, t in enumerate(fn.ins) if F.ts(t) == "bool"]
    si = fidx(F, OBUF, boolfield(F, OBUF))

    def sec(I):
        r = {("arg", b) for b in bools}
        for t in list(I.tty):
            if I.F.types[I.tty[t]].get("k") == "adt" and I.F.adt_of(I.tty[t]) == OBUF:
                r.add(("fld", t, si))
        return r

    class WW(W):
        def tfact(self, I, st, t):
            if t[0] == "arg" and len(t) == 2 and t[1] in bools:
                return ("in", frozenset([1]))
            if t[0] == "fld" and len(t) == 3 and t[2] == si:
                ti = I.ttype(t[1])
                if ti is not None and self.F.types[ti].get("k") == "adt" and self.F.adt_of(ti) == OBUF:
                    return ("in", frozenset([1]))
            return None
    h = WW(F)
    h.obf = boolfield(F, OBUF)
    I = Interp(F, h)
    I.run(fn)
    cx.cover(fn)
    cx.ob("shared buffer function", f"{fn.p}: {len(h.drops)} releases, {len(h.bufs)} buffers")
    for site, ok in h.drops:
        cx.ob("release in a shared buffer function", fn.p)
        if not ok:
            cx.viol(f"unwiped:{fn.p}", site.where, f"{fn.p} releases a buffer that may hold a secret without overwriting it")
    for site, k in h.bufs:
        cx.ob("shared buffer made", fn.p)
        if k != 1:
            cx.viol(f"unmarked:{fn.p}", site.where, f"{fn.p}: a buffer made for a secret string is not marked secret, so it is not wiped")


class B(PtrHook):
    """Secret strings must hold buffers marked secret."""
    max_depth = 8

    def __init__(self, F):
        self.F = F
        self.oi, self.si, self.vi = fidx(F, BYTES, "ownership"), fidx(F, BYTES, "secret"), fidx(F, BYTES, "value")
        self.ev = []

    def inline(self, I, fn, cal):
        return not fn.p.startswith("string::bytes::OwnedBytes")

    def call(self, I, st, cal, args, site):
        F = self.F
        if cal.p.startswith("string::bytes::OwnedBytes") and cal.id in F.fns:
            fn = F.fns[cal.id]
            b = [i for i, t in enumerate(fn.ins) if F.ts(t) == "bool"]
            if b and fn.out is not None and F.types[fn.out].get("k") == "tuple":
                o = ("s", ("ownb", I.term(args[b[0]]), site.fn.p, site.bb))
                return [(st, ("adt", "tuple", 0, (o, ("s", ("ownv", site.fn.p, site.bb)))))]
        if cal.nm == "clone" and args:
            a = args[0]
            v = I.read(st, a[1]) if a[0] == "ref" else None
            if v is not None and v[0] == "s":
                ti = I.ttype(v[1])
                if ti is not None and "OwnedBytes" in F.ts(ti) and F.adt_of(ti) in (OB, "core::option::Option"):
                    return [(st, v)]
                if v[1][0] == "ownb":
                    return [(st, v)]
        return super().call(I, st, cal, args, site)

    def consistent(self, I, st, own, sec):
        k = I.known(st, sec)
        if k == 0:
            return True
        if own[0] == "adt":
            if own[1] == "core::option::Option" and own[2] == 0:
                return True
            if own[3]:
                return self.consistent(I, st, own[3][0], sec)
            return False
        if own[0] == "s" and I.known(st, I.discr(st, own)) == 0:
            return True
        t = I.term(own)
        if t[0] == "ownb":
            return t[1] == I.term(sec) or t[1] == ("c", 1) or I.known(st, ("s", t[1])) == 1
        if t[0] == "fld" and len(t) == 4:   # the payload of an Option
            t = t[1]
        if t[0] == "fld" and t[2] == self.oi:
            was = ("s", ("fld", t[1], self.si))
            return I.term(sec) == was[1] or I.known(st, was) == 1
        return False

    def agg(self, I, st, kk, vals, site):
        if kk[1] == BYTES:
            self.ev.append((site, "string built", self.consistent(I, st, vals[self.oi], vals[self.si])))

    def write(self, I, st, loc, val, site):
        base, proj = loc
        if proj and proj[-1] in (("f", self.si), ("f", self.oi)):
            v = I.read(st, (base, proj[:-1]))
            t = v[1] if v[0] == "s" else None
            if v[0] == "adt" and v[1] == BYTES:
                pass
            elif t is not None or v[0] == "st":
                ti = I.ttype(t if t is not None else I.term(v[1]))
                if ti is None or strip_lt(self.F.types[ti].get("d", "")) != BYTES:
                    return
            else:
                return
            own, sec = I.project(v, (("f", self.oi),)), I.project(v, (("f", self.si),))
            if proj[-1][1] == self.si:
                sec = val
            else:
                own = val
            self.ev.append((site, "field written", self.consistent(I, st, own, sec)))


def bytes_fn(cx, fn):
    F = cx.F
    h = B(F)
    I = Interp(F, h)
    I.run(fn)
    cx.cover(fn)
    for site, what, ok in h.ev:
        cx.ob("secret string holds a wiped buffer", f"{fn.p}: {what} in {site.fn.p}")
        if not ok:
            cx.viol(f"buffer:{site.fn.p}", site.where, f"{fn.p}: a string that may be secret holds a buffer that is not wiped when released ({what} in {site.fn.p})")


def check(cx):
    F = cx.F
    for fn in impl_fns(F, SECRETBUF):
        cx.guard(f"fn:{fn.p}", buf_fn, cx, fn)
    dropper = [fn for fn in impl_fns(F, OBUF) if (fn.impl.get("tr") or "").endswith("ops::drop::Drop")]
    if not dropper:
        cx.viol("drop:OwnedBuf", "src/string/bytes.rs", "the buffer of an owning string has no destructor, so a secret one is not wiped")
    for fn in dropper:
        cx.guard(f"fn:{fn.p}", obuf_drop, cx, fn)
    for fn in impl_fns(F, OB):
        if not (fn.impl.get("tr") or ""):
            cx.guard(f"fn:{fn.p}", owned_fn, cx, fn)
    for fn in F.fns.values():
        if fn.body is not None and "{closure" not in fn.p and fn.p.startswith(("string::bytes::Bytes", "<string::bytes::Bytes", "string::builder", "<string::builder", "string::splitter")):
            cx.guard(f"fn:{fn.p}", bytes_fn, cx, fn)
    cx.need("secret buffer function", 8)
    cx.need("secret buffer destructor", 1)
    cx.need("shared buffer destructor", 1)
    cx.need("shared buffer made", 1)
    cx.need("secret string holds a wiped buffer", 5)
