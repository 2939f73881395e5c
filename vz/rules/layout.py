"""Reference-counted boxes with a computed layout: allocated, addressed and freed with one layout."""
import os
from facts import Missing, strip_lt, calls
from interp import Interp
from rules.mem import PtrHook, padd, split
from seqs import ZERO, canon

UNIT = ("adt", "tuple", 0, ())
RES = "core::result::Result"
OPT = "core::option::Option"
LAY = "core::alloc::layout::Layout"


class Lay(PtrHook):
    """Layouts as terms: ("lay", type), ("arr", type, n), ("dyn", type, meta), ("ext", a, b), ("pad", a), ("sa", size, align)."""
    max_depth = 8

    def __init__(self, F, tr):
        self.F, self.tr = F, tr
        self.ev = []

    def snapshot(self):
        return len(self.ev)

    def restore(self, s):
        del self.ev[s:]

    def inline(self, I, fn, cal):
        return True

    def rec(self, kind, st, site, *a):
        self.ev.append((kind, site, a, dict(st.facts)))

    def tname(self, I, x):
        return self.F.ts(x) if isinstance(x, int) else str(x)

    def call(self, I, st, cal, args, site):
        F, p, nm = self.F, cal.p, cal.nm
        ok = lambda v: ("adt", RES, 0, (v,))
        a0 = cal.args[0] if cal.args else None
        if p.startswith(LAY):
            if nm == "new":
                return [(st, ("s", ("lay", self.tname(I, a0))))]
            if nm in ("for_value", "for_value_raw"):
                return [(st, ("s", ("lay", self.tname(I, a0))))]
            if nm == "array":
                return [(st, ok(("s", ("arr", self.tname(I, a0), I.term(args[0])))))]
            if nm == "extend":
                a, b = (I.term(self.val(I, st, x)) for x in args)
                return [(st, ok(("adt", "tuple", 0, (("s", ("ext", a, b)), ("s", ("off", a, self.align(b)))))))]
            if nm in ("from_size_align_unchecked", "from_size_align"):
                v = ("s", ("sa", I.term(args[0]), I.term(args[1])))
                return [(st, v if nm.endswith("unchecked") else ok(v))]
            if nm == "pad_to_align":
                return [(st, ("s", ("pad", I.term(self.val(I, st, args[0])))))]
            if nm in ("size", "align"):
                return [(st, ("s", (nm, I.term(self.val(I, st, args[0])))))]
            raise Missing(f"{p} at {site.where} is not modelled")
        if p in ("core::mem::align_of", "core::mem::size_of"):
            return [(st, ("s", (nm, self.tname(I, a0))))]
        if cal.tr == self.tr and nm == "layout":
            m = self.ptr(I, args[0])
            return [(st, ("s", ("dyn", self.tname(I, cal.args[0]), m)))]
        if cal.tr == self.tr and nm in ("make_ref", "make_ref_mut", "drop_in_place"):
            self.rec("value", st, site, self.ptr(I, args[0]), self.ptr(I, args[1]), nm, self.tname(I, cal.args[0]))
            return [(st, ("s", ("made", nm, I.term(args[0]))) if nm != "drop_in_place" else UNIT)]
        if p in ("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed"):
            q = ("al", I.term(args[0]))
            self.rec("alloc", st, site, q[1])
            return [(st, ("s", q))]
        if p == "alloc::alloc::dealloc":
            self.rec("dealloc", st, site, self.ptr(I, args[0]), I.term(args[1]))
            return [(st, UNIT)]
        if p.startswith("core::ptr::non_null::NonNull") or p.startswith("core::ptr::"):
            t = self.tname(I, a0)
            if nm == "new" and "NonNull" in p:
                s0 = st.copy()
                return [(s0, ("adt", OPT, 0, ())), (st, ("adt", OPT, 1, (args[0],)))]
            if nm in ("new_unchecked", "as_ptr", "cast", "cast_mut", "cast_const"):
                return [(st, args[0])]
            if nm in ("as_ref", "as_mut"):
                q = self.ptr(I, self.val(I, st, args[0]))
                self.rec("at", st, site, q, t, "borrow")
                r = ("ref", (("M", q), ()))
                return [(st, r if "NonNull" in p else ("adt", OPT, 1, (r,)))]
            if nm in ("read", "write", "drop_in_place", "write_volatile", "read_volatile", "copy_nonoverlapping"):
                self.rec("at", st, site, self.ptr(I, args[0]), t, nm)
                return [(st, ("s", ("rd", I.term(args[0]))) if nm.startswith("read") else UNIT)]
            if nm in ("byte_add", "sub", "byte_sub", "offset"):
                raise Missing(f"{p} at {site.where} is not modelled")
            if nm == "add":
                if "*mut u8" not in p and t != "u8":
                    return [(st, ("s", ("elems", I.term(args[0]), t, I.term(args[1]))))]
        if nm == "handle_alloc_error":
            return []
        return super().call(I, st, cal, args, site)

    def val(self, I, st, a):
        while a[0] == "ref":
            a = I.read(st, a[1])
        return a

    def ptr(self, I, v):
        """The address a pointer or reference value stands for."""
        if v[0] == "ref" and v[1][0][0] == "M" and not v[1][1]:
            return v[1][0][1]
        return I.term(v)

    @staticmethod
    def align(l):
        if l[0] == "lay":
            return ("align_of", l[1])
        if l[0] == "sa":
            return l[2]
        if l[0] == "arr":
            return ("align_of", l[1])
        return ("align", l)


def boxes(F):
    """Handles whose memory is addressed through a computed layout: struct -> (inner struct, trait)."""
    out = {}
    for p, a in F.adts.items():
        if a["k"] != "Struct" or not p.startswith("util::"):
            continue
        fs = a["vs"][0]["f"]
        if any("NonNull<u8>" in F.ts(f["t"]) for f in fs):
            inner = [strip_lt(F.ts(f["t"])) for f in fs if "PhantomData" in F.ts(f["t"])]
            out[p] = inner
    return out


def check(cx):
    F = cx.F
    for p in boxes(F):
        cx.guard(f"layout:{p}", box, cx, p)


def run(F, fn, tr):
    h = Lay(F, tr)
    I = Interp(F, h)
    outs = I.run(fn)
    return h, I, outs


def box(cx, p):
    F = cx.F
    tr = [t for t in F.impls_of if t.endswith("DynSized")]
    if len(tr) != 1:
        raise Missing("the trait that describes variably sized values")
    tr = tr[0]
    ins = [q for q in F.adts if any("<" + q + "<" in t for t in boxes(F)[p])]
    if len(ins) != 1:
        raise Missing(f"what {p} points to")
    inner = ins[0]
    fs = [F.ts(f["t"]) for f in F.adts[inner]["vs"][0]["f"]]
    if "IS_C" not in str(F.adts[inner].get("repr")):
        cx.viol("layout:repr", "src/util/thinarc.rs", f"{inner} is addressed by computed offsets but its field order is not fixed")
        return
    T = F.adts[inner]["g"][0]
    val = [i for i, t in enumerate(fs) if t == T]
    if len(val) != 1:
        raise Missing("the value field")

    def nal(a):
        if a == ("align_of", T) or (a[0] == "const" and a[1].endswith("::ALIGN")) or a[0] == "align" and nl(a[1]) == ("val",):
            return ("valign",)
        return a

    def nl(l):
        if l[0] == "lay":
            if l[1].split("<")[0] == inner:
                return FULL
            return ("val",) if l[1] == T else l
        if l[0] == "dyn":
            return ("val",)
        if l[0] == "ext":
            return ("ext", nl(l[1]), nl(l[2]))
        if l[0] == "pad":
            x = nl(l[1])
            return x if x == FULL else ("pad", x)
        return l

    def noff(o):
        return ("off", nl(o[1]), nal(o[2])) if o[0] == "off" else o
    FULL = None
    offs, acc = [ZERO], None
    for i, t in enumerate(fs):
        l = ("val",) if i == val[0] else ("lay", t)
        if acc is None:
            acc = l
        else:
            offs.append(("off", acc, ("valign",) if i == val[0] else ("align_of", t)))
            acc = ("ext", acc, l)
    FULL = ("pad", acc)
    at = {(noff(o), t) for o, t in zip(offs, fs)}
    metas = {o for o, t in zip(offs, fs) if "Metadata" in t}
    n = 0

    def base_ok(b):
        return b[0] == "al" or b[0] == "fld" and b[2] == 0 and b[1] in (("arg", 1), ("mem", ("arg", 1)))
    for fn in F.fns.values():
        s = fn.impl.get("self") if fn.impl else None
        if fn.body is None or not isinstance(s, int) or F.types[s].get("k") != "adt" or strip_lt(F.types[s]["d"]) != p:
            continue
        h, I, outs = run(F, fn, tr)
        cx.cover(fn)
        for kind, site, a, facts in h.ev:
            n += 1
            cx.ob("box layout", f"{fn.p}: {kind}")
            if kind == "alloc":
                if nl(a[0]) != FULL:
                    cx.viol(f"layout:alloc:{fn.p}", site.where, f"{fn.p} allocates with a layout other than that of {inner}")
                continue
            b, o = split(a[0])
            o = noff(o)
            if not base_ok(b):
                cx.viol(f"layout:base:{fn.p}", site.where, f"{fn.p}: {kind} at an address not derived from the box ({b[0]})")
                continue
            if kind == "dealloc":
                if o != ZERO:
                    cx.viol(f"layout:dealloc:{fn.p}", site.where, f"{fn.p} frees an address inside the allocation")
                elif nl(a[1]) != FULL:
                    cx.viol(f"layout:dealloc:{fn.p}", site.where, f"{fn.p} frees the memory with a layout other than it was allocated with")
            elif kind == "at":
                t = a[1]
                if not ((o, t) in at or o == ZERO and t.split("<")[0] == inner):
                    cx.viol(f"layout:at:{fn.p}", site.where, f"{fn.p} accesses a {t} where the box does not hold one")
            elif kind == "value":
                mb, mo = split(a[1])
                if o != noff(offs[val[0]]) or noff(mo) not in metas or mb != b:
                    cx.viol(f"layout:value:{fn.p}", site.where, f"{fn.p} takes the value or its metadata from another place than the box holds it")
            for m in dyns(a):
                b2, o2 = split(m)
                if not base_ok(b2) or noff(o2) not in metas:
                    cx.viol(f"layout:meta:{fn.p}", site.where, f"{fn.p} computes the value's layout from something other than its metadata")
    if n < 8:
        raise Missing("accesses to a reference-counted box")
    for im in F.impls_of[tr]:
        cx.guard(f"layout:impl:{im['sp']}", described, cx, im, tr)


def dyns(t):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "dyn":
            yield t[2]
        for x in t:
            yield from dyns(x)


def described(cx, im, tr):
    """An implementation describes its type: layout, alignment, references."""
    F = cx.F
    self_t = F.types[im["self"]]
    sl = self_t.get("k") == "slice"
    name = F.ts(self_t["t"] if sl else im["self"])
    for nm, fid, kind in im["items"]:
        fn = F.fns.get(fid)
        if fn is None or fn.body is None or nm == "drop_in_place":
            continue
        h, I, outs = run(F, fn, tr)
        cx.cover(fn)
        for st, v in outs:
            t = I.term(v)
            cx.ob("described type", f"{fn.p}")
            if nm == "ALIGN":
                ok = t == ("align_of", name)
            elif nm == "layout":
                ok = t == (("arr", name, ("mem", ("arg", 1))) if sl else ("lay", name))
            elif sl:
                ok = t == ("raw", ("arg", 1), ("mem", ("arg", 2)))
            else:
                ok = t == ("arg", 1) or v[0] == "ref" and v[1] == (("M", ("arg", 1)), ())
            if not ok:
                cx.viol(f"layout:impl:{nm}", fn.sp, f"{fn.p} does not describe {F.ts(im['self'])} as it is laid out")
