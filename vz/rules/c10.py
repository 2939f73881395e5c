"""C10: raw buffer accesses stay inside their allocation."""
import os
from facts import Missing, strip_lt, calls
from interp import Interp, subterms
from seqs import ZERO, ONE, add, canon, lin, sub_, mk_sub, len_of
from rules.mem import PtrHook, padd, split
from rules.c05 import SECRETBUF
from rules.c07 import impl_fns, OS, OBUF
from rules.lia import ge, hyps, implies, diseqs, MAX
from rules import layout

EXPLAIN = (
    "The functions that own raw buffers are interpreted over all paths with every helper followed into. Lengths, capacities and pointer "
    "offsets are kept as linear terms; the conditions taken on a path, what the standard library promises of vectors and slices, and "
    "relations that every pass of a loop preserves are its hypotheses. From those it must follow, at each use of a raw pointer, that the "
    "access ends within the capacity of the allocation the pointer came from (for reads and slices: within its initialised part), at each "
    "sum or difference that it does not wrap, at each unchecked assumption that it holds, and at each hand-over between vector and owned "
    "slice that pointer and capacity belong together and that exactly one of the two releases the memory. A secret buffer must leave every "
    "function with its length within its capacity, grown by exactly what was put in, and all of it initialised. Reference-counted boxes must be allocated, addressed and "
    "freed with one layout.")
ASSUME = ["a vector's pointer, length and capacity describe its allocation", "allocations and slices are at most isize::MAX bytes",
          "the slice given to an unsafe function that asks for a slice of the owner's data is one (C38 checks the callers)"]
VEC = "alloc::vec::Vec"
UNIT = ("adt", "tuple", 0, ())
OPT = "core::option::Option"
T1 = ("in", frozenset([1]))
T0 = ("in", frozenset([0]))


def osidx(F):
    fs = F.adts[OS]["vs"][0]["f"]
    p = [i for i, f in enumerate(fs) if "NonNull" in F.ts(f["t"]) or F.ts(f["t"]).startswith("*")]
    c = [i for i, f in enumerate(fs) if F.ts(f["t"]) == "usize"]
    if len(p) != 1 or len(c) != 1:
        raise Missing("pointer and capacity of an owned slice")
    return p[0], c[0]


def sbidx(F):
    fs = F.adts[SECRETBUF]["vs"][0]["f"]
    d = [i for i, f in enumerate(fs) if "OwnedSlice" in F.ts(f["t"])]
    n = [i for i, f in enumerate(fs) if F.ts(f["t"]) == "usize"]
    if len(d) != 1 or len(n) != 1:
        raise Missing("buffer and length of a secret buffer")
    return d[0], n[0]


class Mem(PtrHook):
    max_depth = 12
    WRITES = ("write_volatile",)

    def __init__(self, F):
        self.F = F
        self.pi, self.ci = osidx(F)
        self.di, self.li = sbidx(F)
        self.obs = []        # (rule, where, message, [goals], facts)
        self.bad = []        # (where, message)
        self.ptrs = {}       # loop pointer -> (base, offset term)
        self.eqs = []        # inequalities that hold of loop terms
        self.root = None     # a secret buffer whose invariant holds on entry
        self.contract = []
        self.initok = []
        self.sls = []
        self.hints = []
        self.lax = False     # what is initialised is the caller's promise (and checked there)

    def snapshot(self):
        return len(self.obs), len(self.bad)

    def restore(self, s):
        del self.obs[s[0]:]
        del self.bad[s[1]:]

    # ---------------------------------------------------------------- values
    def isv(self, ti):
        t = self.F.types[ti] if ti is not None else {}
        return t.get("k") == "adt" and strip_lt(t["d"]) in (VEC,)

    def getv(self, I, v):
        if v[0] == "adt" and v[1] == "$vec":
            return tuple(I.term(x) for x in v[3])
        t = I.term(v)
        return ("vptr", t), ("vlen", t), ("vcap", t)

    def mkv(self, p, n, c):
        return ("adt", "$vec", 0, (("s", p), ("s", canon(n)) if n[0] != "c" else n, ("s", c)))

    def fresh(self, I, st, n, atleast, site, old=None):
        """A vector of n elements with room for `atleast`."""
        V = ("new", site.fn.id, site.bb, hash(site.chain))
        p, c = ("vptr", V), ("vcap", V)
        self.le(st, atleast, c)
        self.le(st, n, c)
        if old is not None and old != c:
            self.le(st, old, c)         # growing never shrinks the capacity
        st.facts[("ini", p, canon(n))] = T1
        return self.mkv(p, n, c)

    @staticmethod
    def le(st, a, b):
        a, b = canon(a), canon(b)
        if a != b:
            st.facts[("cmp", "Lt", b, a)] = T0

    def capof(self, I, base):
        if base[0] == "vptr":
            return ("vcap", base[1])
        if base[0] == "fld" and base[2] == self.pi:
            return ("fld", base[1], self.ci)
        return None

    def owner(self, st, p):
        f = st.facts.get(("owner", p))
        if f:
            return next(iter(f[1]))
        return "V" if p[0] == "vptr" else "O"

    def setowner(self, st, p, k):
        st.facts[("owner", p)] = ("in", frozenset([k]))

    # ------------------------------------------------------------ obligations
    def ob(self, rule, site, msg, goals, st):
        self.obs.append((rule, site.where, msg, goals, dict(st.facts)))

    def access(self, I, st, ptr, n, site, what, init=True):
        """Access of n elements at ptr."""
        if ptr[0] in ("ref", "elem"):
            return
        self.obs.append(("access", site.where, what, ("acc", ptr, canon(n), init), dict(st.facts)))

    # ------------------------------------------------------------------ calls
    def inline(self, I, fn, cal):
        return not fn.p.startswith(("util::thinarc", "<util::thinarc"))     # see rules.layout and C09

    def opaque_local(self, I, st, cal, args):
        """Methods of a secret buffer that is not the one being analysed keep its invariant (each is analysed on its own)."""
        fn = self.F.fns.get(cal.id)
        if fn is None or not fn.impl or fn.impl.get("self") is None or not args:
            return False
        if self.F.adt_of(fn.impl["self"]) != SECRETBUF:
            return False
        a = args[0]
        return a[0] == "ref" and a[1][0][0] == "L"

    def call(self, I, st, cal, args, site):
        F = self.F
        p, nm = cal.r, cal.nm
        if self.opaque_local(I, st, cal, args):
            return I.opaque(st, cal, args, I.cur_argtys, site)
        if cal.p.startswith("core::mem::manually_drop::ManuallyDrop"):
            ti = cal.args[0] if cal.args and isinstance(cal.args[0], int) else None
            if nm == "drop":
                s2 = st.copy()
                v = I.read(s2, args[0][1]) if args[0][0] == "ref" else ("s", ("mem", I.term(args[0])))
                self.dropped(I, s2, v, ti, site)
                return [(s2, UNIT)]
            if nm == "take":
                v = I.read(st, args[0][1]) if args[0][0] == "ref" else ("s", ("mem", I.term(args[0])))
                return [(st, v)]
            if nm in ("into_inner", "new"):
                return [(st, args[0])]
        if cal.p == "core::mem::forget":
            return [(st, UNIT)]
        if cal.p.startswith("core::ptr::non_null::NonNull"):
            if nm in ("new_unchecked", "as_ptr", "cast", "from", "as_mut"):
                return [(st, args[0])]
            if nm == "new":
                return [(st, ("adt", OPT, 1, (args[0],)))]
        if nm in ("saturating_add", "checked_add", "wrapping_add", "saturating_sub", "checked_sub", "abs_diff", "next_power_of_two") and cal.p.startswith("core::num::"):
            return self.arith(I, st, nm, args, site)
        if cal.p in ("core::cmp::max", "core::cmp::min", "core::cmp::Ord::max", "core::cmp::Ord::min") and len(args) == 2 \
                and I.cur_dty is not None and F.ts(I.cur_dty) == "usize":
            a, b = canon(I.term(args[0])), canon(I.term(args[1]))
            s1, s2 = st.copy(), st.copy()
            self.le(s1, b, a)
            self.le(s2, a, b)
            return [(s1, args[0] if nm == "max" else args[1]), (s2, args[1] if nm == "max" else args[0])]
        if nm == "read" and len(args) == 2 and cal.tr and cal.tr.endswith("::Read"):
            t = self.slt(I, st, args[1])
            out = I.opaque(st, cal, args, I.cur_argtys, site)
            if t is not None:
                for _, v in out:    # only ever used to show that a sum does not wrap
                    self.hints.append(ge(self.slen(t), ("fld", I.term(v), 0, 0)))
            return out
        r = self.vec(I, st, cal, args, site)
        if r is not None:
            return r
        r = self.zips(I, st, cal, args, site)
        if r is not None:
            return r
        r = self.slices(I, st, cal, args, site)
        if r is not None:
            return r
        if p.startswith("core::slice::raw::from_raw_parts") and len(args) == 2:
            ptr, n = I.term(args[0]), canon(I.term(args[1]))
            self.access(I, st, ptr, n, site, f"a slice of {nm}")
            return [(st, ("s", ("raw", ptr, n)))]
        raw = cal.p.startswith(("core::ptr::mut_ptr::", "core::ptr::const_ptr::", "core::ptr::"))
        if raw and nm in ("write_volatile", "write", "write_unaligned", "replace"):
            self.access(I, st, I.term(args[0]), ONE, site, nm, False)
        if raw and nm in ("write", "write_unaligned"):
            s2 = st.copy()
            s2.facts[("wrote", I.term(args[0]))] = T1
            return [(s2, UNIT)]
        if raw and nm in ("read", "read_volatile", "read_unaligned"):
            self.access(I, st, I.term(args[0]), ONE, site, nm)
            return [(st, ("s", ("rd", I.term(args[0]), site.fn.id, site.bb)))]
        if raw and nm == "write_bytes" and len(args) == 3:
            q, n = I.term(args[0]), canon(I.term(args[2]))
            self.access(I, st, q, n, site, nm, False)
            s2 = st.copy()
            b, o = split(q)
            s2.facts[("filled", b, canon(o), canon(add(o, n)))] = T1
            return [(s2, UNIT)]
        if raw and nm in ("copy_nonoverlapping", "copy", "copy_from", "copy_from_nonoverlapping", "copy_to", "copy_to_nonoverlapping") and len(args) == 3:
            src, dst = (args[1], args[0]) if "from" in nm else (args[0], args[1])
            n = canon(I.term(args[2]))
            self.access(I, st, I.term(src), n, site, nm)
            self.access(I, st, I.term(dst), n, site, nm, False)
            s2 = st.copy()
            b, o = split(I.term(dst))
            s2.facts[("filled", b, canon(o), canon(add(o, n)))] = T1
            return [(s2, UNIT)]
        if raw and nm in ("sub", "offset", "byte_add", "byte_sub", "offset_from", "byte_offset", "swap"):
            raise Missing(f"{cal.p} at {site.where} is not modelled")
        if nm in ("unwrap_unchecked",):
            a = args[0]
            d = I.discr(st, a)
            out = []
            want = 1 if cal.p.startswith(OPT) else 0
            for s2, k in I.branch(st, d, [0, 1]):
                if k is None:
                    continue
                if k != want:
                    if not (a[0] == "s" and a[1][0] == "fld"):   # the buffer a shared owner holds is always there (see bufs)
                        self.ob("unchecked", site, "a value that is assumed to be there", [(-1, {})], s2)
                    continue
                v = a[3][0] if a[0] == "adt" else ("s", ("fld", I.term(a), want, 0))
                out.append((s2, v))
            return out
        if nm in ("unreachable_unchecked", "assert_unchecked"):
            s2 = st
            if nm == "assert_unchecked":
                raise Missing(f"assert_unchecked at {site.where} is not modelled")
            self.ob("unchecked", site, "code assumed unreachable", [(-1, {})], s2)
            return []
        if nm in ("get_unchecked", "get_unchecked_mut") and len(args) == 2:
            t = self.slt(I, st, args[0])
            if t is None:
                raise Missing(f"{nm} at {site.where}")
            r = I.range_of(args[1], t)
            if r is None:
                self.ob("unchecked", site, nm, [lin(sub_(sub_(len_of(t), I.term(args[1])), ONE))], st)
                return [(st, I.elem_ref(t, I.term(args[1])))]
            self.ob("unchecked", site, nm, [ge(r[1], r[0]), ge(len_of(t), r[1])], st)
            return [(st, ("s", mk_sub(t, *r)))]
        return super().call(I, st, cal, args, site)

    def arith(self, I, st, nm, args, site):
        a, b = canon(I.term(args[0])), canon(I.term(args[1])) if len(args) > 1 else ZERO
        s1, s2 = st.copy(), st.copy()
        some = lambda v: ("adt", OPT, 1, (v,))
        none = ("adt", OPT, 0, ())
        if nm.endswith("_add"):
            t = add(a, b)
            v = t if t[0] == "c" else ("s", t)
            s1.facts[("cmp", "Lt", ("c", MAX), t)] = T0
            s2.facts[("cmp", "Lt", ("c", MAX), t)] = T1
            if nm == "saturating_add":
                return [(s1, v), (s2, ("c", MAX))]
            if nm == "checked_add":
                return [(s1, some(v)), (s2, none)]
            return [(s1, v), (s2, ("s", ("wrapped", t)))]
        if nm.endswith("_sub"):
            t = sub_(a, b)
            v = t if t[0] == "c" else ("s", t)
            self.le(s1, b, a)
            s2.facts[("cmp", "Lt", a, b)] = T1
            if nm == "saturating_sub":
                return [(s1, v), (s2, ("c", 0))]
            return [(s1, some(v)), (s2, none)]
        t = ("arith", nm, a, b)
        if nm == "next_power_of_two":
            self.le(s1, a, t)
        return [(s1, ("s", t))]

    def vec(self, I, st, cal, args, site):
        F = self.F
        p, nm = cal.p, cal.nm
        if p.startswith("alloc::vec::Vec::<T"):
            if nm == "from_raw_parts":
                ptr, n, c = I.term(args[0]), canon(I.term(args[1])), canon(I.term(args[2]))
                s2 = st.copy()
                self.obs.append(("hand-over", site.where, "a vector made from an owned slice", ("give", ptr, n, c), dict(st.facts)))
                self.setowner(s2, split(ptr)[0], "V")
                return [(s2, self.mkv(ptr, n, c))]
            if nm in ("new", "with_capacity"):
                s2 = st.copy()
                n = canon(I.term(args[0])) if args else ZERO
                if n[0] == "c" and n[1] > 2 ** 63 - 1:
                    return []       # capacity overflow panics
                return [(s2, self.fresh(I, s2, ZERO, n, site))]
            if args and (args[0][0] in ("ref", "s")):
                loc = args[0][1] if args[0][0] == "ref" else (("M", args[0][1]), ())
                v = I.read(st, loc)
                ptr, n, c = self.getv(I, v)
                if nm in ("len",):
                    return [(st, ("s", n) if n[0] != "c" else n)]
                if nm == "capacity":
                    return [(st, ("s", c))]
                if nm == "is_empty":
                    return [(st, I.binop(st, "Eq", ("s", n) if n[0] != "c" else n, ("c", 0), "usize"))]
                if nm in ("as_ptr", "as_mut_ptr"):
                    return [(st, ("s", ptr))]
                if nm in ("as_slice", "as_mut_slice", "deref", "deref_mut"):
                    return [(st, ("s", ("raw", ptr, n)))]
                if nm == "spare_capacity_mut":
                    return [(st, ("s", ("raw", padd(ptr, n), canon(sub_(c, n)))))]
                if nm == "set_len":
                    m = canon(I.term(args[1]))
                    s2 = st.copy()
                    self.obs.append(("set_len", site.where, "a vector's length is set", ("setlen", ptr, n, c, m), dict(st.facts)))
                    s2.facts[("ini", ptr, m)] = T1
                    I.write(s2, loc, self.mkv(ptr, m, c))
                    return [(s2, UNIT)]
                s2 = st.copy()
                if nm in ("extend_from_slice",):
                    t = self.slt(I, st, args[1])
                    k = len_of(t) if t is not None and t[0] != "raw" else (t[2] if t is not None else ("len", I.term(args[1])))
                    m = canon(add(n, k))
                    I.write(s2, loc, self.fresh(I, s2, m, m, site, c))
                    return [(s2, UNIT)]
                if nm == "push":
                    m = canon(add(n, ONE))
                    I.write(s2, loc, self.fresh(I, s2, m, m, site, c))
                    return [(s2, UNIT)]
                if nm in ("reserve", "reserve_exact"):
                    I.write(s2, loc, self.fresh(I, s2, n, canon(add(n, I.term(args[1]))), site, c))
                    return [(s2, UNIT)]
                if nm == "resize":
                    m = canon(I.term(args[1]))
                    I.write(s2, loc, self.fresh(I, s2, m, m, site, c))
                    return [(s2, UNIT)]
                if nm == "clear" or nm == "truncate":
                    m = ZERO if nm == "clear" else None
                    if m is not None:
                        I.write(s2, loc, self.mkv(ptr, m, c))
                        return [(s2, UNIT)]
        if nm in ("to_vec",) and p.startswith("alloc::slice::<impl [T]>") and args:
            t = self.slt(I, st, args[0])
            if t is not None:
                s2 = st.copy()
                k = canon(self.slen(t))
                return [(s2, self.fresh(I, s2, k, k, site))]
        if nm == "from_elem" and p.startswith("alloc::vec::"):
            s2 = st.copy()
            k = canon(I.term(args[1]))
            return [(s2, self.fresh(I, s2, k, k, site))]
        if nm in ("deref", "deref_mut", "as_ref", "borrow") and args and args[0][0] == "ref":
            v = I.read(st, args[0][1])
            md = cal.args and isinstance(cal.args[0], int) and "ManuallyDrop<" in F.ts(cal.args[0])
            if v[0] == "adt" and v[1] == "$vec" and md:
                return [(st, args[0])]
            if v[0] == "adt" and v[1] == "$vec":
                ptr, n, c = self.getv(I, v)
                return [(st, ("s", ("raw", ptr, n)))]
        return None

    def zips(self, I, st, cal, args, site):
        nm = cal.nm
        if nm == "zip" and len(args) == 2:
            ts = []
            for a in args:
                t = self.slt(I, st, a)
                if t is not None and t[0] == "it" and t[2] == 0:
                    t = t[1]
                ts.append(t)
            if None not in ts:
                return [(st, ("s", ("zip",) + tuple(ts)))]
        if nm in ("iter_mut",) and args:
            t = self.slt(I, st, args[0])
            if t is not None:
                return [(st, ("s", ("it", t, 0, "ref")))]
        if nm == "into_iter" and args and args[0][0] == "s" and args[0][1][0] == "zip":
            return [(st, args[0])]
        if nm == "next" and args and args[0][0] == "ref":
            v = I.read(st, args[0][1])
            if v[0] == "s" and v[1][0] == "zip":
                z = v[1]
                s0, s1 = st.copy(), st.copy()
                s0.facts[("zipdone", z)] = T1
                i = ("zi", site.fn.id, site.bb, hash(site.chain))
                return [(s0, ("adt", OPT, 0, ())),
                        (s1, ("adt", OPT, 1, (("adt", "tuple", 0, tuple(I.elem_ref(t, i) for t in z[1:])),)))]
        if nm == "write" and "MaybeUninit" in cal.p and args and args[0][0] == "ref":
            s2 = st.copy()
            s2.facts[("zwrote", args[0][1])] = T1
            return [(s2, args[0])]
        return None

    @staticmethod
    def slt(I, st, a):
        """Slice term of a reference."""
        if a[0] == "ref" and a[1][0][0] == "M" and not a[1][1]:
            return a[1][0][1]
        return I.slice_term(st, a) or I.sl(st, a)

    @staticmethod
    def slen(t):
        return t[2] if t[0] == "raw" else len_of(t)

    def slices(self, I, st, cal, args, site):
        p, nm = cal.p, cal.nm
        if nm in ("index", "index_mut") and cal.tr and cal.tr.startswith("core::ops::index::") and len(args) == 2:
            t = self.slt(I, st, args[0])
            if t is not None:
                r = I.range_of(args[1], t)
                if r is not None:
                    s2 = st.copy()      # or the call panics
                    self.le(s2, r[0], r[1])
                    self.le(s2, r[1], self.slen(t))
                    return [(s2, ("s", self.msub(t, *r)))]
            return None
        if not p.startswith("core::slice::<impl [T]>::") or not args:
            return None
        t = self.slt(I, st, args[0])
        if t is None:
            return None
        n = canon(self.slen(t))
        nt = ("s", n) if n[0] != "c" else n
        if nm == "len":
            return [(st, nt)]
        if nm == "is_empty":
            return [(st, I.binop(st, "Eq", nt, ("c", 0), "usize"))]
        if nm in ("as_ptr", "as_mut_ptr"):
            if t[0] == "raw":
                return [(st, ("s", t[1]))]
            return [(st, ("s", ("sptr", t)))]
        if nm in ("split_at", "split_at_mut"):
            m = canon(I.term(args[1]))
            st = st.copy()
            self.le(st, m, n)
            return [(st, ("adt", "tuple", 0, (("s", self.msub(t, ZERO, m)), ("s", self.msub(t, m, n)))))]
        if nm in ("first_mut", "last_mut", "split_first_mut", "split_last_mut", "first", "last", "split_first", "split_last"):
            base = nm.replace("_mut", "")
            if n[0] == "c":
                parts = [(st, n[1] != 0)]
            else:
                a, b = st.copy(), st.copy()
                parts = []
                a.facts[("cmp", "Lt", ZERO, n)] = T0
                b.facts[("cmp", "Lt", ZERO, n)] = T1
                parts = [(a, False), (b, True)]
            out = []
            for s2, ne in parts:
                if not ne:
                    out.append((s2, ("adt", OPT, 0, ())))
                    continue
                fst = base.endswith("first")
                r = I.elem_ref(t, ZERO if fst else sub_(n, ONE))
                if base.startswith("split"):
                    rest = self.msub(t, ONE, n) if fst else self.msub(t, ZERO, sub_(n, ONE))
                    r = ("adt", "tuple", 0, (r, ("s", rest)))
                out.append((s2, ("adt", OPT, 1, (r,))))
            return out
        return None

    @staticmethod
    def msub(t, lo, hi):
        lo, hi = canon(lo), canon(hi)
        return ("sub", t, lo, hi) if t[0] != "sub" else ("sub", t[1], canon(add(t[2], lo)), canon(add(t[2], hi)))

    # ----------------------------------------------------------------- events
    def owned(self, I, st, v, ti, d=0):
        """(kind, pointer) of what a dropped value releases."""
        F = self.F
        t = F.types[ti]
        if t.get("k") == "tuple":
            for i, x in enumerate(t["a"]):
                yield from self.owned(I, st, I.project(v, (("f", i),)), x, d + 1)
            return
        if t.get("k") != "adt" or d > 6:
            return
        p = strip_lt(t["d"])
        if p == OS:
            yield "O", I.term(I.project(v, (("f", self.pi),)))
        elif p == VEC:
            yield "V", self.getv(I, v)[0]
        elif p == SECRETBUF:
            yield "O", I.term(I.project(I.project(v, (("f", self.di),)), (("f", self.pi),)))
        elif p == OPT:
            if I.known(st, I.discr(st, v)) == 0:
                return
            a = [x for x in t["a"] if isinstance(x, int)]
            yield from self.owned(I, st, v[3][0] if v[0] == "adt" and v[3] else ("s", ("fld", I.term(v), 1, 0)), a[0], d + 1)
        elif p in F.adts and len(F.adts[p]["vs"]) == 1 and p.startswith(("util::", "string::")):
            for i, f in enumerate(F.adts[p]["vs"][0]["f"]):
                if "OwnedSlice" in F.ts(f["t"]) or "OwnedBuf" in F.ts(f["t"]):
                    yield from self.owned(I, st, I.project(v, (("f", i),)), f["t"], d + 1)

    def dropped(self, I, st, v, ti, site):
        if ti is None:
            return
        for k, p in self.owned(I, st, v, ti):
            o = self.owner(st, p)
            if o != k:
                self.bad.append((site.where, "a buffer is released that was given away or already released"))
            self.setowner(st, p, "F")

    def drop(self, I, st, v, ti, site):
        s2 = st.copy()
        self.dropped(I, s2, v, ti, site)
        return [s2]

    def agg(self, I, st, kk, vals, site):
        if kk[1] == OS:
            p, c = I.term(vals[self.pi]), canon(I.term(vals[self.ci]))
            self.obs.append(("hand-over", site.where, "an owned slice made from a vector", ("take", p, c), dict(st.facts)))
            self.setowner(st, p, "O")
        if kk[1] == OBUF:
            d = [i for i, f in enumerate(self.F.adts[OBUF]["vs"][0]["f"]) if "OwnedSlice" in self.F.ts(f["t"])][0]
            if self.F.adt_of(self.F.adts[OBUF]["vs"][0]["f"][d]["t"]) == OPT:
                ok = I.known(st, I.discr(st, vals[d])) == 1
                self.ob("shared buffer", site, "a shared buffer is made without the data its owner is assumed to hold", [(0 if ok else -1, {})], st)
        if kk[1] == SECRETBUF:
            self.inv(I, st, vals[self.di], vals[self.li], site.where, "a secret buffer is built")

    def inv(self, I, st, data, n, where, what):
        p, c = I.term(I.project(data, (("f", self.pi),))), canon(I.term(I.project(data, (("f", self.ci),))))
        self.obs.append(("invariant", where, what, ("inv", p, c, canon(I.term(n))), dict(st.facts)))

    def asrt(self, I, st, t, site):
        v = t[4]
        if v[0] == "s" and v[1][0] == "ovf":
            op, a, b = v[1][1:]
            if op == "Add":
                self.ob("no wrap", site, "a sum of lengths may wrap around in builds without overflow checks", [ge(("c", MAX), add(a, b))], st)
            elif op == "Sub":
                self.ob("no wrap", site, "a difference of lengths may wrap around in builds without overflow checks", [ge(a, b)], st)

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        super().loop(I, fn, frame, head, states, backs, exits, rets, havoced)
        qs = []
        if os.environ.get("VZ_DBG10"):
            for k in havoced:
                print("LOOP", fn.p, k, "E", [s.store.get(k) for s in states], "B", [s.store.get(k) for s in backs])
        for k in havoced:
            L = ("loop", frame, head, k)
            ev = {s.store.get(k) for s in states}
            bv = [s.store.get(k) for s in backs]
            if len(ev) != 1 or None in ev or None in bv or not bv:
                continue
            e0 = I.term(next(iter(ev)))
            bt = [I.term(b) for b in bv]
            if all(split(b)[0] == L and b != L for b in bt):
                base, off = split(e0)
                i = ("iter", L)
                steps = [lin(split(b)[1]) for b in bt]
                if all(not d and c >= 0 for c, d in steps):
                    self.ptrs[L] = (base, add(off, i))
                    if all(s == (1, {}) for s in steps):
                        self.until(I, frame, head, L, e0, states, backs, add(split(base)[1], add(off, i)))
                continue
            for tag in ("int", "len"):
                x = L if tag == "int" else ("len", L)
                y = [b if tag == "int" else self.slen(b) for b in bt]
                e = e0 if tag == "int" else self.slen(e0)
                if e[0] in ("b", "ref", "adt"):
                    continue
                ds = []
                for b in y:
                    c, d = lin(b)
                    if d.get(x) != 1:
                        ds = None
                        break
                    d = dict(d)
                    del d[x]
                    ds.append((c, d))
                if ds is None:
                    continue
                qs.append((x, e, ds))
                if tag == "int" and all(d == (1, {}) for d in ds):
                    self.until(I, frame, head, x, e, states, backs, x)
                if all(not d and c >= 0 for c, d in ds):
                    self.eqs.append(ge(x, e))
                if all(not d and c <= 0 for c, d in ds):
                    self.eqs.append(ge(e, x))
        for i in range(len(qs)):
            for j in range(i + 1, len(qs)):
                (x, ex, dx), (y, ey, dy) = qs[i], qs[j]
                if all(a[0] + b[0] == 0 and not lin_add(a, b)[1] for a, b in zip(dx, dy)):
                    g = ge(add(x, y), add(ex, ey))
                elif all(a[0] == b[0] and a[1] == b[1] for a, b in zip(dx, dy)):
                    g = ge(sub_(x, y), sub_(ex, ey))
                else:
                    continue
                self.eqs += [g, (-g[0], {k: -v for k, v in g[1].items()})]
        for s in [s for ss in exits.values() for s in ss] + [s for s, _ in rets]:
            for f in [f for f in s.facts if f[0] == "zipdone" and len(f) == 2]:
                z = f[1]
                for t in z[1:]:
                    if t[0] == "raw" and backs and all(any(g[0] == "zwrote" and g[1][0] == ("M", t) and g[1][1] and "zi" in g[1][1][-1][1]
                                                           for g in b.facts) for b in backs):
                        b, o = split(t[1])
                        s.facts[("zfilled", b, o, tuple(canon(self.slen(x)) for x in z[1:]))] = T1

    def until(self, I, frame, head, L, e0, states, backs, lt):
        """`while x != hi`, in steps of one from below: x never exceeds hi."""
        for f in list(backs[0].facts):
            if f[0] == "cmp" and f[1] == "Eq" and L in f[2:] and all(b.facts.get(f) == T0 for b in backs):
                hi = f[3] if f[2] == L else f[2]
                if any(x[0] == "loop" and x[1:3] == (frame, head) for x in subterms(hi) if len(x) > 2):
                    continue
                self.I = I
                h, e = self.resolve(hi), self.resolve(e0)
                if h[0] == "rel" or e[0] == "rel":
                    if h[:2] != e[:2]:
                        continue
                    h, e = h[2], e[2]
                if all(self.prove([ge(h, e)], s.facts) for s in states):
                    self.eqs.append(ge(h, lt))

    # -------------------------------------------------------------- discharge
    def extra(self, atom):
        out = []
        if atom[0] == "vlen" or atom[0] == "vcap":
            out.append(ge(("vcap", atom[1]), ("vlen", atom[1])))
        if self.root is not None and atom[0] == "fld":
            ln, cp = ("fld", self.root, self.li), ("fld", ("fld", self.root, self.di), self.ci)
            if atom in (ln, cp):
                out.append(ge(cp, ln))
                out.append(lin_sub_c(2 ** 63 - 1, cp))
        if atom[0] == "len" and atom[1][0] == "raw":
            g = ge(atom, atom[1][2])
            out += [g, (-g[0], {k: -v for k, v in g[1].items()})]
        out += [c for c in self.contract if atom in c[1]]
        return out

    def resolve(self, t):
        """Offset of a pointer term within its base, or the number itself."""
        if t in self.ptrs:
            b, o = self.ptrs[t]
            bb, oo = split(b)
            return ("rel", bb, canon(add(oo, o)))
        if t[0] == "padd":
            r = self.resolve(t[1])
            if r is not None and r[0] == "rel":
                return ("rel", r[1], canon(add(r[2], t[2])))
        if t[0] in ("vptr", "sptr") or (t[0] == "fld" and len(t) == 3 and t[2] == self.pi and self.is_os(t)):
            return ("rel", t, ZERO)
        return t

    def is_os(self, t):
        X = t[1]
        if self.root is not None and X == ("fld", self.root, self.di):
            return True
        ti = self.I.ttype(X)
        return ti is not None and "OwnedSlice" in self.F.ts(ti)

    def hyps(self, facts):
        out = list(self.eqs)
        plain = {}
        for f, v in facts.items():
            if f[0] == "cmp":
                a, b = self.resolve(f[2]), self.resolve(f[3])
                if a[0] == "rel" or b[0] == "rel":
                    if a[0] == b[0] and a[1] == b[1]:
                        plain[("cmp", f[1], a[2], b[2])] = v
                    continue
            plain[f] = v
        for s in self.sls:
            for f, v in facts.items():
                if f[0] == "cmp" and f[1] == "Eq" and v == T1 and ("sptr", s) in f[2:]:
                    b = f[3] if f[2] == ("sptr", s) else f[2]
                    c = self.capof(None, b)
                    if c is not None:
                        out.append(ge(c, ("len", s)))
        return out + hyps(plain)

    def prove(self, goals, facts, hs=None):
        hs = self.hyps(facts) if hs is None else hs
        ne = diseqs(facts)
        return all(implies(g, hs, self.extra, ne) for g in goals)

    def initlen(self, I, base, facts, hs, upto):
        """Is base[0..upto] initialised?"""
        if upto == ZERO:
            return True
        if base[0] == "fld":
            X = base[1]
            if self.root is not None and X == ("fld", self.root, self.di):
                return True
            for g in self.initok:
                if g(base, upto, facts):
                    return True
            return False
        if base[0] == "vptr":
            lens = [k[2] for k in facts if k[0] == "ini" and k[1] == base]
            if base[1][0] != "new":
                lens.append(("vlen", base[1]))
            for n in lens:
                for k in facts:
                    if k[0] == "zfilled" and k[1] == base and self.prove([ge(n, k[2])] + [ge(add(k[2], x), upto) for x in k[3]], facts, hs):
                        return True
                if self.prove([ge(n, upto)], facts, hs):
                    return True
                for k in facts:
                    if k[0] == "filled" and k[1] == base and self.prove([ge(n, k[2]), ge(k[3], upto)], facts, hs):
                        return True
            for k in facts:
                if k[0] == "filled" and k[1] == base and self.prove([ge(ZERO, k[2]), ge(k[3], upto)], facts, hs):
                    return True
        return False

    def discharge(self, I, cx, fn):
        self.I = I
        for where, msg in self.bad:
            cx.viol(f"release:{fn.p}", where, f"{fn.p}: {msg}")
        done = set()
        for rule, where, msg, goals, facts in self.obs:
            cx.ob(rule, f"{fn.p}: {msg}")
            hs = self.hyps(facts)
            if self.prove([(-1, {})], facts, hs):
                continue          # no run takes this path
            why = None
            if isinstance(goals, list):
                if not self.prove(goals, facts, hs + self.hints if rule == "no wrap" else hs):
                    why = msg
            elif goals[0] == "acc":
                _, ptr, n, init = goals
                r = self.resolve(ptr)
                if r[0] != "rel" or self.capof(I, r[1]) is None:
                    if ptr[0] in ("raw",) or ptr[0] == "sptr" or (r[0] == "rel" and r[1][0] == "sptr"):
                        base = r[1] if r[0] == "rel" else ptr
                        if not self.prove([lin(r[2]) if r[0] == "rel" else (0, {}), ge(len_of(base[1]), add(r[2] if r[0] == "rel" else ZERO, n))], facts, hs):
                            why = f"{msg} may reach past the slice"
                    elif n == ZERO:
                        pass
                    else:
                        why = f"{msg} through a pointer whose allocation is not known" + (f" {r}" if os.environ.get("VZ_DEBUG") else "")
                else:
                    base, off = r[1], r[2]
                    if self.owner_f(facts, base) == "F":
                        why = f"{msg} after the buffer was released"
                    elif not self.prove([lin(off), lin(n), ge(self.capof(I, base), add(off, n))], facts, hs):
                        why = f"{msg} may reach past the end of the buffer"
                    elif init and not self.lax and not self.initlen(I, base, facts, hs, canon(add(off, n))):
                        why = f"{msg} may expose memory that was never initialised"
            elif goals[0] in ("give", "take"):
                ptr, c = goals[1], goals[-1]
                r = self.resolve(ptr)
                cap = self.capof(I, r[1]) if r[0] == "rel" else None
                if cap is None or r[2] != ZERO:
                    why = f"{msg} with a pointer that is not the start of an allocation"
                elif not self.prove([ge(cap, c), ge(c, cap)], facts, hs):
                    why = f"{msg} with another capacity than the allocation has"
                elif self.owner_f(facts, r[1]) != ("O" if goals[0] == "give" else "V"):
                    why = f"{msg} that no longer owns its buffer"
                elif goals[0] == "give":
                    n = goals[2]
                    if not self.prove([ge(c, n)], facts, hs):
                        why = f"{msg} may be longer than its capacity"
                    elif not self.initlen(I, r[1], facts, hs, n):
                        why = f"{msg} may contain memory that was never initialised"
            elif goals[0] == "setlen":
                _, ptr, n, c, m = goals
                if not self.prove([ge(c, m)], facts, hs):
                    why = f"{msg} beyond its capacity"
                elif not self.prove([ge(n, m)], facts, hs) and not self.initlen(I, ptr, facts, hs, m):
                    why = f"{msg} over memory that was never initialised"
            elif goals[0] == "inv":
                _, p, c, n = goals
                r = self.resolve(p)
                cap = self.capof(I, r[1]) if r[0] == "rel" else None
                if cap is None or r[2] != ZERO:
                    why = f"{msg} around a pointer whose allocation is not known" + (f" {r}" if os.environ.get("VZ_DEBUG") else "")
                elif not self.prove([ge(c, n)], facts, hs):
                    why = f"{msg}: its length may exceed its capacity"
                elif not self.initlen(I, r[1], facts, hs, c):
                    why = f"{msg}: part of it may never have been initialised"
                elif self.owner_f(facts, r[1]) != "O":
                    why = f"{msg}: it no longer owns its buffer"
            if why and os.environ.get("VZ_DBG10"):
                for f, v in facts.items():
                    print("   F", f, v)
                print("   H", hs)
            if why and (where, why) not in done:
                done.add((where, why))
                cx.viol(f"{rule}:{fn.p}", where, f"{fn.p}: {why}")

    def owner_f(self, facts, p):
        f = facts.get(("owner", p))
        return next(iter(f[1])) if f else "V" if p[0] == "vptr" else "O"


def lin_add(a, b):
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) + v
        if d[k] == 0:
            del d[k]
    return a[0] + b[0], d


def lin_sub_c(c, t):
    return (c, {t: -1})


class Here:
    def __init__(self, fn):
        self.where = fn.sp


def one(cx, fn):
    F = cx.F
    h = Mem(F)
    I = Interp(F, h)
    h.I = I
    self_ty = fn.impl.get("self") if fn.impl else None
    me = F.adt_of(self_ty) if isinstance(self_ty, int) else None
    t1 = F.types[fn.ins[0]] if fn.ins else {}
    byref = t1.get("k") == "ref"
    first = F.adt_of(t1["t"]) if byref else (F.adt_of(fn.ins[0]) if fn.ins and t1.get("k") == "adt" else None)
    if first == SECRETBUF:
        h.root = ("mem", ("arg", 1)) if byref else ("arg", 1)
    if first == OS:
        h.lax = fn.unsafe
        root = ("mem", ("arg", 1)) if byref else ("arg", 1)
        cap = ("fld", root, h.ci)
        h.contract.append((2 ** 63 - 1, {cap: -1}))
        for i, t in enumerate(fn.ins[1:], 2):
            if F.ts(t) == "usize":
                h.contract.append(ge(cap, ("arg", i)))
                h.initok.append(lambda b, n, facts, a=("arg", i): n == a)
    for i, t in enumerate(fn.ins, 1):
        ty = F.types[t]
        if ty.get("k") == "ref" and F.types[ty["t"]].get("k") == "slice" and fn.unsafe:
            def ok(b, n, facts, s=("arg", i)):
                return n == canon(("len", s)) and any(f[0] == "cmp" and f[1] == "Eq" and v == T1 and set(f[2:]) == {("sptr", s), b} for f, v in facts.items())
            h.initok.append(ok)
            h.sls.append(("arg", i))
    I.split = 8
    outs = I.run(fn)
    cx.cover(fn)
    if h.root is not None and byref and t1.get("m"):
        for st, v in outs:
            cur = I.read(st, (("M", ("arg", 1)), ()))
            if (fn.impl.get("tr") or "").endswith("ops::drop::Drop"):
                continue
            h.inv(I, st, I.project(cur, (("f", h.di),)), I.project(cur, (("f", h.li),)), fn.sp, "a secret buffer is left")
            new, old = I.term(I.project(cur, (("f", h.li),))), ("fld", h.root, h.li)
            grown = None
            if fn.out is not None and F.adt_of(fn.out) == "core::result::Result" and v[0] == "adt":
                grown = I.term(v[3][0]) if v[2] == 0 and F.ts(fn.out).startswith("core::result::Result<usize") else ZERO if v[2] else None
            elif [F.ts(t) for t in fn.ins[1:]][:1] == ["u8"]:
                grown = ONE
            if grown is not None:
                h.ob("accounting", Here(fn), "a secret buffer's length does not grow by what was put in", [ge(new, add(old, grown)), ge(add(old, grown), new)], st)
    if h.root is not None and not byref:
        for k, (rule, where, msg, goals, facts) in enumerate(list(h.obs)):
            if rule == "hand-over" and goals[0] == "give" and goals[1] == ("fld", ("fld", h.root, h.di), h.pi):
                n, ln = goals[2], ("fld", h.root, h.li)
                h.obs.append(("accounting", where, "a secret buffer is handed out with another length than its contents have", [ge(n, ln), ge(ln, n)], facts))
    if h.root is not None and byref and not t1.get("m") and fn.out is not None and F.ts(fn.out).endswith("[u8]"):
        for st, v in outs:
            t = h.slt(I, st, v)
            ln = ("fld", h.root, h.li)
            same = t is not None and t[0] == "raw" and t[1] == ("fld", ("fld", h.root, h.di), h.pi)
            n = t[2] if same else ZERO
            h.ob("accounting", Here(fn), "a secret buffer shows something other than its contents", [ge(n, ln), ge(ln, n)] if same else [(-1, {})], st)
    cx.ob("buffer function", f"{fn.p}: {len(h.obs)} obligations")
    if len(h.obs):
        h.discharge(I, cx, fn)


def users(F):
    for fn in F.fns.values():
        if fn.body is None or "{closure" in fn.p:
            continue
        s = fn.impl.get("self") if fn.impl else None
        a = F.adt_of(s) if isinstance(s, int) and F.types[s].get("k") == "adt" else None
        if a in (OS, SECRETBUF) and not (fn.impl or {}).get("derived"):
            yield fn
        elif any(c["p"].startswith("util::ownedslice::OwnedSlice") for _, _, c in calls(fn)):
            yield fn


def check(cx):
    F = cx.F
    for fn in users(F):
        cx.guard(f"fn:{fn.p}", one, cx, fn)
    layout.check(cx)
    cx.need("box layout", 8)
    cx.need("described type", 6)
    cx.need("buffer function", 20)
    cx.need("access", 6)
    cx.need("hand-over", 4)
    cx.need("invariant", 6)
