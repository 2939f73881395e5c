"""C08: a string marked as valid UTF-8 really is valid UTF-8."""
import re
from facts import Missing, strip_lt, calls
from interp import Interp, Hook, subterms
from seqs import ALLB, base_of, slice_bytes, mk_sub, len_of, canon, add, sub_, ZERO, ONE, mentions_term
from rules.strs import BYTES, BUILDER, SPEC, MOD, StrHook
from rules.c38 import Own, direct, clone_of
from rules.c05 import fidx
from rules.c03 import trimmed

EXPLAIN = (
    "Every place a byte string's UTF-8 mark can become 'valid' (each construction of a string, each store to the mark, each change of "
    "the value beside it) is interpreted over all paths, and the bytes concerned must be justified there: text that has a str type, bytes "
    "that passed from_utf8 on that path, ASCII bytes, the value of a string whose mark is known to be valid, or a part of it cut at bytes "
    "known to be ASCII. Each Transform implementation's declared policy is compared with the image of its byte map. Splitter methods are "
    "run with every prior encoding state; the state they leave must be justified by how they moved the bounds. Builder methods are "
    "compared with what they append. Every unchecked conversion to str needs the same justification.")
ASSUME = ["implementations of the unsafe Transform trait outside the crate keep their declared policy",
          "safe code does not replace a whole Splitter through a SavedIndices guard (which would pair the guard with foreign bounds)"]
ASCII = frozenset(range(128))
LEAD = frozenset(b for b in range(256) if b < 128 or b >= 0xC0)
ONE_ = ("in", frozenset([1]))
SPL = "string::splitter::"
UNCHECKED = ("from_utf8_unchecked", "from_utf8_unchecked_mut", "from_boxed_utf8_unchecked", "as_mut_vec", "as_bytes_mut")


def strip(t):
    while t and t[0] in ("s",) and isinstance(t[1], tuple):
        t = t[1]
    return t


def fact_is(facts, t, v):
    f = facts.get(t)
    return f is not None and f[0] == "in" and f[1] <= frozenset([v]) and len(f[1]) == 1


class Marks(Own):
    """Own, plus the mark: an AtomicI8 holds its value; loading an unknown one names the string it belongs to."""
    max_depth = 12

    def __init__(self, F):
        super().__init__(F)
        self.mi = fidx(F, BYTES, "utf8")
        self.owners = set()
        self.raw = []
        self.acc = {}          # (frame, head) -> [(bool loop term, allowed bytes of each element passed)]
        self.built = []

    def mark_at(self, I, st, loc):
        v = I.read(st, loc)
        t = I.term(v, st)
        if t[0] == "fld" and len(t) == 3 and t[2] == self.mi:
            return ("s", ("mark", t[1]))
        if t[0] == "default":
            return ("c", 0)
        return v

    def call(self, I, st, cal, args, site):
        nm = cal.nm
        if "sync::atomic::Atomic" in cal.p and args:
            if nm in ("new", "from", "into"):
                return [(st, args[0])]
            if nm in ("get_mut", "as_ptr", "from_mut", "from_ptr"):
                return None
            loc = args[0][1] if args[0][0] == "ref" else (("M", I.term(args[0], st)), ())
            if nm == "load":
                return [(st, self.mark_at(I, st, loc))]
            self.owners.add((loc[0], loc[1][:-1]))
            if nm in ("store", "swap"):
                s2 = st.copy()
                old = self.mark_at(I, st, loc)
                I.write(s2, loc, args[1])
                return [(s2, old if nm == "swap" else ("adt", "tuple", 0, ()))]
            if nm in ("compare_exchange", "compare_exchange_weak"):
                cur = self.mark_at(I, st, loc)
                out = []
                res = "core::result::Result"
                want = args[1][1] if args[1][0] == "c" else None
                if want is None or cur[0] not in ("s", "c"):
                    s2 = st.copy()
                    I.write(s2, loc, args[2])
                    return [(s2, ("adt", res, 0, (cur,))), (st, ("adt", res, 1, (cur,)))]
                for s2, n in I.branch(st, cur, [want & 255]):
                    if n is None:
                        out.append((s2, ("adt", res, 1, (cur,))))
                    else:
                        s2 = s2.copy()
                        I.write(s2, loc, args[2])
                        out.append((s2, ("adt", res, 0, (cur,))))
                if nm.endswith("weak"):
                    out.append((st, ("adt", res, 1, (cur,))))
                return out
            s2 = st.copy()
            I.write(s2, loc, ("s", ("mark?", site.fn.id, site.bb)))
            return [(s2, ("s", ("mark?", site.fn.id, site.bb, 0)))]
        if nm == "into" and args and I.cur_dty is not None and "atomic::Atomic" in self.F.ts(I.cur_dty):
            return [(st, args[0])]
        if nm == "from_utf8" and "str" in cal.p and args:
            t = I.slice_term(st, args[0])
            if t is not None:
                good, bad = st.copy(), st.copy()
                good.facts[("utf8ok", t)] = ONE_
                return [(good, ("adt", "core::result::Result", 0, (("s", t),))), (bad, ("adt", "core::result::Result", 1, (("s", ("utf8err", t)),)))]
        if nm == "is_ascii" and args and re.search(r"slice|str", cal.p) and "u8>" not in cal.p:
            v = self.value(I, st, args[0])
            if v[0] == "vec":
                good = st.copy()
                for s in v[1]:
                    ascii_seg(I, good, s)
                return [(good, ("c", 1)), (st, ("c", 0))]
            t = I.slice_term(st, args[0])
            if t is not None:
                if slice_bytes(I, st, t) <= ASCII:
                    return [(st, ("c", 1))]
                good = st.copy()
                good.facts[("allof", t)] = ("in", slice_bytes(I, st, t) & ASCII)
                return [(good, ("c", 1)), (st, ("c", 0))]
        if nm in ("min", "max") and len(args) == 2:
            a, b = ((I.read(st, x[1]) if x[0] == "ref" else x) for x in args)
            if a[0] == b[0] == "adt" and a[1] == b[1] == SPL + "Encoding":
                if any(i.get("derived") for tr in ("core::cmp::Ord", "core::cmp::PartialOrd") for i in self.F.impls_of.get(tr, ())
                       if self.F.adt_of(i["self"]) == a[1]):
                    return [(st, args[0] if (a[2] <= b[2]) == (nm == "min") else args[1])]
        if nm in ("from_utf8_lossy", "from_utf8_lossy_owned") and args:
            t = I.slice_term(st, args[0])
            if t is not None and nm == "from_utf8_lossy":
                good, bad = st.copy(), st.copy()
                good.facts[("utf8ok", t)] = ONE_
                cow = "alloc::borrow::Cow"
                return [(good, ("adt", cow, 0, (("s", t),))), (bad, ("adt", cow, 1, (("s", ("strof", ("lossy", t))),)))]
        if nm in UNCHECKED and self.F.fns.get(cal.id) is None:
            self.raw.append((site, I.term(args[0], st) if args[0][0] != "ref" else I.term(I.read(st, args[0][1]), st), st, args[0]))
        if nm == "as_ref" and args and I.cur_dty is not None and self.F.ts(I.cur_dty) in ("&str", "&mut str"):
            t = I.term(args[0] if args[0][0] != "ref" else I.read(st, args[0][1]), st)
            return [(st, ("s", ("strof", t)))]
        r = self.newtype(I, st, cal, args, site)
        if r is not None:
            return r
        return super().call(I, st, cal, args, site)

    def newtype(self, I, st, cal, args, site):
        """Calls on an unknown string type: what its implementations are checked to do."""
        if (cal.tr or "").endswith("BytesNewtype") and (self.F.fns.get(cal.id) is None or not self.F.fns[cal.id].impl):
            nm = cal.nm
            if nm in ("from_unchecked", "into_bytes"):
                return [(st, args[0])]
            x = self.deref(I, st, args[0])
            if nm in ("as_bytes_unsafe", "as_bytes"):
                return [(st, ("s", ("strval", x)))]
            if nm == "into_vec":
                return [(st, ("s", ("vecof", x)))]
            if nm == "is_utf8_lazy":
                return [(st, ("s", ("marked", x)))]
            if nm == "is_invalid":
                # the types' invalid bytes are ASCII (checked)
                e = args[0]
                t = I.term(I.read(st, e[1]), st) if e[0] == "ref" else ("mem", I.term(e, st))
                yes, no = st.copy(), st
                cur = I.byteset(st, t) & ASCII
                if not cur:
                    return [(no, ("c", 0))]
                yes.facts[t] = ("in", cur)
                return [(yes, ("c", 1)), (no, ("c", 0))]
            if nm == "using_value":
                self.built.append((site, x, I.slice_term(st, args[1]), I.term(args[2], st), st))
                return [(st, ("s", ("uv", x, I.slice_term(st, args[1]), len(self.built))))]
        if cal.nm == "as_ref" and args:
            x = self.deref(I, st, args[0])
            if x[0] == "uv":
                return [(st, ("s", x[2]))]
            if x[0] == "default":
                return [(st, ("b", b""))]
        return None

    def value(self, I, st, v):
        n = 0
        while v[0] == "ref" and n < 4:
            v = I.read(st, v[1])
            n += 1
        while v[0] == "s" and v[1][0] == "deref" and v[1][1][0] == "vec":
            v = v[1][1]
        return v

    def deref(self, I, st, v):
        return I.term(self.value(I, st, v), st)

    def agg(self, I, st, kk, vals, site):
        if kk[0] == "adt" and kk[1] == BYTES:
            self.aggs.append((site, [I.term(v, st) for v in vals], st.copy()))

    def write(self, I, st, loc, val, site):
        if site is None or not loc[1] or loc[1][-1][0] != "f" or loc[1][-1][1] not in (self.vi, self.mi):
            return
        ow = (loc[0], loc[1][:-1])
        t = I.term(I.read(st, ow), st)
        while t[0] == "st":
            t = t[1]
        ti = I.ttype(t)
        if ti is not None and self.F.adt_of(ti) == BYTES:
            self.owners.add(ow)

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        super().loop(I, fn, frame, head, states, backs, exits, rets, havoced)
        for k in havoced:
            lv = ("loop", frame, head, k)
            if not all(k in x.store for x in backs):
                continue
            its = set()
            for x in backs:
                for k2 in havoced:
                    v = x.store.get(k2)
                    if v is not None and v[0] == "s" and v[1][0] == "it" and v[1][2] == ("at", frame, head):
                        its.add(v[1][1])
            cands = []
            if len(its) == 1:
                S = next(iter(its))
                cands.append((S, I.elem_term(S, ("itpos", S, ("at", frame, head)))))
            cands += [(S, e) for S, e in self.counted(I, frame, head, states, backs, havoced, k)]
            for S, e in cands:
                A = frozenset()
                for x in backs:
                    t = I.term(I.read(x, k), x)
                    good, keeps = conj(I, x, t, lv, e)
                    if good is None:
                        break
                    A |= good
                    if not keeps and good:
                        break
                else:
                    if A != ALLB:
                        inits = {I.term(I.read(x, k), x) for x in states if k in x.store}
                        self.acc.setdefault((frame, head), []).append((lv, A, S, inits))

    def counted(self, I, frame, head, states, backs, havoced, k):
        """(part, element): what a counter that moves up by one has passed, and the element it is at."""
        out = []
        for k2 in havoced:
            L = ("loop", frame, head, k2)
            ev = {I.read(x, k2) for x in states}
            bv = [x.store.get(k2) for x in backs]
            if k2 == k or len(ev) != 1 or not bv or any(v is None or v[0] != "s" or canon(v[1]) != canon(add(L, ONE)) for v in bv):
                continue
            e0 = next(iter(ev))
            if e0[0] != "s" and (e0[0] != "c" or not isinstance(e0[1], int)):
                continue
            es = {y for x in backs for f in [I.term(I.read(x, k), x)] + list(x.facts) for y in subterms(f)
                  if len(y) == 3 and y[0] == "elem" and y[1][0] == "mem" and y[2] == L and not mentions_term(y[1], L)}
            out += [(mk_sub(y[1][1], I.term(e0), L), y) for y in sorted(es, key=repr)]
        return out


def ascii_seg(I, st, s):
    """What a stretch of bytes being ASCII says of where it came from."""
    if s[0] == "one" and s[1][0] in ("s", "bf"):
        e = s[1][1]
        st.facts[e] = ("in", frozenset(b for b in I.byteset(st, e) if (s[1][2][b] if s[1][0] == "bf" else b) < 128))
    elif s[0] == "sl":
        st.facts[("allof", s[1])] = ("in", slice_bytes(I, st, s[1]) & ASCII)
    elif s[0] == "map":
        st.facts[("allof", s[1])] = ("in", frozenset(b for b in slice_bytes(I, st, s[1]) if s[2][b] is None or any(x < 128 for x in s[2][b])))


def conj(I, st, t, lv, e):
    """(bytes e may be when t holds, does t imply lv); (None, _) if t cannot be read."""
    cur = I.byteset(st, e)
    if t == lv:
        return cur, True
    if t[0] == "c":
        return (cur, fact_is(st.facts, lv, 1)) if t[1] else (frozenset(), True)
    if t[0] == "bf":
        if t[1] == e:
            return frozenset(b for b in cur if t[2][b]), fact_is(st.facts, lv, 1)
        return cur, fact_is(st.facts, lv, 1)
    if t[0] == "and" or t[0] == "op" and t[1] == "BitAnd":
        A, keeps = cur, False
        for x in (t[1:] if t[0] == "and" else t[2:]):
            a, k = conj(I, st, x, lv, e)
            if a is None:
                continue
            A &= a
            keeps = keeps or k
        return A, keeps
    return None, False


def assume_true(I, H, st, t, facts, d=0):
    """Add to facts what t being true says."""
    if d > 12:
        return
    facts[t] = ONE_
    if t[0] == "and" or t[0] == "op" and t[1] == "BitAnd":
        for x in (t[1:] if t[0] == "and" else t[2:]):
            assume_true(I, H, st, x, facts, d + 1)
    elif t[0] == "bf":
        f = facts.get(t[1])
        cur = f[1] if f and f[0] == "in" else ALLB - f[1] if f else ALLB
        facts[t[1]] = ("in", frozenset(b for b in cur if t[2][b]))
    elif t[0] == "cmp" and t[1] == "Eq" and ("c", 1) in t[2:]:
        for x in t[2:]:
            if x != ("c", 1):
                assume_true(I, H, st, x, facts, d + 1)
    elif t[0] == "cmp" and t[1] == "Ne" and ("c", 0) in t[2:]:
        pass
    elif t[0] == "loop":
        for lv, A, S, inits in H.acc.get((t[1], t[2]), ()):
            if lv != t:
                continue
            for k in list(facts):
                if k[0] == "prefix" and k[2][0] == "loop" and k[2][1:3] == t[1:3] and base_of(S)[0] == k[1] \
                        or k[0] == "allof" and k[1] == S and facts.get(("itdone", S, ("at",) + t[1:3])) == ONE_:
                    facts[k] = ("in", facts[k][1] & A)
                elif k[0] == "allof" and k[1][0] == "sub" and k[1][1] == base_of(S)[0] and canon(k[1][2]) == canon(base_of(S)[1]) and \
                        any(x[0] == "loop" and x[1:3] == t[1:3] for x in subterms(k[1][3])):
                    facts[k] = ("in", facts[k][1] & A)
            if facts.get(("itdone", S, ("at",) + t[1:3])) == ONE_ and ("allof", S) not in facts:
                facts[("allof", S)] = ("in", A)
            b, lo, hi = base_of(S)
            if hi[0] == "loop" and hi[1:3] == t[1:3]:
                # everything the counter has passed, which is all of it once the counter has reached the end
                for k in list(facts):
                    if k[0] == "allof" and base_of(k[1])[0] == b and canon(base_of(k[1])[1]) == canon(lo) and (
                            canon(base_of(k[1])[2]) == canon(hi) or facts.get(("cmp", "Lt", hi, base_of(k[1])[2])) == ("in", frozenset([0]))):
                        facts[k] = ("in", facts[k][1] & A)
                facts.setdefault(("allof", S), ("in", A))
            if len(inits) == 1:
                i = next(iter(inits))
                if i[0] != "c":
                    assume_true(I, H, st, i, facts, d + 1)


def bytes_at(I, st, e):
    """What byte an element can be, also through equalities."""
    B = I.byteset(st, e)
    for k, f in st.facts.items():
        if k[0] == "cmp" and k[1] == "Eq" and f == ONE_ and e in k[2:]:
            o = k[2] if k[3] == e else k[3]
            B &= frozenset([o[1]]) if o[0] == "c" else I.byteset(st, o)
    return B


def boundary(I, st, base, p, lo=None, hi=None):
    """Is position p of base on a character boundary, given that base[lo..hi] is valid?"""
    p = canon(p)
    lo, hi = canon(lo if lo is not None else ZERO), canon(hi if hi is not None else ("len", base))
    if p in (lo, hi):
        return True
    for L, n in I.below:
        if fact_is(st.facts, ("cmp", "Lt", L, n), 0) and canon(add(sub_(p, L), n)) in (lo, hi):
            return True
    if bytes_at(I, st, I.elem_term(base, p)) <= LEAD or bytes_at(I, st, I.elem_term(base, sub_(p, ONE))) <= ASCII:
        return True
    for t in (mk_sub(base, lo, p), mk_sub(base, p, hi)):
        if t[0] == "sub" and slice_bytes(I, st, t) <= ASCII:
            return True
    # elements are sometimes named from the other end
    return hi == canon(("len", base)) and p == sub_(hi, ONE) and bytes_at(I, st, I.elem_term(base, ("c", -1))) <= ASCII


class Why:
    """Decides whether bytes are valid UTF-8 in a state."""

    def __init__(self, cx, H, I):
        self.F, self.H, self.I = cx.F, H, I

    def strlike(self, t):
        for _ in range(6):
            if t[0] == "strof":
                return True
            ti = self.I.ttype(t)
            if ti is not None:
                s = self.F.ts(ti).replace("mut ", "").lstrip("&")
                return bool(re.fullmatch(r"str|alloc::string::String|alloc::boxed::Box<str.*>|alloc::borrow::Cow<str>|alloc::borrow::Cow<'?\w*,? ?str>", s))
            if t[0] in ("deref", "mem", "s", "vecof") and isinstance(t[1], tuple) or t[0] == "fld":
                t = t[1]
            else:
                return False
        return False

    def marked(self, st, P):
        """Is string P known to be marked valid?"""
        return fact_is(st.facts, ("mark", P), 1) or fact_is(st.facts, ("marked", P), 1)

    def ok(self, st, t, d=0):
        if t is None or d > 10:
            return False
        I, H = self.I, self.H
        t = strip(t)
        if t[0] == "b":
            try:
                t[1].decode()
                return True
            except UnicodeDecodeError:
                return False
        if t[0] == "ownv":
            return all(self.seg_ok(st, s, d) for s in t[2])
        if t[0] == "vec":
            return all(self.seg_ok(st, s, d) for s in t[1])
        if fact_is(st.facts, ("utf8ok", t), 1) or fact_is(st.facts, ("len", t), 0):
            return True
        if self.strlike(t):
            return True
        if slice_bytes(I, st, t) <= ASCII:
            return True
        if t[0] == "strval":
            return self.marked(st, t[1])
        if t[0] == "vecof":
            return self.marked(st, t[1])
        if t[0] == "fld" and len(t) == 3 and t[2] == H.vi and self.marked(st, t[1]):
            return True
        if t[0] == "fld" and len(t) == 3 and isinstance(t[1], tuple):
            ti = I.ttype(t[1])
            if ti is not None and self.F.adt_of(ti) == BUILDER and t[2] == fidx(self.F, BUILDER, "bytes"):
                return fact_is(st.facts, ("fld", t[1], fidx(self.F, BUILDER, "utf8")), 1)
        if t[0] == "sub":
            b, lo, hi = t[1], t[2], t[3]
            if self.ok(st, b, d + 1):
                return boundary(I, st, b, lo) and boundary(I, st, b, hi)
            # an ASCII prefix followed by a checked rest
            for k, f in st.facts.items():
                if k[0] == "utf8ok" and f == ONE_ and k[1][0] == "sub" and k[1][1] == b and canon(k[1][3]) == canon(hi):
                    pre = mk_sub(b, lo, k[1][2])
                    if slice_bytes(I, st, pre) <= ASCII:
                        return True
            return False
        if t[0] in ("deref", "mem") and isinstance(t[1], tuple):
            return self.ok(st, t[1], d + 1)
        return False

    def seg_ok(self, st, s, d):
        if s[0] == "one":
            w = s[1]
            if w[0] == "c":
                return w[1] < 128
            if w[0] == "bf":
                return all(w[2][b] < 128 for b in self.I.byteset(st, w[1]))
            return self.I.byteset(st, strip(w)) <= ASCII
        if s[0] == "any":
            return s[1] <= ASCII
        if s[0] == "sl":
            return self.ok(st, s[1], d + 1)
        if s[0] == "map":
            return all(s[2][b] is None or any(x < 128 for x in s[2][b]) for b in slice_bytes(self.I, st, s[1]))
        return False


def policy_trust(fn, st, vt, H, self_terms):
    """Declared validity: the caller of an unsafe function, or the transformation that yielded the value, vouches for it."""
    for t, f in st.facts.items():
        if t[0] != "discr" or f[0] != "in" or len(f[1]) != 1:
            continue
        k = next(iter(f[1]))
        p = t[1]
        if p[0] == "arg" and fn.unsafe and vt[0] == "arg" or \
                p[0] == "fld" and p[1][0] in ("call", "hv") and p[1] in subterms(vt) and last(p[1]) == "transform":
            if k == 1:
                return True
            if k in (2, 3) and any(fact_is(st.facts, ("mark", P), 1) for P in self_terms):
                return True
    return False


def last(t):
    return t[1].split("::")[-1] if isinstance(t[1], str) else ""


def judge(cx, fn, H, I, st, vt, mt, flag=None):
    """May the mark mt be 'valid' beside the value vt without reason?  None or why."""
    mt = strip(mt)
    if mt[0] == "c" and mt[1] != 1 or mt[0] == "default":
        return None
    st = st.copy()
    if mt[0] == "discr" or mt[0] == "mark":
        f = st.facts.get(mt)
        if f is not None and (f[0] == "in" and 1 not in f[1] or f[0] == "not" and 1 in f[1]):
            return None
    if mt[0] != "c":
        assume_true(I, H, st, mt if mt[0] not in ("mark", "discr") else ("cmp", "Eq", mt, ("c", 1)), st.facts)
    w = Why(cx, H, I)
    if w.ok(st, vt):
        return None
    if policy_trust(fn, st, vt if vt[0] != "ownv" else ("x",) + tuple(x[1] for x in vt[2] if isinstance(x[1], tuple)), H,
                    [("mem", ("arg", 1))]):
        return None
    if flag is not None and fact_is(st.facts, flag, 1) and vt == ("arg", 2):
        return None
    return "bytes that are not known to be valid UTF-8 there" if mt[0] == "c" else "bytes the mark was not established for"


def run(cx, fn, H, args=None, st=None):
    I = Interp(cx.F, H)
    H.I = I
    I.split = 64
    outs = I.run(fn, args=args, st=st)
    cx.cover(fn)
    return I, outs


def touches(F, fn):
    """Does fn itself build a byte string or touch a mark?"""
    return direct(F, fn, BYTES) or any(c and "sync::atomic::Atomic" in c.get("p", "") and "i8" in str(F.ts(c["a"][0]) if c.get("a") and isinstance(c["a"][0], int) else "i8")
                                       for _, _, c in calls(fn)) and fn.p.lstrip("<").startswith("string::")


def callers(F, fn):
    return [g for g in F.fns.values() if g.body and any(c and (c.get("rid") or c.get("id")) == fn.id for _, _, c in calls(g))]


def check_marks(cx):
    F = cx.F
    todo = [f for f in F.fns.values() if f.body and touches(F, f)]
    uv = [f for f in F.fns.values() if f.nm == "using_value" and f.body]
    for u in uv:
        todo += callers(F, u)
    done = set()
    while todo:
        fn = todo.pop()
        if fn.id in done:
            continue
        done.add(fn.id)
        if fn.p.startswith(SPL) or fn.p.startswith("<" + SPL):
            continue        # judged with its bounds below
        H = Marks(F)
        I, outs = run(cx, fn, H)
        bad = []
        # the boolean form of a policy: the caller vouches when it is true
        flag = ("arg", 3) if fn.nm == "using_value" and fn.unsafe and F.ts(fn.ins[-1]) == "bool" else None
        for site, vals, st in H.aggs:
            cx.ob("mark of a new string", (fn.p, site.fn.p, site.line))
            why = judge(cx, fn, H, I, st, vals[H.vi], vals[H.mi], flag)
            if why:
                bad.append((site.fn, site.line, why))
        for st, v in outs:
            left = []
            for ow in H.owners:
                left.append((str(ow)[:60], I.term(I.read(st, (ow[0], ow[1] + (("f", H.vi),))), st),
                             I.term(H.mark_at(I, st, (ow[0], ow[1] + (("f", H.mi),))), st)))
            if fn.out is not None and F.adt_of(fn.out) == BYTES and v[0] == "st":
                m = I.term(I.project(v, (("f", H.mi),)), st)
                left.append(("returned", I.term(I.project(v, (("f", H.vi),)), st), ("mark", m[1]) if m[0] == "fld" and m[2] == H.mi else m))
            for ow, vt, mt in left:
                if mt[0] == "uninit":
                    continue
                cx.ob("mark left in place", (fn.p, ow))
                same = mt[0] == "mark" and vt == ("fld", mt[1], H.vi)
                why = None if same else judge(cx, fn, H, I, st, vt, mt)
                if why:
                    bad.append((fn, None, why))
        if bad and not fn.reach and not fn.unsafe and callers(F, fn):
            todo += callers(F, fn)
            continue
        for f, line, why in bad:
            cx.viol("mark:" + f.p, f.sp + (f" line {line}" if line else ""), f"a string is marked as valid UTF-8 over {why}" + (f" (reached from {fn.p})" if f is not fn else ""))
    cx.need("mark of a new string", 12)
    cx.need("mark left in place", 3)


def check_traits(cx):
    """What the string types' accessors say: the mark, the value, the bytes they refuse."""
    F = cx.F
    n = 0
    H0 = Marks(F)
    for fn in F.fns.values():
        tr = (fn.impl or {}).get("tr") or ""
        if not fn.body or not tr.endswith("BytesNewtype"):
            continue
        if fn.nm == "is_utf8_lazy":
            H = Marks(F)
            I, outs = run(cx, fn, H)
            for st, v in outs:
                n += 1
                cx.ob("mark reported", fn.p)
                t = I.term(v, st)
                if t == ("c", 0):
                    continue
                s2 = st.copy()
                if t != ("c", 1):
                    assume_true(I, H, s2, t, s2.facts)
                if not any(k[0] == "mark" and f == ONE_ and k[1] in (("mem", ("arg", 1)), ("fld", ("mem", ("arg", 1)), 0)) for k, f in s2.facts.items()):
                    cx.viol("reported:" + fn.p, fn.sp, "reports a string as known to be UTF-8 when its mark does not say so")
        if fn.nm in ("as_bytes_unsafe", "as_bytes"):
            H = Marks(F)
            I, outs = run(cx, fn, H)
            for st, v in outs:
                t = I.term(v, st)
                cx.ob("value reported", fn.p)
                if t not in (("fld", ("mem", ("arg", 1)), H.vi), ("fld", ("fld", ("mem", ("arg", 1)), 0), H.vi)):
                    cx.viol("value:" + fn.p, fn.sp, "yields something other than the string's bytes")
        if fn.nm == "is_invalid":
            H = StrHook(F)
            I = Interp(F, H)
            cx.cover(fn)
            cx.ob("refused bytes", fn.p)
            for st, v in I.run(fn):
                t = v if v[0] == "bf" else I.term(v, st)
                if t == ("c", 0):
                    continue
                e = ("mem", ("arg", 1))
                B = I.byteset(st, e)
                if t[0] == "bf" and t[1] == e:
                    B = frozenset(b for b in B if t[2][b])
                    # A type that takes ASCII only (Cmd) holds no multi-byte characters to cut
                    if B >= ALLB - ASCII and not (B & ASCII) >= ASCII and len(ASCII - B) < 128:
                        if not (ASCII - B) or any(b not in B for b in range(128, 256)):
                            pass
                        else:
                            cx.ob("ASCII-only type", fn.p)
                            continue
                if not B <= ASCII:
                    cx.viol("refused:" + fn.p, fn.sp, "some but not all non-ASCII bytes are invalid for the type, so text is cut inside characters")
        if fn.nm == "default":
            pass
    for fn in F.fns.values():
        if fn.body and fn.nm == "default" and fn.out is not None and (F.adt_of(fn.out) == BYTES or (F.adt_of(fn.out) or "").startswith(MOD)):
            H = Marks(F)
            I, outs = run(cx, fn, H)
            for st, v in outs:
                cx.ob("empty default", fn.p)
                x = v
                for _ in range(3):
                    if x[0] == "adt" and x[1] != BYTES and x[3]:
                        x = x[3][0]
                if x[0] == "s" and x[1][0] == "default":
                    continue
                if not (x[0] == "adt" and x[1] == BYTES and I.term(x[3][H.vi], st) == ("b", b"")):
                    cx.viol("default:" + fn.p, fn.sp, "the default of a string type is not the empty string")
    cx.need("mark reported", 10)
    cx.need("refused bytes", 9)


# ---- transformations -------------------------------------------------------------------------------------------------------

def keeps(I, st, v, S):
    """Does the content v, read as an image of slice S, keep validity?  None or why."""
    if v[0] == "b":
        return None if not v[1] or all(b < 128 for b in v[1]) else "a fixed text"
    if v[0] == "vec":
        segs = v[1]
    else:
        t = v[1] if v[0] == "s" else I.term(v, st)
        if t[0] == "deref" and t[1][0] == "vec":
            segs = t[1][1]
        else:
            base, fr, _, bk, _ = trimmed(I, st, t)
            if base != S:
                return "text of another origin"
            if not (fr <= ASCII and bk <= ASCII):
                return "text that non-ASCII bytes may have been cut off"
            return None
    p, end = ZERO, ("len", S)
    for s in segs:
        if s[0] in ("sl", "map", "tr"):
            b, lo, hi = base_of(s[1])
            if b != S:
                return "text of another origin"
            if canon(lo) != canon(p) and not slice_bytes(I, st, mk_sub(S, p, lo)) <= ASCII:
                return "text with a non-ASCII part left out"
            B = slice_bytes(I, st, s[1])
            if s[0] == "map":
                for x in B:
                    if s[2][x] is not None and (tuple(s[2][x]) != (x,) if x >= 128 else any(y >= 128 for y in s[2][x])):
                        return f"text where byte {x:#x} becomes {bytes(s[2][x])!r}"
            if s[0] == "tr":
                for m, row in dict(s[3]).items():
                    for x in B:
                        r = row[x]
                        if r is not None and (tuple(r[1]) != (x,) if x >= 128 else any(y >= 128 for y in r[1])):
                            return f"text where byte {x:#x} becomes {bytes(r[1])!r}"
            p = hi
        elif s[0] == "one":
            e = I.elem_term(S, p)
            B = I.byteset(st, e)
            w = s[1]
            if w[0] == "bf" and w[1] == e:
                for x in B:
                    if w[2][x] != x if x >= 128 else w[2][x] >= 128:
                        return f"text where byte {x:#x} becomes {w[2][x]:#x}"
            elif strip(w) == e:
                pass
            elif not (w[0] == "c" and w[1] < 128 and B <= ASCII):
                return "text with bytes put in the place of characters"
            p = add(p, ONE)
        else:
            return "text that cannot be related to the input"
    if canon(p) != canon(end) and not slice_bytes(I, st, mk_sub(S, p, end)) <= ASCII:
        return "text with a non-ASCII part left out"
    return None


def check_transforms(cx):
    F = cx.F
    vs = [v["n"] for v in F.adts["string::Utf8Policy"]["vs"]]
    fs = {f["n"]: i for i, f in enumerate(F.adts["string::Transformation"]["vs"][0]["f"])}
    fns = [f for f in F.fns.values() if f.body and f.nm == "transform" and ((f.impl or {}).get("tr") or "").endswith("string::Transform")]

    class T(Marks, StrHook):
        def call(s, I, st, cal, args, site):
            return Marks.call(s, I, st, cal, args, site)
    for fn in fns:
        H = T(F)
        I, outs = run(cx, fn, H)
        S = ("fld", ("mem", ("arg", 2)), H.vi)
        w = Why(cx, H, I)
        for st, v in outs:
            cx.ob("declared policy", fn.p + str(len(cx.__dict__)))
            if v[0] != "adt" or len(v[3]) != len(fs):
                cx.viol("policy-form:" + fn.p, fn.sp, "the result of a transformation could not be resolved")
                continue
            c, pol = v[3][fs["transformed"]], v[3][fs["utf8"]]
            if pol[0] != "adt":
                cx.viol("policy-form:" + fn.p, fn.sp, "the declared validity of a transformation could not be resolved")
                continue
            n = vs[pol[2]]
            if n in ("Invalid", "Recheck"):
                continue
            x = c[3][0] if c[0] == "adt" and c[3] else None
            if x is None:
                cx.viol("policy-form:" + fn.p, fn.sp, "the content of a transformation could not be resolved")
                continue
            if n == "Valid":
                s2 = st.copy()
                for t in list(s2.facts):
                    if t[0] in ("loop", "and", "bf", "op") and s2.facts[t] == ONE_:
                        assume_true(I, H, s2, t, s2.facts)
                t = ("vec", x[1]) if x[0] == "vec" else I.term(x, s2)
                if not w.ok(s2, t) and not (t[0] == "deref" and t[1][0] == "vec" and w.ok(s2, t[1])):
                    cx.viol("policy:" + fn.p + ":" + n, fn.sp, "a transformation declares its result valid UTF-8 although its bytes are not known to be")
            else:
                why = keeps(I, st, x, S)
                if why:
                    cx.viol("policy:" + fn.p + ":" + n, fn.sp, f"a transformation declares to preserve UTF-8 validity but yields {why}")
    if len(fns) < 3:
        raise Missing("implementations of Transform")


# ---- splitting ---------------------------------------------------------------------------------------------------------------

def check_splitter(cx):
    F = cx.F
    rf = {f["n"]: i for i, f in enumerate(F.adts[SPL + "Range"]["vs"][0]["f"])}
    si, ei, ci = rf["start"], rf["end"], rf["encoding"]
    spf = {f["n"]: i for i, f in enumerate(F.adts[SPL + "Splitter"]["vs"][0]["f"])}
    svf = {f["n"]: i for i, f in enumerate(F.adts[SPL + "SavedIndices"]["vs"][0]["f"])}
    encs = [v["n"] for v in F.adts[SPL + "Encoding"]["vs"]]
    U, V, A = encs.index("Unknown"), encs.index("Utf8"), encs.index("Ascii")
    enc = lambda k: ("adt", SPL + "Encoding", k, ())
    fns = [f for f in F.fns.values() if f.body and f.file.endswith("string/splitter.rs") and not (f.impl or {}).get("derived") and f.nm and "{" not in f.p.split("::")[-1]]
    for fn in fns:
        if not fn.ins:
            continue
        a0 = F.types[fn.ins[0]]
        mut = a0.get("k") == "ref"
        if not mut:
            H = Marks(F)
            I, outs = run(cx, fn, H)
            check_new(cx, fn, H, I, outs, rf, V, A)
            continue
        d = F.adt_of(a0["t"])
        if d == SPL + "Splitter":
            rp = (("M", ("arg", 1)), (("f", spf["range"]),))
        elif d == SPL + "SavedIndices":
            rp = None
        else:
            continue        # Range's own methods are judged through the splitter's
        if rp is None and fn.nm == "drop":
            check_restore(cx, fn, spf, svf, ci, si, ei, enc, (U, V, A))
            continue
        if rp is None:
            rp = (("M", ("fld", ("mem", ("arg", 1)), svf["splitter"])), (("f", spf["range"]),))
        for k in (U, V, A):
            H = Marks(F)
            I = Interp(F, H)
            H.I = I
            I.split = 64
            from interp import St
            st0 = I.new_state() if hasattr(I, "new_state") else St()
            I.write(st0, (rp[0], rp[1] + (("f", ci),)), enc(k))
            R = ("fld", ("mem", rp[0][1]), spf["range"])
            s0, e0 = ("fld", R, si), ("fld", R, ei)
            outs = I.run(fn, st=st0)
            cx.cover(fn)
            for st, v in outs:
                cx.ob("bounds moved", (fn.p, encs[k]))
                s1 = I.term(I.read(st, (rp[0], rp[1] + (("f", si),))), st)
                e1 = I.term(I.read(st, (rp[0], rp[1] + (("f", ei),))), st)
                c1 = I.read(st, (rp[0], rp[1] + (("f", ci),)))
                why = moved(I, st, H, rp, s0, e0, s1, e1, k, c1, (U, V, A))
                if why:
                    cx.viol("split:" + fn.p, fn.sp, f"a splitter ({encs[k]} before) may {why}")
            for site, x, t, flag, st in H.built:
                cx.ob("part handed out", (fn.p, site.line, encs[k]))
                if flag == ("c", 0):
                    continue
                if t is not None and k != U and flag_known(flag, st):
                    b, lo, hi = base_of(t)
                    if boundary(I, st, b, lo, s0, e0) and boundary(I, st, b, hi, s0, e0) and own(b, rp):
                        continue
                    if k == A and own(b, rp):
                        continue
                if t is not None and Why(cx, H, I).ok(st, t):
                    continue
                cx.viol("part:" + site.fn.p, f"{site.fn.sp} line {site.line}", f"part of a split string ({encs[k]}) is marked as valid UTF-8 without being known to be")
    cx.need("bounds moved", 40)
    cx.need("part handed out", 8)


def flag_known(t, st):
    return True


def own(b, rp):
    return rp[0][1] in set(subterms(b)) or any(x == ("arg", 1) for x in subterms(b))


def elem_base(I, st, H):
    """The slices standing for the split string's bytes."""
    out = set()
    for k in st.facts:
        for x in subterms(k):
            if x and x[0] == "elem" and len(x) > 1 and isinstance(x[1], tuple) and x[1][:1] == ("mem",):
                out.add(x[1][1])
            if x and x[0] == "sub":
                out.add(x[1])
    return out


def moved(I, st, H, rp, s0, e0, s1, e1, k, c1, names):
    U, V, A = names
    if c1[0] != "adt":
        return "be left in an encoding state that cannot be told"
    n = c1[2]
    if n == U:
        return None
    bases = [b for b in elem_base(I, st, H) if own(b, rp)] or [("deref", ("fld", ("mem", rp[0][1]), 0))]
    if k == U:
        # newly established: the whole range was checked
        if len_zero_possible(st, s1, e1):
            return "be taken as checked while it is empty, which says nothing of its bounds"
        for b in bases:
            t = mk_sub(b, s1, e1)
            B = slice_bytes(I, st, t)
            if B <= ASCII:
                return None
            if n == V:
                for q, f in st.facts.items():
                    if q[0] == "utf8ok" and f == ONE_:
                        qb, lo, hi = base_of(q[1])
                        if qb == b and canon(hi) == canon(e1) and (canon(lo) == canon(s1) or slice_bytes(I, st, mk_sub(b, s1, lo)) <= ASCII):
                            return None
        return "take its range as " + ("ASCII" if n == A else "UTF-8") + " without having checked it"
    if k == V and n == A:
        for b in bases:
            if slice_bytes(I, st, mk_sub(b, s1, e1)) <= ASCII:
                return None
        return "take its range as ASCII without having checked it"
    if k == A:
        return None if within(s0, e0, s1, e1) else "widen its range and keep it as ASCII"
    if canon(s1) == canon(e0) and canon(e1) == canon(e0):
        return None
    for b in bases:
        if boundary(I, st, b, s1, s0, e0) and boundary(I, st, b, e1, s0, e0):
            return None
    if canon(s1) == canon(e1) and any(boundary(I, st, b, s1, s0, e0) for b in bases):
        return None
    # clamped to nothing
    if canon(s1) == canon(s0) and zero(st, sub_(e1, s0)):
        return None
    if zero(st, sub_(s1, s0)) and canon(e1) == canon(e0):
        return None
    return "keep its range as UTF-8 although it was moved to a position that need not be a character boundary"


def zero(st, t):
    t = canon(t)
    return t == ZERO or fact_is(st.facts, t, 0) or any(fact_is(st.facts, x, 0) and canon(x) == t for x in st.facts)


def within(s0, e0, s1, e1):
    a, b = sub_(s1, s0), sub_(e0, e1)

    def nonneg(t):
        t = canon(t)
        if t[0] == "c":
            return t[1] >= 0
        if t[0] == "lin":
            return t[1] >= 0 and all(c > 0 or x == s0 for x, c in t[2])
        return True
    return nonneg(a) and (canon(e1) == canon(e0) or nonneg(b) or canon(e1)[0] == "lin" and canon(e1)[1] <= 0 or canon(e1) == canon(add(s0, sub_(e1, s0))))


def len_zero_possible(st, s1, e1):
    d = sub_(e1, s1)
    for k, f in st.facts.items():
        if f[0] == "not" and 0 in f[1] and canon(k) == d:
            return False
        if f[0] == "in" and 0 not in f[1] and k[0] in ("op", "lin", "len", "fld") and canon(k) == d:
            return False
        if k[0] == "cmp" and k[1] == "Lt" and f == ONE_ and canon(k[3]) == d:
            return False
        if k[0] == "cmp" and (k[1], f) in (("Eq", ("in", frozenset([0]))), ("Ne", ONE_)) and {canon(k[2]), canon(k[3])} == {canon(s1), canon(e1)}:
            return False
        if k[0] == "cmp" and k[1] in ("Lt",) and f == ONE_ and canon(k[2]) == canon(s1) and canon(k[3]) == canon(e1):
            return False
    return True


def check_new(cx, fn, H, I, outs, rf, V, A):
    """A splitter made afresh takes the mark of the string it covers."""
    F = cx.F
    for st, v in outs:
        if v[0] != "adt" or v[1] != SPL + "Splitter":
            continue
        cx.ob("splitter made", fn.p)
        strv = r = None
        for x, f in zip(v[3], F.adts[SPL + "Splitter"]["vs"][0]["f"]):
            if f["n"] == "range":
                r = x
            else:
                strv = I.term(x, st)
        if r is None or r[0] != "adt":
            cx.viol("new:" + fn.p, fn.sp, "the bounds of a new splitter could not be resolved")
            continue
        c = r[3][rf["encoding"]]
        if c[0] == "adt" and c[2] not in (V, A):
            continue
        s, e = I.term(r[3][rf["start"]], st), I.term(r[3][rf["end"]], st)
        if not (c[0] == "adt" and c[2] == V and fact_is(st.facts, ("marked", strv), 1) and s == ZERO and e[0] == "len" and strv in set(subterms(e))):
            cx.viol("new:" + fn.p, fn.sp, "a new splitter takes its range as UTF-8 although the string is not marked so")


def check_restore(cx, fn, spf, svf, ci, si, ei, enc, names):
    """Restoring saved bounds keeps only what holds of the resulting range."""
    from interp import St
    F = cx.F
    U, V, A = names
    for cur in names:
        for saved in names:
            H = Marks(F)
            I = Interp(F, H)
            I.split = 64
            st0 = St()
            me = ("M", ("arg", 1))
            sp = ("M", ("fld", ("mem", ("arg", 1)), svf["splitter"]))
            I.write(st0, (me, (("f", svf["saved_range"]), ("f", ci))), enc(saved))
            I.write(st0, (sp, (("f", spf["range"]), ("f", ci))), enc(cur))
            R = ("fld", ("mem", sp[1]), spf["range"])
            Q = ("fld", ("mem", ("arg", 1)), svf["saved_range"])
            cx.cover(fn)
            for st, v in I.run(fn, st=st0):
                cx.ob("bounds restored", (cur, saved))
                rd = lambda i: I.term(I.read(st, (sp, (("f", spf["range"]), ("f", i)))), st)
                s1, e1 = rd(si), rd(ei)
                c1 = I.read(st, (sp, (("f", spf["range"]), ("f", ci))))
                fs = s1 == ("fld", Q, si), s1 == ("fld", R, si)
                fe = e1 == ("fld", Q, ei), e1 == ("fld", R, ei)
                if not any(fs) or not any(fe) or c1[0] != "adt":
                    cx.viol("restore:" + fn.p, fn.sp, "restored bounds are neither the saved nor the current ones")
                    continue
                lim = set()
                if fs[0] or fe[0]:
                    lim.add(saved)
                if fs[1] or fe[1]:
                    lim.add(cur)
                order = {U: 0, V: 1, A: 2}
                if order[c1[2]] > min(order[x] for x in lim):
                    cx.viol("restore:" + fn.p, fn.sp, "restoring saved bounds keeps an encoding that was not established for the restored range")
    cx.need("bounds restored", 9)


# ---- building ----------------------------------------------------------------------------------------------------------------

def check_builder(cx):
    F = cx.F
    bi, ui = fidx(F, BUILDER, "bytes"), fidx(F, BUILDER, "utf8")
    me = (("M", ("arg", 1)), ())
    for fn in F.fns.values():
        if not fn.body or not fn.file.endswith("string/builder.rs") or "{" in fn.p.split("::")[-1] or (fn.impl or {}).get("derived"):
            continue
        H = Marks(F)
        I, outs = run(cx, fn, H)
        w = Why(cx, H, I)
        for st, v in outs:
            if fn.out is not None and v[0] == "adt" and v[1] == BUILDER:
                cx.ob("builder made", fn.p)
                u, b = I.term(v[3][ui], st), I.term(v[3][bi], st)
                if u == ("c", 0):
                    continue
                s2 = st.copy()
                assume_true(I, H, s2, u, s2.facts)
                if not w.ok(s2, b):
                    cx.viol("builder-new:" + fn.p, fn.sp, "a builder starts out as UTF-8 over bytes that are not known to be")
            if not fn.ins or F.types[fn.ins[0]].get("k") != "ref" or F.adt_of(F.types[fn.ins[0]]["t"]) != BUILDER:
                continue
            b0, u0 = ("fld", ("mem", ("arg", 1)), bi), ("fld", ("mem", ("arg", 1)), ui)
            u = I.term(I.read(st, (me[0], (("f", ui),))), st)
            b = I.read(st, (me[0], (("f", bi),)))
            cx.ob("builder step", fn.p)
            if u == ("c", 0) or fact_is(st.facts, u, 0):
                continue
            s2 = st.copy()
            if u != ("c", 1):
                assume_true(I, H, s2, u, s2.facts)
            segs = b[1] if b[0] == "vec" else (("sl", ("deref", I.term(b, st))),)
            whole = fact_is(s2.facts, ("utf8ok", ("deref", b0)), 1) or fact_is(s2.facts, u0, 1)
            bad = None
            for s in segs:
                if s == ("sl", ("deref", b0)):
                    if not whole:
                        bad = "bytes appended before"
                elif s[0] == "sl" and fn.unsafe and F.ts(fn.ins[-1]) == "bool" and fact_is(s2.facts, ("arg", len(fn.ins)), 1) and ("arg", 2) in set(subterms(s[1])):
                    pass          # the caller vouches
                elif not w.seg_ok(s2, s, 0):
                    bad = "the bytes it appends"
            if bad:
                cx.viol("builder:" + fn.p, fn.sp, f"a builder may count as UTF-8 although {bad} are not known to be")
    cx.need("builder step", 8)
    # callers that vouch for what they append
    au = [f for f in F.fns.values() if f.nm == "append_unchecked" and f.unsafe and f.body]
    for u in au:
        for g in callers(F, u):
            if g.file.endswith("string/builder.rs"):
                continue

            class V(Marks):
                got = []

                def call(s, I, st, cal, args, site):
                    if cal.id == u.id:
                        s.got.append((site, args[1] if args[1][0] != "ref" else I.read(st, args[1][1]), I.term(args[2], st), st))
                        return [(st, ("adt", "tuple", 0, ()))]
                    return super().call(I, st, cal, args, site)
            H = V(F)
            H.got = []
            I, outs = run(cx, g, H)
            for site, x, flag, st in H.got:
                cx.ob("piece vouched for", (site.fn.p, site.line))
                if flag == ("c", 0):
                    continue
                s2 = st.copy()
                if flag != ("c", 1):
                    assume_true(I, H, s2, flag, s2.facts)
                t = ("vec", x[1]) if x[0] == "vec" else I.term(x, st)
                if not Why(cx, H, I).ok(s2, t):
                    cx.viol("vouched:" + site.fn.p, f"{site.fn.sp} line {site.line}", "bytes are appended as UTF-8 without being known to be")


def check_unchecked(cx):
    """Every unchecked conversion to text."""
    F = cx.F
    for fn in F.fns.values():
        if not fn.body or not any(c and c.get("nm") in UNCHECKED for _, _, c in calls(fn)):
            continue
        H = Marks(F)
        I, outs = run(cx, fn, H)
        w = Why(cx, H, I)
        for site, t, st, raw in H.raw:
            cx.ob("unchecked conversion", (site.fn.p, site.line))
            if w.ok(st, t) or w.ok(st, ("deref", t)):
                continue
            if ascii_type(F, I, t, fn):
                continue
            if not fn.reach and callers(F, fn):
                continue
            cx.viol("unchecked:" + site.fn.p, f"{site.fn.sp} line {site.line}", "bytes are taken as text unchecked without being known to be valid UTF-8")
    cx.need("unchecked conversion", 4)


def ascii_type(F, I, t, fn):
    """The value of a string type that holds ASCII only."""
    if t[0] == "fld" and len(t) == 3 and t[1] == ("mem", ("arg", 1)) and fn.ins and F.types[fn.ins[0]].get("k") == "ref":
        d = F.adt_of(F.types[fn.ins[0]]["t"])
        if d and d.startswith(MOD) and d[len(MOD):] in SPEC and SPEC[d[len(MOD):]][0] <= ASCII:
            return True
        if d and "NonZero<u8>; 3]" in str(F.ts(I.ttype(t) or 0)):
            return True     # a numeric reply code: its digits are not string contents (assumed)
    if t[0] == "fld" and len(t) == 3 and t[1][0] == "fld":
        ti = I.ttype(t[1][1])
        d = F.adt_of(ti) if ti is not None else None
        return bool(d) and d.startswith(MOD) and d[len(MOD):] in SPEC and SPEC[d[len(MOD):]][0] <= ASCII
    return False


def check(cx):
    cx.guard("marks", check_marks, cx)
    cx.guard("traits", check_traits, cx)
    cx.guard("transforms", check_transforms, cx)
    cx.guard("splitter", check_splitter, cx)
    cx.guard("builder", check_builder, cx)
    cx.guard("unchecked", check_unchecked, cx)
