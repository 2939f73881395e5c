"""The string types: their specification, and a hook that tracks the contents of byte strings."""
import re
from facts import Missing, strip_lt
from interp import Interp, Hook, St
from seqs import ALLB, content, tcontent, seg_bytes, slice_bytes, base_of, ZERO, ONE, len_of, canon

WS = frozenset(b"\r\n ")
NUL = frozenset([0])
WORD_BAD = WS | NUL
# type -> (bytes allowed, may be empty, may begin with a colon); from the types' documentation
SPEC = {
    "NoNul": (ALLB - NUL, True, True),
    "Line": (ALLB - frozenset(b"\r\n\0"), True, True),
    "Word": (ALLB - WORD_BAD, True, True),
    "Arg": (ALLB - WORD_BAD, False, False),
    "Key": (ALLB - WORD_BAD - frozenset(b"=;"), False, False),
    "Target": (ALLB - WORD_BAD - frozenset(b","), False, False),
    "Nick": (ALLB - WORD_BAD - frozenset(b",!@"), False, False),
    "User": (ALLB - WORD_BAD - frozenset(b"@%"), False, False),
    "Cmd": (frozenset(range(65, 91)), False, False),
}
MOD = "string::subtypes::"
BYTES = "string::bytes::Bytes"
BUILDER = "string::builder::Builder"


def newtype_of(F, ti):
    """Name of the restricted string type a type index denotes, if any."""
    t = F.types[ti]
    if t.get("k") == "adt":
        d = strip_lt(t["d"])
        if d.startswith(MOD) and d[len(MOD):] in SPEC:
            return d[len(MOD):]
    return None


def newtype_ti(F, name):
    for i, t in enumerate(F.types):
        if t and t.get("k") == "adt" and strip_lt(t["d"]) == MOD + name:
            return i
    raise Missing(f"type {name}")


def bytes_ti(F):
    for i, t in enumerate(F.types):
        if t and t.get("k") == "adt" and strip_lt(t["d"]) == BYTES:
            return i
    raise Missing("type Bytes")


def mentions_newtypes(F, ti, d=0):
    t = F.types[ti]
    if newtype_of(F, ti):
        return True
    if d > 4:
        return False
    for x in list(t.get("a", [])) + ([t["t"]] if "t" in t else []):
        if isinstance(x, int) and mentions_newtypes(F, x, d + 1):
            return True
    return False


class StrHook(Hook):
    max_depth = 14

    def __init__(self, F):
        self.F = F

    def type_bytes(self, name):
        return SPEC[name][0] if name in SPEC else ALLB

    def term_type(self, I, st, t):
        """String type whose validity the slice term t inherits."""
        # newtype.0 (Bytes) .value ; or a value passed through as_ref etc. of an unresolved newtype
        if t[0] == "fld" and len(t) == 3:
            ti = I.ttype(t[1])
            if ti is not None:
                return newtype_of(self.F, ti)
        # the buffer of a Builder<T> upholds T's rules (an invariant C02 checks on every method)
        if t[0] == "deref" and isinstance(t[1], tuple) and t[1][0] == "fld" and len(t[1]) == 3:
            ti = I.ttype(t[1][1])
            if ti is not None and self.F.adt_of(ti) == BUILDER:
                a = self.F.types[ti].get("a", [])
                ft = I.ttype(t[1])
                if a and isinstance(a[0], int) and ft is not None and self.F.ts(ft) == "alloc::vec::Vec<u8>":
                    return newtype_of(self.F, a[0])
        return None

    def call(self, I, st, cal, args, site):
        F = self.F
        fn = F.fns.get(cal.id)
        if fn is not None and fn.out is not None:
            o = F.ts(fn.out)
            # taking a vector into shared ownership hands out its bytes
            if re.fullmatch(r"\(.*OwnedBytes>?, &(mut )?\[u8\]\)", o) and fn.ins and "Vec<u8>" in F.ts(fn.ins[0]):
                v = args[0]
                t = ("deref", v if v[0] == "vec" else I.term(v))
                tag = ("own", site.fn.id, site.bb)
                return [(st, ("adt", "tuple", 0, (("s", tag), ("s", t))))]
            if o == "alloc::vec::Vec<u8>" and len(fn.ins) == 2 and "OwnedBytes" in F.ts(fn.ins[0]) and F.ts(fn.ins[1]) == "&[u8]":
                t = I.slice_term(st, args[1])
                if t is not None:
                    return [(st, ("vec", tcontent(t)))]
            if fn.p == "string::secretbuf::SecretBuf::into_vec":
                return None
        return None


def val_slice(I, st, v):
    """The byte slice value inside a (newtype of) Bytes value."""
    return I.project(v, (("f", 0),))


def vec_state(I, st, segs):
    """(possible bytes, maybe empty, possible first bytes) of a content."""
    U = frozenset()
    first = frozenset()
    empty = True
    for s in segs:
        bs = seg_bytes(I, st, s)
        U |= bs
        if empty:
            if s[0] == "one":
                first |= bs
                empty = False
            elif s[0] == "ty":
                sp = SPEC.get(s[1])
                first |= bs if sp is None or sp[2] else bs - frozenset(b":")
                if sp is not None and not sp[1]:
                    empty = False
            elif s[0] == "sl":
                fb, em = slice_first(I, st, s[1])
                first |= fb & bs if fb is not None else bs
                empty = em
            else:
                first |= bs
    return U, empty, first


def slice_first(I, st, t):
    """(possible first bytes or None, may be empty) of a slice term."""
    b, lo, hi = base_of(t)
    f = I.fact(st, ("elem", ("mem", b), lo))
    fb = I.byteset(st, ("elem", ("mem", b), lo)) if f else None
    ln = len_of(t)
    if ln[0] == "c":
        empty = ln[1] == 0
    else:
        empty = I.possible(st, ln, 0)
        g = I.fact(st, ("cmp", "Lt", ZERO, ln))
        if g == ("in", frozenset([1])):
            empty = False
    nt = I.term_type(st, b)
    if nt is not None and lo == ZERO:
        sp = SPEC[nt]
        if not sp[2]:
            fb = (fb if fb is not None else sp[0]) - frozenset(b":")
        if not sp[1] and hi == ("len", b):
            empty = False
    if b[0] == "deref" and isinstance(b[1], tuple) and b[1][0] == "vec" and lo == ZERO and hi == ("len", b):
        U, em, fst = vec_state(I, st, b[1][1])
        fb = fst if fb is None else fb & fst
        empty = empty and em
    if b[0] == "b":
        return frozenset(b[1][:1]), not b[1]
    return fb, empty


def slice_verdict(I, st, v, name):
    """None if the slice value is provably valid for string type `name`, else the reason."""
    ok, may_empty, may_colon = SPEC[name]
    if v[0] == "b":
        bad = frozenset(v[1]) - ok
        if bad:
            return f"literal contains {fmt(bad)}"
        if not v[1] and not may_empty:
            return "empty literal"
        if v[1][:1] == b":" and not may_colon:
            return "literal begins with a colon"
        return None
    if v[0] not in ("s", "st"):
        return f"content not tracked ({v[0]})"
    t = v[1] if v[0] == "s" else I.term(v)
    nt = I.term_type(st, t)
    if nt is not None:
        a = SPEC[nt]
        if a[0] <= ok and (may_empty or not a[1]) and (may_colon or not a[2]):
            return None
    bs = slice_bytes(I, st, t)
    if not bs <= ok:
        return f"may contain {fmt(bs - ok)}"
    fb, em = slice_first(I, st, t)
    if em and not may_empty:
        return "may be empty"
    if not may_colon and 58 in ok and (fb is None or 58 in fb) and 58 in bs:
        return "may begin with a colon"
    return None


def fmt(bs):
    bs = sorted(bs)
    if len(bs) > 8:
        return f"{len(bs)} disallowed bytes (e.g. {', '.join(repr(chr(b)) for b in bs[:4])})"
    return ", ".join(repr(chr(b)) for b in bs)


def invalid_witness(I, st, S, name):
    """Is the string with slice term S known to be invalid for `name` in this state?"""
    ok, may_empty, may_colon = SPEC[name]
    b, lo, hi = base_of(S)
    for t, f in st.facts.items():
        if t[0] == "elem" and f[0] == "in" and f[1] and not (f[1] & ok):
            x = t[1]
            while x[0] == "mem" and x[1] in I.shrunk:       # what is left of a slice while it is gone through
                x = ("mem", base_of(I.shrunk[x[1]][0])[0])
            if x == ("mem", b):
                return True
    if not may_empty and st.facts.get(len_of(S)) == ("in", frozenset([0])):
        return True
    if not may_colon:
        f = st.facts.get(("elem", ("mem", b), lo))
        if f and f[0] == "in" and f[1] <= frozenset([58]):
            return True
    return False
