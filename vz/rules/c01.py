"""C01: the restricted string types admit exactly their documented bytes."""
from facts import strip_lt
from interp import Interp
from seqs import ALLB
from rules.strs import (SPEC, StrHook, newtype_of, slice_verdict, invalid_witness, val_slice, fmt)

EXPLAIN = ("Each type's byte predicate is tabulated over all 256 bytes from its MIR and compared with the documented "
           "class; every function returning Result<restricted string, InvalidString> or Option<InvalidString> is "
           "interpreted abstractly over all inputs: a success path must carry facts making the content valid for the "
           "type, a failure path must carry a fact that makes it invalid.")
ASSUME = ["conversions of foreign types into Bytes keep the bytes (the value validated is the value converted)"]
ALPHA = frozenset(range(65, 91)) | frozenset(range(97, 123))


def owner(F, fn):
    return newtype_of(F, fn.impl["self"]) if fn.impl else None


def is_inv(F, ti):
    e = F.types[ti]
    return e.get("k") == "adt" and strip_lt(e["d"]).endswith("InvalidString")


def ret_kind(F, ti):
    """('res', newtype) / ('opt', None) / None"""
    t = F.types[ti]
    if t.get("k") != "adt":
        return None
    if t["d"] == "core::result::Result" and is_inv(F, t["a"][1]):
        n = newtype_of(F, t["a"][0])
        return ("res", n) if n else None
    if t["d"] == "core::option::Option" and is_inv(F, t["a"][0]):
        return ("opt", None)
    return None


def classes(cx):
    F = cx.F
    for fn in F.fns.values():
        name = owner(F, fn)
        if name is None or fn.nm != "is_invalid" or fn.out is None or F.ts(fn.out) != "bool":
            continue
        cx.cover(fn)
        I = Interp(F, StrHook(F))
        got = {0: set(), 1: set()}
        for st, v in I.run(fn):
            for s2, r in I.branch(st, v, [0, 1]):
                if r in (0, 1):
                    f = [I.byteset(s2, t) for t in s2.facts if t[0] == "mem"]
                    got[r] |= frozenset.intersection(*f) if f else ALLB
                else:
                    got[0] |= ALLB
        cx.ob("byte class", fn.p)
        bad = ALLB - SPEC[name][0]
        wrong = (got[1] ^ bad) | (got[0] ^ SPEC[name][0])
        if wrong:
            cx.viol(f"class:{fn.p}", fn.sp, f"{fn.p} classifies {fmt(wrong)} differently from the documentation of {name}")
        hi = {b in got[0] for b in range(128, 256)}
        if len(hi) != 1:
            cx.viol(f"nonascii:{fn.p}", fn.sp, f"{fn.p} allows some non-ASCII bytes and rejects others")


def witness(I, st, name, fn):
    bases = set()
    for t in st.facts:
        if t[0] == "elem" and t[1][0] == "mem":
            bases.add(t[1][1])
        elif t[0] == "len":
            bases.add(t[1])
    for b in bases:
        if fn.nm == "from_word" and name == "Cmd":
            for t, f in st.facts.items():
                if t[0] == "elem" and f[0] == "in" and f[1] and not f[1] & ALPHA:
                    return True
            if st.facts.get(("len", b)) == ("in", frozenset([0])):
                return True
        elif invalid_witness(I, st, b, name):
            return True
    return False


def constructor(cx, fn, name):
    F = cx.F
    cx.cover(fn)
    I = Interp(F, StrHook(F))
    cx.ob("validating constructor", fn.p)
    for st, v in I.run(fn):
        if v[0] != "adt" or v[1] != "core::result::Result":
            cx.viol(f"ctor:{fn.p}:form", fn.sp, f"{fn.p}: result not resolved to success or failure")
            continue
        if v[2] == 0:
            w = slice_verdict(I, st, val_slice(I, st, v[3][0]), name)
            if w:
                cx.viol(f"ctor:{fn.p}:accepts", fn.sp, f"{fn.p} can succeed with text that is not a valid {name}: {w}")
        elif not witness(I, st, name, fn):
            cx.viol(f"ctor:{fn.p}:rejects", fn.sp, f"{fn.p} can fail without having found anything invalid for {name}")


def validator(cx, fn, name, whole):
    """find_invalid (whole) / check_others (everything but byte classes)."""
    F = cx.F
    cx.cover(fn)
    I = Interp(F, StrHook(F))
    cx.ob("validator", fn.p)
    ok, may_empty, may_colon = SPEC[name]
    for st, v in I.run(fn):
        if v[0] != "adt" or v[1] != "core::option::Option":
            cx.viol(f"check:{fn.p}:form", fn.sp, f"{fn.p}: result not resolved")
            continue
        S = ("s", ("arg", 1))
        if v[2] == 0:
            if whole:
                w = slice_verdict(I, st, S, name)
            else:
                from rules.strs import slice_first
                fb, em = slice_first(I, st, ("arg", 1))
                w = None
                if em and not may_empty:
                    w = "may be empty"
                elif not may_colon and 58 in ok and (fb is None or 58 in fb):
                    w = "may begin with a colon"
            if w:
                cx.viol(f"check:{fn.p}:accepts", fn.sp, f"{fn.p} reports no problem for text that is not a valid {name}: {w}")
        elif not witness(I, st, name, fn):
            cx.viol(f"check:{fn.p}:rejects", fn.sp, f"{fn.p} reports a problem without having found anything invalid for {name}")


def check(cx):
    F = cx.F
    cx.guard("class", classes, cx)
    for fn in F.fns.values():
        if fn.out is None or fn.body is None or "{closure" in fn.p:
            continue
        k = ret_kind(F, fn.out)
        if k is None:
            continue
        if k[0] == "res" and not fn.unsafe:
            cx.guard(f"ctor:{fn.p}", constructor, cx, fn, k[1])
        elif k[0] == "opt":
            n = owner(F, fn)
            if n:
                cx.guard(f"check:{fn.p}", validator, cx, fn, n, fn.nm == "find_invalid")
    cx.need("byte class", 18)
    cx.need("validator", 18)
    cx.need("validating constructor", 60)
