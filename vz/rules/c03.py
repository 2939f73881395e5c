"""C03: case mapping and trimming are exact and keep strings valid."""
import re
from facts import strip_lt
from interp import Interp, CV
from seqs import ALLB, base_of, len_of, ZERO, canon, sub_
from rules.strs import StrHook, SPEC, slice_verdict
from rules.tf import value_follows

EXPLAIN = ("Every Transform implementation is interpreted abstractly over all inputs, once per variant of its "
           "configuration; the content of each possible result is compared with the specified case map byte by byte "
           "(256-entry tables per position class), or, for trimming, the removed ends are shown to be whitespace, to lie "
           "at the requested ends, and to be removed completely. Each <Type>Safe marker implementation is checked "
           "against the type's byte class, emptiness and leading-colon rules.")
LOWER = lambda m, b: (0, (b + 32 if 65 <= b <= 90 else b,))
UPPER = lambda m, b: (0, (b - 32 if 97 <= b <= 122 else b,))
STRICT = lambda m, b: (0, (b + 32 if 65 <= b <= 93 else b,))
RFC = lambda m, b: (0, (94 if b == 126 else b + 32 if 65 <= b <= 93 else b,))
WSP = frozenset(b" \t\n\r\x0c")


def outputs(I, fn, args, sub):
    """(state, slice value) of each result."""
    for st, v in I.run(fn, args=args, sub=sub):
        w = I.project(v, (("f", 1),)) if v[0] == "adt" else None
        if w is None or w[0] != "adt" or w[1] != "alloc::borrow::Cow":
            yield st, None
        else:
            yield st, w[3][0]


SELF_SLICE = ("fld", ("mem", ("arg", 2)), 0)


def casemap(cx, fn, label, args, sub, spec):
    F = cx.F
    I = Interp(F, StrHook(F))
    cx.cover(fn)
    n = 0
    for st, v in outputs(I, fn, args, sub):
        n += 1
        cx.ob("case map result", f"{label} path {n}")
        why = "result not resolved" if v is None else value_follows(I, st, v, SELF_SLICE, spec)
        if why:
            cx.viol(f"casemap:{label}", fn.sp, f"{label} case mapping may be wrong: {why}")
    if not n:
        cx.viol(f"casemap:{label}:none", fn.sp, f"{label}: no result found")


def trimmed(I, st, t):
    """(base, front set or None, front complete, back set, back complete) of a slice term, following shrinking."""
    front, back = frozenset(), frozenset()
    fdone = bdone = None
    for _ in range(12):
        if t in I.shrunk:
            S0, d, U = I.shrunk[t]
            e = I.elem_term(t, ZERO if d == "front" else ("c", -1))
            f = I.fact(st, len_of(t))
            empty = f is not None and f[0] == "in" and f[1] == frozenset([0])
            done = empty or not (I.byteset(st, e) & WSP)
            if d == "front":
                front |= U
                fdone = done if fdone is None else fdone
            else:
                back |= U
                bdone = done if bdone is None else bdone
            if empty:
                fdone = bdone = True
            t = S0
            continue
        b, lo, hi = base_of(t)
        if b == t:
            return t, front, fdone, back, bdone
        from seqs import slice_bytes, mk_sub
        if canon(lo) != ZERO:
            U = slice_bytes(I, st, mk_sub(b, ZERO, lo))
            front |= U
            done = not (I.byteset(st, I.elem_term(b, lo)) & WSP)
            fdone = done if fdone is None else fdone
        if canon(hi) != canon(("len", b)):
            U = slice_bytes(I, st, mk_sub(b, hi))
            back |= U
            done = not (I.byteset(st, I.elem_term(b, sub_(hi, ("c", 1)))) & WSP)
            bdone = done if bdone is None else bdone
        t = b
    return t, ALLB, False, ALLB, False


def trim(cx, fn, side, vi):
    F = cx.F
    I = Interp(F, StrHook(F))
    cx.cover(fn)
    arg = ("adt", "string::tf::trim::TrimAscii", 0, (("adt", "string::tf::StringSide", vi, ()),))
    want_front = side != "End"
    want_back = side != "Start"
    n = 0
    for st, v in outputs(I, fn, [arg, ("s", ("arg", 2))], ()):
        n += 1
        cx.ob("trim result", f"{side} path {n}")
        if v is None or v[0] not in ("s", "b"):
            cx.viol(f"trim:{side}:form", fn.sp, f"trimming ({side}): result not resolved")
            continue
        if v[0] == "b":
            if v[1] != b"":
                cx.viol(f"trim:{side}:fixed", fn.sp, f"trimming ({side}) yields a fixed text")
            elif not any(I.fact(st, x) == ("in", frozenset([0])) for x in st.facts if x[0] == "len") and \
                    not any(x[0] == "allof" and f[1] <= WSP for x, f in st.facts.items()):
                cx.viol(f"trim:{side}:empty", fn.sp, f"trimming ({side}) may drop text that is not whitespace")
            continue
        base, fr, fd, bk, bd = trimmed(I, st, v[1])
        if base != SELF_SLICE:
            cx.viol(f"trim:{side}:origin", fn.sp, f"trimming ({side}) yields something other than a part of the text")
            continue
        for got, done, want, nm in ((fr, fd, want_front, "front"), (bk, bd, want_back, "end")):
            if got - (WSP if want else frozenset()):
                cx.viol(f"trim:{side}:{nm}", fn.sp, f"trimming ({side}) may remove {'non-whitespace' if want else 'text'} at the {nm}")
            ln = len_of(v[1])
            e = I.fact(st, ln)
            if want and not done and ln != ZERO and not (e == ("in", frozenset([0]))):
                cx.viol(f"trim:{side}:{nm}:left", fn.sp, f"trimming ({side}) may leave whitespace at the {nm}")


SAFE = {n + "Safe": n for n in SPEC}


def markers(cx, images, shrinks):
    """Each unsafe marker impl: the transform keeps the type's rules."""
    F = cx.F
    for i in F.impls:
        tr = strip_lt(i.get("tr", ""))
        nm = tr.rsplit("::", 1)[-1]
        if not tr.startswith("string::subtypes::") or nm not in SAFE or i.get("pol") == "Negative":
            continue
        T = SAFE[nm]
        ok, may_empty, may_colon = SPEC[T]
        s = F.ts(i["self"])
        cx.ob("marker", f"{s}: {nm}")
        if "TrimAscii" in s:
            if not may_empty:
                cx.viol(f"marker:{s}:{nm}", i["sp"], f"{s} is marked {nm} but trimming can empty a {T}")
            elif not may_colon:
                cx.viol(f"marker:{s}:{nm}", i["sp"], f"{s} is marked {nm} but trimming can expose a leading colon")
            continue
        specs = [(l, sp) for l, sp in images if l.split(":")[0] in s or s.split("::")[-1].split("<")[0] == l.split(":")[0]]
        m = re.search(r"<(true|false)>", s)
        if m:
            specs = [(l, sp) for l, sp in specs if l.endswith(m.group(1))]
        if not specs:
            cx.viol(f"marker:{s}:{nm}:unknown", i["sp"], f"{s} is marked {nm} but is not a transform this check has analysed")
        for l, sp in specs:
            bad = {b for b in ok if not set(sp(0, b)[1]) <= ok}
            if bad:
                cx.viol(f"marker:{s}:{nm}", i["sp"], f"{s} is marked {nm} but maps {chr(min(bad))!r} outside {T}")
            if not may_colon and any(sp(0, b)[1][:1] == (58,) for b in ok - {58}):
                cx.viol(f"marker:{s}:{nm}:colon", i["sp"], f"{s} is marked {nm} but can produce a leading colon")


def check(cx):
    F = cx.F
    known = ("AsciiCasemap", "IrcCasemap", "TrimAscii")
    impls = {}
    for i in F.impls_of.get("string::Transform", []):
        nm = strip_lt(F.types[i["self"]].get("d", F.ts(i["self"]))).rsplit("::", 1)[-1]
        for (n, fid, _) in i["items"]:
            if n == "transform" and fid in F.fns:
                impls[nm] = F.fns[fid]
    for k in known:
        if k not in impls:
            cx.viol(f"anchor:{k}", "-", f"Transform for {k} not found")
            return
    images = []
    for uc in ("true", "false"):
        sp = UPPER if uc == "true" else LOWER
        images.append((f"AsciiCasemap:{uc}", sp))
        cx.guard("ascii", casemap, cx, impls["AsciiCasemap"], f"AsciiCasemap<{uc}>", None, (CV(uc),), sp)
    vs = [v["n"] for v in F.adts["string::tf::casemap::IrcCasemap"]["vs"]]
    for nm, sp in (("Ascii", LOWER), ("Rfc1459Strict", STRICT), ("Rfc1459", RFC)):
        if nm not in vs:
            cx.viol(f"anchor:IrcCasemap::{nm}", "-", f"IrcCasemap::{nm} not found")
            continue
        images.append((f"IrcCasemap:{nm}", sp))
        cx.guard("irc", casemap, cx, impls["IrcCasemap"], f"IrcCasemap::{nm}",
                 [("adt", "string::tf::casemap::IrcCasemap", vs.index(nm), ()), ("s", ("arg", 2))], (), sp)
    sides = [v["n"] for v in F.adts["string::tf::StringSide"]["vs"]]
    for vi, nm in enumerate(sides):
        cx.guard("trim", trim, cx, impls["TrimAscii"], nm, vi)
    cx.guard("marker", markers, cx, images, None)
    cx.need("case map result", 10)
    cx.need("trim result", 8)
    cx.need("marker", 16)
