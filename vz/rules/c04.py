"""C04: tag value escaping is reversible and wire-safe."""
from interp import Interp
from seqs import ALLB
from rules.strs import StrHook, val_slice, newtype_of, slice_verdict
from rules.tf import value_follows

EXPLAIN = ("escape and unescape are interpreted abstractly over all inputs; the content of every possible result is "
           "compared, byte class by byte class, with the escaping transducer of the message-tags specification. The "
           "per-byte tables escape_byte and unescape_byte are tabulated over all 256 bytes and compared with it too.")
ESC = {ord(";"): ord(":"), ord(" "): ord("s"), 13: ord("r"), 10: ord("n"), 92: 92}
UNESC = {v: k for k, v in ESC.items()}


def esc(m, b):
    return 0, ((92, ESC[b]) if b in ESC else (b,))


def unesc(m, b):
    if m == 1:
        return 0, (UNESC.get(b, b),)
    if b == 92:
        return 1, ()
    return 0, (b,)


def whole(cx, fn, spec, out):
    F = cx.F
    I = Interp(F, StrHook(F))
    cx.cover(fn)
    n = 0
    for st, v in I.run(fn):
        n += 1
        cx.ob(fn.nm + " result", f"{fn.p} path {n}")
        srcs = {t for t in list(I.tty) if newtype_of(F, I.tty[t]) == "NoNul"}
        why = "the input cannot be identified"
        for s in srcs:
            why = value_follows(I, st, val_slice(I, st, v), ("fld", s, 0), spec)
            if why is None:
                break
        if why:
            cx.viol(f"{fn.nm}:content", fn.sp, f"{fn.p}: the result may differ from the specified one: {why}")
        w = slice_verdict(I, st, val_slice(I, st, v), out)
        if w:
            cx.viol(f"{fn.nm}:safe", fn.sp, f"{fn.p}: the result is not shown to be a valid {out}: {w}")


def table(cx, fn, want):
    F = cx.F
    cx.cover(fn)
    I = Interp(F, StrHook(F))
    cx.ob("byte table", fn.p)
    got = {}
    for st, v in I.run(fn):
        f = [I.byteset(st, t) for t in st.facts if t[0] == "mem"]
        bs = frozenset.intersection(*f) if f else ALLB
        for b in bs:
            w = v
            if w[0] == "adt" and w[1] == "core::option::Option":
                w = w[3][0] if w[2] else None
                while w is not None and w[0] == "adt":
                    w = w[3][0]
            if w is None:
                x = None
            elif w[0] == "c":
                x = w[1]
            elif w[0] == "bf":
                x = w[2][b]
            elif w[0] == "s" and w[1][0] == "mem":
                x = b
            else:
                x = "?"
            if got.setdefault(b, x) != x:
                got[b] = "?"
    for b in range(256):
        if got.get(b, "?") != want(b):
            g = got.get(b)
            cx.viol(f"table:{fn.nm}:{b}", fn.sp, f"{fn.p} maps {chr(b)!r} to {g if not isinstance(g, int) else chr(g)!r}")
            break


def check(cx):
    F = cx.F
    cx.guard("escape", lambda: whole(cx, F.fn("string::tf::escape::escape"), esc, "Word"))
    cx.guard("unescape", lambda: whole(cx, F.fn("string::tf::escape::unescape"), unesc, "NoNul"))
    cx.guard("escape_byte", lambda: table(cx, F.fn("string::tf::escape::escape_byte"), lambda b: ESC.get(b)))
    cx.guard("unescape_byte", lambda: table(cx, F.fn("string::tf::escape::unescape_byte"), lambda b: UNESC.get(b, b)))
    cx.need("escape result", 2)
    cx.need("unescape result", 2)
    cx.need("byte table", 2)
