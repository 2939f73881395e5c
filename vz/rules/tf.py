"""Comparing an analysed byte-string construction with a specified byte transducer."""
from seqs import ALLB, base_of, len_of, ZERO, ONE, add, slice_bytes, canon


def known_one(I, st, w, e):
    """set of (input byte, output byte) pairs of a single appended byte, given the element it may depend on"""
    bs = I.byteset(st, e) if e is not None else frozenset()
    if w[0] == "c":
        return None, w[1]
    if w[0] == "bf":
        return w[1], w[2]
    if w[0] == "s":
        return w[1], tuple(range(256))
    return False, None


def follows(I, st, segs, S, spec, m0):
    """None if the content `segs` is spec applied to slice term S from mode m0, else the reason it may not be."""
    base, p, end = base_of(S)
    m = m0
    out_pending = ()   # output still owed by spec for an element consumed so far: list of (byte set -> out) not needed
    i = 0
    segs = list(segs)
    while i < len(segs):
        s = segs[i]
        if s[0] == "sl":
            b, lo, hi = base_of(s[1])
            if b != base or canon(lo) != canon(p):
                return "copies a part of the text out of place"
            for byte in slice_bytes(I, st, s[1]):
                m2, o = spec(m, byte)
                if o != (byte,) or m2 != m:
                    return f"copies {chr(byte)!r} unchanged"
            p = hi
            i += 1
        elif s[0] in ("map", "tr"):
            b, lo, hi = base_of(s[1])
            if b != base or canon(lo) != canon(p):
                return "processes a part of the text out of place"
            bs = slice_bytes(I, st, s[1])
            if s[0] == "map":
                tr = {0: s[2]}
                cm = 0
            else:
                tr = dict(s[3])
                cm = s[2]
            if s[0] == "map":
                step = lambda cm, byte: (0, tr[0][byte]) if tr[0][byte] is not None else None
            else:
                step = lambda cm, byte: tr[cm][byte]
            seen = {(cm, m)}
            work = [(cm, m)]
            while work:
                a, q = work.pop()
                for byte in bs:
                    r = step(a, byte)
                    if r is None:
                        continue
                    m2, o = spec(q, byte)
                    if tuple(r[1]) != tuple(o):
                        return f"{chr(byte)!r} becomes {bytes(r[1])!r} instead of {bytes(o)!r}"
                    if (r[0], m2) not in seen:
                        seen.add((r[0], m2))
                        work.append((r[0], m2))
            ms = {q for _, q in seen}
            p = hi
            m = m if len(ms) == 1 else ("?", frozenset(ms))
            i += 1
        elif s[0] == "one":
            if isinstance(m, tuple) and m[0] == "?":
                return "appends after a scan whose state is unknown"
            # one input element, as many output bytes as the specification gives
            e = I.elem_term(S if False else base, p)
            bs = I.byteset(st, e)
            bs &= slice_bytes(I, st, base) if True else bs
            m2s = set()
            n = None
            for byte in bs:
                m2, o = spec(m, byte)
                got = []
                for j in range(len(o)):
                    if i + j >= len(segs) or segs[i + j][0] != "one":
                        return f"{chr(byte)!r} does not yield {bytes(o)!r}"
                    src, tab = known_one(I, st, segs[i + j][1], e)
                    if src is None:
                        got.append(tab)
                    elif src == e:
                        got.append(tab[byte])
                    else:
                        return "appends a byte of unknown origin"
                if tuple(got) != tuple(o):
                    return f"{chr(byte)!r} becomes {bytes(got)!r} instead of {bytes(o)!r}"
                m2s.add(m2)
                if n is not None and n != len(o):
                    return "appends a varying number of bytes"
                n = len(o)
            if not n:
                return "appends a byte that the text does not yield"
            if len(m2s) != 1:
                m = ("?", frozenset(m2s))
            else:
                m = next(iter(m2s))
            i += n
            p = add(p, ONE)
        else:
            return "appends bytes the analysis cannot relate to the text"
    if canon(p) != canon(end):
        return "does not cover the text to its end"
    return None


def value_follows(I, st, v, S, spec, m0=0):
    """As follows(), for a slice value."""
    if v[0] == "b":
        ln = len_of(S)
        if v[1] == b"" and (ln == ZERO or not possible_nonempty(I, st, S)):
            return None
        return "yields a fixed text"
    if v[0] == "vec":
        return follows(I, st, v[1], S, spec, m0)
    t = v[1] if v[0] == "s" else I.term(v)
    if t[0] == "deref" and t[1][0] == "vec":
        return follows(I, st, t[1][1], S, spec, m0)
    return follows(I, st, (("sl", t),), S, spec, m0)


def possible_nonempty(I, st, S):
    f = I.fact(st, len_of(S))
    return not (f and f[0] == "in" and f[1] == frozenset([0]))
