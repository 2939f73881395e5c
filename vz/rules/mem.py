"""Raw memory: pointer arithmetic, fills by loops."""
from interp import Hook
from seqs import ZERO, ONE, add, canon

ONE_F = ("in", frozenset([1]))


def padd(p, off):
    if p[0] == "padd":
        return padd(p[1], canon(add(p[2], off)))
    return p if off == ZERO else ("padd", p, canon(off))


def split(p):
    return (p[1], p[2]) if p[0] == "padd" else (p, ZERO)


class PtrHook(Hook):
    """Models element-wise pointer arithmetic and records what loops overwrite:
    fact ("filled", base, lo, hi) holds when every element in base[lo..hi] was written."""
    WRITES = ("write_volatile",)

    def call(self, I, st, cal, args, site):
        p, nm = cal.p, cal.nm
        if p.startswith(("core::ptr::mut_ptr::", "core::ptr::const_ptr::", "core::ptr::non_null::")):
            if nm in ("add", "wrapping_add") and len(args) == 2:
                return [(st, ("s", padd(I.term(args[0]), I.term(args[1]))))]
            if nm in ("cast", "cast_mut", "cast_const", "as_ptr"):
                return [(st, args[0])]
        if p.startswith("core::slice::raw::from_raw_parts"):
            return [(st, ("s", ("raw", I.term(args[0]), canon(I.term(args[1])))))]
        if nm in self.WRITES and p.startswith("core::ptr::"):
            s2 = st.copy()
            s2.facts[("wrote", I.term(args[0]))] = ONE_F
            return [(s2, ("adt", "tuple", 0, ()))]
        return None

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        outs = [s for ss in exits.values() for s in ss] + [s for s, _ in rets]
        at = ("at", frame, head)
        for k in havoced:
            L = ("loop", frame, head, k)
            ev = {s.store.get(k) for s in states}
            if len(ev) != 1 or None in ev:
                continue
            e0 = I.term(next(iter(ev)))
            bv = {s.store.get(k) for s in backs}
            if None in bv or not bv:
                continue
            ptr = all(I.term(b) == padd(L, ONE) for b in bv)
            cnt = all(canon(I.term(b)) == canon(add(L, ONE)) for b in bv)
            if not (ptr or cnt):
                continue
            addrs = None
            for s in backs:
                w = {f[1] for f in s.facts if f[0] == "wrote"}
                addrs = w if addrs is None else addrs & w
            for a in addrs or ():
                if ptr and a == L:
                    base, lo = split(e0)
                elif cnt and a[0] == "padd" and canon(a[2]) == L:
                    base, lo = a[1], e0
                else:
                    continue
                for s in outs:
                    for f, v in list(s.facts.items()):
                        hi = None
                        if f[0] == "cmp" and f[1] == "Lt" and f[2] == L and v == ("in", frozenset([0])):
                            hi = f[3]
                        elif f[0] == "cmp" and f[1] == "Eq" and L in f[2:] and v == ONE_F:
                            hi = f[3] if f[2] == L else f[2]
                        if hi is None:
                            continue
                        if ptr:
                            hb, ho = split(hi)
                            if hb != base:
                                continue
                            hi = ho
                        s.facts[("filled", base, canon(lo), canon(hi))] = ONE_F
        for s in outs:
            for f, v in list(s.facts.items()):
                if f[0] == "itdone" and f[2] == at and v == ONE_F:
                    pos = ("itpos", f[1], at)
                    if backs and all(any(g[0] == "wrote" and _has(g[1], pos) for g in b.facts) for b in backs):
                        s.facts[("filled*", f[1])] = ONE_F


def _has(t, x):
    return t == x or isinstance(t, tuple) and any(_has(y, x) for y in t)


def filled(I, st, ptr, cap):
    """Was the whole allocation (ptr, cap) overwritten?"""
    p, c = I.term(ptr), canon(I.term(cap))
    if c == ZERO or (st.facts.get(c) == ("in", frozenset([0]))):
        return True
    if ("filled", p, ZERO, c) in st.facts:
        return True
    for f in st.facts:
        if f[0] == "filled*":
            sl = f[1]
            if sl[0] == "raw" and sl[1] == p and canon(sl[2]) == c:
                return True
    return False
