"""Sequences: slices, sub-slices, growing byte vectors and what loops over them append.

A vector's content is a tuple of segments
  ('one', value)            one byte
  ('sl', slice term)        the bytes of a slice
  ('map', slice, table)     per byte of the slice, the bytes table[b] (a homomorphism)
  ('tr', slice, m0, table)  as map, with a finite mode: table[(m, b)] = (m', bytes)
  ('ty', name)              the bytes of some valid value of string type `name`
  ('any', set)              any bytes from the set
  ('acc', frame, head, key) what the enclosing loop has appended so far
Index terms are kept in linear normal form, so that adjacent sub-slices can be recognised.
"""

ALLB = frozenset(range(256))


def lin(t):
    """Linear form of an index term: (constant, {atom: coefficient})."""
    if t[0] == "c":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    if t[0] == "len" and t[1][0] == "sub":
        return lin_sub(lin(t[1][3]), lin(t[1][2]))
    if t[0] == "op" and t[1] in ("Add", "Sub"):
        a, b = lin(t[2]), lin(t[3])
        if t[1] == "Sub":
            return lin_sub(a, b)
        d = dict(a[1])
        for k, v in b[1].items():
            d[k] = d.get(k, 0) + v
            if d[k] == 0:
                del d[k]
        return a[0] + b[0], d
    return 0, {t: 1}


def lin_sub(a, b):
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) - v
        if d[k] == 0:
            del d[k]
    return a[0] - b[0], d


def mk(l):
    c, d = l
    if not d:
        return ("c", c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def canon(t):
    return mk(lin(t))


def add(a, b):
    x, y = lin(a), lin(b)
    d = dict(x[1])
    for k, v in y[1].items():
        d[k] = d.get(k, 0) + v
        if d[k] == 0:
            del d[k]
    return mk((x[0] + y[0], d))


def sub_(a, b):
    return mk(lin_sub(lin(a), lin(b)))


ZERO = ("c", 0)
ONE = ("c", 1)


def mk_sub(t, lo, hi=None):
    """The sub-slice t[lo..hi] in normal form."""
    if hi is None:
        hi = len_of(t)
    lo, hi = canon(lo), canon(hi)
    if t[0] == "sub":
        return mk_sub(t[1], add(t[2], lo), add(t[2], hi))
    if lo == ZERO and hi == canon(("len", t)):
        return t
    return ("sub", t, lo, hi)


def len_of(t):
    if t[0] == "sub":
        return sub_(t[3], t[2])
    return ("len", t)


def base_of(t):
    """(underlying slice, lo, hi)"""
    if t[0] == "sub":
        return t[1], t[2], t[3]
    return t, ZERO, ("len", t)


def elem_ix(t, ix):
    """Normalise element ix of slice t to (underlying slice, index)."""
    if t[0] == "sub":
        if ix[0] == "c" and ix[1] < 0:
            if t[3] == ("len", t[1]):
                return t[1], ix
            return t[1], add(t[3], ix)
        return t[1], add(t[2], ix)
    return t, canon(ix)


def seg_bytes(I, st, seg, prefix=True):
    """Set of bytes a segment can contribute."""
    k = seg[0]
    if k == "one":
        v = seg[1]
        kn = I.known(st, v)
        if kn is not None:
            return frozenset([kn])
        if v[0] == "bf":
            return frozenset(v[2][b] for b in I.byteset(st, v[1]))
        if v[0] == "s":
            f = I.fact(st, v[1])
            if f:
                return I.byteset(st, v[1])
            if v[1][0] == "elem" and v[1][1][0] == "mem":
                return slice_bytes(I, st, v[1][1][1])
        return ALLB
    if k == "sl":
        return slice_bytes(I, st, seg[1])
    if k == "map":
        src = slice_bytes(I, st, seg[1])
        return frozenset(x for b in src for x in (seg[2][b] if seg[2][b] is not None else ALLB))
    if k == "tr":
        src = slice_bytes(I, st, seg[1])
        out = set()
        for (m, row) in seg[3]:
            for b in src:
                if row[b] is not None:
                    out.update(row[b][1])
        return frozenset(out)
    if k == "any":
        return seg[1]
    if k == "ty":
        return I.type_bytes(seg[1])
    return ALLB


def slice_bytes(I, st, t):
    """Set of bytes a slice can contain, from what is known about it."""
    out = ALLB
    f = st.facts.get(("allof", t))
    if f:
        out &= f[1]
    b, lo, hi = base_of(t)
    if b is not t:
        f = st.facts.get(("allof", b))
        if f:
            out &= f[1]
        if lo == ZERO:
            f = st.facts.get(("prefix", b, hi))
            if f:
                out &= f[1]
    if b[0] == "deref" and isinstance(b[1], tuple) and b[1] and b[1][0] == "vec":
        u = frozenset()
        for s in b[1][1]:
            u |= seg_bytes(I, st, s)
        out &= u
    if b[0] == "b":
        out &= frozenset(b[1])
    nt = I.term_type(st, b)
    if nt is not None:
        out &= I.type_bytes(nt)
    return out


def content(I, st, v):
    """Segments of a slice value (reference)."""
    if v[0] == "b":
        return tuple(("one", ("c", x)) for x in v[1])
    t = v[1] if v[0] == "s" else I.term(v)
    return tcontent(t)


def tcontent(t):
    if t[0] == "deref" and isinstance(t[1], tuple) and t[1][0] == "vec":
        return t[1][1]
    if t[0] == "sub":
        return (("sl", t),)
    return (("sl", t),)


class Seqs:
    """Interp mixin: models of Vec<u8>/String and sub-slicing."""

    def type_bytes(self, name):
        f = getattr(self.hook, "type_bytes", None)
        return f(name) if f else ALLB

    def term_type(self, st, t):
        f = getattr(self.hook, "term_type", None)
        return f(self, st, t) if f else None

    def range_of(self, v, t):
        """(lo, hi) of a range value indexing slice t, or None."""
        if v[0] != "adt":
            return None
        p = v[1].rsplit("::", 1)[-1]
        f = [canon(self.term(x)) for x in v[3]]
        if p == "Range":
            return f[0], f[1]
        if p == "RangeFrom":
            return f[0], len_of(t)
        if p == "RangeTo":
            return ZERO, f[0]
        if p == "RangeToInclusive":
            return ZERO, add(f[0], ONE)
        if p == "RangeInclusive":
            return f[0], add(f[1], ONE)
        if p == "RangeFull":
            return ZERO, len_of(t)
        return None

    def slice_term(self, st, a):
        """Slice term of a reference value (to a slice or to a vector)."""
        for _ in range(4):
            if a[0] == "s":
                return a[1]
            if a[0] == "b":
                return a
            if a[0] == "ref":
                v = self.read(st, a[1])
                if v[0] == "vec":
                    return ("deref", v)
                if v[0] in ("ref", "b"):
                    a = v
                    continue
                if v[0] == "s":
                    return None
            return None
        return None

    def model_vec(self, st, cal, args, argtys, site, frame, depth):
        p, nm = cal.r, cal.nm
        UNIT = ("adt", "tuple", 0, ())
        if nm == "index" and cal.tr == "core::ops::index::Index" and len(args) == 2:
            t = self.slice_term(st, args[0])
            if t is not None:
                r = self.range_of(args[1], t)
                if r is not None:
                    return [(st, ("s", mk_sub(t, *r)))]
        if p.startswith("core::slice::<impl [T]>::") and args:
            t = self.slice_term(st, args[0])
            if t is not None:
                if nm in ("split_at", "split_at_unchecked") and len(args) == 2:
                    m = canon(self.term(args[1]))
                    return [(st, ("adt", "tuple", 0, (("s", mk_sub(t, ZERO, m)), ("s", mk_sub(t, m)))))]
                if nm == "get_unchecked" and len(args) == 2:
                    r = self.range_of(args[1], t)
                    if r is not None:
                        return [(st, ("s", mk_sub(t, *r)))]
                if nm in ("to_vec", "into_vec"):
                    return [(st, ("vec", tcontent(t)))]
        ext_u8 = nm == "extend" and p.startswith("<alloc::vec::Vec<") and args and argtys and argtys[0] is not None and "Vec<u8" in self.F.ts(argtys[0])
        if ext_u8 or p.startswith(("alloc::vec::Vec::<T", "alloc::string::String::", "alloc::str::<impl str>::")) or p.startswith("alloc::slice::<impl [T]>::"):
            u8ish = ext_u8 or p.startswith(("alloc::string", "alloc::str")) or (cal.ty and isinstance(cal.ty[0], int) and self.F.ts(cal.ty[0]) == "u8")
            if not u8ish:
                if nm in ("as_slice", "as_mut_slice") and p.startswith("alloc::vec::Vec::<T") and args[0][0] in ("ref", "s"):
                    v = self.read(st, args[0][1]) if args[0][0] == "ref" else self.read(st, (("M", self.term(args[0])), ()))
                    if v[0] == "s":
                        return [(st, ("s", ("deref", v[1])))]
                return None
            if nm in ("new", "with_capacity"):
                return [(st, ("vec", ()))]
            if nm in ("reserve", "reserve_exact", "shrink_to_fit"):
                return [(st, UNIT)]
            if nm in ("to_vec",):
                t = self.slice_term(st, args[0])
                if t is not None:
                    return [(st, ("vec", tcontent(t)))]
            if nm in ("into_bytes", "into_boxed_slice", "from_utf8_unchecked", "into_vec"):
                if args[0][0] == "vec":
                    return [(st, args[0])]
                return None
            if nm in ("as_bytes", "as_str", "as_slice", "deref", "as_mut_slice"):
                t = self.slice_term(st, args[0])
                if t is not None:
                    return [(st, ("s", t))]
            if args and (args[0][0] == "ref" or (args[0][0] == "s" and nm in ("push", "extend_from_slice", "push_str", "clear", "extend"))):
                if args[0][0] == "s":
                    args = [("ref", (("M", self.term(args[0])), ()))] + list(args[1:])
                v = self.read(st, args[0][1])
                if v[0] == "s" and nm in ("push", "extend_from_slice", "push_str", "clear", "extend"):
                    v = ("vec", (("sl", ("deref", v[1])),))
                if v[0] == "vec":
                    s2 = st.copy()
                    if nm == "push":
                        x = args[1]
                        self.set_vec(s2, args[0][1], v[1] + (("one", x),), site)
                        return [(s2, UNIT)]
                    if nm in ("extend_from_slice", "push_str", "extend"):
                        t = self.slice_term(st, args[1])
                        if nm == "extend":
                            ty = argtys[1] if len(argtys) > 1 else None
                            k = self.F.types[ty] if ty is not None else {}
                            if args[1][0] == "vec":
                                t = ("deref", args[1])
                            elif args[1][0] == "s" and args[1][1][0] == "it":
                                t = args[1][1][1] if args[1][1][2] == 0 else None
                            elif k.get("k") != "ref" or self.F.types[k["t"]].get("k") != "slice":
                                t = None
                        if t is None:
                            seg = (("any", ALLB),)
                        elif t[0] == "b":
                            seg = tuple(("one", ("c", x)) for x in t[1])
                        else:
                            seg = tcontent(t)
                        self.set_vec(s2, args[0][1], v[1] + seg, site)
                        return [(s2, UNIT)]
                    if nm == "clear":
                        self.set_vec(s2, args[0][1], (), site)
                        return [(s2, UNIT)]
                    if nm == "len":
                        return [(st, ("s", ("len", ("deref", v))))]
                    if nm == "is_empty":
                        return [(st, self.binop(st, "Eq", ("s", ("len", ("deref", v))), ("c", 0), "usize"))]
        if nm in ("deref", "as_ref", "borrow") and args and args[0][0] == "ref":
            v = self.read(st, args[0][1])
            if v[0] == "vec":
                return [(st, ("s", ("deref", v)))]
        if nm in ("from", "into") and args and args[0][0] == "vec" and cal.id not in self.F.fns and p.startswith(("alloc::", "<alloc::")):
            return [(st, args[0])]
        if p.startswith("core::num::nonzero::NonZero::<T>::") and nm in ("get", "new_unchecked"):
            return [(st, args[0])]
        return None

    def set_vec(self, st, loc, segs, site):
        v = ("vec", segs)
        if loc[0][0] == "M" or loc[1]:
            self.hook.write(self, st, loc, v, site)
        self.write(st, loc, v)

    # ------------------------------------------------------------- loops
    def scans_of(self, frame, head, states, backs, havoced):
        """Loop counters: (loop term, entry value term) that grow by one per iteration."""
        out = []
        for k in havoced:
            L = ("loop", frame, head, k)
            ev = {s.store.get(k) for s in states}
            bv = {s.store.get(k) for s in backs}
            if len(ev) == 1 and None not in ev and bv and all(x is not None and x[0] in ("s",) and canon(x[1]) == add(L, ONE) for x in bv):
                e0 = next(iter(ev))
                if e0[0] in ("c", "s"):
                    out.append((L, self.term(e0)))
        return out

    def quantify(self, frame, head, states, backs, exits, rets, havoced, heads):
        """What a finished scan establishes for every element, and what it appended."""
        scans = self.scans_of(frame, head, states, backs, havoced)
        at = ("at", frame, head)
        # shrinking slices: s = &s[1..] or &s[..len-1] per iteration
        shrink = []
        for k in havoced:
            L = ("loop", frame, head, k)
            ev = {s.store.get(k) for s in states}
            bv = {s.store.get(k) for s in backs}
            if len(ev) == 1 and None not in ev and len(bv) == 1 and None not in bv:
                e0, b0 = next(iter(ev)), next(iter(bv))
                if e0[0] == "s" and b0[0] == "s":
                    if b0[1] == mk_sub(L, ONE):
                        shrink.append((L, e0[1], "front"))
                    elif b0[1] == mk_sub(L, ZERO, sub_(("len", L), ONE)):
                        shrink.append((L, e0[1], "back"))
        for x in shrink:
            self.shrunk[x[0]] = (x[1], x[2], self.loop_set(backs, x[1], (x[1], None, ZERO, x[0], x[2])))
        # iterators over a slice that are stepped once per iteration
        its = set()
        for s in heads:
            for k, v in s.store.items():
                if v[0] == "s" and v[1][0] == "it" and v[1][2] == at:
                    its.add(v[1][1])
        ran = self.ranges_run(frame, head, states, backs, havoced)
        accs = set()
        for s in list(backs) + [s for ss in exits.values() for s in ss] + [s for s, _ in rets]:
            for k, v in s.store.items():
                if v[0] == "vec":
                    for g in v[1]:
                        if g[0] == "acc" and g[1:3] == (frame, head):
                            accs.add(g)

        def fix(s, rv=None):
            for S, U in ran:
                s.facts.setdefault(("allof", S), ("in", U))
            done = []   # (slice, element index term, lo) of complete scans
            part = []   # (slice, element index term, lo) of scans left early
            for (L, e0) in scans:
                hit = False
                for f, v in list(s.facts.items()):
                    if f[0] == "cmp" and f[1] == "Lt" and f[2] == L and f[3][0] not in ("len", "c") and v[0] == "in" and len(v[1]) == 1:
                        # bounded by the length of a part: find the part from the elements examined
                        for S in self.parts_indexed(backs, L, f[3]):
                            (done if 0 in v[1] else part).append((S, L, e0) if 0 in v[1] else (S, L, e0, L))
                    if f[0] == "cmp" and f[1] == "Lt" and f[2] == L and f[3][0] == "len":
                        if v == ("in", frozenset([0])):
                            done.append((f[3][1], L, e0))
                            hit = True
                        elif v == ("in", frozenset([1])):
                            part.append((f[3][1], L, e0, L))
                            hit = True
            for S in its:
                pos = ("itpos", S, at)
                ctr = [L for (L, e0) in scans if e0 == ZERO]
                if s.facts.get(("itdone", S, at)) == ("in", frozenset([1])):
                    done.append((S, pos, ZERO))
                    for L in ctr:
                        s.facts[("cmp", "Lt", L, ("len", S))] = ("in", frozenset([0]))
                        s.facts[("cmp", "Lt", L, len_of(S))] = ("in", frozenset([0]))
                else:
                    part.append((S, pos, ZERO, ctr[0] if ctr else pos))
            for (L, S0, d) in shrink:
                if s.facts.get(("len", L)) == ("in", frozenset([0])):
                    done.append((S0, None, ZERO, L, d))
                else:
                    part.append((S0, None, ZERO, L, d))
            for x in done:
                S, ix, lo = x[:3]
                U = self.loop_set(backs, S, x)
                if lo[0] == "c" and 0 <= lo[1] < 4:
                    for j in range(lo[1]):
                        U |= self.byteset(s, self.elem_term(S, ("c", j)))
                    self.add_allof(s, S, U)
                    if len(x) == 3 and lo == ZERO and isinstance(ix, tuple) and ix[0] == "loop":
                        b, blo, bhi = base_of(S)
                        if blo == ZERO:
                            s.facts[("prefix", b, ix)] = ("in", U)
                        else:
                            s.facts[("allof", mk_sub(S, ZERO, ix))] = ("in", U)
                else:
                    self.add_allof(s, mk_sub(S, lo), U)
            for x in part:
                if len(x) == 4 and x[2] == ZERO:
                    S, ix, lo, L = x
                    b, blo, bhi = base_of(S)
                    U = self.loop_set(backs, S, x)
                    if blo == ZERO:
                        s.facts[("prefix", b, L)] = ("in", U)
                    else:
                        s.facts[("allof", mk_sub(S, ZERO, L))] = ("in", U)
                    s.facts[("cmp", "Lt", L, len_of(S))] = ("in", frozenset([1]))
            ren = {}
            for g in accs:
                segs = None
                for x in done:
                    segs = self.acc_segs(g, backs, x, None, states)
                    if segs:
                        break
                if segs is None:
                    for x in part:
                        segs = self.acc_segs(g, backs, x, x[3] if len(x) == 4 else None, states)
                        if segs:
                            break
                if segs is None:
                    segs = (("any", self.acc_any(g, backs)),)
                ren[g] = segs
            sub = {}
            for x in part:
                if len(x) == 4 and x[1] is not None and x[1][0] == "itpos" and x[3] != x[1]:
                    sub[x[1]] = x[3]
            if ren or sub:
                self.rewrite(s, ren, sub)
                if rv is not None:
                    return rw(rv, ren, sub)
            return rv

        for ss in exits.values():
            for s in ss:
                fix(s)
        for i, (s, v) in enumerate(rets):
            rets[i] = (s, fix(s, v))

    def ranges_run(self, frame, head, states, backs, havoced):
        """(part, bytes): what a position that moves by one over elements it looks at has left behind it."""
        out = []
        for k in havoced:
            L = ("loop", frame, head, k)
            ev = {self.read(s, k) for s in states}
            bv = {s.store.get(k) for s in backs}
            if bv and all(x is not None and x[0] == "s" and canon(x[1]) == canon(add(L, ONE)) for x in bv) and ev == {("c", 0)}:
                # never gets past a bound that every pass found it below
                for t in list(backs[0].facts):
                    if t[0] == "cmp" and t[1] == "Lt" and t[2] == L and not mentions_term(t[3], L) and all(s.facts.get(t) == ("in", frozenset([1])) for s in backs):
                        self.below.add((L, t[3]))
            if len(ev) != 1 or not bv or any(x is None or x[0] != "s" for x in bv):
                continue
            e0 = next(iter(ev))
            if e0[0] not in ("c", "s") or e0[0] == "c" and not isinstance(e0[1], int):
                continue
            e0 = self.term(e0)
            to = {canon(x[1]) for x in bv}
            up = to == {canon(add(L, ONE))}
            if not up and to != {canon(sub_(L, ONE))}:
                continue
            seen = None
            for s in backs:
                mine = {t for t in s.facts if t[0] == "elem" and len(t) == 3 and t[1][0] == "mem" and not mentions_term(t[1], L)
                        and not mentions_term(sub_(t[2], L), L)}
                seen = mine if seen is None else seen & mine
            for t in seen or ():
                U = frozenset()
                for s in backs:
                    U |= self.byteset(s, t)
                if U != ALLB:
                    off = sub_(t[2], L if up else sub_(L, ONE))
                    lo, hi = (e0, L) if up else (L, e0)
                    out.append((mk_sub(t[1][1], add(lo, off), add(hi, off)), U))
        return out

    def parts_indexed(self, backs, L, ln):
        """Slices of length `ln` whose element number L the iterations examine."""
        out = set()
        for b in backs:
            for t in b.facts:
                if t[0] == "elem" and t[1][0] == "mem":
                    off = sub_(t[2], L)
                    if not mentions_term(off, L):
                        S = mk_sub(t[1][1], off, add(off, ln))
                        if canon(len_of(S)) == canon(ln):
                            out.add(S)
        return out

    def loop_elem(self, S, x):
        """Element term the iteration examines."""
        if len(x) == 5:
            L, d = x[3], x[4]
            return self.elem_term(L, ZERO if d == "front" else ("c", -1))
        return self.elem_term(S, x[1])

    def loop_set(self, backs, S, x):
        e = self.loop_elem(S, x)
        U = frozenset()
        for b in backs:
            U |= self.byteset(b, e)
        return U

    def acc_any(self, g, backs):
        U = frozenset()
        for b in backs:
            v = b.store.get(g[3])
            if v is None or v[0] != "vec" or g not in v[1]:
                return ALLB
            for s in v[1][v[1].index(g) + 1:]:
                U |= seg_bytes(self, b, s)
        return U

    def acc_segs(self, g, backs, x, hi, states):
        """Segments that the loop's appended bytes amount to, or None."""
        S = x[0]
        e = self.loop_elem(S, x)
        if len(x) == 5 and (x[4] != "front" or hi is None and False):
            return None
        frame, head, key = g[1:]
        # mode variables: constants carried around the loop
        modes = {}
        cand = None
        for b in backs:
            ks = {k for k, v in b.store.items() if v[0] == "c" or v == ("s", ("loop", frame, head, k))}
            cand = ks if cand is None else cand & ks
        for k in cand or ():
            ev = {s.store.get(k) for s in states}
            if len(ev) == 1 and next(iter(ev)) is not None and next(iter(ev))[0] == "c":
                modes[k] = next(iter(ev))[1]
        rows = []
        for b in backs:
            v = b.store.get(key)
            if v is None or v[0] != "vec" or g not in v[1]:
                return None
            app = v[1][v[1].index(g) + 1:]
            bs = self.byteset(b, e)
            outs = {}
            for byte in bs:
                o = []
                for s in app:
                    if s[0] != "one":
                        return None
                    w = s[1]
                    if w[0] == "c":
                        o.append(w[1])
                    elif w[0] == "bf" and w[1] == e:
                        o.append(w[2][byte])
                    elif w[0] == "s" and w[1] == e:
                        o.append(byte)
                    else:
                        return None
                outs[byte] = tuple(o)
            rows.append((b, outs))
        S2 = S if hi is None else mk_sub(S, x[2], hi)
        if hi is None and x[2] != ZERO:
            S2 = mk_sub(S, x[2])
        tab = {}
        amb = False
        for b, outs in rows:
            for byte, o in outs.items():
                if tab.setdefault(byte, o) != o:
                    amb = True
        if not amb:
            return (("map", S2, tuple(tab.get(i) for i in range(256))),)
        for k, m0 in modes.items():
            L = ("loop", frame, head, k)
            vals = {m0} | {b.store[k][1] for b, _ in rows if b.store[k][0] == "c"}
            t2 = {}
            ok = True
            for b, outs in rows:
                for m in vals:
                    if not self.possible(b, L, m):
                        continue
                    post = b.store[k][1] if b.store[k][0] == "c" else m
                    for byte, o in outs.items():
                        if t2.setdefault((m, byte), (post, o)) != (post, o):
                            ok = False
            if ok:
                return (("tr", S2, m0, tuple((m, tuple(t2.get((m, i)) for i in range(256))) for m in sorted(vals))),)
        return None

    def rewrite(self, s, ren, sub):
        for k in list(s.store):
            v = s.store[k]
            v2 = rw(v, ren, sub)
            k2 = rw(k, ren, sub)
            if k2 != k:
                del s.store[k]
            if v2 is not v or k2 != k:
                s.store[k2] = v2
        for t in list(s.facts):
            t2 = rw(t, ren, sub)
            if t2 is not t and t2 != t:
                s.facts[t2] = s.facts.pop(t)


def mentions_term(t, x):
    return t == x or (isinstance(t, tuple) and any(mentions_term(y, x) for y in t))


def rw(v, ren, sub):
    """Replace accumulated-output segments and index terms inside a value."""
    if not isinstance(v, tuple):
        return v
    if v in sub:
        return sub[v]
    if v and v[0] == "vec" and len(v) == 2 and isinstance(v[1], tuple):
        segs = []
        ch = False
        for g in v[1]:
            if g in ren:
                segs.extend(ren[g])
                ch = True
            else:
                g2 = rw(g, ren, sub)
                ch = ch or g2 is not g
                segs.append(g2)
        return ("vec", tuple(segs)) if ch else v
    out = None
    for i, x in enumerate(v):
        if isinstance(x, tuple):
            y = rw(x, ren, sub)
            if y is not x:
                if out is None:
                    out = list(v)
                out[i] = y
    return tuple(out) if out is not None else v
