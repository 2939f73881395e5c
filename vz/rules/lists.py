"""Lists (vectors, queues) of one element type as symbolic sequences: pre + base + post."""
from rules.strs import StrHook
from seqs import canon, lin_sub, lin

UNIT = ("adt", "tuple", 0, ())
NONE = ("adt", "core::option::Option", 0, ())
EMPTY = ("lst", (), None, ())


def some(v):
    return ("adt", "core::option::Option", 1, (v,))


def norm(I, st, t):
    """A list's value as ("lst", pre, base, post), looking through borrowing and copy-on-write wrappers."""
    for _ in range(12):
        if t[0] == "s":
            t = t[1]
        elif t[0] == "ref":
            t = I.read(st, t[1])
        elif t[0] == "st":
            t = t[1]
        elif t[0] == "adt" and t[1] == "alloc::borrow::Cow":
            t = t[3][0]
        elif t[0] == "adt" and t[1] == "alloc::boxed::Box" and t[3]:
            t = t[3][0]
        elif t[0] == "deref":
            t = t[1]
        elif t[0] == "mem" and t[1][0] == "deref":
            t = t[1][1]
        elif t[0] == "lst":
            break
        elif t[0] == "b" and t[1] in ((), b""):
            return EMPTY
        elif t[0] == "adt" and t[1] == "array" and not t[3]:
            return EMPTY
        elif t[0] == "sub":
            b = norm(I, st, t[1])
            if t[2] == ("c", 0) and lin_sub(lin(("len", t[1])), lin(t[3])) == lin(("c", 1)):
                p = drop_last(b)
                if p:
                    return p[0]
            return ("lst", (), t, ())
        else:
            return ("lst", (), t, ())
    if t[0] != "lst":
        return ("lst", (), t, ())

    def it(x):
        if x[0] == "slot":
            return I.term(I.read(st, (("M", x[1]), ())), st)
        return x
    return ("lst", tuple(map(it, t[1])), t[2], tuple(map(it, t[3])))


def raw(I, st, v):
    for _ in range(8):
        if v[0] == "s":
            if v[1][0] == "lst":
                return v[1]
            if v[1][0] == "mem" and v[1][1][0] == "deref":
                v = ("s", v[1][1][1])
                continue
            return ("lst", (), v[1], ())
        if v[0] == "adt" and v[1] == "alloc::borrow::Cow":
            v = v[3][0]
        elif v[0] == "st":
            v = v[1]
        else:
            break
    return None


def drop_last(l):
    """(rest, last element) of a list known to be non-empty."""
    _, pre, base, post = l
    if post:
        return ("lst", pre, base, post[:-1]), post[-1]
    if base is not None:
        return ("lst", pre, ("init", base), ()), ("last", base)
    if pre:
        return ("lst", pre[:-1], None, ()), pre[-1]
    return None


def drop_first(l):
    _, pre, base, post = l
    if pre:
        return ("lst", pre[1:], base, post), pre[0]
    if base is not None:
        return ("lst", (), ("tail", base), post), ("first", base)
    if post:
        return ("lst", (), None, post[1:]), post[0]
    return None


def nonempty(l):
    return bool(l[1] or l[3])


class ListHook(StrHook):
    """Models lists whose element type satisfies `elem(type string)`."""
    max_depth = 16
    CONT = ("alloc::vec::Vec<", "alloc::collections::vec_deque::VecDeque<", "alloc::borrow::Cow<")

    def __init__(self, F, elem):
        super().__init__(F)
        self.elem = elem
        self.log = None

    def is_list(self, ti):
        F = self.F
        for _ in range(4):
            if ti is None:
                return None
            t = F.types[ti]
            if t.get("k") == "ref":
                ti = t["t"]
            else:
                break
        s = F.ts(ti)
        if s.startswith("[") or s.startswith(self.CONT):
            e = self.elem_of(ti)
            return e is not None and self.elem(F.ts(e))
        return False

    def elem_of(self, ti):
        F = self.F
        t = F.types[ti]
        if t.get("k") in ("slice", "array"):
            return t.get("t")
        if t.get("k") == "adt":
            a = [x for x in t.get("a", ()) if isinstance(x, int)]
            if not a:
                return None
            x = a[0]
            if F.types[x].get("k") == "slice":
                return F.types[x].get("t")
            return x
        return None

    def call(self, I, st, cal, args, site):
        r = None
        ats = I.cur_argtys
        nm = cal.nm
        if cal.id not in self.F.fns:
            if args and ats and ats[0] is not None and self.is_list(ats[0]):
                r = self.on_list(I, st, cal, args, site, nm)
            elif I.cur_dty is not None and self.is_list(I.cur_dty) and not self.F.ts(I.cur_dty).startswith("&"):
                if nm in ("new", "with_capacity", "default"):
                    r = [(st, ("s", EMPTY))]
                elif nm in ("collect", "from_iter") and args:
                    r = [(st, ("s", ("lst", (), ("all", I.term(args[0], st)), ())))]
        if r is not None:
            return r
        return super().call(I, st, cal, args, site)

    def on_list(self, I, st, cal, args, site, nm):
        F = self.F
        self.cur_ti = I.cur_argtys[0]
        byref = F.types[I.cur_argtys[0]].get("k") == "ref"
        if not byref:
            if nm in ("into_owned", "into", "from", "into_boxed_slice", "into_vec", "to_vec"):
                if I.cur_dty is not None and self.is_list(I.cur_dty):
                    return [(st, args[0])]
            return None
        a = args[0]
        loc = a[1] if a[0] == "ref" else (("M", I.term(a)), ())
        for _ in range(4):
            v = I.read(st, loc)
            if v[0] == "ref":
                loc = v[1]
            else:
                break
        if nm in ("to_mut", "deref_mut", "as_mut_slice", "as_mut", "make_contiguous"):
            # Also makes a copy-on-write value the list itself.
            return [(st, ("ref", loc))]
        l = raw(I, st, v)
        if l is None:
            return None
        s2 = st.copy()

        def put(x):
            w = ("s", x)
            if loc[0][0] == "M" or loc[1]:
                self.write(I, s2, loc, w, site)
            I.write(s2, loc, w)

        def item(x):
            return I.term(x, st)
        if nm in ("push", "push_back", "push_front", "insert"):
            self.added(I, st, args[-1], site)
        if nm in ("push", "push_back"):
            put((*l[:3], l[3] + (item(args[1]),)))
            return [(s2, UNIT)]
        if nm == "push_front":
            put(("lst", (item(args[1]),) + l[1], *l[2:]))
            return [(s2, UNIT)]
        if nm == "clear" or nm == "truncate" and I.known(st, args[1]) == 0:
            put(EMPTY)
            return [(s2, UNIT)]
        if nm == "extend":
            put((*l[:3], l[3] + (("all", item(args[1])),)))
            return [(s2, UNIT)]
        if nm in ("reserve", "shrink_to_fit", "reserve_exact"):
            return [(st, UNIT)]
        if nm == "insert":
            ix = lin(canon(item(args[1])))
            le = lin(self.length(l))
            d = lin_sub(le, ix)
            if d == lin(("c", 0)):
                put((*l[:3], l[3] + (item(args[2]),)))
                return [(s2, UNIT)]
            if d == lin(("c", 1)):
                p = drop_last(l)
                if p:
                    q = p[0]
                    put((*q[:3], q[3] + (item(args[2]), p[1])))
                    return [(s2, UNIT)]
            if ix == lin(("c", 0)):
                put(("lst", (item(args[2]),) + l[1], *l[2:]))
                return [(s2, UNIT)]
            return None
        if nm in ("pop", "pop_back", "pop_front", "last_mut", "back_mut", "split_last_mut"):
            out = []
            empty_ok, full_ok = self.emptiness(I, st, l)
            if empty_ok and not nonempty(l):
                s0 = st.copy()
                if l[2] is None or I.assume(s0, ("empty", l[2]), 1):
                    if l[2] is not None:
                        s0.facts[("len", ("deref", l[2]))] = ("in", frozenset([0]))
                    out.append((s0, NONE))
            if full_ok and (nonempty(l) or (l[2] is not None and I.assume(s2, ("empty", l[2]), 0))):
                if not nonempty(l):
                    I.assume_not(s2, ("len", ("deref", l[2])), [0])
                p = (drop_first if nm == "pop_front" else drop_last)(l)
                self.give_type(I, p[1], self.cur_ti)
                if nm.startswith("pop"):
                    put(p[0])
                    x = p[1]
                    if x[0] == "slot":
                        xv = I.read(st, (("M", x[1]), ()))
                    else:
                        xv = x if x and x[0] in ("adt", "vec", "b", "c", "s") else ("s", x)
                    out.append((s2, some(xv)))
                else:
                    k = ("slotof", p[1], site.fn.id, site.bb)
                    x = p[1]
                    xv = I.read(st, (("M", x[1]), ())) if x[0] == "slot" else (x if x and x[0] in ("adt", "vec", "b") else ("s", x))
                    I.write(s2, (("M", k), ()), xv)
                    q = p[0]
                    put((*q[:3], q[3] + (("slot", k),)))
                    r = ("ref", (("M", k), ()))
                    if nm == "split_last_mut":
                        r = ("adt", "tuple", 0, (r, ("s", ("deref", q if q[1] or q[3] or q[2] is None else q[2]))))
                    out.append((s2, some(r)))
            return out
        if nm in ("deref", "as_slice", "as_ref", "borrow"):
            return [(st, ("s", ("deref", self.plain(l))))]
        if nm == "len":
            return [(st, ("s", self.length(l)))]
        if nm == "is_empty":
            if nonempty(l):
                return [(st, ("c", 0))]
            if l[2] is None:
                return [(st, ("c", 1))]
            return [(st, I.binop(st, "Eq", ("s", self.length(l)), ("c", 0), "usize"))]
        return None

    def added(self, I, st, v, site):
        pass

    def give_type(self, I, x, ti):
        if x and x[0] in ("last", "first"):
            while self.F.types[ti].get("k") == "ref":
                ti = self.F.types[ti]["t"]
            e = self.elem_of(ti)
            if e is not None:
                I.tty.setdefault(x, e)

    def plain(self, l):
        return l[2] if not l[1] and not l[3] and l[2] is not None else l

    def length(self, l):
        n = len(l[1]) + len(l[3])
        if l[2] is None:
            return ("c", n)
        b, k = l[2], 0
        while b[0] in ("init", "tail"):
            b, k = b[1], k + 1
        t = ("len", ("deref", b))
        return t if n == k else ("lin", n - k, ((t, 1),))

    def emptiness(self, I, st, l):
        if nonempty(l):
            return False, True
        if l[2] is None:
            return True, False
        f = I.fact(st, ("len", ("deref", l[2])))
        if f is None:
            return True, True
        if f[0] == "in":
            return 0 in f[1], bool(f[1] - {0})
        return 0 not in f[1], True
