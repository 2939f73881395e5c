"""C17: keyed collections hold one entry per key and find what they hold."""
import re
from facts import Missing, calls, strip_lt
from interp import Interp, Hook, subterms
from seqs import canon, add, sub_
from rules import conc
from rules.conc import UNIT, opt, OPT

IN1 = ("in", frozenset([1]))
EXPLAIN = (
    "Every function that can reach the inside of the sorted map or its edit guard is interpreted over all paths, following the vector's "
    "length, the recorded number of entries, key lookups and changes of contents symbolically. Lookups search the sorted part by key order "
    "and the rest by key equality, cover the whole collection and report exactly what they found; an entry is added only where a lookup of "
    "its own key over all entries failed; entries are added and removed with the vector's length covering all entries; the recorded number "
    "follows; the part taken to be sorted only grows by an entry known to be greater than the last and shrinks to a removal's position; "
    "ending an edit restores the full length and sorts by key unless everything is already sorted. Maps are made empty, with one entry, or "
    "by sorting and deduplicating; deduplication keeps every slot owned exactly once (typestate of the two-pointer loop).")
ASSUME = ["key comparisons are total orders (C11)", "mutable access to an entry's value does not change its key",
          "a comparison that panics is out of scope", "standard sorting, binary search and Vec operations do what they document"]
L0 = ("len0",)
LEN, EV = 0, 1
SORTS = ("sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")


def a_panic(p):
    return p.startswith(("core::panicking::panic", "std::rt::begin_panic", "core::option::unwrap_failed", "core::result::unwrap_failed"))


def deep(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(deep(x, a, b) for x in v)
    return v


class Flat(Hook):
    max_depth = 12

    def __init__(self, F, guard, keytr):
        self.F, self.guard, self.keytr = F, guard, keytr
        self.panics = []

    def a(self, st):
        return st.auto or (L0, ())

    def ev(self, st, *e, len=None):
        s = st.copy()
        ln, evs = self.a(st)
        s.auto = (canon(len) if len is not None else ln, evs + (e,) if e else evs)
        return s

    def n(self, st):
        return self.a(st)[0]

    def tm(self, I, st, v):
        for _ in range(4):
            if v[0] == "ref":
                v = I.read(st, v[1])
        return I.term(v, st)

    def closure(self, I, st, f, args, site):
        r = I.call_fnlike(st.copy(), [f, ("adt", "tuple", 0, tuple(args))], [None, None], site, ("k", site.bb), 1, None)
        if not r:
            raise Missing(f"the comparison used at {site.where}")
        return r

    def call(self, I, st, cal, args, site):
        F, nm, p = self.F, cal.nm, cal.p
        tys = I.cur_argtys or []
        t0 = F.ts(tys[0]) if tys and tys[0] is not None else ""
        tr = cal.tr or ""
        if (tr == self.keytr or nm == "extract_key") and args:
            t = self.tm(I, st, args[0])
            if t[0] == "elem" and len(t) == 3:
                w = t[1][1] if t[1][0] == "mem" else t[1]
                if w[0] == "view":
                    i = add(w[1], canon(t[2]))
                    if any(y[:1] == ("li",) for y in subterms(i)):
                        return [(st, ("s", ("key", ("slot", i))))]
                    s = st.copy()
                    for k in [k for k in s.facts if k[0] in ("itcmp", "itnow")]:
                        del s.facts[k]
                    s.facts[("itnow", "ix", i, w[2])] = IN1
                    return [(s, ("s", ("key", ("slot", ("it", i)))))]
            return [(st, ("s", ("key", self.tm(I, st, args[0]))))]
        if nm in ("borrow", "as_ref") and args and self.tm(I, st, args[0])[0] == "key":
            return [(st, ("s", self.tm(I, st, args[0])))]
        if nm == "extract_key" and args:
            return [(st, ("s", ("key", self.tm(I, st, args[0]))))]
        if tr.startswith("core::cmp::") and len(args) == 2 and nm in ("cmp", "partial_cmp", "eq", "ne", "gt", "lt", "ge", "le"):
            return self.compare(I, st, nm, args)
        if p.startswith("core::cmp::Ordering::") and args:
            v = args[0]
            for _ in range(3):
                if v[0] == "ref":
                    v = I.read(st, v[1])
            if v[0] == "adt" and v[1] == "core::cmp::Ordering":
                w = v[2] - 1
                if nm == "reverse":
                    return [(st, ("adt", v[1], 1 - w, ()))]
                f = {"is_eq": w == 0, "is_ne": w != 0, "is_lt": w < 0, "is_gt": w > 0, "is_le": w <= 0, "is_ge": w >= 0}.get(nm)
                if f is not None:
                    return [(st, ("c", int(f)))]
        if a_panic(p):
            self.panics.append((site, st))
        if p in ("core::cmp::min",) or tr == "core::cmp::Ord" and nm == "min":
            return [(st, ("s", ("min", canon(I.term(args[0], st)), canon(I.term(args[1], st)))))]
        if p == "core::mem::replace" and len(args) == 2:
            t = self.slot(I, st, args[0])
            if t is not None:
                return [(self.ev(st, "replace", t, self.tm(I, st, args[1])), ("s", ("old", t)))]
        if p == "core::mem::swap" and len(args) == 2 and any(self.slot(I, st, a) is not None for a in args):
            raise Missing(f"an entry swapped at {site.where}")
        a0 = args[0] if args else None
        vec = "Vec<" in t0 and (t0.startswith(("&", "alloc::vec::Vec")))
        view = self.view(I, st, a0) if a0 is not None else None
        if vec and ("Vec::<" in p or "Vec<" in p or p.startswith("core::ops::deref")):
            n = self.n(st)
            if nm == "len":
                return [(st, ("s", n) if n[0] != "c" else n)]
            if nm == "is_empty":
                return [(st, ("s", ("cmp", "Eq", n, ("c", 0))) if n[0] != "c" else ("c", int(n[1] == 0)))]
            if nm == "set_len":
                m = canon(I.term(args[1], st))
                return [(self.ev(st, "set_len", m, len=m), UNIT)]
            if nm == "push":
                return [(self.ev(st, "push", n, self.tm(I, st, args[1]), len=add(n, ("c", 1))), UNIT)]
            if nm in ("swap_remove", "remove"):
                i = canon(I.term(args[1], st))
                return [(self.ev(st, nm, n, i, len=sub_(n, ("c", 1))), ("s", ("old", i)))]
            if nm == "clear":
                return [(self.ev(st, "clear", n, len=("c", 0)), UNIT)]
            if nm in ("as_ptr", "as_mut_ptr"):
                return [(st, ("s", ("base",)))]
            if nm in ("as_slice", "as_mut_slice", "deref", "deref_mut"):
                return [(st, ("s", ("view", ("c", 0), n)))]
            if nm in ("capacity",):
                return [(st, ("s", ("cap",)))]
            if nm in ("reserve", "reserve_exact", "shrink_to_fit"):
                return [(st, UNIT)]
            if nm in ("try_reserve", "try_reserve_exact"):
                R = "core::result::Result"
                return [(st.copy(), ("adt", R, 0, (UNIT,))), (st.copy(), ("adt", R, 1, (("s", ("allocerr",)),)))]
            if nm in ("insert", "pop", "truncate", "retain", "drain", "append", "extend", "dedup_by", "dedup_by_key", "resize", "split_off", "extend_from_slice"):
                if nm == "insert":
                    return [(self.ev(st, "insert", n, canon(I.term(args[1], st)), self.tm(I, st, args[2]), len=add(n, ("c", 1))), UNIT)]
                return [(self.ev(st, "odd", nm), ("s", ("odd", nm, site.bb)))]
        if nm in ("from_raw_parts", "from_raw_parts_mut") and "slice" in p and self.tm(I, st, a0) == ("base",):
            return [(st, ("s", ("view", ("c", 0), canon(I.term(args[1], st)))))]
        if nm in SORTS and view is not None:
            return [(self.ev(st, "sort", view[1], view[2], self.sorter(I, st, nm, args[1], site), "unstable" not in nm), UNIT)]
        if nm in ("sort", "sort_unstable", "reverse", "swap", "rotate_left", "rotate_right") and view is not None:
            return [(self.ev(st, "odd", nm), UNIT)]
        if view is not None:
            r = self.slices(I, st, nm, args, view, site)
            if r is not None:
                return r
        if a0 is not None and self.tm(I, st, a0)[0] == "viter" and nm in ("into_iter", "enumerate", "by_ref", "skip"):
            t = self.tm(I, st, a0)
            if nm == "enumerate":
                t = ("viter", t[1], t[2], ("c", 0))
            elif nm == "skip":
                n = canon(I.term(args[1], st))
                t = ("viter", add(t[1], n), t[2]) + ((add(t[3], n),) if len(t) > 3 else ())
            return [(st, ("s", t))]
        if nm in ("find", "position", "any") and a0 is not None and (tr or "").endswith("Iterator"):
            v = a0
            for _ in range(3):
                if v[0] == "ref":
                    v = I.read(st, v[1])
            if v[0] == "adt" and v[1] == "core::ops::range::Range":
                return self.linear(I, st, nm, args, ("range",) + tuple(canon(I.term(x, st)) for x in v[3]), site)
        if a0 is not None and self.tm(I, st, a0)[0] == "viter" and nm == "next":
            t = self.tm(I, st, a0)
            some, none = st.copy(), st.copy()
            for s in (some, none):
                for k in [k for k in s.facts if k[0] in ("itcmp", "itend", "itnow")]:
                    del s.facts[k]
            x = ("s", ("slot", ("it", site.fn.id, site.bb)))
            some.facts[("itnow", t[1], t[2])] = IN1
            none.facts[("itend", t[1], t[2])] = IN1
            if len(t) > 3:
                x = ("adt", "tuple", 0, (("s", add(t[3], ("li", site.fn.id, site.bb, hash(site.chain)))), x))
            return [(some, opt(x)), (none, opt())]
        if a0 is not None and self.tm(I, st, a0)[0] == "viter" and nm in ("position", "find", "any", "rposition"):
            return self.linear(I, st, nm, args, self.tm(I, st, a0), site)
        if nm in ("add", "wrapping_add", "offset") and a0 is not None and self.tm(I, st, a0) == ("base",):
            return [(st, ("s", ("at", canon(I.term(args[1], st)))))]
        if nm in ("as_mut", "as_ref", "unwrap_unchecked", "unwrap", "cast_mut", "cast_const") and a0 is not None:
            t = self.tm(I, st, a0)
            if t[0] == "at":
                return [(st, ("s", ("slot", t[1])))]
            if t[0] == "slot":
                return [(st, ("s", t))]
        return None

    def slot(self, I, st, v):
        t = self.tm(I, st, v)
        if t[0] == "slot":
            return t[1]
        if v[0] == "ref" and isinstance(v[1][0], tuple) and v[1][0][0] == "M" and v[1][0][1][0] == "slot":
            return v[1][0][1][1]
        if t[0] == "mem" and t[1][0] == "slot":
            return t[1][1]
        return None

    def view(self, I, st, v):
        t = self.tm(I, st, v)
        return t if t[0] == "view" else None

    def compare(self, I, st, nm, args):
        a, b = (self.opt(I, st, x) for x in args)
        if isinstance(a, list) or isinstance(b, list):
            # Options: None is less than Some
            if not (isinstance(a, list) and isinstance(b, list)):
                return None
            if not a or not b:
                c = (len(a) > len(b)) - (len(a) < len(b))
                return [(st, ("c", int({"gt": c > 0, "lt": c < 0, "ge": c >= 0, "le": c <= 0, "eq": c == 0, "ne": c != 0}[nm])))] if nm in ("gt", "lt", "ge", "le", "eq", "ne") else None
            a, b = a[0], b[0]
        if not (a[0] == "key" or b[0] == "key"):
            return None
        it = [x for x in (a, b) if x[0] == "key" and x[1][0] == "slot" and x[1][1][0] == "it"]
        mk = lambda w: self.ev(st, "cmp", a, b, w)
        if it:
            other = b if it[0] == a else a

            def mk(w):
                s = st.copy()
                s.facts[("itcmp", other, w)] = IN1
                return s
        if nm in ("cmp", "partial_cmp"):
            out = []
            for k, w in enumerate((-1, 0, 1)):
                s = mk(w)
                v = ("adt", "core::cmp::Ordering", k, ())
                out.append((s, v if nm == "cmp" else opt(v)))
            return out
        rel = {"gt": (1,), "lt": (-1,), "ge": (0, 1), "le": (-1, 0), "eq": (0,), "ne": (-1, 1)}[nm]
        return [(mk(w), ("c", int(w in rel))) for w in (-1, 0, 1)]

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        """A loop over a part of the entries that compares keys is a search of that part."""
        ks = [[k for k in b.facts if k[0] == "itcmp"] for b in backs]
        if not any(k for b in backs for k in b.facts if k[0] == "itnow"):
            return
        keys = {k[1] for b in ks for k in b}
        part = {k[1:] for b in backs for k in b.facts if k[0] == "itnow"}
        if len(part) != 1:
            return
        part = next(iter(part))
        if part[0] == "ix":
            # counted by an index: from its first value, by one, up to the end
            _, i, hi = part
            var = [k for k in havoced if ("loop", frame, head, k) == i]
            if len(var) != 1 or {canon(I.term(I.read(b, var[0]), b)) for b in backs} != {canon(add(i, ("c", 1)))}:
                return
            first = {canon(I.term(I.read(s, var[0]), s)) for s in states}
            if len(first) != 1:
                return
            lo = next(iter(first))
            li = ("li", fn.id, head, 0)
            part = (lo, hi)
            for s in [s for ss in exits.values() for s in ss] + [r[0] if isinstance(r, tuple) else r for r in rets]:
                if any(len(k) == 4 and k[0] == "cmp" and (k[1:] in (("Lt", i, hi), ("Ne", i, hi)) and f == ("in", frozenset([0])) or k[1:] in (("Ge", i, hi), ("Eq", i, hi)) and f == IN1)
                       for k, f in s.facts.items()):
                    s.facts[("itend",) + part] = IN1
                for k, v in list(s.store.items()):
                    w = deep(v, i, add(lo, li))
                    if w != v:
                        s.store[k] = w
        lo, hi = part
        ok = all(len(b) == 1 and b[0][2] != 0 for b in ks) and len(keys) == 1
        for s in [s for ss in exits.values() for s in ss] + [r[0] if isinstance(r, tuple) else r for r in rets]:
            ln, evs = self.a(s)
            end = any(k == ("itend", lo, hi) for k in s.facts)
            hit = [k for k in s.facts if k[0] == "itcmp"]
            if end and ok:
                s.auto = (ln, evs + (("ls", lo, hi, next(iter(keys)), "ok", False),))
            elif hit:
                s.auto = (ln, evs + (("ls", lo, hi, hit[0][1], "ok" if hit[0][2] == 0 else "unequal", True),))
            for k in [k for k in s.facts if k[0] in ("itcmp", "itend", "itnow")]:
                del s.facts[k]

    def opt(self, I, st, v):
        for _ in range(4):
            if v[0] == "ref":
                v = I.read(st, v[1])
        if v[0] == "adt" and v[1] == OPT:
            return [self.tm(I, st, v[3][0])] if v[2] else []
        return I.term(v, st)

    def strip(self, t):
        return ("slot", t[1]) if t[0] == "slot" else t

    def slices(self, I, st, nm, args, view, site):
        _, lo, hi = view
        if nm == "len":
            return [(st, ("s", sub_(hi, lo)) if sub_(hi, lo)[0] != "c" else sub_(hi, lo))]
        if nm == "is_empty":
            return [(st, ("s", ("cmp", "Eq", sub_(hi, lo), ("c", 0))))]
        if nm in ("split_at", "split_at_mut", "split_at_unchecked"):
            m = add(lo, canon(I.term(args[1], st)))
            return [(st, ("adt", "tuple", 0, (("s", ("view", lo, m)), ("s", ("view", m, hi)))))]
        if nm in ("iter", "into_iter", "iter_mut"):
            return [(st, ("s", ("viter", lo, hi)))]
        if nm in ("get_unchecked", "get_unchecked_mut", "index", "index_mut"):
            ix = args[1]
            if ix[0] == "adt":
                k = ix[1].rsplit("::", 1)[-1]
                fs = [canon(I.term(x, st)) for x in ix[3]]
                if k == "RangeFull":
                    return [(st, ("s", view))]
                if k not in ("Range", "RangeTo", "RangeFrom"):
                    raise Missing(f"a slice taken at {site.where}")
                a = add(lo, fs[0]) if k != "RangeTo" else lo
                b = add(lo, fs[-1]) if k != "RangeFrom" else hi
                return [(st, ("s", ("view", a, b)))]
            i = add(lo, canon(I.term(ix, st)))
            if any(y[0] == "loop" for y in subterms(i) if y):
                s = st.copy()
                for k in [k for k in s.facts if k[0] in ("itcmp", "itnow")]:
                    del s.facts[k]
                s.facts[("itnow", "ix", i, hi)] = IN1
                return [(s, ("s", ("slot", ("it", i))))]
            if any(y[0] == "li" for y in subterms(i) if y) and not any(e[0] in ("ls", "bs") and e[5] for e in self.a(st)[1]):
                return [(st, ("s", ("slot", i)))]
            return [(self.ev(st, "access", i, hi), ("s", ("slot", i)))]
        if nm in ("get", "get_mut") and args[1][0] != "adt":
            i = add(lo, canon(I.term(args[1], st)))
            some = (self.ev(st, "access", i, hi), opt(("s", ("slot", i))))
            if [y for y in subterms(i) if y[:1] in (("bi",), ("li",))]:
                return [some]
            return [some, (st.copy(), opt())]
        if nm in ("last", "last_mut", "first"):
            some, none = self.ev(st, "nonempty", lo, hi), self.ev(st, "empty", lo, hi)
            return [(some, opt(("s", ("slot", sub_(hi, ("c", 1)) if nm != "first" else lo)))), (none, opt())]
        if nm in ("binary_search_by", "binary_search_by_key", "binary_search"):
            q = ("slot", ("q", site.bb))
            if nm == "binary_search_by":
                K, want = None, None
                for s, v in self.closure(I, st, args[1], [("s", q)], site):
                    e = self.a(s)[1][len(self.a(st)[1]):]
                    e = [x for x in e if x[0] == "cmp"]
                    if len(e) != 1 or v[0] != "adt":
                        raise Missing(f"the comparison used at {site.where}")
                    _, a, b, w = e[0]
                    if a == ("key", q) and b != ("key", q):
                        K, ok = b, v[2] - 1 == w
                    elif b == ("key", q):
                        K, ok = a, v[2] - 1 == -w
                    else:
                        raise Missing(f"the comparison used at {site.where}")
                    if not ok:
                        return self.bsearch(st, lo, hi, K, site, "reversed")
                return self.bsearch(st, lo, hi, K, site, "ok")
            if nm == "binary_search_by_key":
                r = self.closure(I, st, args[2], [("s", q)], site)
                ok = all(self.tm(I, s, v) == ("key", q) for s, v in r)
                return self.bsearch(st, lo, hi, self.tm(I, st, args[1]), site, "ok" if ok else "reversed")
            return None
        return None

    def bsearch(self, st, lo, hi, K, site, how):
        i = ("bi", site.fn.id, site.bb, hash(site.chain))
        R = "core::result::Result"
        hit, miss = self.ev(st, "bs", lo, hi, K, how, True), self.ev(st, "bs", lo, hi, K, how, False)
        ix = add(lo, i) if lo != ("c", 0) else i
        return [(hit, ("adt", R, 0, (("s", i),))), (miss, ("adt", R, 1, (("s", ("ins", i)),)))]

    def linear(self, I, st, nm, args, it, site):
        i = ("li", site.fn.id, site.bb, hash(site.chain))
        q = ("slot", ("q", site.bb))
        _, lo, hi = it[:3]
        arg = ("s", q)
        if it[0] == "range":
            q = ("slot", add(lo, i))
            arg = ("s", add(lo, i))
        elif len(it) > 3:
            arg = ("adt", "tuple", 0, (("s", add(it[3], i)), arg))
        item = arg
        if nm == "find":
            loc = (("L", ("f", site.bb), 0), ())
            s0 = st.copy()
            I.write(s0, loc, arg)
            st2, arg = s0, ("ref", loc)
        else:
            st2 = st
        K, how = None, "ok"
        for s, v in self.closure(I, st2, args[1], [arg], site):
            e = [x for x in self.a(s)[1][len(self.a(st)[1]):] if x[0] == "cmp"]
            if len(e) != 1 or v[0] != "c":
                raise Missing(f"the condition used at {site.where}")
            _, a, b, w = e[0]
            K = b if a == ("key", q) else a if b == ("key", q) else None
            if K is None:
                raise Missing(f"the condition used at {site.where}")
            if bool(v[1]) != (w == 0):
                how = "unequal"
        hit, miss = self.ev(st, "ls", lo, hi, K, how, True), self.ev(st, "ls", lo, hi, K, how, False)
        if nm == "any":
            return [(hit, ("c", 1)), (miss, ("c", 0))]
        if nm == "find":
            if it[0] != "range":
                e = ("s", ("slot", add(lo, i)))
                item = ("adt", "tuple", 0, (item[3][0], e)) if len(it) > 3 else e
            return [(hit, opt(item)), (miss, opt())]
        return [(hit, opt(("s", i))), (miss, opt())]

    def sorter(self, I, st, nm, f, site):
        a, b = ("slot", ("p", 0)), ("slot", ("p", 1))
        if nm.endswith("key"):
            return all(self.tm(I, s, v) == ("key", a) for s, v in self.closure(I, st, f, [("s", a)], site))
        for s, v in self.closure(I, st, f, [("s", a), ("s", b)], site):
            e = [x for x in self.a(s)[1][len(self.a(st)[1]):] if x[0] == "cmp"]
            if len(e) != 1 or v[0] != "adt":
                return False
            x, y, w = e[0][1:]
            if not ((x, y) == (("key", a), ("key", b)) and v[2] - 1 == w or (x, y) == (("key", b), ("key", a)) and v[2] - 1 == -w):
                return False
        return True


def find(F):
    g = [F.adt_of(i["self"]) for i in F.impls_of.get("core::ops::drop::Drop", []) if F.adt_of(i["self"]) in F.adts]
    for p in g:
        a = F.adts[p]
        fs = a["vs"][0]["f"]
        if any(re.match(r"&(mut )?alloc::vec::Vec<", F.ts(f["t"])) for f in fs) and any(F.ts(f["t"]) == "usize" for f in fs) and "util::" in p:
            m = p.rsplit("::", 1)[0]
            maps = [q for q in F.adts if q.rsplit("::", 1)[0] == m and q != p and len(F.adts[q]["vs"]) == 1
                    and any(F.ts(f["t"]).startswith("alloc::vec::Vec<") for f in F.adts[q]["vs"][0]["f"])]
            if len(maps) == 1:
                keytr = next((i["tr"] for i in F.impls if i.get("tr") and strip_lt(i["tr"]).rsplit("::", 1)[0] == m), None)
                return p, maps[0], next(i for i, f in enumerate(fs) if F.ts(f["t"]) == "usize"), m, keytr
    raise Missing("the sorted map and its edit guard")


def fn_filter(F, m, fn):
    if not fn.body or "{closure" in fn.p or (fn.impl or {}).get("derived") or "::tests" in (fn.raw.get("mod") or ""):
        return False
    x = fn.raw.get("mod") or ""
    return x == m or x.startswith(m + "::")


def check(cx):
    F = cx.F
    guard, mp, ri, m, keytr = find(F)
    cx.guard("guard", check_guard, cx, F, guard, mp, ri, m, keytr)
    cx.guard("map", check_map, cx, F, guard, mp, m, keytr)
    cx.guard("dedup", check_dedup, cx, F, m)
    cx.guard("users", check_users, cx, F, guard, mp, m)
    cx.need("edit", 8)
    cx.need("lookup", 4)


def run(F, guard, keytr, fn):
    H = Flat(F, guard, keytr)
    I = Interp(F, H)
    I.split = 256
    return H, I, I.run(fn)


def lookups(H, st, total, sorted_until):
    """Keys known present (key -> index terms) and known absent from everything, given the searches of a path."""
    absent, bad = set(), None
    bs = [e for e in H.a(st)[1] if e[0] == "bs"]
    ls = [e for e in H.a(st)[1] if e[0] == "ls"]
    for e in bs + ls:
        if e[4] != "ok":
            bad = "searches with a comparison that is not the key order" if e[0] == "bs" else "searches for something other than equal keys"
    for e in bs:
        if e[1] != ("c", 0) or e[2] not in (sorted_until,):
            bad = "searches by order beyond the part known to be sorted"
    for e in bs:
        if not e[5]:
            if e[2] == total:
                absent.add(e[3])
            for x in ls:
                if x[3] == e[3] and not x[5] and x[1] == e[2] and x[2] == total:
                    absent.add(e[3])
    for x in ls:
        if not x[5] and x[1] == ("c", 0) and x[2] == total:
            absent.add(x[3])
    return absent, bad


def known_eq(st, a, b):
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        f = st.facts.get(("cmp", "Eq", x, y))
        if f == ("in", frozenset([1])):
            return True
    return False


def check_guard(cx, F, guard, mp, ri, m, keytr):
    di = next(fn for i in F.impls_of["core::ops::drop::Drop"] if F.adt_of(i["self"]) == guard for fn in [F.fns.get(i["items"][0][1])])
    cover = 0
    for fn in F.fns.values():
        if not fn_filter(F, m, fn) or not fn.ins or F.adt_of(fn.ins[0]) != guard:
            continue
        if conc.private(fn):
            continue
        H, I, outs = run(F, guard, keytr, fn)
        R = ("fld", ("mem", ("arg", 1)), ri)
        for site, s in H.panics:
            ln, ev = H.a(s)
            if ln != L0 and not any(e[0] in ("push", "insert", "swap_remove", "remove", "clear", "sort") for e in ev):
                cx.viol(f"unwind:{fn.p}", fn.sp, "a panic leaves entries that are not in order taken to be sorted")
        for st, v in outs:
            one_edit(cx, F, fn, H, I, st, v, R, ri, fn is di)
        cx.cover(fn)
        cx.ob("edit", fn.p)


def one_edit(cx, F, fn, H, I, st, v, R, ri, is_drop):
    def bad(k, msg):
        cx.viol(f"{k}:{fn.p}", fn.sp, msg)
    ln, ev = H.a(st)
    real2 = canon(I.term(I.read(st, (("M", ("arg", 1)), (("f", ri),))), st))
    if any(e[0] == "odd" for e in ev):
        bad("odd", f"changes the entries by `{next(e[1] for e in ev if e[0] == 'odd')}`, which is not understood")
        return
    pushes = [e for e in ev if e[0] in ("push", "insert")]
    rem = [e for e in ev if e[0] in ("swap_remove", "remove")]
    clr = [e for e in ev if e[0] == "clear"]
    want = ("c", 0) if clr else canon(add(R, ("c", len(pushes) - len(rem)))) if len(pushes) >= len(rem) else canon(sub_(R, ("c", len(rem) - len(pushes))))
    if real2 != want and not known_eq(st, real2, want):
        bad("count", "the number of entries recorded does not follow the entries added and removed")
    # contents change only with the whole collection visible
    cur = R
    for e in ev:
        if e[0] in ("push", "insert", "swap_remove", "remove", "clear"):
            if canon(e[1]) != canon(cur) and not known_eq(st, e[1], cur):
                bad("partial", f"`{e[0]}` while the vector's length does not cover all entries: entries are leaked, overwritten or released twice")
            cur = add(cur, ("c", 1)) if e[0] in ("push", "insert") else ("c", 0) if e[0] == "clear" else sub_(cur, ("c", 1))
    absent, why = lookups(H, st, canon(R), canon(L0))
    if why:
        bad("search", why)
    elem_keys = set()
    for e in pushes:
        x = e[-1]
        if ("key", x) not in absent:
            bad("duplicate", "adds an entry without having looked for its key among all entries: a key can be held twice")
    if len(pushes) > 1:
        bad("duplicate", "adds more than one entry")
    hits = [e for e in ev if e[0] in ("bs", "ls") and e[5]]
    idx = set()
    for st_i, e in enumerate(ev):
        pass
    # every index used comes from a successful search
    used = [("replace", e[1], e[2]) for e in ev if e[0] == "replace"] + [(e[0], e[2], None) for e in rem] + [("access", e[1], None) for e in ev if e[0] == "access"]
    for k, i, x in used:
        base = [y for y in subterms(i) if y[:1] in (("bi",), ("li",))]
        ok = len(base) == 1 and hits
        if k == "access" and pushes and canon(i) == canon(R):
            continue
        if ok:
            w = add(("c", 0), base[0]) if base[0][0] == "bi" else add(canon(next(e[1] for e in ev if e[0] == "ls" and e[5])), base[0])
            ok = canon(i) == canon(w)
        if not ok:
            bad("index", f"`{k}` at a position other than the one found for the key")
        if k == "replace":
            if not any(e[3] == ("key", x) for e in hits):
                bad("other-key", "replaces an entry by one of a different key")
    for y in subterms(H.tm(I, st, v)):
        if y[:1] == ("slot",) and len(y) == 2 and not (pushes and canon(y[1]) == canon(R)):
            base = [z for z in subterms(y[1]) if z[:1] in (("bi",), ("li",))]
            if not base or not hits or pushes:
                bad("entry", "gives access to an entry other than the one found or added")
    # the part known to be sorted
    if is_drop:
        if ln != canon(R):
            bad("restore", "ending an edit does not restore the full length: entries are lost")
        srt = [i for i, e in enumerate(ev) if e[0] == "sort"]
        last = max((i for i, e in enumerate(ev) if e[0] == "set_len"), default=-1)
        done = [e for e in ev[last + 1:] if e[0] == "sort" and e[3] and e[1] == ("c", 0) and e[2] == canon(R)]
        if any(e[0] == "sort" and not e[3] for e in ev):
            bad("sort", "sorts by something other than the key order")
        if not done:
            sorted_known = any(k[0] == "cmp" and ((k[1], k[2], k[3]) in (("Lt", L0, canon(R)), ("Ne", L0, canon(R))) and f == ("in", frozenset([0]))
                                                  or (k[1], k[2], k[3]) in (("Ge", L0, canon(R)), ("Eq", L0, canon(R)), ("Eq", canon(R), L0)) and f == ("in", frozenset([1]))
                                                  or (k[1], k[2], k[3]) in (("Gt", canon(R), L0), ("Ne", canon(R), L0)) and f == ("in", frozenset([0]))
                                                  or (k[1], k[2], k[3]) == ("Le", canon(R), L0) and f == ("in", frozenset([1])))
                               for k, f in st.facts.items() if len(k) == 4)
            if not sorted_known:
                bad("unsorted", "an edit can end with entries out of order: lookups then miss entries that are present")
        return
    if clr:
        if ln != ("c", 0):
            bad("prefix", "clearing leaves a length behind")
        return
    if any(e[0] == "sort" for e in ev):
        # sorting everything makes everything sorted
        if not any(e[0] == "sort" and e[3] and e[1] == ("c", 0) and e[2] == real2 for e in ev):
            bad("sort", "sorts a part, or by something other than the key order")
        return
    ok = ln == ("c", 0)
    if rem:
        i = canon(rem[0][2])
        kind = rem[0][0]
        if kind == "swap_remove":
            ok = ok or ln in (("min", L0, i), ("min", i, L0)) or (ln == L0 and lt(st, L0, i, True)) or (ln == i and lt(st, i, L0, True))
        else:
            ok = ok or ln in (("min", L0, i), ("min", i, L0)) or (ln == L0 and lt(st, L0, i, True)) or (ln == i and lt(st, i, L0, True)) \
                or (ln == canon(sub_(L0, ("c", 1))) and lt(st, i, L0, False))
        if not ok:
            bad("prefix", "the part taken to be sorted after a removal can include the entry moved into the gap: lookups then miss entries that are present")
    elif pushes:
        ok = ok or ln == L0
        if not ok and (ln == canon(add(L0, ("c", 1))) or ln == canon(add(R, ("c", 1)))):
            x = pushes[0][-1]
            cmps = [e for e in ev if e[0] == "cmp"]
            greater = any(e[1] == ("key", x) and e[2] == ("key", ("slot", sub_(canon(R), ("c", 1)))) and e[3] == 1
                          or e[2] == ("key", x) and e[1] == ("key", ("slot", sub_(canon(R), ("c", 1)))) and e[3] == -1 for e in cmps)
            first = any(e[0] == "empty" and e[2] == canon(R) for e in ev)
            if known_eq(st, L0, canon(R)) and (greater or first):
                ok = True
        if not ok:
            bad("prefix", "an added entry is taken to be in order without being known to be greater than the last")
    else:
        ok = ok or ln == L0
        if not ok:
            bad("prefix", "changes the part taken to be sorted without changing the entries")
    returned(cx, fn, F, H, I, st, v, bad, absent, hits, canon(R))


def lt(st, a, b, eq):
    for k, f in st.facts.items():
        if len(k) == 4 and k[0] == "cmp" and f[0] == "in" and len(f[1]) == 1:
            x = (k[1], canon(k[2]), canon(k[3]))
            w = next(iter(f[1]))
            if w and (x in (("Lt", a, b), ("Gt", b, a)) or eq and x in (("Le", a, b), ("Ge", b, a))):
                return True
            if not w and (x in (("Ge", a, b), ("Le", b, a)) or eq and x in (("Gt", a, b), ("Lt", b, a))):
                return True
    return False


def returned(cx, fn, F, H, I, st, v, bad, absent, hits, total):
    """Lookups report exactly what was found; sizes are the number of entries."""
    o = F.ts(fn.out) if fn.out is not None else ""
    ev = H.a(st)[1]
    searched = any(e[0] in ("bs", "ls") for e in ev)
    if v[0] == "adt" and v[1] == OPT and searched:
        if v[2] == 0 and hits and not any(e[0] in ("push", "insert") for e in ev) and fn.nm.startswith(("get", "remove", "find")):
            bad("found", "reports an entry as missing although it was found")
        if v[2] == 1 and not hits:
            bad("found", "reports an entry although none was found")
        if v[2] == 0 and not hits and not absent:
            bad("cover", "reports a key as missing without having searched all entries")
        if v[2] == 1 and hits:
            t = H.tm(I, st, v[3][0])
            if fn.nm.startswith("get"):
                if t[0] != "slot":
                    bad("found", "returns something other than the entry found")
            elif t[0] == "old":
                pass
            cx.ob("lookup", fn.p)
    if fn.nm == "len" and v[0] in ("s", "c") and canon(I.term(v, st)) != total:
        bad("size", "the size reported is not the number of entries")
    if fn.nm == "is_empty":
        t = I.term(v, st)
        if not (t in (("cmp", "Eq", total, ("c", 0)), ("cmp", "Eq", ("c", 0), total), ("cmp", "Lt", total, ("c", 1))) or v[0] == "c" and st.facts):
            bad("size", "emptiness is not judged by the number of entries")
    if o.startswith(("&[", "&mut [")):
        t = H.tm(I, st, v)
        if t != ("view", ("c", 0), total):
            bad("view", "a view of the entries does not cover exactly the entries")


def check_map(cx, F, guard, mp, m, keytr):
    for fn in F.fns.values():
        if not fn_filter(F, m, fn) or conc.private(fn):
            continue
        takes = fn.ins and F.adt_of(fn.ins[0]) == mp
        makes = fn.out is not None and F.adt_of(fn.out) == mp and F.types[fn.out].get("k") == "adt"
        if not takes and not makes:
            continue
        if fn.nm in ("cmp", "partial_cmp", "eq", "hash", "fmt"):
            continue
        H, I, outs = run2(F, guard, keytr, fn)

        def bad(k, msg):
            cx.viol(f"{k}:{fn.p}", fn.sp, msg)
        for st, v in outs:
            ln, ev = H.a(st)
            if any(e[0] in ("push", "insert", "swap_remove", "set_len") or e[0] == "odd" for e in ev):
                bad("map-edit", "changes the entries of a map outside of an edit")
            absent, why = lookups(H, st, L0, L0)
            if why:
                bad("search", why)
            hits = [e for e in ev if e[0] in ("bs", "ls") and e[5]]
            for e in ev:
                if e[0] == "access":
                    base = [y for y in subterms(e[1]) if y[:1] in (("bi",), ("li",))]
                    if len(base) != 1 or not hits or base[0][0] == "bi" and canon(e[1]) != canon(base[0]):
                        bad("index", "accesses a position other than the one found for the key")
            if makes and not takes:
                made(cx, F, fn, H, I, st, v, mp, bad)
                continue
            if makes and fn.nm == "clone":
                cx.ob("made", fn.p)
                continue
            g = F.adt_of(fn.out) == guard if fn.out is not None else False
            if g:
                gf = F.adts[guard]["vs"][0]["f"]
                ri = next(i for i, f in enumerate(gf) if F.ts(f["t"]) == "usize")
                if v[0] != "adt" or canon(I.term(v[3][ri], st)) != L0:
                    bad("count", "an edit starts with a number of entries other than the map's")
                cx.ob("edit", fn.p)
                continue
            returned(cx, fn, F, H, I, st, v, bad, absent, hits, L0)
        cx.cover(fn)


class Flat2(Flat):
    def call(self, I, st, cal, args, site):
        F, nm, p = self.F, cal.nm, cal.p
        fn = F.fns.get(cal.id)
        if fn is not None and is_dedup(F, fn):
            return [(self.ev(st, "dedup"), ("s", ("deduped",)))]
        if nm in ("from_elem", "new", "with_capacity") and "vec" in p.lower() and I.cur_dty is not None and F.ts(I.cur_dty).startswith("alloc::vec::Vec<"):
            return [(self.ev(st, "newvec", nm), ("s", ("newvec",)))]
        if nm in ("into_vec", "box_assume_init_into_vec_unsafe", "from") and I.cur_dty is not None and F.ts(I.cur_dty).startswith("alloc::vec::Vec<"):
            return [(self.ev(st, "boxvec"), ("s", ("boxvec", F.ts(I.cur_argtys[0]) if I.cur_argtys else "")))]
        if nm in ("collect", "from_iter") and I.cur_dty is not None and F.ts(I.cur_dty).startswith("alloc::vec::Vec<"):
            return [(self.ev(st, "collected"), ("s", ("collected",)))]
        return super().call(I, st, cal, args, site)


def run2(F, guard, keytr, fn):
    H = Flat2(F, guard, keytr)
    I = Interp(F, H)
    I.split = 256
    return H, I, I.run(fn)


def is_dedup(F, fn):
    """(Vec<E>) -> Vec<E>"""
    return fn.body and fn.out is not None and len(fn.ins or ()) == 1 and F.ts(fn.out).startswith("alloc::vec::Vec<") and F.ts(fn.ins[0]) == F.ts(fn.out) \
        and "flatmap" in fn.p


def made(cx, F, fn, H, I, st, v, mp, bad):
    t = I.term(v, st)
    ev = [e for e in H.a(st)[1]]
    if t[0] != "adt" or t[1] != mp:
        if t[0] == "call" or t[0] == "s":
            raise Missing(f"the map {fn.p} makes")
    x = t[3][0]
    ks = [e[0] for e in ev]
    if x[0] == "newvec" or x == ("vec", ()) or x[0] == "default":
        cx.ob("made", fn.p + " empty")
    elif x[0] == "boxvec" and "; 1]" in x[1]:
        cx.ob("made", fn.p + " one entry")
    elif x[0] == "deduped":
        s = [e for e in ev if e[0] == "sort"]
        if not s:
            bad("made", "makes a map of entries that were not sorted")
        elif not all(e[3] for e in s) or s[-1][1] != ("c", 0) or s[-1][2] != L0:
            bad("made", "makes a map of entries sorted by something other than the key order, or only in part")
        elif not all(e[4] for e in s):
            bad("made", "sorts without keeping the order of entries with equal keys: which of them is kept is left to chance, not the last given")
        elif "dedup" not in ks or ks.index("dedup") < ks.index("sort"):
            bad("made", "removes duplicates before sorting: equal keys that are apart remain")
        cx.ob("made", fn.p + " sorted and deduplicated")
    else:
        bad("made", "makes a map of entries without sorting them and removing duplicate keys")


def check_users(cx, F, guard, mp, m):
    """Outside its module, entries are only reached mutably where keys stay as they are."""
    n = 0
    for fn in F.fns.values():
        if not fn.body or (fn.raw.get("mod") or "").startswith(m):
            continue
        for bb, t, c in calls(fn):
            g = F.fns.get(c["id"]) if c else None
            if g is None or not g.ins or F.adt_of(g.ins[0]) not in (guard, mp):
                continue
            n += 1
    cx.ob("users", f"{n} calls of map and guard methods")


# ---- deduplication

class Two(Hook):
    """The two-pointer loop: what one iteration does to which positions, in order (kept as facts of the path)."""
    max_depth = 10

    def __init__(self, F, keytr):
        self.F, self.keytr = F, keytr
        self.iters, self.made = [], []

    def ev(self, st, *e):
        s = st.copy()
        n = sum(1 for f in s.facts if f[0] == "ev")
        s.facts[("ev", n) + e] = ONEF
        return s

    def call(self, I, st, cal, args, site):
        F, nm, p = self.F, cal.nm, cal.p
        T = lambda v: I.term(v, st)
        tys = I.cur_argtys or []
        t0 = F.ts(tys[0]) if tys and tys[0] is not None else ""
        if "Vec<" in t0 or "ManuallyDrop<" in t0:
            if nm in ("as_mut_ptr", "as_ptr"):
                return [(st, ("s", ("base",)))]
            if nm == "len":
                return [(st, ("s", L0))]
            if nm == "capacity":
                return [(st, ("s", ("cap",)))]
        if "ManuallyDrop" in p and nm == "new":
            return [(self.ev(st, "forgot"), args[0])]
        if nm == "into_raw_parts":
            return [(self.ev(st, "forgot"), ("adt", "tuple", 0, (("s", ("base",)), ("s", L0), ("s", ("cap",)))))]
        if p == "core::mem::forget":
            return [(self.ev(st, "forgot"), UNIT)]
        if "ptr::" in p and nm in ("add", "wrapping_add", "offset"):
            return [(st, ("s", padd(T(args[0]), T(args[1]))))]
        if "ptr::" in p and nm in ("sub", "wrapping_sub"):
            return [(st, ("s", padd(T(args[0]), sub_(("c", 0), T(args[1])))))]
        if "ptr::" in p and nm in ("offset_from", "offset_from_unsigned", "sub_ptr", "byte_offset_from"):
            a, b = T(args[0]), T(args[1])
            return [(st, ("s", ("diff", a, b)))]
        if nm in ("as_ref", "as_mut", "unwrap_unchecked", "unwrap", "cast_const", "cast_mut", "cast") and args and ("ptr::" in p or "Option" in p) and T(args[0])[0] in ("base", "padd", "loop"):
            return [(st, args[0])]
        if (cal.tr or "") == self.keytr or nm == "extract_key":
            v = args[0]
            if v[0] == "ref":
                loc = v[1]
                t = loc[0][1] if loc[0][0] == "M" else T(v)
            else:
                t = T(v)
            if t[0] == "mem":
                t = t[1]
            return [(st, ("s", ("key", t)))]
        if (cal.tr or "").startswith("core::cmp::") and nm in ("eq", "ne", "cmp") and len(args) == 2:
            ks = []
            for v in args:
                for _ in range(3):
                    if v[0] == "ref":
                        v = I.read(st, v[1])
                ks.append(T(v))
            if all(k[0] == "key" for k in ks):
                if nm == "cmp":
                    return [(self.ev(st, "keys", ks[0][1], ks[1][1], w == 0), ("adt", "core::cmp::Ordering", w + 1, ())) for w in (-1, 0, 1)]
                return [(self.ev(st, "keys", ks[0][1], ks[1][1], b), ("c", int(b == (nm == "eq")))) for b in (True, False)]
        if nm == "drop_in_place":
            return [(self.ev(st, "drop", T(args[0])), UNIT)]
        if nm in ("copy_nonoverlapping", "copy", "copy_to", "copy_from", "copy_to_nonoverlapping", "copy_from_nonoverlapping"):
            a, b, n = T(args[0]), T(args[1]), T(args[2])
            if "from" in nm:
                a, b = b, a
            return [(self.ev(st, "move", a, b, n, "nonoverlapping" in nm), UNIT)]
        if nm == "read" and "ptr" in p:
            return [(self.ev(st, "read", T(args[0])), ("s", ("val", T(args[0]))))]
        if nm == "write" and "ptr" in p:
            v = T(args[1])
            if v[0] == "val":
                s = st.copy()
                for k in list(s.facts):
                    if k[0] == "ev" and k[2:] == ("read", v[1]):
                        del s.facts[k]
                return [(self.ev(s, "move", v[1], T(args[0]), ("c", 1), False), UNIT)]
            return [(self.ev(st, "odd", "write"), UNIT)]
        if "Vec::" in p and nm == "from_raw_parts":
            self.made.append((site, [T(a) for a in args], dict(st.facts)))
            return [(st, ("s", ("made",)))]
        if "Vec::" in p and nm in ("set_len",):
            self.made.append((site, [("base",), T(args[1]), ("cap",)], dict(st.facts)))
            return [(st, UNIT)]
        return None

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        self.iters.append((frame, head, [(s.store, I) for s in states], backs, havoced, states, exits))


ONEF = ("in", frozenset([1]))


def padd(b, k):
    k = canon(k)
    if b[0] == "padd":
        k = add(b[2], k)
        b = b[1]
    return b if k == ("c", 0) else ("padd", b, k)


def events(st, facts=None):
    return [k[2:] for k in sorted((f for f in (facts or st.facts) if f[0] == "ev"), key=lambda f: f[1])]


def check_dedup(cx, F, m):
    fns = [f for f in F.fns.values() if is_dedup(F, f)]
    if len(fns) != 1:
        raise Missing("the function that removes duplicates")
    fn = fns[0]
    keytr = find(F)[4]
    std = [c["nm"] for bb, t, c in calls(fn) if c and "Vec" in c["p"] and c["nm"] in ("dedup_by", "dedup_by_key")]
    if std:
        std_dedup(cx, F, fn, keytr)
        return
    H = Two(F, keytr)
    I = Interp(F, H)
    outs = I.run(fn)

    def bad(k, msg):
        cx.viol(f"dedup-{k}:{fn.p}", fn.sp, msg)
    loops = {}
    for it in H.iters:
        loops[(it[0], it[1])] = it
    if len(loops) != 1:
        raise Missing("the loop that removes duplicates")
    frame, head, _, backs, havoced, entry, exits = next(iter(loops.values()))
    ptrs = [("loop", frame, head, k) for k in havoced if all(I.term(I.read(s, k), s) == ("base",) for s in entry)]
    p1 = p2 = None
    for k in havoced:
        L = ("loop", frame, head, k)
        if L not in ptrs:
            continue
        ends = {I.term(I.read(b, k), b) for b in backs}
        if ends == {padd(L, ("c", 1))}:
            p2 = (k, L)
        elif ends <= {L, padd(L, ("c", 1))}:
            p1 = (k, L)
    if p1 is None or p2 is None:
        raise Missing("the two positions of the loop that removes duplicates")
    nx = padd(p2[1], ("c", 1))
    cases = set()
    for b in backs:
        e = events(b)
        end1 = I.term(I.read(b, p1[0]), b)
        keys = [x for x in e if x[0] == "keys"]
        drops = [x for x in e if x[0] == "drop"]
        moves = [x for x in e if x[0] == "move"]
        if any(x[0] in ("odd", "read") for x in e):
            bad("odd", "an entry is copied out or overwritten in a way that is not understood")
            continue
        if len(keys) != 1 or {keys[0][1], keys[0][2]} != {p1[1], nx}:
            bad("keys", "an iteration does not compare the last kept entry's key with the next entry's")
            continue
        same = keys[0][3]
        hole = None
        for k, f in b.facts.items():
            if len(k) == 4 and k[0] == "cmp" and k[1] in ("Ne", "Eq") and len(f[1]) == 1 and f[0] == "in":
                x, y = (z[1:] if z[0] == "padd" else (z, ("c", 0)) for z in (k[2], k[3]))
                if {x[0], y[0]} == {p1[1], p2[1]} and x[1] == y[1]:
                    hole = (1 in f[1]) == (k[1] == "Ne")
        cases.add((same, hole))
        up = padd(p1[1], ("c", 1))
        if same:
            if end1 != p1[1]:
                bad("kept", "an entry with the same key as the last kept one is kept too")
            d = [x[1] for x in drops]
            mv = [(x[1], x[2]) for x in moves]
            if d == [p1[1]] and mv == [(nx, p1[1])]:
                if e.index(drops[0]) > e.index(moves[0]):
                    bad("order", "the replaced entry is released after being overwritten: the new one is released instead")
            elif d == [nx] and not mv:
                bad("first", "of entries with the same key the first is kept, not the last")
            else:
                bad("owned", "of two entries with the same key, one is not released exactly once")
        else:
            if end1 != up:
                bad("lost", "an entry with a different key is not kept")
            if drops:
                bad("owned", "an entry that is kept is released")
            mv = [(x[1], x[2]) for x in moves]
            if hole is False:
                if mv and (mv != [(nx, up)] or moves[0][4]):
                    bad("owned", "an entry is moved although there is no gap to fill")
            elif mv != [(nx, up)] or hole is None and moves[0][4] and False:
                bad("owned", "a kept entry is not moved into the gap left before it")
        for x in moves:
            if x[3] != ("c", 1):
                bad("owned", "moves more than one entry at a time")
    if not cases or {c[0] for c in cases} != {True, False}:
        raise Missing("both outcomes of the comparison in the loop that removes duplicates")
    # how far it goes
    last = padd(("base",), sub_(L0, ("c", 1)))
    end = padd(("base",), L0)
    for ss in exits.values():
        for s in ss:
            ok = any(len(k) == 4 and k[0] == "cmp" and k[1] in ("Lt", "Ne") and (k[2], k[3]) == (p2[1], last) and f == ("in", frozenset([0])) or
                     len(k) == 4 and k[0] == "cmp" and k[1] in ("Eq", "Ge") and (k[2], k[3]) == (p2[1], last) and f == ONEF
                     for k, f in s.facts.items())
            if not ok:
                bad("range", "stops before or after the last entry")
    for site, a, facts in H.made:
        want = add(("c", 1), ("diff", p1[1], ("base",)))
        if a[0] != ("base",) or a[2] != ("cap",):
            bad("parts", "the vector is put together from another pointer or capacity than it was taken apart into")
        if canon(a[1]) != canon(want):
            bad("length", "the number of entries left is not the number kept")
    if not H.made:
        raise Missing("the vector that remains after removing duplicates")
    for st, v in outs:
        ks = [x[0] for x in events(st)]
        if ("s", ("made",)) == v and "forgot" not in {k[2] for k in st.facts if k[0] == "ev"} and not any(c["nm"] in ("forget", "into_raw_parts") or "ManuallyDrop" in c["p"] for bb, t, c in calls(fn) if c):
            bad("twice", "the original vector releases its entries too")
    small(cx, F, fn, I, outs, bad)
    cx.cover(fn)
    cx.ob("dedup", fn.p)


def small(cx, F, fn, I, outs, bad):
    """Vectors returned untouched have at most one entry."""
    for st, v in outs:
        if v == ("s", ("made",)):
            continue
        if I.term(v, st) != ("arg", 1):
            raise Missing("what the function that removes duplicates returns")
        ok = False
        for k, f in st.facts.items():
            if len(k) == 4 and k[0] == "cmp" and k[2] == L0 and k[3][0] == "c" and len(f[1]) == 1:
                w = next(iter(f[1]))
                lim = k[3][1]
                ok |= k[1] == "Lt" and w == 1 and lim <= 2 or k[1] == "Le" and w == 1 and lim <= 1 or k[1] == "Ge" and w == 0 and lim <= 2 or k[1] == "Gt" and w == 0 and lim <= 1
            if len(k) == 4 and k[0] == "cmp" and k[3] == L0 and k[2][0] == "c" and len(f[1]) == 1:
                w, lim = next(iter(f[1])), k[2][1]
                ok |= k[1] == "Lt" and w == 0 and lim <= 1 or k[1] == "Le" and w == 0 and lim <= 2 or k[1] == "Gt" and w == 1 and lim <= 2 or k[1] == "Ge" and w == 1 and lim <= 1
        f = st.facts.get(L0)
        ok |= f is not None and f[0] == "in" and max(f[1]) <= 1
        if not ok:
            bad("skipped", "some vectors with more than one entry are returned with their duplicates")


def std_dedup(cx, F, fn, keytr):
    """Vec::dedup_by removes the later of two neighbours its closure calls the same."""
    H = Flat(F, None, keytr)
    I = Interp(F, H)
    seen = []

    class D(Flat):
        def call(s, I, st, cal, args, site):
            if cal.nm in ("dedup_by", "dedup_by_key") and "Vec" in cal.p:
                a, b = ("slot", ("p", 0)), ("slot", ("p", 1))
                if cal.nm == "dedup_by_key":
                    ok = all(s.tm(I, x, v) == ("key", a) for x, v in s.closure(I, st, args[1], [("s", a)], site))
                else:
                    ok = True
                    for x, v in s.closure(I, st, args[1], [("s", a), ("s", b)], site):
                        e = [y for y in s.a(x)[1][len(s.a(st)[1]):] if y[0] == "cmp"]
                        ok &= len(e) == 1 and v[0] == "c" and {e[0][1], e[0][2]} == {("key", a), ("key", b)} and bool(v[1]) == (e[0][3] == 0)
                seen.append(ok)
                return [(st, UNIT)]
            if cal.p == "core::mem::swap":
                return [(st, UNIT)]
            return super().call(I, st, cal, args, site)
    I = Interp(F, D(F, None, keytr))
    I.run(fn)
    if not seen or not all(seen):
        cx.viol(f"dedup-keys:{fn.p}", fn.sp, "neighbours are not compared by their keys")
    cx.cover(fn)
    cx.ob("dedup", fn.p)
