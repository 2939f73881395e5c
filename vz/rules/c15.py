"""C15: parsing any input terminates."""
import os
import re
from facts import Missing, strip_lt, calls
from interp import Interp, Budget, subterms
from seqs import ONE, add, canon, lin, len_of, base_of
from rules.strs import StrHook, SPEC
from rules.lia import ge, hyps, implies, diseqs

EXPLAIN = (
    "Every loop in a function that parsing a line, a tag list, arguments, a source, modes, capabilities or names, or handling the resulting message, can reach is "
    "interpreted for one arbitrary pass, with splitter and string operations followed into. For each way back to the loop's head, one of the loop's "
    "measures must have become strictly smaller and none of those used may have grown: what a splitter has left, the length of a slice, "
    "what a finite iterator has left, a number counting down, or the distance of a number counting up to a bound that the pass keeps it "
    "within. Positions found by searches, lengths and the bytes at positions (a byte that begins a word is not a separator) enter as "
    "linear facts. Functions in this set must not call themselves.")
ASSUME = ["an iterator handed in by a caller is finite, and the chunks of an outgoing response come to an end (C26)",
          "a standard iterator over a collection, slice, string or bounded range is finite, and a search over it examines each element once",
          "strings hold only bytes valid for their type (C02), and what a splitter has left does not end before it starts (reading it would stop there)",
          "loops that wait for a connection or a reader are not parsing and are left out"]
OPT = "core::option::Option"
T1 = ("in", frozenset([1]))
ITER = "core::iter::traits::iterator::Iterator"
SPL = "string::splitter::"
ROOT = re.compile(r"(parse|from_union|from_isupport|from_bytes|from_str|try_from|from_word|unescape|decode)")

WHOLE = re.compile(
    r"core::slice::iter::|core::slice::ascii::|core::str::iter::|alloc::vec::(into_iter|drain|splice|extract_if)::|alloc::collections::|std::collections::|core::option::|core::result::"
    r"|core::array::|core::ops::range::Range(Inclusive)?$|core::iter::sources::(once|empty|once_with)::|core::iter::adapters::take::Take$|core::ascii::|core::char::|alloc::string::"
    r"|hashbrown::|alloc::vec::Drain|core::iter::adapters::by_ref|serde")
WRAP = re.compile(r"core::iter::adapters::(map|filter|copied|cloned|enumerate|rev|skip|skip_while|take_while|filter_map|inspect|peekable|fuse|step_by|map_while|scan)::")


def finite(F, ti, d=0):
    """Does every iterator of the type come to an end?"""
    if not isinstance(ti, int) or d > 8:
        return False
    t = F.types[ti]
    if t.get("k") == "ref":
        return finite(F, t["t"], d + 1)
    if t.get("k") in ("param", "alias", "proj", "opaque", "dyn"):
        return True         # the caller's
    if t.get("k") != "adt":
        return False
    p = strip_lt(t["d"])
    a = [x for x in t.get("a", []) if isinstance(x, int)]
    if WHOLE.match(p):
        return True
    if WRAP.match(p):
        return bool(a) and finite(F, a[0], d + 1)
    if p == "core::iter::adapters::zip::Zip":
        return any(finite(F, x, d + 1) for x in a[:2])
    if p == "core::iter::adapters::chain::Chain":
        return len(a) >= 2 and all(finite(F, x, d + 1) for x in a[:2])
    if p.startswith("core::iter::adapters::flatten::"):
        return bool(a) and finite(F, a[0], d + 1)
    if p in (SPL + "Splitter", SPL + "SavedIndices", "string::base64::ChunkEncoder"):
        return True         # next_byte is looked at below
    if p in F.adts and len(F.adts[p]["vs"]) == 1:
        # an iterator of this crate around another one
        return any(finite(F, f["t"], d + 1) for f in F.adts[p]["vs"][0]["f"] if "iter" in F.ts(f["t"]).lower())
    return False


def scope(F):
    """Functions that parsing can reach, with the caller each was found through."""
    by = {}
    for f in F.fns.values():
        if f.impl and f.impl.get("tr"):
            by.setdefault((f.impl["tr"], f.nm), []).append(f)
    clos = {}
    for f in F.fns.values():
        i = f.p.find("::{closure")
        while i >= 0:
            clos.setdefault(f.p[:i], []).append(f)
            i = f.p.find("::{closure", i + 1)
    seen, edges = {}, {}
    todo = []
    for f in F.fns.values():
        if not f.body or (f.impl or {}).get("derived"):
            continue
        if ROOT.match(f.nm or "") or f.file.endswith("string/splitter.rs") or f.nm == "handle" and (f.impl or {}).get("tr") == "client::handler::Handler":
            todo.append((f, None))
    while todo:
        f, par = todo.pop()
        if f.id in seen:
            continue
        seen[f.id] = par
        es = edges.setdefault(f.id, set())
        if not f.body:
            continue
        for bb, t, c in calls(f):
            g = F.fns.get(c.get("rid") or c.get("id"))
            if g is not None and g.body:
                todo.append((g, f))
                es.add((g.id, t.get("ln") if isinstance(t, dict) else None))
            elif c.get("tr"):
                for g in by.get((c["tr"], c.get("nm")), []):
                    if not (g.impl or {}).get("derived"):
                        todo.append((g, f))
        for g in clos.get(f.p, []):
            todo.append((g, f))
            es.add((g.id, None))
    return seen, edges


WAIT = re.compile(r".*::(Read|BufRead|AsyncRead|AsyncBufRead|Future)$")


def noise(t):
    return any(x == ("enc",) or x[0] == "call" and isinstance(x[1], str) and ("::atomic::" in x[1] or x[1] in ("is_utf8_lazy", "is_secret"))
               for x in subterms(t) if isinstance(x, tuple) and x)


class Prog(StrHook):
    max_depth = 12

    def __init__(self, F, cx, root):
        super().__init__(F)
        self.cx, self.root = cx, root
        self.found = {}          # (fn id, head) -> list of messages
        self.seen = set()

    def snapshot(self):
        return {k: list(v) for k, v in self.found.items()}

    def restore(self, s):
        self.found = {k: list(v) for k, v in s.items()}

    def inline(self, I, fn, cal):
        if fn.p.startswith(("util::", "<util::", "client::queue", "<client::queue", "ircmsg::args::ArgsMut", "client::handler::", "<client::handler::")):
            return False
        if fn.id == self.root.id or self.light:
            return False
        if not I.prep(fn)["loops"]:
            return True
        return any(self.F.types[t].get("k") == "ref" and self.F.types[t].get("m") and self.small(self.F.types[t]["t"]) for t in fn.ins)

    def small(self, ti):
        """A cursor: something a loop's progress is likely measured by."""
        t = self.F.types[ti]
        return t.get("k") in ("ref", "int", "uint", "usize") or self.F.ts(ti) in ("usize",) or self.F.adt_of(ti) in (SPL + "Splitter", SPL + "SavedIndices")

    # ------------------------------------------------------------------ calls
    def call(self, I, st, cal, args, site):
        F = self.F
        nm = cal.nm
        if nm in ("next", "next_back", "nth", "pop", "pop_first", "pop_last", "pop_front", "pop_back", "next_if", "next_if_eq") and args and args[0][0] == "ref":
            ti = cal.args[0] if cal.args and isinstance(cal.args[0], int) else None
            it = cal.tr in (ITER, "core::iter::traits::double_ended::DoubleEndedIterator") and ti is not None and finite(F, ti) \
                and not F.ts(ti).startswith("core::ops::range::Range<") and not (F.adt_of(ti) or "").startswith(SPL)
            pop = cal.p.startswith(("alloc::vec::Vec", "alloc::collections::", "core::iter::adapters::peekable::"))
            if it or pop:
                loc = args[0][1]
                v = I.read(st, loc)
                s0, s1 = st.copy(), st.copy()
                I.write(s0, loc, ("s", ("adv0", I.term(v))))
                I.write(s1, loc, ("s", ("adv", I.term(v))))
                x = ("s", ("nx", site.fn.id, site.bb, hash(site.chain)))
                if I.cur_dty is not None:
                    a = F.types[I.cur_dty].get("a") or []
                    if a and isinstance(a[0], int):
                        I.tty.setdefault(x[1], a[0])
                return [(s0, ("adt", OPT, 0, ())), (s1, ("adt", OPT, 1, (x,)))]
        if nm in ("peek", "size_hint", "by_ref", "as_slice", "is_empty", "len") and cal.p.startswith(("core::iter::adapters::peekable", "core::slice::iter")) and args[0][0] == "ref":
            if nm == "by_ref":
                return [(st, args[0])]
            return [(st, ("s", ("pk", site.fn.id, site.bb, hash(site.chain))))]
        if cal.p in ("core::cmp::max", "core::cmp::min", "core::cmp::Ord::max", "core::cmp::Ord::min") and len(args) == 2 \
                and I.cur_dty is not None and F.ts(I.cur_dty) == "usize":
            a, b = canon(I.term(args[0])), canon(I.term(args[1]))
            s1, s2 = st.copy(), st.copy()
            s1.facts[("cmp", "Lt", a, b)] = ("in", frozenset([0]))
            s2.facts[("cmp", "Lt", b, a)] = ("in", frozenset([0]))
            return [(s1, args[0] if nm == "max" else args[1]), (s2, args[1] if nm == "max" else args[0])]
        if nm == "as_ref" and cal.tr == "core::convert::AsRef" and cal.args and isinstance(cal.args[0], int) and F.types[cal.args[0]].get("k") == "ref" and not self.light:
            ti, v = cal.args[0], args[0]
            while F.types[ti].get("k") == "ref" and v[0] == "ref":
                ti, v = F.types[ti]["t"], I.read(st, v[1])
            for f in F.fns.values():
                if v[0] == "ref" and f.nm == "as_ref" and f.body and f.impl and f.impl.get("tr") == cal.tr and F.adt_of(f.impl["self"]) == F.adt_of(ti) is not None:
                    sub = tuple(x if isinstance(x, int) else None for x in F.types[ti].get("a", []))
                    fr = ("asref", site.fn.id, site.bb, hash(site.chain))
                    return I.exec_fn(f, [v], st, sub, fr, site.chain + ((site.fn.id, site.bb, site.line),), 4)
        if nm in ("strip_suffix", "strip_prefix") and cal.p.startswith("core::slice::") and len(args) == 2:
            t = I.slice_term(st, args[0]) or I.sl(st, args[0])
            k = self.const_len(I, st, args[1])
            if t is not None and k:
                s1 = st.copy()
                n = len_of(t)
                s1.facts[("cmp", "Lt", canon(n), ("c", k))] = ("in", frozenset([0]))
                x = ("sub", t, ("c", 0), canon(("op", "Sub", n, ("c", k)))) if nm == "strip_suffix" else ("sub", t, ("c", k), canon(n))
                b, lo, hi = base_of(x)
                return [(st, ("adt", OPT, 0, ())), (s1, ("adt", OPT, 1, (("s", ("sub", b, lo, hi)),)))]
        return super().call(I, st, cal, args, site)

    def drop(self, I, st, v, ti, site):
        """A guard that holds a place puts something back there."""
        F = self.F
        if not isinstance(ti, int) or self.light:
            return None
        p = F.adt_of(ti)
        if p not in F.adts or not any(F.types[f["t"]].get("k") == "ref" and F.types[f["t"]].get("m") for x in F.adts[p]["vs"] for f in x["f"]):
            return None
        for f in F.fns.values():
            if f.nm == "drop" and f.body and f.impl and f.impl.get("tr") == "core::ops::drop::Drop" and F.adt_of(f.impl["self"]) == p:
                s2 = st.copy()
                loc = (("M", ("guard", site.fn.id, site.bb, hash(site.chain))), ())
                I.write(s2, loc, v)
                sub = tuple(x if isinstance(x, int) else None for x in F.types[ti].get("a", []))
                fr = ("drop", site.fn.id, site.bb, hash(site.chain))
                return [x for x, _ in I.exec_fn(f, [("ref", loc)], s2, sub, fr, site.chain + (("drop", site.bb),), 3)]
        return None

    def const_len(self, I, st, a):
        if a[0] == "ref":
            a = I.read(st, a[1])
        if a[0] == "b":
            return len(a[1])
        if a[0] == "adt" and a[1] == "array":
            return len(a[3])
        return None

    def leave(self, I, st, val, fn):
        """What is known of an encoding never decides how far a parser gets: forgetting it keeps the paths few."""
        def enc(v):
            if v[0] == "adt":
                if v[1] == SPL + "Encoding":
                    return ("s", ("enc",))
                w = tuple(enc(x) for x in v[3])
                return v if w == v[3] else v[:3] + (w,)
            return v
        for k, v in st.store.items():
            if v[0] == "adt":
                st.store[k] = enc(v)
        for t in [t for t in st.facts if noise(t)]:
            del st.facts[t]
        return enc(val)

    # ------------------------------------------------------------------ loops
    def joined(self, I, states, st):
        """How a number that is no longer known compares with those it was known by."""
        hy = {}

        def prove(s, goal):
            if id(s) not in hy:
                hy[id(s)] = known(I, s)
            return implies(goal, hy[id(s)][0], lambda a: (), hy[id(s)][1])

        for k, v in st.store.items():
            if v[0] != "s" or v[1][0] != "join" or v[1][-1] != k:
                continue
            vs = [canon(I.term(s.store[k])) for s in states if k in s.store]
            if len(vs) != len(states) or not all(x[0] in ("lin", "op", "c", "loop", "len", "pos", "join") and (x[0] != "c" or isinstance(x[1], int)) for x in vs):
                continue
            for a in sorted({a for x in vs for a in lin(x)[1]}, key=repr)[:6]:
                for goal, fact, val in ((lambda x: ge(x, a), ("cmp", "Lt", v[1], a), 0), (lambda x: ge(x, add(a, ONE)), ("cmp", "Lt", a, v[1]), 1),
                                        (lambda x: ge(a, x), ("cmp", "Lt", a, v[1]), 0)):
                    if fact not in st.facts and all(prove(s, goal(x)) for s, x in zip(states, vs)):
                        st.facts[fact] = ("in", frozenset([val]))

    def head(self, I, fn, frame, head, st, havoced):
        n = bounds(I.F)
        for k in havoced if n else ():
            if k[1] and k[1][-1] in (("f", n["start"]), ("f", n["end"])):
                ti = I.ttype(("loop", frame, head, (k[0], k[1][:-1])))
                if ti is not None and I.F.adt_of(ti) == SPL + "Range":
                    lo, hi = (canon(I.term(I.read(st, (k[0], k[1][:-1] + (("f", n[x]),))))) for x in ("start", "end"))
                    st.facts[("cmp", "Lt", hi, lo)] = ("in", frozenset([0]))

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        super().loop(I, fn, frame, head, states, backs, exits, rets, havoced)
        key = (fn.id, head)
        self.seen.add(key)
        self.found.setdefault(key, [])
        for bb, t, c in calls(fn):
            if bb in I.prep(fn)["loops"][head] and WAIT.match(c.get("tr") or ""):
                return
        J = Judge(self, I, fn, frame, head, states, backs, havoced)
        why = J.why()
        for s in [s for ss in exits.values() for s in ss] + [s for s, _ in rets]:
            for a, b in J.rel:      # a is never less than b
                s.facts[("cmp", "Lt", canon(a), canon(b))] = ("in", frozenset([0]))
        if why:
            self.found[key].append(why)


class Judge:
    def __init__(self, H, I, fn, frame, head, states, backs, havoced):
        self.H, self.I, self.fn, self.frame, self.head = H, I, fn, frame, head
        self.states, self.backs, self.havoced = states, backs, havoced
        self.inv = []
        self.hy = {}
        self.rel = []

    def loopy(self, t):
        return any(x[0] == "loop" and x[1:3] == (self.frame, self.head) for x in subterms(t) if isinstance(x, tuple) and len(x) == 4)

    def leaves(self, head, vals, path=()):
        """(what it is at the head, at each way back) for a place and the fields that are known one by one."""
        yield path, head, vals
        if all(v[0] == "adt" for v in vals) and vals and len({(v[1], v[2], len(v[3])) for v in vals}) == 1 and len(path) < 4 and vals[0][2] == 0:
            for i in range(len(vals[0][3])):
                h = self.I.project(head, (("f", i),))
                yield from self.leaves(h, [v[3][i] for v in vals], path + (i,))

    def hyp(self, s):
        k = id(s)
        if k not in self.hy:
            hs, ne = known(self.I, s)
            self.hy[k] = (hs + self.ranges(s), ne)
        return self.hy[k]

    def ranges(self, s):
        """What a splitter has left never ends before it starts."""
        F, I = self.I.F, self.I
        n = bounds(F)
        if not n:
            return []
        rs = set()
        for t in list(s.facts) + [I.term(I.read(e, k)) for e in self.states for k in self.havoced if I.read(e, k)[0] == "s"]:
            for x in subterms(t):
                if isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] in (n["start"], n["end"]) and x[1] not in rs:
                    ti = I.ttype(x[1])
                    if ti is not None and F.adt_of(ti) == SPL + "Range":
                        rs.add(x[1])
        return [ge(("fld", r, n["end"]), ("fld", r, n["start"])) for r in rs]

    def extra(self, a):
        return ()

    def prove(self, s, goal):
        hs, ne = self.hyp(s)
        return implies(goal, hs + self.inv, self.extra, ne)

    def num(self, v):
        return canon(self.I.term(v))

    def why(self):
        I = self.I
        if not self.backs:
            return None
        ms = []                     # (name, [strict? or None per way back])
        for k in sorted(self.havoced, key=repr):
            L = ("loop", self.frame, self.head, k)
            vals = [I.read(s, k) for s in self.backs]
            for path, h, vs in self.leaves(("s", L), vals):
                if any(v[0] not in ("s", "c", "b", "st") for v in vs):
                    continue
                ht = I.term(h)
                ts = [I.term(v) for v in vs]
                m = self.iters(ht, ts)
                if m:
                    ms.append(m)
                for l, xs in ((ht, ts), (("len", ht), [len_of(t) for t in ts])):
                    if any(x == ("len", t) and t != ht for x, t in zip(xs, ts)):
                        continue
                    if all(x == l for x in xs) or not any(l in lin(x)[1] or inner(x) or x[0] in ("len", "lin", "op", "pos") for x in xs):
                        continue
                    e = self.entries(k, path, l)
                    m = self.down(l, xs)
                    if m and e:
                        self.rel.append((e, l))
                    if not m:
                        m = self.up(k, path, l, xs)
                        if e and all(self.prove(s, ge(x, l)) for s, x in zip(self.backs, xs)):
                            self.rel.append((l, e))
                    if m:
                        ms.append(m)
        for i, s in enumerate(self.backs):
            if not any(m[i] for m in ms):
                if os.environ.get("VZ_DBG15"):
                    print("LOOP", self.fn.p, self.head, ms)
                    for k in self.havoced:
                        print("  K", str(k)[:200], "E", [str(I.read(x, k))[:200] for x in self.states], "B", str(I.read(s, k))[:600])
                    for f, v in s.facts.items():
                        print("    F", str(f)[:300], str(v)[:60])
                return self.tell(s, bool(ms))
        return None

    def iters(self, L, ts):
        out = []
        for t in ts:
            n = 0
            while t[0] in ("adv", "adv0"):
                n += t[0] == "adv"
                t = t[1]
            if t != L:
                return None
            out.append(n > 0)
        return out if any(out) else None

    def down(self, L, ts):
        if not all(self.prove(s, ge(L, t)) for s, t in zip(self.backs, ts)):
            return None
        return [self.prove(s, ge(L, add(t, ONE))) for s, t in zip(self.backs, ts)]

    def up(self, k, path, L, ts):
        cands = []
        for s in self.backs:
            for f in s.facts:
                if f[0] == "cmp":
                    cands += [f[2], f[3]]
                for x in subterms(f):
                    if isinstance(x, tuple) and len(x) == 4 and x[0] == "sub":
                        cands += [x[3], ("len", x[1])]
        for s in self.states:
            loc = (k[0], k[1] + tuple(("f", i) for i in path))
            if loc[1]:
                for j in range(4):
                    sib = (loc[0], loc[1][:-1] + (("f", j),))
                    if sib != loc:
                        try:
                            cands.append(I_term(self.I, s, sib))
                        except Exception:
                            pass
        seen = []
        for c in cands:
            c = canon(c)
            if c not in seen and not self.loopy(c):
                seen.append(c)
        for B in seen[:24]:
            g = ge(B, L)
            if not all(self.entry(s, k, path, B, L) for s in self.states):
                continue
            self.inv.append(g)      # holds on entry, and on every pass if it held before
            if all(self.prove(s, ge(B, t)) and self.prove(s, ge(t, L)) for s, t in zip(self.backs, ts)):
                self.rel.append((B, L))
                return [self.prove(s, ge(t, add(L, ONE))) for s, t in zip(self.backs, ts)]
            self.inv.pop()
        return None

    def entries(self, k, path, L):
        ts = {self.I.term(self.I.read(s, (k[0], k[1] + tuple(("f", i) for i in path)))) for s in self.states}
        if len(ts) != 1:
            return None
        t = next(iter(ts))
        return canon(len_of(t) if L[0] == "len" else t)

    def entry(self, s, k, path, B, L):
        v = self.I.read(s, (k[0], k[1] + tuple(("f", i) for i in path)))
        t = self.I.term(v)
        if L[0] == "len":
            t = len_of(t)
        hs, ne = self.hyp(s)
        n = bounds(self.I.F)
        p = k[1] + tuple(("f", i) for i in path)
        if n and p and p[-1] in (("f", n["start"]), ("f", n["end"])):
            ti = self.I.ttype(("loop", self.frame, self.head, (k[0], p[:-1])))
            if ti is not None and self.I.F.adt_of(ti) == SPL + "Range":
                lo, hi = (canon(I_term(self.I, s, (k[0], p[:-1] + (("f", n[x]),)))) for x in ("start", "end"))
                hs = hs + [ge(hi, lo)]
        return implies(ge(B, canon(t)), hs, self.extra, ne)

    def tell(self, s, some):
        return "a pass over it may leave everything that is still to be done as it was" if not some else \
            "some pass over it does not get any closer to its end"


def known(I, s):
    """(inequalities, pairs of different numbers) that a state's facts give."""
    ne = diseqs(s.facts)
    sets = []
    for t in s.facts:
        if t[0] == "elem" and len(t) == 3 and t[1][0] == "mem":
            b = I.byteset(s, t)
            ty = I.term_type(s, t[1][1])
            if ty:
                b &= SPEC[ty][0]
            sets.append((t, b))
    for i in range(len(sets)):
        for j in range(i + 1, len(sets)):
            (t, a), (u, b) = sets[i], sets[j]
            if t[1] == u[1] and not a & b:
                ne.append(ge(t[2], u[2]))
    out = hyps(s.facts)
    for t in list(s.facts):
        for x in subterms(t):
            if isinstance(x, tuple) and len(x) == 4 and x[0] == "sub":      # a part of a slice that was taken lies within it
                out += [ge(x[3], x[2]), ge(("len", x[1]), x[3])]
    return out, ne


def inner(t):
    """A number that a loop within the loop has moved."""
    return any(x[0] in ("loop", "join") for x in lin(t)[1] if isinstance(x, tuple) and x)


def bounds(F):
    if SPL + "Range" not in F.adts:
        return None
    n = {f["n"]: i for i, f in enumerate(F.adts[SPL + "Range"]["vs"][0]["f"])}
    return n if "start" in n and "end" in n else None


def I_term(I, s, loc):
    return I.term(I.read(s, loc))


def check(cx):
    F = cx.F
    seen, edges = scope(F)
    I0 = Interp(F)
    for i in sorted(seen, key=lambda i: F.fns[i].p):
        fn = F.fns[i]
        if not fn.body or not I0.prep(fn)["loops"] or (fn.impl or {}).get("derived") or fn.file.startswith("src/util/"):
            continue        # (containers and raw memory: C10, C17)
        if os.environ.get("VZ_DBG15") and not re.search(os.environ["VZ_DBG15"], fn.p):
            continue
        cx.guard("loops:" + fn.p, loops, cx, fn)
    cx.need("loop", 20)
    cx.guard("recursion", recursion, cx, edges)


def loops(cx, fn):
    """Loops are looked at with every call taken as unknown first; what that leaves open, with calls followed into."""
    cx.cover(fn)
    F = cx.F
    left, err = None, None
    for light in (True, False):
        H = Prog(F, cx, fn)
        H.light = light
        I = Interp(F, H)
        I.join_entry = True
        try:
            I.run(fn)
        except (Budget, Missing) as e:
            err = e
            continue
        err = None
        now = {k: v for k, v in H.found.items() if v}
        for head in I.prep(fn)["loops"]:
            if (fn.id, head) not in H.seen:
                now[(fn.id, head)] = ["it was not reached by the analysis"]
        for k in list(H.found) + list(now):
            cx.ob("loop", (F.fns[k[0]].p, k[1]))
        left = now if left is None else {k: now[k] for k in left if k in now}
        if not left:
            return
    if left is None:
        raise err
    for (f, head), why in sorted(left.items()):
        g = F.fns[f]
        cx.viol(f"loop:{g.p}:{head}", g.sp, f"a loop in {g.p} need not come to an end: {why[0]}" + (f" ({err})" if err else ""))


def recursion(cx, edges):
    F = cx.F
    color = {}
    for r in edges:
        if r in color:
            continue
        stack = [(r, iter(sorted(x for x, _ in edges.get(r, ()))))]
        color[r] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in color:
                    color[m] = 1
                    stack.append((m, iter(sorted(x for x, _ in edges.get(m, ())))))
                    break
                if color[m] == 1:
                    f = F.fns[m]
                    cx.viol("rec:" + f.p, f.sp, f"{f.p} can call itself while parsing (through {F.fns[n].p})")
            else:
                color[n] = 2
                cx.ob("no recursion", F.fns[n].p)
                stack.pop()
    cx.need("no recursion", 60)
