"""C33: channel mode classes stay disjoint and mode sets are exact."""
import itertools
from facts import strip_lt, Missing
from interp import Interp
from rules.strs import StrHook
from rules.valset import ev, holds, atoms, Unknown, pointwise, M64

EXPLAIN = ("The result term of every mode-set operation is extracted by abstract interpretation. A term made only of bitwise "
           "operations acts on each bit separately, so comparing it with the set-theoretic definition for all 0/1 combinations of "
           "its operands and all 52 letters decides it for every set. The letter-to-slot map is decided over all byte values, the "
           "slot-to-letter map over all slots. Loops over the four classes have a constant trip count and are followed exactly; "
           "the parsing loops are closed by a fixpoint and each iteration's effect is compared with its specification.")
P = "state::mode::"
MODE, SET, TYPES, ITER = P + "Mode", P + "ModeSet", P + "ModeTypes", P + "ModeSetIter"
LETTERS = frozenset(range(65, 91)) | frozenset(range(97, 123))


class H(StrHook):
    max_depth = 14

    def __init__(self, F):
        super().__init__(F)
        self.loops = []
        self.folds = []

    def call(self, I, st, cal, args, site):
        if cal.nm in ("ilog2", "trailing_zeros", "leading_zeros", "count_ones") and cal.id not in self.F.fns:
            t = I.term(args[0], st)
            return [(st, ("s", (cal.nm, t)))]
        if cal.nm == "fold" and len(args) == 3:
            tup = ("adt", "tuple", 0, (("s", ("arg", "acc")), ("s", ("arg", "item"))))
            outs = I.call_fnlike(st, [args[2], tup], [None, None], site, ("fold", site.bb), 1, None)
            if outs:
                self.folds.append((site.fn, args[1], outs))
                return [(st, ("s", ("foldres", site.bb)))]
        return super().call(I, st, cal, args, site)

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        self.loops.append((fn, frame, head, states, backs, exits, rets, havoced, getattr(I, "loop_heads", []), getattr(I, "loop_edges", [])))

    def snapshot(self):
        return len(self.loops)

    def restore(self, n):
        del self.loops[n:]


def run(F, fn, unroll=8):
    h = H(F)
    I = Interp(F, h)
    I.unroll = unroll
    outs = I.run(fn)
    if not outs:
        raise Missing("no result")
    return I, h, outs


class Ck:
    def __init__(self, cx):
        self.cx, self.F = cx, cx.F
        self.mask = None

    def fn(self, p):
        return self.F.fn(p)

    # -- letters and slots
    def letters(self):
        cx, F = self.cx, self.F
        fn = self.fn(MODE + "::new")
        I, h, outs = run(F, fn)
        cx.cover(fn)
        cx.ob("accepted letters", fn.p)
        for b in range(256):
            env = {("arg", 1): b}
            for st, v in outs:
                if not holds(st, env):
                    continue
                some = v[0] == "adt" and v[2] == 1
                if some != (b in LETTERS):
                    cx.viol("new", fn.sp, f"{fn.p} {'accepts' if some else 'rejects'} {bytes([b])!r}")
                    return
                if some and ev(I.term(v[3][0][3][0] if v[3][0][0] == "adt" else v[3][0]), env) != b:
                    cx.viol("new", fn.sp, f"{fn.p} stores another letter for {bytes([b])!r}")
                    return

    def masks(self):
        cx, F = self.cx, self.F
        fn = self.fn(MODE + "::mask")
        I, h, outs = run(F, fn)
        cx.cover(fn)
        cx.ob("one slot per letter", fn.p)
        tab = {}
        A = ("fld", ("arg", 1), 0)
        for b in LETTERS:
            vs = {ev(I.term(v), {A: b, ("arg", 1): b}) for st, v in outs if holds(st, {A: b, ("arg", 1): b})}
            if len(vs) != 1:
                raise Missing(f"no single slot for {chr(b)}")
            tab[b] = vs.pop()
        if len(set(tab.values())) != 52 or any(m.bit_count() != 1 for m in tab.values()):
            d = [chr(b) for b in tab if list(tab.values()).count(tab[b]) > 1 or tab[b].bit_count() != 1]
            cx.viol("mask", fn.sp, f"letters {d} do not have a slot of their own")
        self.mask = tab

    def back(self):
        """The slot-to-letter map of the iterator, and that iteration removes what it yields."""
        cx, F = self.cx, self.F
        for nm, bit in (("next", "ilog2"), ("next_back", "trailing_zeros")):
            fs = [f for f in F.fns.values() if f.nm == nm and f.impl and isinstance(f.impl.get("self"), int) and F.ts(f.impl["self"]) == ITER]
            if not fs:
                raise Missing(f"no {nm} of the mode set iterator")
            fn = fs[0]
            I, h, outs = run(F, fn)
            cx.cover(fn)
            S = ("fld", ("mem", ("arg", 1)), 0)
            inv = {m: b for b, m in self.mask.items()}
            for st, v in outs:
                cx.ob("iteration step", fn.p)
                zero = st.facts.get(S) or next((f for t, f in st.facts.items() if S in atoms(t) and t[0] != "cmp"), None)
                if v[0] != "adt":
                    raise Missing("result of unknown shape")
                after = I.term(I.read(st, (("M", ("arg", 1)), (("f", 0),))))
                if v[2] == 0:
                    if not self.empty(st, S):
                        cx.viol(f"iter:{nm}", fn.sp, f"{fn.p} can end with modes left")
                    continue
                letter = I.term(I.project(v[3][0], (("f", 0),)))
                tops = [x for x in self.subterms((letter, after)) if x and x[0] in ("ilog2", "trailing_zeros", "leading_zeros") and S in self.subterms((x,))]
                if len(set(tops)) != 1:
                    raise Missing("letter does not depend on one bit position")
                top = tops[0]
                for m, b in inv.items():
                    k = m.bit_length() - 1
                    env = {top: k if top[0] != "leading_zeros" else 63 - k}
                    try:
                        got = ev(letter, env) & 255
                    except Unknown as e:
                        raise Missing(f"letter not decidable ({str(e)[:60]})")
                    if got != b:
                        cx.viol(f"iter:{nm}", fn.sp, f"{fn.p} yields {bytes([got])!r} for the slot of {chr(b)}")
                        return
                    # everything but this bit is kept
                    for w in (m, M64):
                        e2 = dict(env)
                        e2[S] = w
                        try:
                            r = ev(after, e2)
                        except Unknown as e:
                            raise Missing(f"remaining set not decidable ({str(e)[:60]})")
                        if r != w & ~m & M64:
                            cx.viol(f"iter:{nm}", fn.sp, f"{fn.p} does not remove exactly the mode it yields ({chr(b)})")
                            return
                if (top[0] in ("ilog2", "leading_zeros")) == (bit == "trailing_zeros"):
                    cx.viol(f"iter:{nm}", fn.sp, f"{fn.p} iterates from the wrong end")

    def subterms(self, ts):
        out = set()
        todo = list(ts)
        while todo:
            t = todo.pop()
            if not isinstance(t, tuple) or t in out:
                continue
            out.add(t)
            if len(t) < 100:
                todo.extend(x for x in t if isinstance(x, tuple))
        return out

    def empty(self, st, S):
        for t, f in st.facts.items():
            if f[0] == "in" and t == S and f[1] == frozenset({0}):
                return True
            if t[0] == "cmp" and t[1] == "Eq" and set(t[2:]) == {S, ("c", 0)} and f == ("in", frozenset({1})):
                return True
            if t[0] == "discr" and f == ("in", frozenset({0})) and S in self.subterms((t,)):
                return True
        return False

    # -- bitwise terms
    def bits(self, key, fn, t, ats, letter, spec, what, st=None):
        """t must equal spec(words, mask) for all words of the atoms and all letters (that the path allows)."""
        cx = self.cx
        cx.ob("bitwise operation exact for every letter and set", f"{fn.p}: {what}")
        if not pointwise(t, letter):
            raise Missing(f"{what} is not a bitwise term")
        extra = atoms(t) - set(ats) - {letter}
        if extra:
            raise Missing(f"{what} depends on {str(next(iter(extra)))[:80]}")
        for b in (sorted(LETTERS) if letter else [None]):
            m = self.mask[b] if b is not None else 0
            if st is not None and b is not None and not self.may_be(st, letter, b):
                continue
            for ws in itertools.product((0, M64), repeat=len(ats)):
                env = dict(zip(ats, ws))
                if b is not None:
                    env[letter] = b
                bad = ev(t, env) ^ spec(ws, m) & M64
                if bad and st is not None:
                    bad &= ~self.excluded(st, env, ats, letter, m)
                if bad:
                    cx.viol(f"{key}:{fn.p}", fn.sp, f"{fn.p}: {what} is wrong" + (f" for mode {chr(b)}" if b else ""))
                    return False
        return True

    def may_be(self, st, letter, b):
        f = st.facts.get(letter)
        return f is None or (f[0] == "in") == (b in f[1])

    def excluded(self, st, env, ats, letter, m):
        """The bit positions at which the facts of the path rule out this combination of operand bits."""
        out = 0
        known = set(ats) | {letter}
        for t, f in st.facts.items():
            pairs = None
            if t[0] == "cmp" and t[1] == "Eq" and all(pointwise(x, letter) for x in t[2:]):
                pairs = (t[2], t[3], 1 in f[1] if f[0] == "in" and len(f[1]) == 1 else None)
            elif t[0] in ("op", "un", "fld", "loop") and pointwise(t, letter):
                pairs = (t, ("c", 0), True if f == ("in", frozenset({0})) else False if (0 in f[1]) == (f[0] == "not") else None)
            if not pairs or pairs[2] is None or not (atoms(pairs[0]) | atoms(pairs[1])) <= known:
                continue
            d = ev(pairs[0], env) ^ ev(pairs[1], env)
            if pairs[2]:                      # equal: no bit differs
                out |= d
            else:                             # different: if only this mode's bit can differ, it does
                sup = 0
                for ws in itertools.product((0, M64), repeat=len(ats)):
                    e2 = dict(env)
                    e2.update(zip(ats, ws))
                    sup |= ev(pairs[0], e2) ^ ev(pairs[1], e2)
                if m and not sup & ~m and not d & m:
                    out |= m
        return out

    def word(self, I, v):
        """The word of a ModeSet value."""
        return I.term(I.project(v, (("f", 0),)))

    def differs(self, key, fn, t, S, letter, when):
        """t must be true exactly when bit(S) == when; t is a comparison of bitwise terms."""
        cx = self.cx
        neg = False
        while t[0] == "not":
            t, neg = t[1], not neg
        cx.ob("bitwise test exact for every letter and set", fn.p)
        if t[0] != "cmp" or t[1] != "Eq" or not all(pointwise(x, letter) for x in t[2:]):
            raise Missing("result is not a comparison of bitwise terms")
        for b in sorted(LETTERS):
            m = self.mask[b]
            for w in (0, M64):
                env = {S: w, letter: b}
                d = ev(t[2], env) ^ ev(t[3], env)
                # bits other than this letter's never make a difference
                if d & ~m:
                    cx.viol(f"{key}:{fn.p}", fn.sp, f"{fn.p} looks at other modes than {chr(b)}")
                    return
                equal = not d & m
                res = equal != neg
                if res != ((1 if w else 0) == when):
                    cx.viol(f"{key}:{fn.p}", fn.sp, f"{fn.p} reports the wrong result for mode {chr(b)}")
                    return

    def setops(self):
        cx, F = self.cx, self.F
        A1, A2 = ("fld", ("arg", 1), 0), ("fld", ("arg", 2), 0)
        S = ("fld", ("mem", ("arg", 1)), 0)
        for nm, spec in (("union", lambda w, m: w[0] | w[1]), ("intersection", lambda w, m: w[0] & w[1]), ("difference", lambda w, m: w[0] & ~w[1])):
            fn = self.fn(f"{SET}::{nm}")
            I, h, outs = run(F, fn)
            cx.cover(fn)
            for st, v in outs:
                self.bits(nm, fn, self.word(I, v), (A1, A2), None, spec, nm)
        fn = self.fn(SET + "::new")
        I, h, outs = run(F, fn)
        self.bits("new", fn, self.word(I, outs[0][1]), (), None, lambda w, m: 0, "the empty set")
        fn = self.fn(SET + "::with")
        I, h, outs = run(F, fn)
        cx.cover(fn)
        for st, v in outs:
            self.bits("with", fn, self.word(I, v), (A1,), A2, lambda w, m: w[0] | m, "adding a mode")
        for nm, spec, when in (("set", lambda w, m: w[0] | m, 0), ("unset", lambda w, m: w[0] & ~m, 1)):
            fn = self.fn(f"{SET}::{nm}")
            I, h, outs = run(F, fn)
            cx.cover(fn)
            for st, v in outs:
                new = I.term(I.read(st, (("M", ("arg", 1)), (("f", 0),))))
                self.branchy(nm, fn, I, st, v, new, S, A2, spec, when)
        fn = self.fn(SET + "::contains")
        I, h, outs = run(F, fn)
        cx.cover(fn)
        for st, v in outs:
            self.branchy("contains", fn, I, st, v, None, S, A2, None, 1)
        fn = self.fn(SET + "::is_empty")
        I, h, outs = run(F, fn)
        for st, v in outs:
            cx.ob("emptiness", fn.p)
            k = I.known(st, v)
            t = v[1] if v[0] == "s" else None
            if not (t and t[0] == "cmp" and t[1] == "Eq" and set(t[2:]) == {S, ("c", 0)} or k == 1 and self.empty(st, S) or k == 0 and S in st.facts and not self.empty(st, S)
                    or t and t[0] == "cmp" and t[1] == "Eq" and set(t[2:]) == {("count_ones", S), ("c", 0)}):
                cx.viol("empty", fn.sp, f"{fn.p} does not report emptiness of the whole set")
        for p in (SET + "::len",):
            fn = self.fn(p)
            I, h, outs = run(F, fn)
            for st, v in outs:
                cx.ob("size", fn.p)
                if I.term(v) != ("count_ones", S):
                    cx.viol("len", fn.sp, f"{fn.p} does not count the modes")

    def branchy(self, key, fn, I, st, v, new, S, letter, spec, when):
        """A set update/test, either as one expression or after branching on membership."""
        cx = self.cx
        known = None
        for t, f in st.facts.items():
            if S in atoms(t) and letter in atoms(t) and pointwise(t, letter):
                z = (f[0] == "in" and f[1] == frozenset({0}), f[0] == "not" and 0 in f[1] or f[0] == "in" and 0 not in f[1])
                ok = all(ev(t, {S: 0, letter: b}) == 0 and ev(t, {S: M64, letter: b}) == self.mask[b] for b in LETTERS)
                if ok and any(z):
                    known = 0 if z[0] else 1
        if known is None:
            if new is not None:
                self.bits(key, fn, new, (S,), letter, spec, "the updated set")
            self.differs(key, fn, v[1] if v[0] == "s" else I.term(v), S, letter, when)
            return
        cx.ob("bitwise test exact for every letter and set", fn.p)
        if I.known(st, v) != int(known == when):
            cx.viol(f"{key}:{fn.p}", fn.sp, f"{fn.p} reports the wrong result")
        if new is not None:
            for b in LETTERS:
                m = self.mask[b]
                for w in (0, M64):
                    w2 = (w & ~m) | (m if known else 0)
                    if not pointwise(new, letter) or ev(new, {S: w2, letter: b}) != spec((w2,), m) & M64:
                        cx.viol(f"{key}:{fn.p}", fn.sp, f"{fn.p} stores the wrong set for mode {chr(b)}")
                        return

    # -- classes
    def classes(self):
        cx, F = self.cx, self.F
        vs = [v["n"] for v in F.adts[P + "ModeType"]["vs"]]
        cx.ob("class numbering", P + "ModeType")
        if vs != ["TypeA", "TypeB", "TypeC", "TypeD", "Status"]:
            cx.viol("classes", "src/state/mode.rs", "the mode classes are not numbered A, B, C, D, Status")
            return
        # from_sets: the four results are pairwise disjoint parts of the inputs, overlap is the rest
        fn = self.fn(TYPES + "::from_sets")
        I, h, outs = run(F, fn)
        cx.cover(fn)
        ats = [("fld", ("arg", i), 0) for i in (1, 2, 3, 4)]
        for st, v in outs:
            self.split(fn, I, v[3][0], v[3][1], ats)
        cell = [("fld", ("elem", ("fld", ("mem", ("arg", 1)), 0), ("c", i)), 0) for i in range(4)]
        for nm, isset in (("insert", False), ("insert_set", True)):
            fn = self.fn(f"{TYPES}::{nm}")
            I, h, outs = run(F, fn)
            cx.cover(fn)
            L = ("fld", ("arg", 2), 0)
            seen = set()
            for st, v in outs:
                ks = self.discr_of(st, ("discr", ("arg", 3)), 5)
                seen |= ks
                for k in ks:
                    for i in range(4):
                        t = I.term(I.read(st, (("M", ("arg", 1)), (("f", 0), ("ix", ("c", i)), ("f", 0)))))
                        if isset:
                            self.bits(nm, fn, t, (cell[i], L), None, (lambda w, m: w[0] | w[1]) if i == k else (lambda w, m: w[0] & ~w[1]), f"class {i} after inserting into class {k}", st)
                        else:
                            self.bits(nm, fn, t, (cell[i],), L, (lambda w, m: w[0] | m) if i == k else (lambda w, m: w[0] & ~m), f"class {i} after inserting into class {k}", st)
            if seen != set(range(5)):
                cx.viol(f"{nm}:cases", fn.sp, f"{fn.p} has no result for class {sorted(set(range(5)) - seen)}")
        fn = self.fn(TYPES + "::from_set")
        I, h, outs = run(F, fn)
        cx.cover(fn)
        for st, v in outs:
            for k in self.discr_of(st, ("discr", ("arg", 2)), 5):
                for i in range(4):
                    t = self.word(I, I.project(v, (("f", 0), ("ix", ("c", i)))))
                    self.bits("from_set", fn, t, (("fld", ("arg", 1), 0),), None, (lambda w, m: w[0]) if i == k else (lambda w, m: 0), f"class {i} of a set of class {k}")
        # get
        fn = self.fn(TYPES + "::get")
        I, h, outs = run(F, fn)
        cx.cover(fn)
        L = ("fld", ("arg", 2), 0)
        for st, v in outs:
            cx.ob("class lookup", fn.p)
            inn, out = set(), set()
            for t, f in st.facts.items():
                for i in range(4):
                    if cell[i] in atoms(t) and pointwise(t, L) and all(ev(t, {cell[i]: 0, L: b}) == 0 and ev(t, {cell[i]: M64, L: b}) == self.mask[b] for b in LETTERS):
                        if f == ("in", frozenset({0})):
                            out.add(i)
                        elif f[0] == "not" and 0 in f[1] or f[0] == "in" and 0 not in f[1]:
                            inn.add(i)
            if v[0] != "adt":
                raise Missing("result of unknown shape")
            if v[2] == 0:
                if out != {0, 1, 2, 3}:
                    cx.viol("get", fn.sp, f"{fn.p} can miss a mode that is in a class")
            else:
                x = v[3][0]
                k = x[1] if x[0] == "c" else x[2] if x[0] == "adt" else None
                if k not in inn:
                    cx.viol("get", fn.sp, f"{fn.p} can report class {k} for a mode that is not in it")

    def split(self, fn, I, types, overlap, ats):
        cells = [self.word(I, I.project(types, (("f", 0), ("ix", ("c", i))))) for i in range(4)]
        for i in range(4):
            self.bits("classes", fn, cells[i], ats, None, lambda w, m, i=i: w[i] if sum(1 for x in w if x) == 1 else 0, f"class {i} of the result")
        self.bits("classes", fn, self.word(I, overlap), ats, None, lambda w, m: M64 if sum(1 for x in w if x) > 1 else 0, "the reported overlap")

    def discr_of(self, st, t, n):
        f = st.facts.get(t)
        if f is None:
            return set(range(n))
        return {i for i in range(n) if (i in f[1]) == (f[0] == "in")}

    # -- parsing loops
    def parse(self):
        cx, F = self.cx, self.F
        fn = self.fn(TYPES + "::parse")
        I, h, outs = run(F, fn)
        cx.cover(fn)
        L = [x for x in h.loops if x[0] is fn]
        if len(L) != 1:
            raise Missing("not one parsing loop")
        _, frame, head, states, backs, exits, rets, havoced, heads, edges = L[0]
        arrs = {k[0] for s in backs for k in s.store if k[0][0] == "L" and k[1] and k[1][0][0] == "ix"}
        if len(arrs) != 1:
            raise Missing("class sets not found")
        arr = next(iter(arrs))

        def cells(s):
            return [I.term(I.read(s, (arr, (("ix", ("c", i)), ("f", 0))))) for i in range(4)]
        # breadth-first over the control points: how many commas have been read
        level = {0: 0}
        todo = [0]
        steps = {}
        for src, dst, st in edges:
            steps.setdefault(src, []).append((dst, st))
        while todo:
            src = todo.pop(0)
            for dst, st in steps.get(src, []):
                cx.ob("parsing step", f"{fn.p} after {level[src]} commas")
                byte = [(t, f) for t, f in st.facts.items() if t[0] == "elem" and t[-1] == ("c", 0) and f[0] == "in" and t[1][0] == "mem" and t[1][1][0] == "loop"]
                if len(byte) != 1:
                    raise Missing("no single byte per step")
                bt, bs = byte[0][0], byte[0][1][1]
                old, new = cells(heads[src]), cells(st)
                lv = level[src] + (1 if bs == frozenset({44}) else 0)
                if bs & LETTERS and not bs <= LETTERS or 44 in bs and len(bs) > 1:
                    cx.viol("parse", fn.sp, f"{fn.p} treats some mode letters like {bytes(sorted(bs))[:20]!r}")
                if lv > 3:
                    cx.viol("parse", fn.sp, f"{fn.p} goes on after the fourth class")
                    continue
                for i in range(4):
                    if bs <= LETTERS and i == level[src]:
                        ats = [a for a in atoms(old[i])]
                        if len(ats) > 1:
                            raise Missing("class set of unknown shape")
                        if ats:
                            self.bits("parse", fn, new[i], ats, bt, lambda w, m: w[0] | m, "class set after a letter", st)
                        else:
                            self.bits("parse", fn, new[i], (), bt, lambda w, m: ev(old[i], {}) | m, "class set after a letter", st)
                    elif new[i] != old[i]:
                        cx.viol("parse", fn.sp, f"{fn.p} changes class {i} for {bytes(sorted(bs))[:8]!r} after {level[src]} commas")
                if dst not in level:
                    level[dst] = lv
                    todo.append(dst)
                elif level[dst] != lv:
                    cx.viol("parse", fn.sp, f"{fn.p} does not keep track of the current class")
        cx.ob("every class is reached", fn.p)
        if set(level.values()) != {0, 1, 2, 3}:
            cx.viol("parse", fn.sp, f"{fn.p} does not reach all four classes")
        # the loop ends with the input or a comma too many
        for st, v in outs:
            cells = []
            for i in range(4):
                cells.append(None)
            ov = v[3][1]
            ats = sorted(atoms(self.word(I, ov)), key=repr)
            ts = [self.word(I, I.project(v[3][0], (("f", 0), ("ix", ("c", i))))) for i in range(4)]
            cx.ob("parsed classes are disjoint", fn.p)
            allat = sorted(set().union(*[atoms(t) for t in ts + [self.word(I, ov)]]), key=repr)
            if not all(pointwise(t) for t in ts):
                raise Missing("classes are not bitwise terms")
            for ws in itertools.product((0, M64), repeat=len(allat)):
                env = dict(zip(allat, ws))
                r = [ev(t, env) for t in ts]
                if sum(1 for x in r if x) > 1:
                    cx.viol("parse", fn.sp, f"{fn.p} can put a letter into two classes")
                    break

    def collect(self):
        cx, F = self.cx, self.F
        for fn in F.fns.values():
            if fn.nm != "from_iter" or not fn.impl or not isinstance(fn.impl.get("self"), int) or F.ts(fn.impl["self"]) != SET:
                continue
            I, h, outs = run(F, fn)
            cx.cover(fn)
            L = [x for x in h.loops if x[0] is fn]
            for f, init, res in h.folds:
                A, B = ("fld", ("arg", "acc"), 0), ("fld", ("arg", "item"), 0)
                self.bits("collect", fn, self.word(I, init), (), None, lambda w, m: 0, "the initial set")
                for st, v in res:
                    cx.ob("collecting step", fn.p)
                    self.bits("collect", fn, self.word(I, v), (A,), B, lambda w, m: w[0] | m, "the set after adding", st)
            if h.folds and not L:
                continue
            if len(L) != 1 or not L[0][4]:
                raise Missing("no collecting loop")
            hav = L[0][7]
            keys = {k for st in L[0][4] for k, v in st.store.items() if k in hav and v[0] == "s" and v[1][0] == "op"}
            lts = {x[1] for st in L[0][4] for k in keys for x in self.subterms((I.term(st.store.get(k, ("c", 0))),)) if x and x[0] == "bf"}
            if len(keys) != 1 or len(lts) != 1:
                raise Missing("no single set or mode per step")
            k, lt = keys.pop(), lts.pop()
            acc = ("loop", L[0][1], L[0][2], k)
            for st in L[0][4]:
                cx.ob("collecting step", fn.p)
                self.bits("collect", fn, I.term(I.read(st, k)), (acc,), lt, lambda w, m: w[0] | m, "the set after adding", st)

    def order(self):
        cx, F = self.cx, self.F
        for fn in F.fns.values():
            if not fn.impl or not isinstance(fn.impl.get("self"), int) or fn.body is None:
                continue
            s, tr = F.ts(fn.impl["self"]), fn.impl.get("tr")
            if s == SET and tr == "core::cmp::PartialOrd" and fn.nm == "partial_cmp":
                I, h, outs = run(F, fn)
                cx.cover(fn)
                A, B = ("fld", ("mem", ("arg", 1)), 0), ("fld", ("mem", ("arg", 2)), 0)
                for st, v in outs:
                    cx.ob("subset ordering", fn.p)
                    sub = {}
                    for t, f in st.facts.items():
                        if t[0] == "cmp" and t[1] == "Eq" and f[0] == "in" and len(f[1]) == 1 and all(pointwise(x) for x in t[2:]) and atoms(t) <= {A, B}:
                            tab = {(a, b): ev(t[2], {A: M64 * a, B: M64 * b}) == ev(t[3], {A: M64 * a, B: M64 * b}) for a in (0, 1) for b in (0, 1)}
                            k = next(iter(f[1]))
                            if tab == {(a, b): not (a and not b) for a in (0, 1) for b in (0, 1)}:
                                sub["le"] = k
                            if tab == {(a, b): not (b and not a) for a in (0, 1) for b in (0, 1)}:
                                sub["ge"] = k
                            if tab == {(a, b): a == b for a in (0, 1) for b in (0, 1)}:
                                if k:
                                    sub["le"] = sub["ge"] = 1
                                else:
                                    sub["ne"] = 1
                    if sub.get("ne") and sub.get("le") == 1:
                        sub["ge"] = 0
                    if sub.get("ne") and sub.get("ge") == 1:
                        sub["le"] = 0
                    want = {(1, 1): 1, (1, 0): 0, (0, 1): 2, (0, 0): None}.get((sub.get("le"), sub.get("ge")), "?")
                    got = None if v[2] == 0 else v[3][0][2] if v[3][0][0] == "adt" else "?"
                    if want == "?" or got == "?":
                        raise Missing("subset relation not decided on a path")
                    if want != got:
                        cx.viol("order", fn.sp, f"{fn.p} is not the subset ordering")


def check(cx):
    ck = Ck(cx)
    cx.guard("letters", ck.letters)
    cx.guard("slots", ck.masks)
    if ck.mask is None:
        cx.viol("slots", "src/state/mode.rs", "letter slots not decidable")
        return
    for nm in ("back", "setops", "classes", "parse", "collect", "order"):
        cx.guard(nm, getattr(ck, nm))
    cx.need("bitwise operation exact for every letter and set", 30)
    cx.need("iteration step", 2)
    cx.need("parsing step", 1)
    cx.need("subset ordering", 1)
