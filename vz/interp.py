"""Path-sensitive abstract interpretation of MIR.

Abstract domain
  value   ('c', n)                        a known integer / bool / char
          ('b', bytes)                    a known byte/str literal (a reference to it)
          ('adt', path, variant, fields)  a known aggregate ('tuple', 'array', 'closure:<id>' ... as path)
          ('ref', loc)                    pointer to an abstract location
          ('fn', callee)                  function item
          ('bf', sym, vec)                a function of one symbolic byte, tabulated over its 256 values
          ('st', value, ((proj, value)..)) value with overridden parts
          ('s', term)                     anything else: a value number (term)
  loc     (base, proj)  base = ('L', frame, local) | ('M', pointer term)
  state   store: loc -> value, facts: term -> set of possible / excluded constants, auto: rule automaton

Joins: states that agree are merged at every block; loops are closed by havocking what the body changes
until the head state is stable; above a state budget states are joined.  No solver is involved.
"""
import re
from facts import strip_lt, Missing
from seqs import Seqs, canon, mk_sub, elem_ix, len_of, sub_, base_of, ONE, ZERO, tcontent

ALL = tuple(range(256))
ID256 = ALL


class Budget(Exception):
    pass


class CV:
    """A const-generic argument."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, CV) and o.v == self.v

    def __hash__(self):
        return hash(("CV", self.v))

    def __repr__(self):
        return f"CV({self.v})"


def _ga(I, x, sub):
    """Substitute one generic argument."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return I.subst(x, sub)
    if isinstance(x, dict) and "c" in x:
        pi = x.get("pi")
        if pi is not None:
            return sub[pi] if pi < len(sub) else None
        return CV(x["c"])
    return x


EXT_DOM = {
    "core::option::Option": (0, 1), "core::result::Result": (0, 1), "core::task::poll::Poll": (0, 1),
    "core::ops::control_flow::ControlFlow": (0, 1), "alloc::borrow::Cow": (0, 1), "core::cmp::Ordering": (255, 0, 1),
    "core::ops::range::Bound": (0, 1, 2), "std::collections::hash::map::Entry": (0, 1),
    "alloc::collections::btree::map::entry::Entry": (0, 1),
}


def _asc(s):
    return lambda b: chr(b) in s


_UP, _LO, _DI = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz", "0123456789"
_PU = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
ASCII = {"is_ascii": lambda b: b < 128, "is_ascii_alphabetic": _asc(_UP + _LO), "is_ascii_digit": _asc(_DI), "is_ascii_alphanumeric": _asc(_UP + _LO + _DI),
         "is_ascii_uppercase": _asc(_UP), "is_ascii_lowercase": _asc(_LO), "is_ascii_punctuation": _asc(_PU), "is_ascii_graphic": lambda b: 32 < b < 127,
         "is_ascii_whitespace": _asc(" \t\n\x0c\r"), "is_ascii_control": lambda b: b < 32 or b == 127, "is_ascii_hexdigit": _asc(_DI + "abcdefABCDEF"),
         "to_ascii_uppercase": lambda b: b - 32 if 97 <= b <= 122 else b, "to_ascii_lowercase": lambda b: b + 32 if 65 <= b <= 90 else b}


class St:
    __slots__ = ("store", "facts", "auto", "trail")

    def __init__(self, store=None, facts=None, auto=None, trail=()):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}
        self.auto = auto
        self.trail = trail

    def copy(self):
        return St(dict(self.store), dict(self.facts), self.auto, self.trail)

    def key(self):
        return (self.auto, frozenset(self.store.items()), frozenset(self.facts.items()))


def is_prefix(p, q):
    return len(p) <= len(q) and q[: len(p)] == p


class Callee:
    __slots__ = ("p", "nm", "tr", "r", "id", "args", "local", "raw", "self_ty", "ty")

    def __repr__(self):
        return f"<{self.p}>"


INTS = ("usize", "u8", "u16", "u32", "u64", "isize", "i8", "i16", "i32", "i64")


class Hook:
    """Default rule hook; rules subclass this."""
    max_depth = 10
    record_asserts = False

    def call(self, I, st, cal, args, site):
        """Return None (default handling) or a list of (state, value)."""
        return None

    def after(self, I, st, cal, args, val, site):
        """Observe a call handled by default (not inlined)."""
        return None

    def inline(self, I, fn, cal):
        return True

    def ret(self, I, st, val, fn):
        pass

    def tfact(self, I, st, t):
        """What the rule assumes about a term nothing else is known of."""
        return None

    def drop(self, I, st, val, ty, site):
        pass

    def stmt(self, I, st, s, site):
        pass

    def cast(self, I, st, kind, v, ti, site):
        pass

    def write(self, I, st, loc, val, site):
        pass

    def agg(self, I, st, kk, vals, site):
        pass

    def joined(self, I, states, st):
        """Called when states have been merged into one for want of room; may add facts that held in all of them."""

    def head(self, I, fn, frame, head, st, havoced):
        """Called for each state a loop is entered with on an arbitrary pass; may add facts."""

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        """A loop has been closed; may add facts to the exit states."""

    def asrt(self, I, st, t, site):
        pass


BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "char": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}

SIGNED = ("i8", "i16", "i32", "i64", "isize", "i128")


class Site:
    __slots__ = ("fn", "bb", "line", "chain")

    def __init__(self, fn, bb, line, chain):
        self.fn, self.bb, self.line, self.chain = fn, bb, line, chain

    @property
    def where(self):
        return f"{self.fn.file}:{self.line} in {self.fn.p}"

    def __repr__(self):
        return self.where


# functions whose result depends only on their (deep) argument values
PURE = re.compile(
    r"(is_empty|len|is_some|is_none|is_ok|is_err|eq|ne|lt|le|gt|ge|cmp|partial_cmp|as_bytes|as_str|as_slice|as_ptr|"
    r"first|last|get|get_unchecked|contains|contains_key|starts_with|ends_with|is_ascii\w*|to_ascii_\w+|eq_ignore_ascii_case|as_ref|borrow|"
    r"deref|index|as_deref|is_zero|to_vec|to_owned|to_string|as_secs|as_millis|from_secs|from_millis|"
    r"saturating_\w+|checked_\w+|wrapping_\w+|overflowing_\w+|min|max|clamp|as_nanos|duration_since|add|sub|mul|div|capacity|"
    r"split_first|split_last|split_at|strip_prefix|strip_suffix|iter|into_iter|as_raw_fd|cast|cast_const|cast_mut|offset|"
    r"to_be|is_power_of_two|count_ones|as_u8|into_bytes|as_mut_ptr|trim_ascii\w*|abs_diff|pow|new_const|keys|values|from_utf8_unchecked)"
)
IDENT = re.compile(
    r"^(<.* as core::clone::Clone>::clone|<.* as core::ops::deref::Deref(Mut)?>::deref(_mut)?|"
    r"core::clone::Clone::clone|core::borrow::ToOwned::to_owned|alloc::boxed::Box::<.*>::new)$"
)


class Interp(Seqs):
    def __init__(self, F, hook=None, budget=600, ext=True):
        self.F = F
        self.hook = hook or Hook()
        self.budget = budget
        self.pre = {}
        self.subst_memo = {}
        self.uniq = 0
        self.recording = True
        self.auto_heads = False   # keep loop heads of different automaton states apart
        self.split = 0   # follow up to this many states entering a loop one by one
        self.unroll = 0
        self.join_entry = False   # all states entering a loop are taken together
        self.arrlen = {}
        self.steps = 0
        self.max_steps = 400000
        self.fn_seen = set()
        self.calls_seen = 0
        self.joined = False
        self.byte_terms = set()
        self.prom = {}
        self.dom = {}
        self.tty = {}
        self.clo_sub = {}
        self.shrunk = {}
        self.below = set()        # (loop counter, bound) pairs where the counter never exceeds the bound
        self.cur_dty = None

    # ------------------------------------------------------------- types
    def subst(self, ti, sub):
        if not sub:
            return ti
        key = (ti, sub)
        r = self.subst_memo.get(key)
        if r is not None:
            return r
        F = self.F
        t = F.types[ti]
        k = t.get("k")
        res = ti
        if k == "param":
            i = t.get("i")
            if i is not None and i < len(sub) and isinstance(sub[i], int):
                res = sub[i]
        elif k in ("ref", "ptr", "slice", "array"):
            inner = self.subst(t["t"], sub)
            if inner != t["t"]:
                n = dict(t)
                n["t"] = inner
                res = self.intern(n)
        elif k == "alias" and t.get("tr"):
            a = [_ga(self, x, sub) for x in t.get("a", [])]
            r = self.normalize(t["tr"], t["nm"], a)
            if r is not None:
                res = r
        elif k in ("adt", "tuple", "fndef"):
            a = [_ga(self, x, sub) if not isinstance(x, dict) or x.get("pi") is not None else x for x in t.get("a", [])]
            if a != t.get("a"):
                n = dict(t)
                n["a"] = a
                res = self.intern(n)
        self.subst_memo[key] = res
        return res

    def normalize(self, tr, nm, a):
        """The associated type <a[0] as tr<a[1..]>>::nm of a local impl, or None."""
        if not a or not isinstance(a[0], int) or self.F.types[a[0]].get("k") in ("param", "alias", "dyn"):
            return None
        if tr == "core::iter::traits::iterator::Iterator" and nm == "Item":
            return self.iter_item(a[0])
        got = []
        for i in self.F.impls_of.get(tr, []):
            m = {}
            if self.unify(i["self"], a[0], m) and all(
                    self.unify(p, q, m) for p, q in zip(i["ta"][1:], a[1:]) if isinstance(p, int) and isinstance(q, int)):
                for n2, ti in i.get("at", []):
                    if n2 == nm:
                        hi = max(m) + 1 if m else 0
                        got.append(self.subst(ti, tuple(m.get(j) for j in range(hi))))
        return got[0] if len(set(got)) == 1 else None

    def iter_item(self, ti):
        """What a library iterator yields."""
        ty = self.F.types[ti]
        if ty.get("k") == "ref":
            return self.iter_item(ty["t"])
        if ty.get("k") != "adt":
            return None
        a = [x for x in ty.get("a", []) if isinstance(x, int)]
        d = ty["d"].split("::")[-1]
        if ty["d"] in ("core::slice::iter::Iter", "core::slice::iter::IterMut") and a:
            return self.intern({"k": "ref", "m": d == "IterMut", "t": a[0]})
        if ty["d"] in ("alloc::vec::into_iter::IntoIter", "core::option::IntoIter", "core::array::iter::IntoIter") and a:
            return a[0]
        if ty["d"].startswith("core::iter::adapters::") and a:
            x = self.iter_item(a[0])
            if d in ("Rev", "Skip", "Take", "Peekable", "StepBy", "Fuse", "TakeWhile", "SkipWhile", "Filter", "Chain", "Inspect", "Cycle"):
                return x
            if d in ("Copied", "Cloned") and x is not None and self.F.types[x].get("k") == "ref":
                return self.F.types[x]["t"]
        return None

    def intern(self, n):
        F = self.F
        if not hasattr(F, "tintern"):
            F.tintern = {}
            for i, t in enumerate(F.types):
                F.tintern.setdefault(self.tkey(t), i)
        k = self.tkey(n)
        if k in F.tintern:
            return F.tintern[k]
        i = len(F.types)
        kk = n["k"]
        if kk == "adt":
            args = ", ".join(F.tstr[x] for x in n["a"] if isinstance(x, int))
            s = strip_lt(n["d"]) + (f"<{args}>" if args else "")
        elif kk == "ref":
            s = ("&mut " if n["m"] else "&") + F.tstr[n["t"]]
        elif kk == "ptr":
            s = ("*mut " if n["m"] else "*const ") + F.tstr[n["t"]]
        elif kk == "slice":
            s = f"[{F.tstr[n['t']]}]"
        elif kk == "array":
            s = f"[{F.tstr[n['t']]}; {n.get('n')}]"
        elif kk == "tuple":
            s = "(" + ", ".join(F.tstr[x] for x in n["a"]) + ")"
        else:
            s = n.get("s", "?")
        n["s"] = s
        F.types.append(n)
        F.tstr.append(s)
        F.tintern[k] = i
        return i

    @staticmethod
    def tkey(t):
        def h(x):
            return tuple(h(y) for y in x) if isinstance(x, list) else (str(x) if isinstance(x, dict) else x)

        return tuple((k, h(t[k])) for k in ("k", "d", "id", "t", "m", "n", "a") if k in t) + (
            (t["s"],) if t.get("k") in ("prim", "alias", "fnptr", "dyn", "other", "param") else ())

    def place_ty(self, body, pl, sub):
        F = self.F
        ti = body["locals"][pl[0]][0]
        for e in pl[1:]:
            t = F.types[ti]
            if e == "*":
                ti = t.get("t", ti) if t.get("k") in ("ref", "ptr") else (t["a"][0] if t.get("a") else ti)
            elif e[0] == "f":
                ti = e[2]
            elif e[0] in ("i", "ci"):
                ti = t.get("t", ti)
        return self.subst(ti, sub)

    # ------------------------------------------------------------- body prep
    def prep(self, fn):
        p = self.pre.get(fn.id)
        if p:
            return p
        bbs = fn.body["bbs"]
        succ = []
        for b in bbs:
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert", "yield"):
                s = [t["t"]]
            elif k == "switch":
                s = [x for _, x in t["v"]] + [t["o"]]
            elif k == "call":
                s = [t["t"]] if t["t"] is not None else []
            else:
                s = []
            succ.append(s)
        order, seen, stack = [], set(), []
        # iterative DFS for RPO
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        # dominators for back edges
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [x for x in pred[b] if x in idom]
                n = ps[0]
                for q in ps[1:]:
                    a, c = n, q
                    while a != c:
                        while rpo[a] > rpo[c]:
                            a = idom[a]
                        while rpo[c] > rpo[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        loops = {}
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        # liveness of locals that are never address-taken
        taken = set()
        for b in bbs:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "rawptr") and not (len(s[2][2]) > 1 and "*" in s[2][2][1:]):
                    taken.add(s[2][2][0])
        live_in = {b: frozenset() for b in order}
        use_def = {}
        for b in order:
            u, d = set(), set()

            def use(l):
                if l not in d:
                    u.add(l)

            def use_place(p):
                use(p[0])
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == "i":
                        use(e[1])

            def use_op(o):
                if o["k"] in ("copy", "move"):
                    use_place(o["p"])

            for s in bbs[b]["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("use", "repeat"):
                        use_op(r[1])
                    elif k in ("ref", "rawptr"):
                        use_place(r[2])
                    elif k == "cast":
                        use_op(r[2])
                    elif k == "bin":
                        use_op(r[2]); use_op(r[3])
                    elif k == "un":
                        use_op(r[2])
                    elif k == "discr":
                        use_place(r[1])
                    elif k == "agg":
                        for o in r[2]:
                            use_op(o)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                    else:
                        use_place(s[1])
                elif s[0] == "setd":
                    use_place(s[1])
            t = bbs[b]["t"]
            if t["k"] == "switch":
                use_op(t["d"])
            elif t["k"] == "call":
                use_op(t["f"])
                for o in t["a"]:
                    use_op(o)
                if len(t["d"]) == 1:
                    d.add(t["d"][0])
                else:
                    use_place(t["d"])
            elif t["k"] == "drop":
                use_place(t["p"])
            elif t["k"] == "assert":
                use_op(t["c"])
                for o in t["mo"]:
                    use_op(o)
            elif t["k"] == "return":
                use(0)
            elif t["k"] == "yield":
                use_op(t["y"])
            use_def[b] = (frozenset(u), frozenset(d))
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = frozenset().union(*[live_in[s] for s in succ[b]]) if succ[b] else frozenset()
                n = use_def[b][0] | (out - use_def[b][1])
                if n != live_in[b]:
                    live_in[b] = n
                    ch = True
        p = dict(succ=succ, order=order, rpo=rpo, loops=loops, live=live_in, taken=taken, idom=idom, pred=pred)
        self.pre[fn.id] = p
        return p

    # ------------------------------------------------------------- store
    def project(self, v, proj):
        """Project a value by a list of field/index elements."""
        i = 0
        while i < len(proj):
            e = proj[i]
            k = v[0]
            if k == "st":
                ov = v[2]
                exact = None
                sub = []
                rest = proj[i:]
                for (p, x) in ov:
                    if is_prefix(p, rest):
                        exact = (p, x) if exact is None or len(p) > len(exact[0]) else exact
                    elif is_prefix(rest, p):
                        sub.append((p[len(rest):], x))
                if exact:
                    v = exact[1]
                    i += len(exact[0])
                    continue
                v = self.project(v[1], rest)
                if sub:
                    v = ("st", v, tuple(sub))
                return v
            if k == "adt":
                if e[0] == "dc":
                    if e[1] == v[2]:
                        i += 1
                        continue
                    return ("s", ("impossible", v[1], e[1]))
                if e[0] == "f":
                    if e[1] < len(v[3]):
                        v = v[3][e[1]]
                        i += 1
                        continue
                    return ("s", ("badfield",))
                if e[0] == "ix":
                    if v[1] == "array" and e[1][0] == "c" and e[1][1] < len(v[3]):
                        v = v[3][e[1][1]]
                        i += 1
                        continue
                    v = ("s", ("elem", self.term(v), e[1:]))
                    i += 1
                    continue
            if k == "s":
                if e[0] == "dc":
                    if i + 1 < len(proj) and proj[i + 1][0] == "f":
                        v = ("s", ("fld", v[1], e[1], proj[i + 1][1]))
                        i += 2
                        continue
                    v = ("s", ("dc", v[1], e[1]))
                    i += 1
                    continue
                if e[0] == "f":
                    v = ("s", ("fld", v[1], e[1]) if v[1][0] != "dc" else ("fld", v[1][1], v[1][2], e[1]))
                    i += 1
                    continue
                if v[1][0] == "repeat" and e[0] == "ix":
                    v = v[1][1] if v[1][1][0] in ("c", "adt", "bf", "b", "ref") else ("s", v[1][1])
                    i += 1
                    continue
                v = ("s", ("elem", v[1]) + tuple(e[1:]))
                i += 1
                continue
            if k == "ref" and e[0] == "f":
                # a pointer wrapper (Box/NonNull/Unique) seen through its fields
                i += 1
                continue
            if k == "b" and e[0] == "ix":
                if e[1][0] == "c" and 0 <= e[1][1] < len(v[1]):
                    v = ("c", v[1][e[1][1]])
                elif e[1][0] == "bf":
                    v = ("bf", e[1][1], tuple(v[1][x] if 0 <= x < len(v[1]) else 0 for x in e[1][2]))
                else:
                    v = ("s", ("elem", v) + tuple(e[1:]))
                i += 1
                continue
            v = ("s", ("proj", v if k != "bf" else ("bf", v[1]), e))
            i += 1
        return v

    def read(self, st, loc):
        base, proj = loc
        if base[0] == "M" and base[1][0] == "b":
            # constant bytes
            return self.project(base[1], proj)
        best = None
        subs = []
        items = st.store.items()
        if base in self.prom:
            items = [((base, p), v) for p, v in self.prom[base].items()] + list(items)
        for (b, p), v in items:
            if b != base:
                continue
            if is_prefix(p, proj):
                if best is None or len(p) > len(best[0]):
                    best = (p, v)
            elif is_prefix(proj, p):
                subs.append((p[len(proj):], v))
        if best is None:
            if base[0] == "M":
                v = self.project(base[1] if base[1][0] in ("b",) and False else ("s", ("mem", base[1])), proj)
            else:
                v = ("s", ("uninit",) + base[1:] + (proj,)) if proj else ("s", ("uninit",) + base[1:])
        else:
            v = self.project(best[1], proj[len(best[0]):])
        if subs:
            v = ("st", v, tuple(sorted(subs, key=repr)))
        return v

    def write(self, st, loc, v):
        base, proj = loc
        for k in [k for k in st.store if k[0] == base and is_prefix(proj, k[1])]:
            del st.store[k]
        st.store[loc] = v

    def havoc_loc(self, st, loc, tag):
        self.write(st, loc, ("s", ("hv",) + tag))

    def term(self, v, st=None):
        """Value number of a value; references are looked through when a state is given."""
        k = v[0]
        if k == "s":
            return v[1]
        if k == "ref":
            if st is None:
                return v
            return self.term(self.read(st, v[1]), st)
        if k == "adt":
            return ("adt", v[1], v[2], tuple(self.term(x, st) for x in v[3]))
        if k == "bf":
            if v[2] == ID256:
                return v[1]
            return v
        if k == "vec":
            return v
        if k == "st":
            return ("st", self.term(v[1], st), tuple((p, self.term(x, st)) for p, x in v[2]))
        return v

    # ------------------------------------------------------------- facts
    def fact(self, st, t):
        f = st.facts.get(t)
        if f is None:
            f = self.hook.tfact(self, st, t)
            if f is not None:
                return f
        if f is None and t[0] == "len" and t[1][0] == "deref" and t[1][1][0] == "vec" and self.nonempty(st, t[1][1][1]):
            return ("not", frozenset([0]))
        if f is None and t in self.dom:
            return ("in", self.dom[t])
        if f is not None and f[0] == "not" and t in self.dom:
            return ("in", self.dom[t] - f[1])
        return f

    def nonempty(self, st, segs):
        """Does a content certainly hold at least one byte?"""
        for s in segs:
            if s[0] == "one":
                return True
            if s[0] == "sl":
                ln = len_of(s[1])
                if (ln[0] == "c" and ln[1] > 0) or (ln[0] != "c" and not self.possible(st, ln, 0)):
                    return True
        return False

    def possible(self, st, t, n):
        f = self.fact(st, t)
        if f is None:
            return True
        return (n in f[1]) if f[0] == "in" else (n not in f[1])

    def assume(self, st, t, n):
        """Assume term t == n; returns False if infeasible."""
        if not self.possible(st, t, n):
            return False
        st.facts[t] = ("in", frozenset([n]))
        return True

    def assume_not(self, st, t, ns):
        f = self.fact(st, t)
        ns = frozenset(ns)
        if f is None:
            st.facts[t] = ("not", ns)
        elif f[0] == "in":
            r = f[1] - ns
            if not r:
                return False
            st.facts[t] = ("in", r)
        else:
            st.facts[t] = ("not", f[1] | ns)
        return True

    def known(self, st, v):
        """Constant value of v if known, else None."""
        if v[0] == "c":
            return v[1]
        if v[0] == "s":
            f = self.fact(st, v[1])
            if f and f[0] == "in" and len(f[1]) == 1:
                return next(iter(f[1]))
            t = v[1]
            if t[0] == "not":
                x = self.known(st, ("s", t[1]))
                return None if x is None else 1 - x
            if t[0] in ("or", "and") and len(t) == 3:
                kn = []
                for y in t[1:]:
                    kn.append(self.known(st, y if y and y[0] in ("c", "s", "bf") else ("s", y)))
                dom = 1 if t[0] == "or" else 0
                if dom in kn:
                    return dom
                if None not in kn:
                    return 1 - dom
                return None
            if t[0] == "cmp" and t[1] == "Eq" and t[3][0] == "c":
                x = self.known(st, ("s", t[2]))
                if x is not None:
                    return int(x == t[3][1])
                if not self.possible(st, t[2], t[3][1]):
                    return 0
        if v[0] == "bf":
            cur = self.byteset(st, v[1])
            vals = {v[2][b] for b in cur}
            if len(vals) == 1:
                return next(iter(vals))
        return None

    def byteset(self, st, t):
        f = st.facts.get(t)
        if f is None:
            return frozenset(ALL)
        if f[0] == "in":
            return frozenset(x for x in f[1] if 0 <= x < 256)
        return frozenset(x for x in ALL if x not in f[1])

    def branch(self, st, v, vals, signed=None):
        """Split on value v being one of vals or other. Yields (state, val or None)."""
        kn = self.known(st, v)
        if kn is not None:
            yield (st, kn if kn in vals else None)
            return
        if v[0] == "bf":
            cur = self.byteset(st, v[1])
            for n in vals:
                sub = frozenset(b for b in cur if v[2][b] == n)
                if sub:
                    s2 = st.copy()
                    s2.facts[v[1]] = ("in", sub)
                    yield (s2, n)
            rest = frozenset(b for b in cur if v[2][b] not in vals)
            if rest:
                s2 = st.copy()
                s2.facts[v[1]] = ("in", rest)
                yield (s2, None)
            return
        if v[0] != "s":
            for n in list(vals) + [None]:
                yield (st.copy(), n)
            return
        t = v[1]
        if t[0] == "not":
            for s2, n in self.branch(st, ("s", t[1]), [0, 1]):
                m = None if n is None else 1 - n
                yield (s2, m if m in vals else None)
            return
        if t[0] == "cmp" and t[1] == "Eq" and t[3][0] == "c" and set(vals) <= {0, 1}:
            c = t[3][1]
            if self.possible(st, t[2], c):
                s2 = st.copy()
                if self.assume(s2, t[2], c):
                    yield (s2, 1 if 1 in vals else None)
            s2 = st.copy()
            if self.assume_not(s2, t[2], [c]):
                yield (s2, 0 if 0 in vals else None)
            return
        if t[0] in ("and", "or") and set(vals) <= {0, 1}:
            # non-short-circuit booleans
            for s2, a in self.branch(st, ("s", t[1]), [0, 1]):
                short = 0 if t[0] == "and" else 1
                if a == short:
                    yield (s2, short if short in vals else None)
                else:
                    for s3, b in self.branch(s2, ("s", t[2]), [0, 1]):
                        yield (s3, b if b in vals else None)
            return
        boolean = t[0] in ("cmp", "bool") or (t[0] == "call" and set(vals) <= {0, 1} and len(vals) == 1 and False)
        for n in vals:
            s2 = st.copy()
            if self.assume(s2, t, n):
                yield (s2, n)
        if boolean and set(vals) == {0}:
            s2 = st.copy()
            if self.assume(s2, t, 1):
                yield (s2, None)
            return
        if boolean and set(vals) == {0, 1}:
            return
        s2 = st.copy()
        if self.assume_not(s2, t, vals):
            yield (s2, None)

    # ------------------------------------------------------------- evaluation
    def loc_of(self, st, frame, pl):
        base = ("L", frame, pl[0])
        proj = ()
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, (base, proj))
                while v[0] == "adt" and len(v[3]) >= 1 and v[1] not in ("tuple", "array"):
                    v = v[3][0]
                if v[0] == "st":
                    v = v[1]
                if v[0] == "ref":
                    base, proj = v[1]
                elif v[0] == "b":
                    base, proj = ("M", v), ()
                    if (base, ()) not in st.store:
                        st.store[(base, ())] = v
                else:
                    t = self.term(v)
                    # &*x of a by-value term round-trips
                    base, proj = ("M", t), ()
            elif e[0] == "f":
                proj = proj + (("f", e[1]),)
            elif e[0] == "dc":
                proj = proj + (("dc", e[1]),)
            elif e[0] == "i":
                iv = self.read(st, (("L", frame, e[1]), ()))
                kn = self.known(st, iv)
                ix = ("c", kn) if kn is not None else canon(self.term(iv))
                if base[0] == "M" and proj == () and base[1][0] == "sub":
                    t2, ix = elem_ix(base[1], ix)
                    base = ("M", t2)
                proj = proj + (("ix", ix),)
            elif e[0] == "ci":
                ix = ("c", -e[1] if e[3] else e[1])
                if base[0] == "M" and proj == () and base[1][0] == "sub":
                    t2, ix = elem_ix(base[1], ix)
                    base = ("M", t2)
                proj = proj + (("ix", ix),)
            elif e[0] == "sub":
                if base[0] == "M" and proj == () and base[1][0] != "b":
                    t0 = base[1]
                    hi = sub_(len_of(t0), ("c", e[2])) if e[3] else ("c", e[2])
                    base = ("M", mk_sub(t0, ("c", e[1]), hi))
                else:
                    proj = proj + (("sub", e[1], e[2], e[3]),)
            else:
                proj = proj + (("?", str(e)),)
        return (base, proj)

    def operand(self, st, frame, fn, o, sub):
        k = o["k"]
        if k in ("copy", "move"):
            loc = self.loc_of(st, frame, o["p"])
            v = self.read(st, loc)
            return v
        if k == "const":
            if "v" in o:
                if o["v"] == 0:   # an absent reference: the niche of Option
                    t = self.F.types[self.subst(o["t"], sub)]
                    if t.get("k") == "adt" and t["d"] == "core::option::Option" and self.F.types[t["a"][0]].get("k") in ("ref", "adt"):
                        return ("adt", "core::option::Option", 0, ())
                return ("c", o["v"])
            if "bytes" in o:
                return ("b", bytes(o["bytes"]))
            if "fn" in o:
                return ("fn", (strip_lt(o["fn"]["p"]), id(o["fn"]) and o["fn"]["id"]), _Raw(o["fn"], sub))
            if "promoted" in o:
                b = self.F.promoted.get((o["pid"], o["promoted"]))
                if b is not None:
                    return self.promoted_value(st, o, b, sub)
            if "def" in o:
                self.tty.setdefault(("const", strip_lt(o["def"])), self.subst(o["t"], sub))
                return ("s", ("const", strip_lt(o["def"])))
            if "static" in o:
                return ("s", ("static", strip_lt(o["static"])))
            t = self.F.types[o["t"]]
            if o.get("zst") or (t.get("k") == "tuple" and not t["a"]):
                if t.get("k") == "adt":
                    return ("adt", strip_lt(t["d"]), 0, ())
                if t.get("k") == "closure":
                    self.clo_sub[t["id"]] = sub
                    return ("adt", "closure:" + t["id"], 0, ())
                return ("adt", "tuple", 0, ())
            if "param" in o:
                pi = o.get("pi")
                if pi is not None and pi < len(sub) and isinstance(sub[pi], CV):
                    cv = sub[pi].v
                    if cv in ("true", "false"):
                        return ("c", int(cv == "true"))
                    try:
                        return ("c", int(cv))
                    except (TypeError, ValueError):
                        pass
                return ("s", ("param", o["param"]))
            return ("s", ("const?", self.F.ts(o["t"]), str(o.get("raw", ""))[:60]))
        return ("s", ("rt",))

    def promoted_value(self, st, o, body, sub):
        """Evaluate a promoted constant's straight-line body."""
        class P:
            pass
        fn = P()
        fn.id = f"prom:{o['pid']}:{o['promoted']}"
        fn.body = body
        fn.p = "promoted"
        fn.file = "?"
        fn.sp = "?"
        fn.closures = []
        fr = ("prom", o["pid"], o["promoted"]) + tuple(x if isinstance(x, (int, str)) else x.v if isinstance(x, CV) else 0 for x in sub)
        if ("L", fr, 0) in self.prom:
            return self.read(st, (("L", fr, 0), ()))
        try:
            for b in body["bbs"]:
                for s in b["s"]:
                    if s[0] == "=":
                        v = self.rvalue(st, fr, fn, s[2], sub, None)
                        self.write(st, self.loc_of(st, fr, s[1]), v)
                if b["t"]["k"] == "return":
                    break
                if b["t"]["k"] == "goto":
                    continue
                return ("s", ("promoted", o["pid"], o["promoted"]))
        except Exception:
            return ("s", ("promoted", o["pid"], o["promoted"]))
        # constants are kept apart from what functions change
        for k in [k for k in st.store if k[0][0] == "L" and k[0][1] == fr]:
            self.prom.setdefault(k[0], {})[k[1]] = st.store.pop(k)
        return self.read(st, (("L", fr, 0), ()))

    def discr_val(self, path, vi):
        a = self.F.adts.get(path)
        if a:
            d = a["vs"][vi]["discr"]
            return vi if d is None else d
        if path == "core::cmp::Ordering":
            return [255, 0, 1][vi]
        return vi

    def rvalue(self, st, frame, fn, r, sub, site):
        k = r[0]
        if k == "use":
            return self.operand(st, frame, fn, r[1], sub)
        if k in ("ref", "rawptr"):
            loc = self.loc_of(st, frame, r[2])
            # reborrow of an opaque pointer keeps the pointer's own value number
            if loc[0][0] == "M" and loc[1] == () and (loc[0][1][0] != "b"):
                t = loc[0][1]
                if loc not in st.store:
                    return ("s", t)
            if loc[0][0] == "M" and loc[1] == () and loc[0][1][0] == "b":
                return loc[0][1]
            return ("ref", loc)
        if k == "cast":
            v = self.operand(st, frame, fn, r[2], sub)
            if site is not None and ("ransmute" in r[1] or "PtrToPtr" in r[1]):
                self.hook.cast(self, st, r[1], v, (self.op_ty(fn, r[2], sub), self.subst(r[3], sub)), site)
            if self.unroll and v[0] == "ref" and "Unsize" in r[1]:
                t0 = self.F.types[self.op_ty(fn, r[2], sub)]
                t0 = self.F.types[t0["t"]] if t0.get("k") == "ref" else {}
                if t0.get("k") == "array" and isinstance(t0.get("n"), int):
                    self.arrlen[v[1]] = t0["n"]
            if v[0] == "ref" and "Unsize" in r[1] and self.F.ts(self.subst(r[3], sub)) == "&[u8]":
                arr = self.read(st, v[1])
                if arr[0] == "adt" and arr[1] == "array" and all(x[0] == "c" for x in arr[3]):
                    return ("b", bytes(x[1] for x in arr[3]))
            if r[1] == "IntToInt":
                return self.int_cast(st, v, self.F.ts(self.op_ty(fn, r[2], sub)), self.F.ts(self.subst(r[3], sub)))
            return v
        if k == "bin":
            a = self.operand(st, frame, fn, r[2], sub)
            b = self.operand(st, frame, fn, r[3], sub)
            ty = self.op_ty(fn, r[2], sub)
            return self.binop(st, r[1], a, b, self.F.ts(ty))
        if k == "un":
            a = self.operand(st, frame, fn, r[2], sub)
            ty = self.F.ts(self.op_ty(fn, r[2], sub))
            if r[1] == "Not":
                if ty == "bool":
                    if a[0] == "c":
                        return ("c", 1 - a[1])
                    if a[0] == "bf":
                        return ("bf", a[1], tuple(1 - x for x in a[2]))
                    if a[0] == "s":
                        return ("s", a[1][1]) if a[1][0] == "not" else ("s", ("not", a[1]))
                if a[0] == "c":
                    return ("c", _wrap(~a[1], ty))
                if ty == "u8" and a[0] in ("s", "bf"):
                    a = self.as_bf(a)
                    return ("bf", a[1], tuple(_wrap(~x, "u8") for x in a[2]))
            if r[1] == "Neg" and a[0] == "c":
                return ("c", -a[1])
            if r[1] == "PtrMetadata":
                if a[0] == "b":
                    return ("c", len(a[1]))
                t = self.term(a, st)
                return self.tv(len_of(t))
            return ("s", ("un", r[1], self.term(a, st)))
        if k == "discr":
            loc = self.loc_of(st, frame, r[1])
            v = self.read(st, loc)
            d = self.discr(st, v)
            if d[0] == "s" and d[1] not in self.dom:
                dm = self.domain(self.place_ty(fn.body, r[1], sub))
                if dm:
                    self.dom[d[1]] = dm
            return d
        if k == "agg":
            kk = r[1]
            vals = tuple(self.operand(st, frame, fn, o, sub) for o in r[2])
            if kk[0] == "adt":
                path = strip_lt(kk[1])
                if site is not None:
                    self.hook.agg(self, st, ("adt", path, kk[2], kk[3], kk[4]), vals, site)
                if self.F.adts.get(path, {}).get("erased"):
                    return vals[0]
                return ("adt", path, kk[2], vals)
            if kk[0] in ("closure", "coroutine"):
                self.clo_sub[kk[2]] = sub
            if kk[0] == "closure":
                return ("adt", "closure:" + kk[2], 0, vals)
            if kk[0] == "coroutine":
                return ("adt", "coroutine:" + kk[2], 0, vals)
            if kk[0] in ("tuple", "array"):
                return ("adt", kk[0], 0, vals)
            if kk[0] == "rawptr":
                return vals[0]
            return ("s", ("agg", kk[0]) + tuple(self.term(x) for x in vals))
        if k == "repeat":
            v = self.operand(st, frame, fn, r[1], sub)
            return ("s", ("repeat", self.term(v), r[2]))
        if k == "tls":
            return ("s", ("static", strip_lt(r[1])))
        return ("s", ("rv", str(r)[:80]))

    def domain(self, ti):
        t = self.F.types[ti]
        if t.get("k") != "adt":
            return None
        p = strip_lt(t["d"])
        if p in EXT_DOM:
            return frozenset(EXT_DOM[p])
        a = self.F.adts.get(p)
        if a and len(a["vs"]) > 1:
            return frozenset(self.discr_val(p, i) for i in range(len(a["vs"])))
        return None

    def discr(self, st, v):
        if v[0] == "st":
            for (p, x) in v[2]:
                if p == (("discr",),):
                    return x
            v = v[1]
        if v[0] == "adt":
            return ("c", self.discr_val(v[1], v[2]))
        return ("s", ("discr", self.term(v)))

    def op_ty(self, fn, o, sub):
        if o["k"] in ("copy", "move"):
            return self.place_ty(fn.body, o["p"], sub)
        return self.subst(o["t"], sub) if "t" in o else 0

    def int_cast(self, st, v, src, dst):
        """`v as dst` for integers, bool and char."""
        if v[0] == "c":
            return ("c", _wrap(v[1], dst))
        if v[0] == "bf":
            return ("bf", v[1], tuple(_wrap(x, dst) for x in v[2]))
        if v[0] == "s":
            if src == "u8":
                return ("bf", v[1], tuple(_wrap(x, dst) for x in ALL))
            if src == "bool":
                return v
            if BITS.get(src, 0) > BITS.get(dst, 999):
                k = self.known(st, v)
                if k is not None:
                    return ("c", _wrap(k, dst))
                return ("s", ("cast", dst, v[1]))
        return v

    def as_bf(self, v):
        if v[0] == "bf":
            return v
        if v[0] == "s":
            self.byte_terms.add(v[1])
            return ("bf", v[1], ID256)
        return None

    def binop(self, st, op, a, b, ty):
        ovf = op.endswith("WithOverflow")
        base = op[:-12] if ovf else op
        if base.endswith("Unchecked"):
            base = base[:-9]
        if a[0] == "c" and b[0] == "c":
            if ty in SIGNED:
                x = _arith(base, _wrap(a[1], ty), _wrap(b[1], ty))
            else:
                x = _arith(base, a[1], b[1])
            if x is not None:
                if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    return ("c", int(x))
                if base == "Cmp":
                    return ("adt", "core::cmp::Ordering", x + 1, ())
                w = _wrap(x, ty)
                return ("adt", "tuple", 0, (("c", w), ("c", int(w != x)))) if ovf else ("c", w)
        # byte functions
        isb = ty == "u8" or a[0] == "bf" or b[0] == "bf"
        if isb and (a[0] in ("s", "bf", "c")) and (b[0] in ("s", "bf", "c")):
            fa = a if a[0] == "c" else self.as_bf(a)
            fb = b if b[0] == "c" else self.as_bf(b)
            syms = {x[1] for x in (fa, fb) if x[0] == "bf"}
            if len(syms) == 1:
                sym = syms.pop()
                vec = []
                for i in ALL:
                    x = fa[1] if fa[0] == "c" else fa[2][i]
                    y = fb[1] if fb[0] == "c" else fb[2][i]
                    vec.append(_arith(base, x, y))
                if all(v is not None for v in vec):
                    if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                        return ("bf", sym, tuple(int(v) for v in vec))
                    if base != "Cmp":
                        w = tuple(_wrap(v, ty) for v in vec)
                        if ovf:
                            return ("adt", "tuple", 0, (("bf", sym, w), ("bf", sym, tuple(int(p != q) for p, q in zip(w, vec)))))
                        return ("bf", sym, w)
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            ka, kb = self.known(st, a), self.known(st, b)
            if ka is not None and kb is not None:
                if ty in SIGNED:
                    ka, kb = _wrap(ka, ty), _wrap(kb, ty)
                return ("c", int(_arith(base, ka, kb)))
        if base in ("Lt", "Le", "Gt", "Ge") and ty in ("usize", "u8", "u16", "u32", "u64", "u128"):
            # comparisons with zero in their one canonical form
            if b[0] == "c" and (base, b[1]) in (("Lt", 1), ("Le", 0)):
                base, b = "Eq", ("c", 0)
            elif b[0] == "c" and (base, b[1]) in (("Ge", 1), ("Gt", 0)):
                base, b = "Ne", ("c", 0)
            elif a[0] == "c" and (base, a[1]) in (("Gt", 1), ("Ge", 0)):
                base, a, b = "Eq", b, ("c", 0)
            elif a[0] == "c" and (base, a[1]) in (("Le", 1), ("Lt", 0)):
                base, a, b = "Ne", b, ("c", 0)
        ta, tb = self.term(a, None), self.term(b, None)
        if base in ("Eq", "Ne"):
            if ta == tb and a[0] not in ("b",):
                return ("c", int(base == "Eq"))
            if ta[0] == "c" and tb[0] != "c":
                ta, tb = tb, ta
            elif tb[0] != "c" and repr(tb) < repr(ta):
                ta, tb = tb, ta
            if ty == "bool" and tb[0] == "c":
                r = ("s", ta) if tb[1] == 1 else ("s", ("not", ta) if ta[0] != "not" else ta[1])
            else:
                r = ("s", ("cmp", "Eq", ta, tb))
            if base == "Ne":
                r = ("s", r[1][1]) if r[1][0] == "not" else ("s", ("not", r[1]))
            return r
        if base == "Lt":
            return ("s", ("cmp", "Lt", ta, tb))
        if base == "Gt":
            return ("s", ("cmp", "Lt", tb, ta))
        if base == "Le":
            return ("s", ("not", ("cmp", "Lt", tb, ta)))
        if base == "Ge":
            return ("s", ("not", ("cmp", "Lt", ta, tb)))
        if ty == "bool" and base in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "c":
                    if base == "BitAnd":
                        return y if x[1] else ("c", 0)
                    return ("c", 1) if x[1] else y
            return ("s", ("and" if base == "BitAnd" else "or", ta, tb))
        if base in ("Add", "Sub") and tb == ("c", 0):
            res = a
        else:
            if base in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and repr(tb) < repr(ta):
                ta, tb = tb, ta
            res = ("s", ("op", base, ta, tb))
        if ovf:
            return ("adt", "tuple", 0, (res, ("s", ("ovf", base, ta, tb))))
        return res

    # ------------------------------------------------------------- execution
    def run(self, fn, args=None, st=None, sub=(), auto=None):
        """Analyse fn with symbolic arguments. Returns list of (state, return value)."""
        st = st or St(auto=auto)
        if args is None:
            args = [("s", ("arg", i + 1)) for i in range(fn.body["argc"])]
        self.steps = 0
        for nm, pl in fn.body.get("upvars") or ():
            if len(pl) == 2 and pl[1][0] == "f" and ("s", ("arg", pl[0])) in args:
                self.tty.setdefault(("fld", ("arg", pl[0]), pl[1][1]), self.subst(pl[1][2], tuple(sub)))
        for i, a in enumerate(args):
            if a == ("s", ("arg", i + 1)):
                self.tty[a[1]] = self.subst(fn.body["locals"][i + 1][0], tuple(sub))
        return self.exec_fn(fn, args, st, tuple(sub), ("r",), (), 0)

    # ------------------------------------------------------------- types of terms
    def ttype(self, t, d=0):
        """Type index of the value a term stands for, or None."""
        if d > 30 or not isinstance(t, tuple):
            return None
        r = self.tty.get(t)
        if r is not None:
            return r
        F = self.F
        k = t[0]
        if k == "mem":
            p = self.ttype(t[1], d + 1)
            if p is None:
                return None
            ty = F.types[p]
            if ty.get("k") in ("ref", "ptr"):
                return ty["t"]
            if ty.get("k") == "adt" and ty["d"].endswith("boxed::Box"):
                return ty["a"][0]
            return None
        if k == "fld":
            b = self.ttype(t[1], d + 1)
            if b is None:
                return None
            vi, fi = (t[2], t[3]) if len(t) == 4 else (0, t[2])
            return self.field_ty(b, vi, fi)
        if k == "elem" and t[1][0] == "mem":
            p = self.ttype(t[1][1], d + 1)
            if p is None:
                return None
            ty = F.types[p]
            if ty.get("k") in ("ref", "ptr"):
                ty = F.types[ty["t"]]
            if ty.get("k") in ("slice", "array"):
                return ty["t"]
            return None
        if k == "loop" and t[3][1] == () and t[3][0][0] == "L":
            return self.tty.get(("local",) + t[3][0][1:])
        if k in ("join", "loop") and len(t) >= 4 and isinstance(t[3], tuple) and t[3][0][0] == "L":
            b, vi = self.tty.get(("local",) + t[3][0][1:]), 0
            for e in t[3][1] + tuple(("f", i) for i in t[4:]):
                if b is None:
                    break
                if e[0] == "dc":
                    vi = e[1]
                    continue
                b, vi = (self.field_ty(b, vi, e[1]) if e[0] == "f" else None), 0
            return b
        if k == "deref":
            b = self.ttype(t[1], d + 1) if isinstance(t[1], tuple) else None
            if b is None:
                return None
            ty = F.types[b]
            if ty.get("k") == "adt" and ty["d"] == "alloc::vec::Vec":
                return self.intern({"k": "ref", "m": False, "t": self.intern({"k": "slice", "t": ty["a"][0]})})
            if ty.get("k") == "adt" and ty["d"] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "alloc::borrow::Cow"):
                return self.intern({"k": "ref", "m": False, "t": [x for x in ty["a"] if isinstance(x, int)][0]})
        return None

    def field_ty(self, ti, vi, fi):
        F = self.F
        ty = F.types[ti]
        if ty.get("k") == "tuple":
            return ty["a"][fi] if fi < len(ty["a"]) else None
        if ty.get("k") != "adt":
            return None
        a = F.adts.get(strip_lt(ty["d"]))
        while a and a.get("erased"):
            ti = a["vs"][0]["f"][0]["t"]
            ty = F.types[ti]
            a = F.adts.get(strip_lt(ty["d"])) if ty.get("k") == "adt" else None
        if a:
            try:
                return self.subst(a["vs"][vi]["f"][fi]["t"], tuple(x if isinstance(x, int) else None for x in ty["a"]))
            except (IndexError, KeyError):
                return None
        ints = [x for x in ty["a"] if isinstance(x, int)]
        if ty["d"] in ("core::option::Option", "core::task::poll::Poll") and ints:
            return ints[0]
        if ty["d"] in ("core::result::Result", "core::ops::control_flow::ControlFlow") and len(ints) > 1:
            if ty["d"].endswith("ControlFlow"):
                return ints[1] if vi == 0 else ints[0]
            return ints[vi] if vi < 2 else None
        return None

    def live_trim(self, st, frame, live, taken):
        dead = [k for k in st.store if k[0][0] == "L" and k[0][1] == frame and k[0][2] not in live and k[0][2] not in taken]
        for k in dead:
            del st.store[k]

    def exec_fn(self, fn, args, st, sub, frame, chain, depth):
        self.fn_seen.add(fn.id)
        P = self.prep(fn)
        body = fn.body
        for i, l in enumerate(body["locals"]):
            self.tty.setdefault(("local", frame, i), self.subst(l[0], sub))
        st = st.copy()
        for i, a in enumerate(args):
            self.write(st, (("L", frame, i + 1), ()), a)
        outs = self.exec_region(fn, P, frame, chain, depth, sub, 0, [st], None)
        res = {}
        leave = getattr(self.hook, "leave", None)
        for (s, v) in outs:
            for k in [k for k in s.store if k[0][0] == "L" and k[0][1] == frame]:
                del s.store[k]
            if leave is not None:
                v = leave(self, s, v, fn)
            key = (s.key(), v)
            if key not in res:
                res[key] = (s, v)
        return list(res.values())

    def exec_region(self, fn, P, frame, chain, depth, sub, entry, states, loop):
        """Execute blocks from entry (restricted to a loop body when loop is set).

        Returns the list of (state, retval) for returns; for a loop: (returns, exits{block: states}, backs)."""
        rpo, loops, live, taken = P["rpo"], P["loops"], P["live"], P["taken"]
        body_blocks = loops[loop] if loop is not None else None
        pend = {entry: {}}
        for s in states:
            pend[entry][s.key()] = s
        rets = []
        exits = {}
        backs = []
        import heapq
        heap = [rpo[entry]]
        inq = {entry}
        order = P["order"]
        first = True

        def push(b, s):
            if loop is not None:
                if b == loop:
                    backs.append(s)
                    return
                if b not in body_blocks:
                    exits.setdefault(b, []).append(s)
                    return
            self.live_trim(s, frame, live[b], taken)
            d = pend.setdefault(b, {})
            d[s.key()] = s
            if b not in inq:
                inq.add(b)
                heapq.heappush(heap, rpo[b])

        while heap:
            b = order[heapq.heappop(heap)]
            inq.discard(b)
            sts = list(pend.pop(b, {}).values())
            if not sts:
                continue
            if len(sts) > self.budget:
                sts = self.join_states(sts, (frame, b))
            if b in loops and not (b == loop):
                r2, ex = self.exec_loop(fn, P, frame, chain, depth, sub, b, sts)
                rets.extend(r2)
                for blk, ss in ex.items():
                    for s in ss:
                        push(blk, s)
                continue
            for s in sts:
                for (kind, x, s2) in self.exec_block(fn, P, frame, chain, depth, sub, b, s):
                    if kind == "ret":
                        rets.append((s2, x))
                    else:
                        push(x, s2)
        if loop is not None:
            return rets, exits, backs
        return rets

    def exec_loop(self, fn, P, frame, chain, depth, sub, head, states):
        """Close a loop: havoc what the body changes until the head states are stable."""
        heads = {}
        if self.join_entry and len(states) > 1:
            states = self.join_leaves(states, (frame, head))
        for s in states:
            # the fields of a counting range are tracked one by one
            for (bs, pr), v in list(s.store.items()):
                if v[0] == "adt" and v[1] == "core::ops::range::Range" and (bs, pr + (("f", 0),)) not in s.store:
                    s.store[(bs, pr + (("f", 0),))] = v[3][0]
            heads[s.key()] = s
        if 1 < len(heads) <= self.split:
            rets, exits = [], {}
            for s in list(heads.values()):
                r2, e2 = self.exec_loop(fn, P, frame, chain, depth, sub, head, [s])
                rets.extend(r2)
                for b, ss in e2.items():
                    exits.setdefault(b, []).extend(ss)
            return rets, exits
        havoced = set()
        hav = {}          # what is havoced in the heads of one automaton state, when those are kept apart
        noit, anypos = set(), set()
        lblocks = P["loops"][head]
        snap = self.hook_snapshot()
        if self.unroll:
            # a loop with a small constant trip count is followed exactly
            rets, exits, cur = [], {}, [h.copy() for h in heads.values()]
            for n in range(self.unroll):
                r2, e2, backs = self.exec_region(fn, P, frame, chain + (("it", head, n),), depth, sub, head, cur, head)
                rets.extend(r2)
                for b, ss in e2.items():
                    exits.setdefault(b, []).extend(ss)
                if not backs:
                    return rets, exits
                cur = list({s.key(): s for s in backs}.values())
                if len(cur) > 64:
                    break
            self.hook_restore(snap)
            r = self.exec_loop_part(fn, P, frame, chain, depth, sub, head, heads, snap)
            if r is not None:
                return r
            self.hook_restore(snap)
        for it in range(12):
            self.hook_restore(snap)
            rets, exits, backs = self.exec_region(fn, P, frame, chain, depth, sub, head, list(heads.values()), head)
            new = []
            changed = False
            prev = {a: set(x) for a, x in hav.items()} if self.auto_heads else set(havoced)
            base = list(heads.values())
            for s in backs:
                s = s.copy()
                self.live_trim(s, frame, P["live"][head], P["taken"])
                # find a base state with the same automaton state
                cand = [h for h in base if h.auto == s.auto]
                if not cand:
                    # a new automaton state reaches the head
                    for k in (havoced if not self.auto_heads else ()):
                        if k in s.store:
                            s.store[k] = self.widen_val(s.store[k], frame, head, k)
                    # only what held on entry is known to hold on every path to the new head
                    s.facts = {t: f for t, f in s.facts.items() if all(e.facts.get(t) == f for e in states)}
                    kk = s.key()
                    if kk not in heads:
                        new.append(s)
                    continue
                diff = set()
                for k in (prev if not self.auto_heads else prev.get(s.auto, ())):
                    hv = [h.store.get(k) for h in cand]
                    if k in noit:
                        continue
                    bad = any(x is not None and x[0] == "s" and x[1][0] == "it" for x in hv) and s.store.get(k) not in hv
                    if bad and all(self.past_first(x, s.store.get(k)) for x in hv):
                        bad = False
                    if bad and all(self.same_iter(x, s.store.get(k), frame, head) for x in hv):
                        # the iterator is at any position, also where it had been taken to be past the first element
                        bad = False
                        if k not in anypos and any(x[1][2][0] == "at1" for x in hv):
                            anypos.add(k)
                            changed = True
                    if any(x is not None and x[0] == "vec" for x in hv):
                        y = s.store.get(k)
                        acc = ("acc", frame, head, k)
                        bad = bad or y is None or y[0] != "vec" or not any(
                            x is not None and x[0] == "vec" and acc in x[1] and y[1][: len(x[1])] == x[1] for x in hv)
                    if bad:
                        noit.add(k)
                        changed = True
                for h in cand:
                    for k in set(s.store) | set(h.store):
                        if s.store.get(k) != h.store.get(k) and k not in (havoced if not self.auto_heads else hav.get(s.auto, ())):
                            diff.add(k)
                if diff:
                    hav.setdefault(s.auto, set()).update(diff)
                    havoced |= diff
                    changed = True
            if not changed and not new:
                break
            if changed:
                nh = {}
                for h in base + new:
                    h = h.copy()
                    # havoc nested entries under a havoced prefix as well
                    for k in (havoced if not self.auto_heads else hav.get(h.auto, ())):
                        for q in [q for q in h.store if q[0] == k[0] and is_prefix(k[1], q[1]) and q != k]:
                            del h.store[q]
                        hv = None if k in noit else h.store.get(k)
                        if k in anypos and hv is not None and hv[0] == "s" and hv[1][0] == "it" and hv[1][2] == ("at1", frame, head):
                            hv = ("s", ("it", hv[1][1], ("at", frame, head), hv[1][3]))
                        if k not in noit and (hv is None or hv[0] == "s"):
                            # a vector known only by name that the body appends to
                            t0 = self.term(self.read(h, k))
                            seg = ("sl", ("deref", t0))
                            if any(b.store.get(k) is not None and b.store[k][0] == "vec" and b.store[k][1][:1] == (seg,) for b in backs):
                                hv = ("vec", (seg,))
                        h.store[k] = self.widen_val(hv, frame, head, k)
                    # facts derived on one pass only are dropped
                    if it >= 1:
                        h.facts = {t: f for t, f in h.facts.items() if not _mentions(t, "loop", frame, head)}
                    self.hook.head(self, fn, frame, head, h, havoced)
                    nh[h.key()] = h
                heads = nh
                if len(heads) > self.budget:
                    js = self.join_states(list(heads.values()), (frame, head))
                    heads = {h.key(): h for h in js}
            else:
                for s in new:
                    heads[s.key()] = s
        else:
            raise Budget(f"loop in {fn.p} did not stabilise")
        if not self.auto_heads or len({h.auto for h in heads.values()}) == 1:
            self.quantify(frame, head, states, backs, exits, rets, havoced, list(heads.values()))
        self.hook.loop(self, fn, frame, head, states, backs, exits, rets, havoced)
        return rets, exits

    def exec_loop_part(self, fn, P, frame, chain, depth, sub, head, entry, snap):
        """Close a loop with one head per combination of small control values (counters, finite iterators, references)."""
        def ctl(v):
            return v is not None and (v[0] == "c" and -1 <= v[1] <= 16 or v[0] == "adt" and v[1] == "#fin" or v[0] == "ref")

        entry = list(entry.values())
        havoced, nopart = set(), set()

        def pk(s):
            return (s.auto, frozenset((k, v) for k, v in s.store.items() if k not in nopart and k not in havoced and ctl(v)))

        def widen(s):
            s = s.copy()
            for k in havoced:
                if not any(is_prefix(q[1], k[1]) and q[0] == k[0] for q in s.store) and k not in s.store:
                    continue
                for q in [q for q in s.store if q[0] == k[0] and is_prefix(k[1], q[1]) and q != k]:
                    del s.store[q]
                s.store[k] = self.widen_val(s.store.get(k), frame, head, k)
            s.facts = {t: f for t, f in s.facts.items() if all(e.facts.get(t) == f for e in entry) and not _mentions(t, "loop", frame, head)}
            self.hook.head(self, fn, frame, head, s, havoced)
            return s

        for rnd in range(40):
            heads, todo = {}, [widen(s) for s in entry]
            again = False
            for s in todo:
                heads.setdefault(pk(s), s)
            done = {}
            while len(done) < len(heads) and not again:
                if len(heads) > 60:
                    bad = {}
                    for q in heads:
                        for k, v in q[1]:
                            bad.setdefault(k, set()).add(v)
                    worst = max(bad, key=lambda k: len(bad[k]), default=None)
                    if worst is None:
                        return None
                    nopart.add(worst)
                    havoced.add(worst)
                    again = True
                    break
                q = next(q for q in heads if q not in done)
                h = heads[q]
                rets, exits, backs = self.exec_region(fn, P, frame, chain, depth, sub, head, [h.copy()], head)
                trans = []
                for s in backs:
                    full = s.copy()
                    s = s.copy()
                    self.live_trim(s, frame, P["live"][head], P["taken"])
                    s = widen(s)
                    k2 = pk(s)
                    t = heads.get(k2)
                    if t is None:
                        # the same control point with other data: a head that agrees on the control keys
                        heads[k2] = s
                        t = s
                    diff = {k for k in set(s.store) | set(t.store) if s.store.get(k) != t.store.get(k) and k not in havoced}
                    if diff:
                        havoced |= diff
                        again = True
                    trans.append((k2, full))
                done[q] = (rets, exits, trans)
                if again:
                    break
            if not again:
                break
            self.hook_restore(snap)
        else:
            return None
        order = list(heads)
        R, E, edges, backs = [], {}, [], []
        for q, (rets, exits, trans) in done.items():
            R.extend(rets)
            for b, ss in exits.items():
                E.setdefault(b, []).extend(ss)
            for k2, s in trans:
                edges.append((order.index(q), order.index(k2), s))
                backs.append(s)
        self.loop_heads, self.loop_edges = [heads[q] for q in order], edges
        self.quantify(frame, head, entry, backs, E, R, havoced, list(heads.values()))
        self.hook.loop(self, fn, frame, head, entry, backs, E, R, havoced)
        return R, E

    @staticmethod
    def past_first(x, y):
        """Is y one of the iterators the widened iterator x (at least one element taken) stands for?"""
        return (x is not None and y is not None and x[0] == y[0] == "s" and x[1][0] == y[1][0] == "it" and x[1][1] == y[1][1] and x[1][3] == y[1][3]
                and not isinstance(x[1][2], int) and x[1][2][0] == "at1" and (y[1][2] == x[1][2] or isinstance(y[1][2], int) and y[1][2] >= 1))

    @staticmethod
    def same_iter(x, y, frame, head):
        """Are both iterators over the same slice, widened at this loop head?"""
        return (x is not None and y is not None and x[0] == y[0] == "s" and x[1][0] == y[1][0] == "it" and x[1][1] == y[1][1] and x[1][3] == y[1][3]
                and x[1][2] in (("at", frame, head), ("at1", frame, head)) and y[1][2] in (("at", frame, head), ("at1", frame, head)))

    def widen_val(self, v, frame, head, k):
        """Widened value at a loop head; an iterator stays an iterator over the same slice."""
        if v is not None and v[0] == "vec":
            acc = ("acc", frame, head, k)
            if acc in v[1]:
                return ("vec", v[1][: v[1].index(acc) + 1])
            return ("vec", v[1] + (acc,))
        if v is not None and v[0] == "s" and v[1][0] == "it" and (v[1][2] == 0 or v[1][2] == ("at", frame, head)):
            return ("s", ("it", v[1][1], ("at", frame, head), v[1][3]))
        if v is not None and v[0] == "s" and v[1][0] == "it" and (isinstance(v[1][2], int) or v[1][2] == ("at1", frame, head)):
            return ("s", ("it", v[1][1], ("at1", frame, head), v[1][3]))   # at least one element has been taken
        return ("s", ("loop", frame, head, k))

    def hook_snapshot(self):
        f = getattr(self.hook, "snapshot", None)
        return f() if f else None

    def hook_restore(self, s):
        f = getattr(self.hook, "restore", None)
        if f:
            f(s)

    def join_leaves(self, sts, tag):
        """One state standing for all (of an automaton state), with the fields of structures kept apart."""
        def j(a, b, path):
            if a == b:
                return a
            if a[0] == b[0] == "adt" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
                return a[:3] + (tuple(j(x, y, path + (i,)) for i, (x, y) in enumerate(zip(a[3], b[3]))),)
            return ("s", ("join",) + tag + path)

        groups = {}
        for s in sts:
            groups.setdefault(s.auto, []).append(s)
        out = []
        for g in groups.values():
            acc = g[0].copy()
            for s in g[1:]:
                for k in list(acc.store):
                    acc.store[k] = j(acc.store[k], s.store[k], (k,)) if k in s.store else ("s", ("join",) + tag + (k,))
                for k in s.store:
                    if k not in acc.store:
                        acc.store[k] = ("s", ("join",) + tag + (k,))
                acc.facts = {t: f for t, f in acc.facts.items() if s.facts.get(t) == f}
            out.append(acc)
        return out

    def join_states(self, sts, tag):
        self.joined = True
        groups = {}
        for s in sts:
            groups.setdefault(s.auto, []).append(s)
        out = []
        for auto, g in groups.items():
            acc = g[0].copy()
            for s in g[1:]:
                for k in list(acc.store):
                    if k not in s.store:
                        del acc.store[k]
                    elif acc.store[k] != s.store[k]:
                        acc.store[k] = ("s", ("join",) + tag + (k,))
                nf = {}
                for t, f in acc.facts.items():
                    h = s.facts.get(t)
                    if h == f:
                        nf[t] = f
                    elif h and f[0] == "in" and h[0] == "in":
                        nf[t] = ("in", f[1] | h[1])
                    elif h and f[0] == "not" and h[0] == "not":
                        x = f[1] & h[1]
                        if x:
                            nf[t] = ("not", x)
                acc.facts = nf
            self.hook.joined(self, g, acc)
            out.append(acc)
        return out

    def exec_block(self, fn, P, frame, chain, depth, sub, b, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget(f"step budget exhausted in {fn.p}")
        bb = fn.body["bbs"][b]
        st = st.copy()
        for s in bb["s"]:
            if s[0] == "=":
                site = Site(fn, b, s[3], chain)
                self.hook.stmt(self, st, s, site)
                v = self.rvalue(st, frame, fn, s[2], sub, site)
                loc = self.loc_of(st, frame, s[1])
                if loc[0][0] == "M" or loc[1]:
                    self.hook.write(self, st, loc, v, site)
                self.write(st, loc, v)
            elif s[0] == "setd":
                loc = self.loc_of(st, frame, s[1])
                self.write(st, (loc[0], loc[1] + (("discr",),)), ("c", s[2]))
            elif s[0] == "dead":
                for k in [k for k in st.store if k[0] == ("L", frame, s[1])]:
                    del st.store[k]
        t = bb["t"]
        k = t["k"]
        if k == "goto":
            return [("go", t["t"], st)]
        if k == "switch":
            v = self.operand(st, frame, fn, t["d"], sub)
            ty = self.F.ts(self.op_ty(fn, t["d"], sub))
            vals = [x for x, _ in t["v"]]
            tgt = dict((x, y) for x, y in t["v"])
            if ty == "u8" and v[0] == "s":
                v = self.as_bf(v)
            if ty == "bool" and v[0] == "s" and set(vals) == {0}:
                out = []
                for s2, n in self.branch(st, v, [0, 1]):
                    if n is None:
                        continue
                    out.append(("go", tgt[0] if n == 0 else t["o"], s2))
                return out
            out = []
            for s2, n in self.branch(st, v, vals):
                dst = tgt[n] if n is not None else t["o"]
                if fn.body["bbs"][dst]["t"]["k"] == "unreachable" and not fn.body["bbs"][dst]["s"]:
                    continue
                out.append(("go", dst, s2))
            return out
        if k == "return":
            v = self.read(st, (("L", frame, 0), ()))
            if depth == 0:
                self.hook.ret(self, st, v, fn)
            return [("ret", v, st)]
        if k in ("drop",):
            loc = self.loc_of(st, frame, t["p"])
            v = self.read(st, loc)
            r = self.hook.drop(self, st, v, self.subst(t["ty"], sub), Site(fn, b, t["ln"], chain))
            if r is not None:
                return [("go", t["t"], s2) for s2 in r]
            return [("go", t["t"], st)]
        if k == "assert":
            v = self.operand(st, frame, fn, t["c"], sub)
            self.hook.asrt(self, st, (t, fn, frame, sub, v), Site(fn, b, t["ln"], chain))
            exp = 1 if t["e"] else 0
            if v[0] == "s" and (t.get("m") or "").startswith("other"):
                return [("go", t["t"], st)]
            if v[0] == "s" and v[1][0] == "ovf":
                return [("go", t["t"], st)]
            out = []
            for s2, n in self.branch(st, v, [0, 1]):
                if n == exp or n is None:
                    out.append(("go", t["t"], s2))
            return out
        if k == "yield":
            return [("go", t["t"], st)]
        if k == "call":
            outs = self.do_call(fn, frame, chain, depth, sub, b, st, t)
            if t["t"] is None:
                return []
            res = []
            for (s2, v) in outs:
                s2 = s2.copy()
                loc = self.loc_of(s2, frame, t["d"])
                if loc[0][0] == "M" or loc[1]:
                    self.hook.write(self, s2, loc, v, Site(fn, b, t["ln"], chain))
                self.write(s2, loc, v)
                res.append(("go", t["t"], s2))
            return res
        return []

    # ------------------------------------------------------------- calls
    def mk_callee(self, raw, sub):
        c = Callee()
        F = self.F
        c.raw = raw
        c.p = strip_lt(raw["p"])
        c.nm = raw["nm"]
        c.tr = raw.get("tr")
        c.args = [_ga(self, x, sub) for x in raw["a"]]
        c.self_ty = c.args[0] if c.tr and c.args and isinstance(c.args[0], int) else None
        c.r = None
        c.id = None
        if "rid" in raw:
            c.r = strip_lt(raw["r"])
            c.id = raw["rid"]
            c.ty = [_ga(self, x, sub) for x in raw["ra"]]
        else:
            c.ty = c.args
            if c.tr is None:
                c.id = raw["id"]
                c.r = c.p
            else:
                x = self.resolve_trait(c.tr, c.self_ty, c.nm, c.args)
                if x:
                    c.id, c.ty, c.r = x
        if c.r is None:
            c.r = c.p
        return c

    def resolve_trait(self, tr, self_ty, nm, args):
        F = self.F
        if self_ty is None:
            return None
        t = F.types[self_ty]
        if t.get("k") == "param" or t.get("k") == "alias":
            # provided method
            pass
        if t.get("k") in ("closure", "coroutine", "fndef"):
            return None
        cands = []
        for i in F.impls_of.get(tr, []):
            m = {}
            if self.unify(i["self"], self_ty, m):
                ok = True
                for pa, aa in zip(i["ta"][1:], args[1:]):
                    if isinstance(pa, int) and isinstance(aa, int) and not self.unify(pa, aa, m):
                        ok = False
                if ok:
                    cands.append((i, m))
        if len(cands) == 1 and t.get("k") not in ("param", "alias", "dyn"):
            i, m = cands[0]
            for (n, fid, _) in i["items"]:
                if n == nm and fid in F.fns:
                    hi = max(m) + 1 if m else 0
                    ty = [m.get(j) for j in range(hi)] + list(args[len(i["ta"]):])
                    return fid, ty, F.fns[fid].p
            tt = F.traits.get(tr)
            if tt:
                for (n, fid, has) in tt["items"]:
                    if n == nm and fid in F.fns:
                        return fid, args, F.fns[fid].p
        # default method of a local trait on an unresolved type: only if no impl overrides it
        tt = F.traits.get(tr)
        if tt and not cands:
            for (n, fid, has) in tt["items"]:
                if n == nm and fid in F.fns and has:
                    if not any(n2 == nm for i in F.impls_of.get(tr, []) for (n2, _, _) in i["items"]):
                        return fid, args, F.fns[fid].p
        return None

    def unify(self, pat, ti, m):
        F = self.F
        a, b = F.types[pat], F.types[ti]
        if a.get("k") == "param":
            i = a.get("i")
            if i in m:
                return m[i] == ti
            m[i] = ti
            return True
        if a.get("k") != b.get("k"):
            return False
        k = a["k"]
        if k in ("ref", "ptr"):
            return a["m"] == b["m"] and self.unify(a["t"], b["t"], m)
        if k in ("slice", "array"):
            return self.unify(a["t"], b["t"], m)
        if k == "adt":
            if a["d"] != b["d"]:
                return False
        if k in ("adt", "tuple"):
            if len(a["a"]) != len(b["a"]):
                return False
            for x, y in zip(a["a"], b["a"]):
                if isinstance(x, int) and isinstance(y, int):
                    if not self.unify(x, y, m):
                        return False
                elif isinstance(x, dict) and "c" in x and y is not None and not isinstance(y, int):
                    cy = y if isinstance(y, CV) else CV(y["c"]) if isinstance(y, dict) and y.get("pi") is None else None
                    if x.get("pi") is not None:
                        if cy is not None:
                            m[x["pi"]] = cy
                    elif cy is not None and cy != CV(x["c"]):
                        return False
            return True
        if k == "dyn":
            return a.get("d") == b.get("d")
        return F.tstr[pat] == F.tstr[ti]

    def do_call(self, fn, frame, chain, depth, sub, b, st, t):
        fv = self.operand(st, frame, fn, t["f"], sub)
        args = [self.operand(st, frame, fn, o, sub) for o in t["a"]]
        site = Site(fn, b, t["ln"], chain)
        if fv[0] == "fn":
            cal = self.mk_callee(fv[2].raw, fv[2].sub if fv[2].sub is not None else sub)
        else:
            cal = Callee()
            cal.p = cal.r = "<fnptr>"
            cal.nm = "<fnptr>"
            cal.tr = None
            cal.id = None
            cal.args = cal.ty = []
            cal.self_ty = None
            cal.raw = None
            args = [fv] + args
        argtys = [self.op_ty(fn, o, sub) for o in t["a"]]
        return self.call(st, cal, args, argtys, site, frame, depth, self.place_ty(fn.body, t["d"], sub), t["t"] is None)

    def call(self, st, cal, args, argtys, site, frame, depth, dty, diverges=False):
        self.calls_seen += 1
        self.cur_dty = dty
        self.cur_argtys = argtys
        F = self.F
        r = self.hook.call(self, st, cal, args, site)
        if r is not None:
            return r
        r = self.model(st, cal, args, argtys, site, frame, depth, dty)
        if r is not None:
            return r
        if diverges:
            self.hook.after(self, st, cal, args, None, site)
            return []
        # closures and function items called through Fn* traits
        if cal.tr in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            r = self.call_fnlike(st, args, argtys, site, frame, depth, dty)
            if r is not None:
                return r
        if cal.tr == "core::future::future::Future" and cal.nm == "poll":
            r = self.poll(st, args, site, frame, depth)
            if r is not None:
                return r
        fn2 = F.fns.get(cal.id) or F.ext.get(cal.id)
        tsub = cal.ty
        if fn2 is None and cal.raw is not None and cal.tr == "core::iter::traits::iterator::Iterator" and cal.raw["id"] in F.ext:
            fn2, tsub = F.ext[cal.raw["id"]], cal.args   # what the provided method does, every override of it has to do
        if fn2 is not None:
            if fn2.id in F.ext:   # a generic library shim may recur at another type
                rec = sum(c[0] == fn2.id for c in site.chain) + (fn2.id == site.fn.id) > 3
            else:
                rec = any(c[0] == fn2.id for c in site.chain) or fn2.id == site.fn.id
            if depth < self.hook.max_depth and not rec and self.hook.inline(self, fn2, cal):
                fr = frame + ((site.fn.id, site.bb),)
                fr = ("r", hash_frame(fr))
                ch = site.chain + ((site.fn.id, site.bb, site.line),)
                r = self.exec_fn(fn2, args, st, tuple(x if isinstance(x, (int, CV)) else None for x in tsub), fr, ch, depth + 1)
                return r
        self.cur_dty = dty
        return self.opaque(st, cal, args, argtys, site)

    def call_fnlike(self, st, args, argtys, site, frame, depth, dty):
        F = self.F
        f = args[0]
        while f[0] == "ref":
            f0 = f
            f = self.read(st, f[1])
            if f[0] == "s":
                break
        tup = args[1] if len(args) > 1 else ("adt", "tuple", 0, ())
        if f[0] == "adt" and f[1].startswith("closure:"):
            fn2 = F.fns.get(f[1][8:]) or F.ext.get(f[1][8:])
            if fn2 is None or depth >= self.hook.max_depth:
                return None
            if any(c[0] == fn2.id for c in site.chain):
                return None
            # closure receives itself by ref or by value
            selfty = F.types[fn2.body["locals"][1][0]]
            st2 = st.copy()
            if selfty.get("k") == "ref":
                if args[0][0] == "ref":
                    a0 = args[0]
                    while self.read(st2, a0[1])[0] == "ref":
                        a0 = self.read(st2, a0[1])
                else:
                    loc = (("L", frame, ("clo", site.bb)), ())
                    self.write(st2, loc, f)
                    a0 = ("ref", loc)
            else:
                a0 = f
            n = fn2.body["argc"] - 1
            rest = [self.project(tup, (("f", i),)) for i in range(n)]
            fr = ("r", hash_frame(frame + ((site.fn.id, site.bb),)))
            ch = site.chain + ((site.fn.id, site.bb, site.line),)
            return self.exec_fn(fn2, [a0] + rest, st2, self.clo_sub.get(fn2.id, ()), fr, ch, depth + 1)
        if f[0] == "fn":
            cal = self.mk_callee(f[2].raw, f[2].sub or ())
            n = len(tup[3]) if tup[0] == "adt" else 0
            rest = [tup[3][i] for i in range(n)]
            raw = f[2].raw
            # tuple-struct / variant constructors
            if cal.id not in F.fns and "{{constructor" in cal.p:
                return None
            return self.call(st, cal, rest, [None] * n, site, frame, depth + 1, dty)
        return None

    def poll(self, st, args, site, frame, depth):
        v = args[0]
        # Pin { pointer: &mut fut }
        for _ in range(4):
            if v[0] == "adt" and v[3]:
                if v[1].startswith("coroutine:"):
                    break
                v = v[3][0]
            elif v[0] == "ref":
                nv = self.read(st, v[1])
                v = nv
            else:
                break
        if v[0] == "adt" and v[1].startswith("coroutine:"):
            fn2 = self.F.fns.get(v[1][10:])
            if fn2 is None or depth >= self.hook.max_depth:
                return None
            st2 = st.copy()
            loc = (("L", frame, ("co", site.bb)), ())
            self.write(st2, loc, v)
            fr = ("r", hash_frame(frame + ((site.fn.id, site.bb),)))
            ch = site.chain + ((site.fn.id, site.bb, site.line),)
            a1 = args[1] if len(args) > 1 else ("s", ("cx",))
            selfty = self.F.types[fn2.body["locals"][1][0]]
            a0 = ("ref", loc) if selfty.get("k") in ("ref",) else (v if selfty.get("k") == "coroutine" else ("adt", "core::pin::Pin", 0, (("ref", loc),)))
            outs = self.exec_fn(fn2, [a0, a1][: fn2.body["argc"]], st2, self.clo_sub.get(fn2.id, ()), fr, ch, depth + 1)
            return [(s, ("adt", "core::task::poll::Poll", 0, (x,))) for s, x in outs]
        return None

    def opaque(self, st, cal, args, argtys, site):
        F = self.F
        st = st.copy()
        targs = tuple(self.term(a, st) for a in args)
        pure = PURE.fullmatch(cal.nm) is not None or cal.nm.startswith("is_")
        mutable = False
        for i, a in enumerate(args):
            ti = argtys[i] if i < len(argtys) else None
            t = F.types[ti] if ti is not None else {}
            if t.get("k") == "ref" and t.get("m"):
                mutable = True
        if mutable and not (pure and cal.nm in ("deref", "as_ref", "borrow", "as_ptr", "as_mut_ptr")):
            pure = False
        tag = (cal.r, site.fn.id, site.bb, hash_frame(site.chain))
        for i, a in enumerate(args):
            ti = argtys[i] if i < len(argtys) else None
            self.havoc_arg(st, a, ti, tag + (i,))
        if pure:
            v = ("s", ("call", cal.nm, targs))
        else:
            v = ("s", ("call", cal.r, targs, tag[1:]))
        if self.cur_dty is not None:
            self.tty.setdefault(v[1], self.cur_dty)
        r = self.hook.after(self, st, cal, args, v, site)
        if r is not None:
            return r
        return [(st, v)]

    def havoc_arg(self, st, a, ti, tag, depth=0):
        """Havoc what an opaque callee may change through argument a."""
        F = self.F
        t = F.types[ti] if ti is not None else {}
        k = t.get("k")
        if k == "ref" and t["m"]:
            if a[0] == "ref":
                old = self.read(st, a[1])
                self.havoc_loc(st, a[1], tag)
                self.havoc_nested(st, old, tag, 0)
            elif a[0] == "s":
                self.write(st, (("M", a[1]), ()), ("s", ("hv",) + tag))
        elif a[0] == "adt":
            self.havoc_nested(st, a, tag, 0)
        elif k == "ref" and a[0] == "ref" and False:
            pass

    def havoc_nested(self, st, v, tag, d):
        """Aggregates handed to opaque code may carry mutable references; havoc what they point to."""
        if d > 3:
            return
        if v[0] == "adt":
            cl = v[1].startswith("closure:")
            for i, x in enumerate(v[3]):
                if x[0] == "ref":
                    if cl:
                        fn2 = self.F.fns.get(v[1][8:])
                        if fn2 is not None and not self.closure_mut(fn2, i):
                            continue
                    elif not v[1].startswith("coroutine:") and v[1] not in ("tuple", "array") and not self.adt_field_mut(v[1], v[2], i):
                        continue
                    self.havoc_loc(st, x[1], tag + (i, d))
                elif x[0] == "adt":
                    self.havoc_nested(st, x, tag + (i,), d + 1)

    def adt_field_mut(self, path, vi, i):
        a = self.F.adts.get(path)
        if not a:
            return True
        try:
            t = self.F.types[a["vs"][vi]["f"][i]["t"]]
        except IndexError:
            return True
        return not (t.get("k") == "ref" and not t["m"])

    def closure_mut(self, fn2, i):
        """Does the closure capture its i-th upvar by mutable reference (or by value)?"""
        key = ("cm", fn2.id, i)
        r = self.pre.get(key)
        if r is None:
            r = False
            for b in fn2.body["bbs"]:
                for s in b["s"]:
                    for pl in _places(s):
                        for e in pl[1:]:
                            if isinstance(e, list) and e[0] == "f" and e[1] == i and pl[0] == 1:
                                t = self.F.types[e[2]]
                                if not (t.get("k") == "ref" and not t["m"]):
                                    r = True
            self.pre[key] = r
        return r

    # ------------------------------------------------------------- std models
    def model_fin(self, st, cal, args, argtys):
        """Iteration over arrays of known length, followed item by item (only while unrolling)."""
        nm = cal.nm
        NONE = ("adt", "core::option::Option", 0, ())

        def fin(xs):
            return [(st, ("adt", "#fin", 0, tuple(xs)))]

        a = args[0]
        if nm in ("iter", "iter_mut", "into_iter"):
            if a[0] == "adt" and a[1] == "#fin":
                return [(st, a)]
            if a[0] == "adt" and a[1] == "array" and nm == "into_iter":
                return fin(a[3])
            if a[0] == "ref":
                n = self.arrlen.get(a[1])
                t = self.F.types[argtys[0]] if argtys and argtys[0] is not None else {}
                if t.get("k") == "ref":
                    t = self.F.types[t["t"]]
                    if t.get("k") == "array" and isinstance(t.get("n"), int):
                        n = t["n"]
                if n is not None and n <= self.unroll:
                    base, proj = a[1]
                    return fin(("ref", (base, proj + (("ix", ("c", i)),))) for i in range(n))
            return None
        loc = a[1] if a[0] == "ref" else None
        if nm == "len" and loc in self.arrlen:
            return [(st, ("c", self.arrlen[loc]))]
        if nm in ("get", "get_mut") and loc in self.arrlen and len(args) == 2:
            n = self.arrlen[loc]
            out = []
            for s2, k in self.branch(st, args[1], list(range(n))):
                if k is None:
                    out.append((s2, NONE))
                else:
                    out.append((s2, ("adt", "core::option::Option", 1, (("ref", (loc[0], loc[1] + (("ix", ("c", k)),))),))))
            return out
        v = self.read(st, loc) if loc is not None else a
        if v[0] != "adt" or v[1] != "#fin":
            return None
        xs = v[3]
        if nm in ("next", "next_back") and loc is not None:
            if not xs:
                return [(st, NONE)]
            x, rest = (xs[0], xs[1:]) if nm == "next" else (xs[-1], xs[:-1])
            s2 = st.copy()
            self.write(s2, loc, ("adt", "#fin", 0, rest))
            return [(s2, ("adt", "core::option::Option", 1, (x,)))]
        if nm == "enumerate":
            return fin(("adt", "tuple", 0, (("c", i), x)) for i, x in enumerate(xs))
        if nm == "rev":
            return fin(xs[::-1])
        if nm in ("copied", "cloned") and all(x[0] == "ref" for x in xs):
            return fin(self.read(st, x[1]) for x in xs)
        if nm == "zip" and args[1][0] == "adt" and args[1][1] in ("#fin", "array"):
            return fin(("adt", "tuple", 0, p) for p in zip(xs, args[1][3]))
        if nm in ("skip", "take") and args[1][0] == "c":
            return fin(xs[args[1][1]:] if nm == "skip" else xs[:args[1][1]])
        return None

    def model(self, st, cal, args, argtys, site, frame, depth, dty):
        if self.unroll and args and cal.id not in self.F.fns:
            r = self.model_fin(st, cal, args, argtys)
            if r is not None:
                return r
        p = cal.r
        nm = cal.nm
        F = self.F

        def lv(a):  # pointee of a reference value
            if a[0] == "ref":
                return self.read(st, a[1])
            if a[0] == "b":
                return a
            return self.read(st, (("M", self.term(a)), ()))

        def target(a):
            return a[1] if a[0] == "ref" else (("M", self.term(a)), ())

        r = self.model_vec(st, cal, args, argtys, site, frame, depth)
        if r is not None:
            return r
        r = self.model_slice(st, cal, args, argtys, site, frame, depth)
        if r is not None:
            return r
        if cal.tr == "core::convert::From" and nm == "from" and cal.id not in F.fns and len(cal.args) > 1 and isinstance(cal.args[0], int) and isinstance(cal.args[1], int):
            d, s = F.ts(cal.args[0]), F.ts(cal.args[1])
            if d.startswith("alloc::borrow::Cow<") and s.startswith(("alloc::vec::Vec<", "alloc::string::String")):
                return [(st, ("adt", "alloc::borrow::Cow", 1, (args[0],)))]
            if d.startswith("alloc::borrow::Cow<") and s.startswith("&"):
                return [(st, ("adt", "alloc::borrow::Cow", 0, (args[0],)))]
            if d.startswith("core::sync::atomic::Atomic"):
                return [(st, args[0])]
            if d == s:
                return [(st, args[0])]
            if s in BITS and d in BITS or s in ("bool", "char") and d in BITS or s == "u8" and d == "char":
                return [(st, self.int_cast(st, args[0], s, d))]
        if cal.p.startswith("core::num::<impl u8>::") and nm in ASCII and len(args) == 1:
            b = self.as_bf(lv(args[0]))
            if b is not None:
                return [(st, ("bf", b[1], tuple(int(ASCII[nm](x & 255)) for x in b[2])))]
            k = self.known(st, args[0])
            if k is not None:
                return [(st, ("c", int(ASCII[nm](k))))]
        if p == "core::mem::replace" or p == "core::mem::take":
            s2 = st.copy()
            old = lv(args[0])
            if p.endswith("take"):
                t = F.types[cal.args[0]] if cal.args and isinstance(cal.args[0], int) else {}
                new = self.default_value(t, cal.args[0] if cal.args else None, site)
            else:
                new = args[1]
            self.hook.write(self, s2, target(args[0]), new, site)
            self.write(s2, target(args[0]), new)
            return [(s2, old)]
        if p == "core::mem::swap":
            s2 = st.copy()
            a, b = lv(args[0]), lv(args[1])
            self.write(s2, target(args[0]), b)
            self.write(s2, target(args[1]), a)
            return [(s2, ("adt", "tuple", 0, ()))]
        if p in ("core::intrinsics::likely", "core::hint::black_box", "core::mem::manually_drop::ManuallyDrop::<T>::new"):
            return [(st, args[0])]
        if cal.tr == "core::clone::Clone" and nm == "clone":
            loc_fn = F.fns.get(cal.id)
            if loc_fn is None or (loc_fn.impl and loc_fn.impl.get("derived")):
                if cal.id in F.ext:
                    pass
                return [(st, lv(args[0]))]
        if cal.tr in ("core::borrow::ToOwned", "alloc::borrow::ToOwned") and nm == "to_owned" and cal.id not in F.fns:
            sf = cal.ty[0] if cal.ty and isinstance(cal.ty[0], int) else None
            if "for str>" in p or "for [T]>" in p or (sf is not None and (F.ts(sf) == "str" or F.types[sf].get("k") == "slice")):
                t = self.slice_term(st, args[0])
                if t is not None:
                    return [(st, ("vec", tcontent(t) if t[0] != "b" else tuple(("one", ("c", x)) for x in t[1])))]
            else:
                return [(st, lv(args[0]))]
        if nm == "to_string" and cal.ty and isinstance(cal.ty[0], int) and re.fullmatch(r"u(8|16|32|64|128|size)", F.ts(cal.ty[0])):
            return [(st, ("vec", (("any", frozenset(b"0123456789")),)))]
        if nm == "new_display" and "fmt::rt::Argument" in p and cal.ty:
            ti = next((x for x in cal.ty if isinstance(x, int)), None)
            while ti is not None and F.types[ti].get("k") == "ref":
                ti = F.types[ti]["t"]
            ts = F.ts(ti) if ti is not None else "?"
            if re.fullmatch(r"u(8|16|32|64|128|size)", ts):
                return [(st, ("adt", "#fmtarg", 0, (("vec", (("any", frozenset(b"0123456789")),)),)))]
            if ts in ("str", "alloc::string::String"):
                t = self.slice_term(st, args[0])
                if t is not None:
                    return [(st, ("adt", "#fmtarg", 0, (("vec", tcontent(t) if t[0] != "b" else tuple(("one", ("c", x)) for x in t[1])),)))]
        if nm == "new" and p.endswith("fmt::Arguments::new") and len(args) == 2:
            v = args[1]
            while v[0] == "ref":
                v = self.read(st, v[1])
            tm = args[0]
            while tm[0] == "ref":
                tm = self.read(st, tm[1])
            if tm[0] == "b" and v[0] == "adt" and all(x[0] == "adt" and x[1] == "#fmtarg" for x in v[3]):
                segs, b, i, k = [], tm[1], 0, 0
                while i < len(b) and b[i] != 0:
                    if b[i] < 0x80:
                        segs += [("one", ("c", x)) for x in b[i + 1: i + 1 + b[i]]]
                        i += 1 + b[i]
                    elif b[i] == 0xC0 and k < len(v[3]):
                        segs += list(v[3][k][3][0][1])
                        k += 1
                        i += 1
                    else:
                        segs = None
                        break
                if segs is not None:
                    return [(st, ("adt", "#fmtargs", 0, (("vec", tuple(segs)),)))]
        if p == "alloc::fmt::format" and args and args[0][0] == "adt" and args[0][1] == "#fmtargs":
            return [(st, args[0][3][0])]
        if p == "core::hint::must_use" and args:
            return [(st, args[0])]
        if nm == "encode_utf8" and p.startswith("core::char::methods::"):
            s2 = st.copy()
            self.havoc_arg(s2, args[1], argtys[1], ("encode_utf8", site.fn.id, site.bb))
            v = ("s", ("call", "encode_utf8", (self.term(args[0], st),)))
            if dty is not None:
                self.tty.setdefault(v[1], dty)
            return [(s2, v)]
        if p in ("alloc::string::String::from_utf8_unchecked", "alloc::string::String::into_bytes", "core::str::converts::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked_mut"):
            return [(st, args[0])]
        if nm in ("deref", "deref_mut") and cal.tr in ("core::ops::deref::Deref", "core::ops::deref::DerefMut") and cal.args \
                and isinstance(cal.args[0], int) and F.ts(cal.args[0]).startswith("core::mem::manually_drop::ManuallyDrop<"):
            return [(st, args[0])]
        if nm == "next" and cal.tr == "core::iter::traits::iterator::Iterator" and cal.args and isinstance(cal.args[0], int) \
                and F.ts(cal.args[0]).startswith("core::ops::range::Range<") and args[0][0] == "ref":
            ity = F.ts(cal.args[0])[len("core::ops::range::Range<"):-1]
            if ity in INTS:
                loc = args[0][1]
                a, b = (self.read(st, (loc[0], loc[1] + (("f", i),))) for i in (0, 1))
                out = []
                for s2, x in self.branch(st, self.binop(st, "Lt", a, b, ity), (0, 1)):
                    s2 = s2.copy()
                    if x == 0:
                        out.append((s2, ("adt", "core::option::Option", 0, ())))
                    else:
                        self.write(s2, (loc[0], loc[1] + (("f", 0),)), self.binop(st, "Add", a, ("c", 1), ity))
                        out.append((s2, ("adt", "core::option::Option", 1, (a,))))
                return out
        if nm == "into_iter" and cal.tr == "core::iter::traits::collect::IntoIterator" and cal.args and isinstance(cal.args[0], int) \
                and F.ts(cal.args[0]).startswith("core::ops::range::Range<"):
            return [(st, args[0])]
        if (cal.tr or "").startswith("core::ops::try_trait::") and args and cal.id not in F.ext and cal.id not in F.fns:
            # unresolved (inside a library body): decided by the value at hand
            RES, OPT_, CF = "core::result::Result", "core::option::Option", "core::ops::control_flow::ControlFlow"
            v = args[0]
            if nm == "branch" and v[0] == "adt" and v[1] in (RES, OPT_, CF):
                good = v[2] == (1 if v[1] == OPT_ else 0)
                if good:
                    return [(st, ("adt", CF, 0, (v[3][0],)))]
                return [(st, ("adt", CF, 1, (v,)))]
            if nm == "from_residual" and v[0] == "adt" and v[1] in (RES, OPT_, CF):
                return [(st, v)]
            if nm == "from_output":
                d = F.adt_of(cal.args[0]) if cal.args and isinstance(cal.args[0], int) else None
                if d in (RES, OPT_, CF):
                    return [(st, ("adt", d, 1 if d == OPT_ else 0, (v,)))]
        if p.startswith("core::mem::manually_drop::ManuallyDrop::<T>::into_inner"):
            return [(st, args[0])]
        if nm in ("deref", "deref_mut") and cal.tr in ("core::ops::deref::Deref", "core::ops::deref::DerefMut") and cal.id not in F.fns:
            # external smart pointers: the pointee's identity follows the owner's value
            v = lv(args[0])
            if v[0] == "b":
                return [(st, v)]
            if v[0] == "ref":
                return [(st, v)]
            if v[0] == "adt" and v[1] == "alloc::borrow::Cow" and v[2] == 0:
                return [(st, v[3][0])]
            if v[0] == "adt" and v[1] == "alloc::borrow::Cow" and nm == "deref":
                w = v[3][0]
                return [(st, w if w[0] in ("b", "ref") else ("s", ("deref", w if w[0] == "vec" else self.term(w, st))))]
            if nm == "deref_mut":
                s2 = st.copy()
                if args[0][0] == "ref" and v[0] == "s":
                    pass
                return [(s2, ("s", ("deref", self.term(v, st))))]
            return [(st, ("s", ("deref", self.term(v, st))))]
        if nm in ("as_ref", "borrow", "as_mut", "borrow_mut") and cal.tr in ("core::convert::AsRef", "core::borrow::Borrow", "core::convert::AsMut", "core::borrow::BorrowMut") and cal.id not in F.fns:
            sf = cal.ty[0] if cal.ty and isinstance(cal.ty[0], int) else None
            v = args[0]
            while sf is not None and F.types[sf].get("k") == "ref":
                sf = F.types[sf]["t"]
                v = lv(v)
            if sf is not None and (F.types[sf].get("k") == "slice" or F.ts(sf) == "str"):
                return [(st, v)]
            v = lv(args[0])
            if v[0] == "adt" and v[1] == "alloc::borrow::Cow":
                w = v[3][0]
                if v[2] == 0 or w[0] in ("b", "ref"):
                    return [(st, w)]
                return [(st, ("s", ("deref", w if w[0] == "vec" else self.term(w, st))))]
            return [(st, v if v[0] in ("b",) else ("s", ("deref", self.term(v, st))))]
        if args and (p == "alloc::boxed::Box::<T>::new" or p == "alloc::boxed::Box::<T>::pin"):
            s2 = st.copy()
            loc = (("M", ("box", site.fn.id, site.bb, hash_frame(site.chain))), ())
            self.write(s2, loc, args[0])
            return [(s2, ("ref", loc))]
        if p in ("core::pin::Pin::<Ptr>::new_unchecked", "core::pin::Pin::<Ptr>::new"):
            return [(st, ("adt", "core::pin::Pin", 0, (args[0],)))]
        if p == "core::pin::Pin::<&mut T>::get_unchecked_mut" or p.endswith("::get_context"):
            v = args[0]
            return [(st, v[3][0] if v[0] == "adt" else v)]
        if nm == "into_future" or p == "<F as core::future::into_future::IntoFuture>::into_future":
            return [(st, args[0])]
        if nm == "into_iter" and cal.id not in F.fns and args and args[0][0] in ("s", "adt"):
            return [(st, args[0])]
        if p == "core::slice::<impl [T]>::len" or p == "core::str::<impl str>::len":
            a = args[0]
            if a[0] == "b":
                return [(st, ("c", len(a[1])))]
            return [(st, self.tv(len_of(self.term(a, st))))]
        if p in ("core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty"):
            a = args[0]
            if a[0] == "b":
                return [(st, ("c", int(len(a[1]) == 0)))]
            return [(st, self.binop(st, "Eq", self.tv(len_of(self.term(a, st))), ("c", 0), "usize"))]
        if p == "core::str::<impl str>::as_bytes" or p == "core::str::<impl str>::as_str":
            return [(st, args[0])]
        if p in ("alloc::vec::Vec::<T, A>::len", "alloc::string::String::len"):
            return [(st, ("s", ("len", ("deref", self.term(args[0], st)))))]
        if p in ("alloc::vec::Vec::<T, A>::is_empty", "alloc::string::String::is_empty"):
            return [(st, self.binop(st, "Eq", ("s", ("len", ("deref", self.term(args[0], st)))), ("c", 0), "usize"))]
        if p in ("core::mem::forget", "core::mem::drop"):
            r = self.hook.drop(self, st, args[0], cal.args[0] if cal.args else None, site) if p.endswith("drop") else None
            return [(s, ("adt", "tuple", 0, ())) for s in (r if r is not None else [st])]
        if nm == "eq" and cal.tr == "core::cmp::PartialEq" and cal.id not in F.fns and cal.id not in F.ext:
            return [(st, self.eqval(st, args[0], args[1]))]
        if nm == "ne" and cal.tr == "core::cmp::PartialEq" and cal.id not in F.fns and cal.id not in F.ext:
            v = self.eqval(st, args[0], args[1])
            if v[0] == "c":
                return [(st, ("c", 1 - v[1]))]
            return [(st, ("s", v[1][1] if v[1][0] == "not" else ("not", v[1])))]
        if cal.tr == "core::default::Default" and nm == "default" and cal.id not in F.fns and cal.id not in F.ext:
            return [(st, self.default_value(F.types[cal.args[0]] if isinstance(cal.args[0], int) else {}, cal.args[0], site))]
        return None

    # ------------------------------------------------------------- slices and iterators
    @staticmethod
    def tv(t):
        return t if t[0] == "c" else ("s", t)

    def sl(self, st, a):
        """Value number of a slice reference (None for literals and places)."""
        if a[0] == "s":
            return a[1]
        if a[0] == "st":
            return self.term(a)
        if a[0] == "ref":
            v = self.read(st, a[1])
            if v[0] == "adt" and v[1] == "array" and not v[3]:
                return ("b", b"")
        return None

    def elem_ref(self, t, ix):
        t, ix = elem_ix(t, ix)
        return ("ref", (("M", t), (("ix", ix),)))

    def elem_term(self, t, ix):
        t, ix = elem_ix(t, ix)
        return ("elem", ("mem", t), ix)

    def add_allof(self, st, t, U):
        k = ("allof", t)
        f = st.facts.get(k)
        if f:
            U = U & f[1]
        st.facts[k] = ("in", frozenset(U))

    def model_slice(self, st, cal, args, argtys, site, frame, depth):
        p, nm = cal.r, cal.nm
        OPT = "core::option::Option"
        UNIT = ("adt", "tuple", 0, ())
        NONE = ("adt", OPT, 0, ())

        def some(v):
            return ("adt", OPT, 1, (v,))

        def len_split(t):
            """(empty state or None, non-empty state or None)"""
            lt = len_of(t)
            if lt[0] == "c":
                return (st, None) if lt[1] == 0 else (None, st)
            a, b = st.copy(), st.copy()
            return (a if self.assume(a, lt, 0) else None), (b if self.assume_not(b, lt, [0]) else None)

        if p.startswith("core::slice::<impl [T]>::") and args:
            t = self.sl(st, args[0])
            if t is not None:
                if nm in ("first", "last", "split_first", "split_last"):
                    e, n = len_split(t)
                    out = []
                    if e is not None:
                        out.append((e, NONE))
                    if n is not None:
                        fst = nm.endswith("first")
                        r = self.elem_ref(t, ("c", 0) if fst else ("c", -1))
                        if nm.startswith("split"):
                            rest = ("s", mk_sub(t, ONE) if fst else mk_sub(t, ZERO, sub_(len_of(t), ONE)))
                            r = ("adt", "tuple", 0, (r, rest))
                        out.append((n, some(r)))
                    return out
                if nm == "get" and argtys and len(argtys) > 1 and argtys[1] is not None and self.F.ts(argtys[1]) == "usize":
                    kn = self.known(st, args[1])
                    ix = ("c", kn) if kn is not None else self.term(args[1])
                    out = []
                    if kn == 0:
                        e, n = len_split(t)
                        return [x for x in ((e, NONE), (n, some(self.elem_ref(t, ix)))) if x[0] is not None]
                    for s2, b in self.branch(st, ("s", ("cmp", "Lt", ix, len_of(t))), [0, 1]):
                        out.append((s2, some(self.elem_ref(t, ix)) if b else NONE))
                    return out
                if nm == "iter":
                    return [(st, ("s", ("it", t, 0, "ref")))]
                if nm == "contains" and len(args) > 1:
                    x = args[1]
                    while x[0] == "ref":
                        x = self.read(st, x[1])
                    k = self.known(st, x)
                    if k is not None:
                        s0, s1 = st.copy(), st.copy()
                        self.add_allof(s0, t, frozenset(ALL) - {k})
                        e = self.elem_term(t, ("any", site.fn.id, site.bb, hash_frame(site.chain)))
                        s1.facts[e] = ("in", frozenset([k]))
                        return [(s0, ("c", 0)), (s1, ("c", 1))]
                if nm == "is_ascii":
                    s0, s1 = st.copy(), st.copy()
                    self.add_allof(s1, t, frozenset(range(128)))
                    e = self.elem_term(t, ("any", site.fn.id, site.bb, hash_frame(site.chain)))
                    s0.facts[e] = ("in", frozenset(range(128, 256)))
                    return [(s0, ("c", 0)), (s1, ("c", 1))]
        if nm == "into_iter" and cal.tr == "core::iter::traits::collect::IntoIterator" and argtys and argtys[0] is not None:
            ty = self.F.types[argtys[0]]
            if ty.get("k") == "ref" and self.F.types[ty["t"]].get("k") == "slice":
                t = self.sl(st, args[0])
                if t is not None:
                    return [(st, ("s", ("it", t, 0, "ref")))]
        if nm == "enumerate" and args and args[0][0] == "s" and args[0][1][0] == "it" and args[0][1][2] == 0 and args[0][1][3] in ("ref", "val"):
            x = args[0][1]
            return [(st, ("s", ("it", x[1], 0, "enum" + x[3])))]
        if nm in ("copied", "cloned") and args and args[0][0] == "s" and args[0][1][0] == "it" and args[0][1][3] in ("ref", "val"):
            x = args[0][1]
            return [(st, ("s", ("it", x[1], x[2], "val")))]
        if nm == "by_ref" and args and args[0][0] == "ref":
            return [(st, args[0])]
        if nm in ("next", "any", "all", "find", "position", "try_for_each") and args and cal.tr == "core::iter::traits::iterator::Iterator":
            a = args[0]
            hops = 0
            while a[0] == "ref" and hops < 4:
                v = self.read(st, a[1])
                if v[0] == "ref":
                    a = v
                    hops += 1
                    continue
                break
            if a[0] != "ref":
                return None
            v = self.read(st, a[1])
            if v[0] != "s" or v[1][0] != "it":
                return None
            _, t, pos, kind = v[1]
            return self.model_iter(st, nm, t, pos, kind, a[1], args, site, frame, depth, some, NONE)
        return None

    def model_iter(self, st, nm, t, pos, kind, loc, args, site, frame, depth, some, NONE):
        def item(ix):
            r = self.elem_ref(t, ix)
            if kind in ("enumref", "enumval"):
                return ("adt", "tuple", 0, (ix if ix[0] == "c" else ("s", ix), r if kind == "enumref" else self.read(st, r[1])))
            return r if kind == "ref" else self.read(st, r[1])

        if nm == "next":
            out = []
            if t == ("b", b""):
                return [(st, NONE)]
            if isinstance(pos, int):
                cond = ("cmp", "Lt", ("c", pos), ("len", t))
                if pos == 0:
                    br = []
                    a, b = st.copy(), st.copy()
                    if self.assume(a, ("len", t), 0):
                        br.append((a, 0))
                    if self.assume_not(b, ("len", t), [0]):
                        br.append((b, 1))
                else:
                    br = list(self.branch(st, ("s", cond), [0, 1]))
                for s2, b in br:
                    if b:
                        s2 = s2.copy()
                        self.write(s2, loc, ("s", ("it", t, pos + 1, kind)))
                        out.append((s2, some(item(("c", pos)))))
                    else:
                        out.append((s2, NONE))
                return out
            a, b = st.copy(), st.copy()
            a.facts[("itdone", t, pos)] = ("in", frozenset([1]))
            out.append((a, NONE))
            if pos[0] == "at1":
                b.facts[("itpos", t, pos)] = ("not", frozenset([0]))
            out.append((b, some(item(("itpos", t, pos)))))
            return out
        # any / all / find / position with a predicate
        ix = ("any", site.fn.id, site.bb, hash_frame(site.chain))
        if nm == "position":
            ix = ("pos", t, ix)
        e = self.elem_term(t, ix)
        fresh = pos == 0
        s1 = st.copy()
        if ("allof", t) in s1.facts:
            s1.facts[e] = s1.facts[("allof", t)]
        arg = item(ix)
        if nm == "find":
            l2 = (("L", frame, ("itm", site.bb)), ())
            self.write(s1, l2, arg)
            carg = ("ref", l2)
        else:
            carg = arg
        outs = self.call_fnlike(s1, [args[1], ("adt", "tuple", 0, (carg,))], [None, None], site, frame, depth, None)
        if outs is None:
            return None
        hit, miss, hitv = [], [], []
        UNITV = ("adt", "tuple", 0, ())
        tres = None
        for s2, v in outs:
            if nm == "try_for_each":
                if v[0] != "adt" or v[1] not in ("core::result::Result", "core::option::Option"):
                    return None
                bad = v[2] == (1 if v[1].endswith("Result") else 0)
                tres = ("adt", v[1], 0, (UNITV,)) if v[1].endswith("Result") else ("adt", v[1], 1, (UNITV,))
                if bad:
                    hit.append(s2)
                    hitv.append(v)
                else:
                    miss.append(s2)
                continue
            if v[0] == "s" and v[1][0] not in ("cmp", "not", "and", "or", "inv"):
                return None
            for s3, n in self.branch(s2, v, [0, 1]):
                want = 0 if nm == "all" else 1
                (hit if n == want else miss).append(s3)
        base = {k: v for k, v in st.store.items()}
        for s2 in hit + miss:
            # predicates that write to captured state are not summarised
            for k, v in s2.store.items():
                if base.get(k) != v and k in base:
                    return None
            if s2.auto != st.auto:
                return None
        res = []
        if nm == "try_for_each" and tres is None:
            return None
        for k, s2 in enumerate(hit):
            s2 = s2.copy()
            self.write(s2, loc, ("s", ("it", t, ("part", site.fn.id, site.bb), kind)))
            if nm == "try_for_each":
                res.append((s2, hitv[k]))
            elif nm == "any":
                res.append((s2, ("c", 1)))
            elif nm == "all":
                res.append((s2, ("c", 0)))
            elif nm == "find":
                res.append((s2, some(arg)))
            else:
                pt = ix
                if fresh:
                    U = frozenset().union(*[self.byteset(m, e) for m in miss]) if miss else frozenset()
                    b, lo, hi = base_of(t)
                    if lo == ZERO:
                        s2.facts[("prefix", b, pt)] = ("in", U)
                    else:
                        s2.facts[("allof", mk_sub(t, ZERO, pt))] = ("in", U)
                s2.facts[("cmp", "Lt", pt, len_of(t))] = ("in", frozenset([1]))
                res.append((s2, some(("s", pt))))
        s0 = st.copy()
        self.write(s0, loc, ("s", ("it", t, ("end",), kind)))
        if fresh:
            U = frozenset().union(*[self.byteset(m, e) for m in miss]) if miss else frozenset()
            self.add_allof(s0, t, U)
        res.append((s0, {"any": ("c", 0), "all": ("c", 1), "find": NONE, "position": NONE, "try_for_each": tres}[nm]))
        return res

    def default_value(self, t, ti, site):
        s = self.F.ts(ti) if ti is not None else "?"
        if s in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "bool"):
            return ("c", 0)
        if t.get("k") == "adt" and t["d"] == "core::option::Option":
            return ("adt", "core::option::Option", 0, ())
        if s in ("&[u8]", "&str"):
            return ("b", b"")
        if s in ("alloc::vec::Vec<u8>", "alloc::string::String"):
            return ("vec", ())
        # local Default impls with a unit-like variant
        for i in self.F.impls_of.get("core::default::Default", []):
            if self.F.ts(i["self"]) == s:
                for (n, fid, _) in i["items"]:
                    f = self.F.fns.get(fid)
                    if n == "default" and f and len(f.body["bbs"]) == 1:
                        for st in f.body["bbs"][0]["s"]:
                            if st[0] == "=" and st[1] == [0] and st[2][0] == "agg" and not st[2][2]:
                                return ("adt", strip_lt(st[2][1][1]), st[2][1][2], ())
        return ("s", ("default", s))

    def eqval(self, st, a, b):
        def peel(v):
            while v[0] == "ref":
                v = self.read(st, v[1])
            return v

        a, b = peel(a), peel(b)
        if a[0] in ("c", "b") and b[0] in ("c", "b"):
            return ("c", int(a[1] == b[1]))
        if a[0] == "adt" and b[0] == "adt" and a[1] == b[1] and not a[3] and not b[3]:
            return ("c", int(a[2] == b[2]))
        if a[0] == "adt" and b[0] == "adt" and a[1] == b[1] and a[1] in ("core::option::Option", "core::result::Result"):
            if a[2] != b[2]:
                return ("c", 0)
            if len(a[3]) == 1 == len(b[3]):
                return self.eqval(st, a[3][0], b[3][0])
        ta, tb = self.term(a, st), self.term(b, st)
        if ta == tb:
            return ("c", 1)
        if tb[0] in ("c", "b"):
            pass
        elif ta[0] in ("c", "b") or repr(tb) < repr(ta):
            ta, tb = tb, ta
        f = st.facts.get(ta)
        if tb[0] in ("c",) or tb[0] == "b":
            return ("s", ("cmp", "Eq", ta, ("c", tb[1])))
        return ("s", ("cmp", "Eq", ta, tb))


class _Raw:
    __slots__ = ("raw", "sub")

    def __init__(self, raw, sub):
        self.raw = raw
        self.sub = sub

    def __eq__(self, o):
        return isinstance(o, _Raw) and self.raw["id"] == o.raw["id"] and self.raw["a"] == o.raw["a"] and self.sub == o.sub

    def __hash__(self):
        return hash(self.raw["id"])

    def __repr__(self):
        return "fn:" + self.raw["p"]


_frames = {}


def hash_frame(fr):
    r = _frames.get(fr)
    if r is None:
        r = _frames[fr] = len(_frames)
    return r


def _mentions(t, *tag):
    if not isinstance(t, tuple):
        return False
    if t[: len(tag)] == tag:
        return True
    return any(_mentions(x, *tag) for x in t if isinstance(x, tuple))


def mentions(t, pred):
    """Does any sub-term satisfy pred?"""
    if isinstance(t, tuple):
        if pred(t):
            return True
        return any(mentions(x, pred) for x in t if isinstance(x, tuple))
    return False


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def _places(s):
    out = []
    if s[0] == "=":
        out.append(s[1])
        r = s[2]

        def op(o):
            if o["k"] in ("copy", "move"):
                out.append(o["p"])

        k = r[0]
        if k in ("use", "repeat"):
            op(r[1])
        elif k in ("ref", "rawptr"):
            out.append(r[2])
        elif k == "cast":
            op(r[2])
        elif k == "bin":
            op(r[2]); op(r[3])
        elif k == "un":
            op(r[2])
        elif k == "discr":
            out.append(r[1])
        elif k == "agg":
            for o in r[2]:
                op(o)
    return out


def _wrap(x, ty):
    m = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "char": 32, "bool": 1,
         "i8": -8, "i16": -16, "i32": -32, "i64": -64, "isize": -64}.get(ty)
    if m is None:
        return x
    if m > 0:
        return x & ((1 << m) - 1)
    m = -m
    x &= (1 << m) - 1
    return x - (1 << m) if x >> (m - 1) else x


def _arith(op, a, b):
    try:
        return {
            "Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b,
            "Div": lambda: a // b if b else None, "Rem": lambda: a % b if b else None,
            "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
            "Shl": lambda: a << b, "Shr": lambda: a >> b,
            "Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b,
            "Gt": lambda: a > b, "Ge": lambda: a >= b,
            "Cmp": lambda: (a > b) - (a < b),
        }[op]()
    except KeyError:
        return None
