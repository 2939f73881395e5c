"""C34: nickname fallbacks are valid, use their documented digits, and end."""
import re
from facts import Missing, strip_lt, calls
from interp import Hook as Base, Interp, mentions, subterms
from rules import valset
from rules.cli import Interp2, opt, OPT

EXPLAIN = (
    "All functions of the nickname generators are interpreted over all paths. For every kind of suffix the set of bytes that can be "
    "appended is computed by evaluating the expression for all 256 values of the number it is made from, under the conditions of the "
    "path, and has to be exactly the documented alphabet; listed and single-character suffixes have to come from the configuration, and "
    "go through the checked functions of the builder, started from the given nickname. Every step that can panic (arithmetic, "
    "indexing, unwrapping) has to be impossible on its path. Every generator that says it can go on has to have used up something: a "
    "counter, an element of its iterator, or a step of a generator it is made of.")
NICK = "client::nick"
GEN, TRANS = NICK + "::NickGen", NICK + "::NickTransformer"
DIG = "0123456789"
ALPHA = {"Base8": DIG[:8], "Base10": DIG, "NonZeroBase8": DIG[1:8], "NonZeroBase10": DIG[1:]}
ALPHA2 = {"Letter": ("abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
          "Base16": (DIG + "abcdef", DIG + "ABCDEF"), "NonZeroBase16": (DIG[1:] + "abcdef", DIG[1:] + "ABCDEF")}
PANICS = re.compile(r"^(unwrap\w*|expect\w*|index|index_mut|panic\w*|unreachable\w*|copy_from_slice|clone_from_slice|split_at\w*|remove|swap_remove|"
                    r"insert|drain|split_off|rotate_\w+|step_by|chunks\w*|windows|div_ceil|assert_failed\w*|from_utf8_unchecked|borrow_mut|begin_panic|"
                    r"rem|div|neg|div_euclid|rem_euclid|isqrt|ilog\w*|next_power_of_two|strict_\w+|copy_within|as_chunks|from_digit|truncate_front)$")
SAFE = ("unwrap_or", "unwrap_or_default", "unwrap_or_else")


def byte_atoms(t, out=None):
    """As valset.atoms, but what was cut down to a byte, or is only looked up in tables of bytes, is taken as it is."""
    out = set() if out is None else out
    k = t[0]
    if k == "cast" and t[1] == "u8":
        inner = byte_atoms(t[2])
        if inner and all(x[0] == "cast" and x[1] == "u8" or x[0] == "byte" for x in inner):
            out |= inner
        elif inner:
            out.add(t)
    elif k == "bf":
        inner = byte_atoms(t[1])
        if len(inner) == 1 and min(inner)[0] not in ("cast", "byte"):
            out.add(("byte", t[1]))
        else:
            out |= inner
    elif k == "c":
        pass
    elif k in ("s", "not"):
        byte_atoms(t[1], out)
    elif k in ("cast", "un"):
        byte_atoms(t[2], out)
    elif k in ("op", "cmp"):
        for x in t[2:]:
            byte_atoms(x, out)
    elif k in ("and", "or"):
        for x in t[1:]:
            byte_atoms(x, out)
    else:
        out.add(t)
    return out


def in_nick(fn):
    return fn.p.startswith((NICK + "::", f"<{NICK}::")) or NICK in fn.p.split(" as ")[0]


class H(Base):
    max_depth = 10

    def __init__(self, cx, F, root):
        self.cx, self.F, self.root = cx, F, root
        self.pushed = []
        self.want, self.have, self.fail = {}, set(), set()
        a = [p for p, x in F.adts.items() if p.startswith(NICK) and any(v["n"] in ALPHA for v in x["vs"])]
        if len(a) != 1:
            raise Missing("the kinds of suffix")
        self.kinds = a[0]
        self.names = [v["n"] for v in F.adts[self.kinds]["vs"]]
        self.chain = [(p, [i for i, f in enumerate(x["vs"][0]["f"]) if f["n"] == "b"]) for p, x in F.adts.items()
                      if p.startswith(NICK) and len(x["vs"]) == 1 and len([f for f in x["vs"][0]["f"] if "dyn" in F.ts(f["t"]) and "NickGen" in F.ts(f["t"])]) == 2]

    def snapshot(self):
        return len(self.pushed), dict(self.want), set(self.have)

    def restore(self, s):
        del self.pushed[s[0]:]
        self.want, self.have = dict(s[1]), set(s[2])

    def inline(self, I, fn, cal):
        return in_nick(fn)

    def tfact(self, I, st, t):
        """What holds of every generator when one of its functions is called: a sequence of two still has its second part."""
        if t[0] == "discr" and isinstance(t[1], tuple) and t[1][:1] == ("fld",) and len(t[1]) == 3:
            ti = I.ttype(t[1][1])
            if ti is not None:
                for p, ix in self.chain:
                    if self.F.adt_of(ti) == p and t[1][2] in ix:
                        return ("in", frozenset([1]))
        return None

    # ------------------------------------------------------------ panics
    def bad(self, site, what):
        self.cx.viol(f"{site.fn.p}:{site.line}:{what}", f"{site.fn.file}:{site.line}", f"{site.fn.p} can panic: {what}")

    def positive(self, I, st, t):
        f = I.fact(st, t)
        if f is not None and (f[0] == "not" and 0 in f[1] or f[0] == "in" and 0 not in f[1]):
            return True
        if t[0] == "c":
            return t[1] > 0
        if t[0] == "op" and t[1] == "Add" and any(x[0] == "c" and x[1] > 0 for x in t[2:]):
            return True
        if t[0] == "loop":
            return t in self.want or self.want.setdefault(t, True)
        return False

    def asrt(self, I, st, t, site):
        t, fn, frame, sub, v = t
        m = t.get("m") or ""
        exp = 1 if t["e"] else 0
        self.cx.ob("cannot panic", f"{site.fn.p}:{site.line} {m}")
        if m.startswith("other") or I.known(st, v) == exp:
            return
        x = I.term(v, st)
        if not valset.holds(st, {}):
            return
        env = self.consts(st)
        try:
            vals = self.values(I, st, x)
            if vals <= {exp}:
                return
        except valset.Unknown:
            pass
        if x[0] == "ovf" and len(x) == 4:
            if x[1] == "Sub" and x[3] == ("c", 1) and self.positive(I, st, x[2]):
                return
            if x[1] == "Add" and self.counted(I, st, x):
                return
        if x[0] == "cmp" and x[1] == "Eq" and x[3] == ("c", 0) and exp == 0 and self.positive(I, st, x[2]):
            return
        if x[0] == "cmp" and x[1] == "Lt" and exp == 1 and self.below(x[2], x[3]):
            return
        self.bad(site, {"overflow": "an arithmetic overflow", "rem0": "division by zero", "div0": "division by zero", "bounds": "an index out of bounds"}.get(m.split(":")[0], m))

    def counted(self, I, st, x):
        """The state of a sequence plus one: the state and what is left never exceed what the counter started with (see `sequence`)."""
        a, b = x[2:]
        if a[0] == "c":
            a, b = b, a
        if b != ("c", 1) or a[0] != "fld" or len(a) != 3:
            return False
        ti = I.ttype(a[1])
        p = self.F.adt_of(ti) if ti is not None else None
        if p not in self.F.adts or not p.startswith(NICK):
            return False
        fs = self.F.adts[p]["vs"][0]["f"]
        self.cx.counted.add((p, a[2]))
        return self.F.ts(fs[a[2]]["t"]) in ("u16", "u32", "u64", "usize", "u128") and any(self.F.ts(f["t"]) == "u8" for f in fs)

    def below(self, i, n):
        while i[0] == "cast":
            i = i[2]
        return i[0] == "op" and i[1] == "Rem" and i[3] == n

    def consts(self, st):
        return {}

    def values(self, I, st, t):
        """All values a term made from one byte-sized number can have on this path."""
        ats = sorted(byte_atoms(t), key=repr)
        if not ats:
            return {valset.ev(t, {})}
        if len(ats) != 1:
            raise valset.Unknown(t)
        a = ats[0]
        ty = I.ttype(a)
        if not (a[0] == "cast" and a[1] == "u8" or a[0] == "byte") and not (ty is not None and self.F.ts(ty) in ("u8", "bool")):
            raise valset.Unknown(t)
        out = set()
        for n in range(256):
            env = {a: n} if a[0] != "byte" else {a[1]: n}
            if self.holds(st, a if a[0] != "byte" else a[1], env):
                out.add(valset.ev(t, env))
        return out

    def holds(self, st, a, env):
        for t, f in st.facts.items():
            if not mentions(t, lambda x: x == a):
                continue
            try:
                v = valset.ev(t, env)
            except valset.Unknown:
                continue
            if (f[0] == "in") != (v in f[1]):
                return False
        return True

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        for t in list(self.want):
            if t[:3] == ("loop", frame, head):
                k = t[3]
                ok = True
                for s in list(states) + list(backs):
                    v = I.read(s, k)
                    if not (v[0] in ("s", "c") and self.positive(I, s, I.term(v, s))):
                        ok = False
                (self.have if ok else self.fail).add(t)

    # ------------------------------------------------------------ calls
    def call(self, I, st, cal, args, site):
        F = self.F
        nm = cal.nm
        fn = F.fns.get(cal.id)
        if cal.p == "<&bool as core::ops::bit::Not>::not" or nm == "not" and args and args[0][0] == "ref":
            v = args[0]
            for _ in range(3):
                if v[0] == "ref":
                    v = I.read(st, v[1])
            out = []
            for b in (0, 1):
                s = st.copy()
                if I.assume(s, I.term(v, st), b) is not False:
                    out.append((s, ("c", 1 - b)))
            return out
        if cal.p.startswith("core::bool") and nm in ("then_some", "then") and len(args) == 2:
            out = []
            for b in (0, 1):
                s = st.copy()
                if I.assume(s, I.term(args[0], st), b) is False:
                    continue
                if b and nm == "then":
                    return None
                else:
                    out.append((s, opt(args[1] if b else None)))
            return out
        if cal.p.startswith("core::option::Option::<") and nm in ("as_deref", "as_deref_mut", "as_ref", "as_mut") and args and args[0][0] == "ref":
            d = self.discr(I, st, I.read(st, args[0][1]))
            if d is not None:
                return [(st, opt(("s", ("call", "asref", (I.term(args[0], st),))) if d else None))]
        if cal.p.startswith("core::option::Option::<") and nm == "take" and args and args[0][0] == "ref":
            v = I.read(st, args[0][1])
            I.write(st, args[0][1], opt(None))
            return [(st, v)]
        ti = I.cur_argtys[0] if args and I.cur_argtys else None
        if ti is not None and F.types[ti].get("k") == "ref" and F.types[ti].get("m") and F.adt_of(ti) == "string::builder::Builder":
            if nm not in ("reserve", "reserve_exact"):
                self.pushed.append((st, nm, [I.term(self.val(I, st, a), st) for a in args[1:]], site))
            if fn is not None and fn.unsafe:
                self.cx.viol(f"{site.fn.p}:{nm}", site.where, f"{site.fn.p} appends to a nickname without checking it (`{nm}`)")
        elif fn is not None and fn.unsafe:
            self.cx.viol(f"{site.fn.p}:{nm}", site.where, f"{site.fn.p} calls the unchecked `{nm}`")
        if fn is not None and F.adt_of(I.cur_dty) == "string::builder::Builder" and (fn.impl or {}).get("self") is not None and F.adt_of(fn.impl["self"]) == "string::builder::Builder":
            self.pushed.append((st, "start", [I.term(self.val(I, st, a), st) for a in args], site))
        if PANICS.match(nm) and nm not in SAFE and not (fn is not None and in_nick(fn)):
            self.cx.ob("cannot panic", f"{site.fn.p}:{site.line} {nm}")
            if nm in ("unwrap", "expect", "unwrap_unchecked") and args:
                d = self.discr(I, st, args[0])
                v = args[0]
                good = 1 if v[0] == "adt" and v[1] == OPT or F.adt_of(I.cur_argtys[0]) == OPT else 0
                if d != good:
                    self.bad(site, f"`{nm}` on nothing")
            elif nm == "index" and len(args) == 2:
                b, i = I.term(self.val(I, st, args[0]), st), I.term(args[1], st)
                b0 = I.term(args[0], st)
                ns = [x for x in subterms(i) if isinstance(x, tuple) and x[:1] == ("len",)]
                if not any(self.below(i, n) and (mentions(n, lambda x: x == b0) or mentions(n, lambda x: x == b)) for n in ns):
                    self.bad(site, "an index out of bounds")
            else:
                self.bad(site, f"`{nm}`")
        return None

    def discr(self, I, st, v):
        if v[0] == "adt":
            return v[2]
        f = I.fact(st, ("discr", I.term(v, st)))
        return min(f[1]) if f is not None and f[0] == "in" and len(f[1]) == 1 else None

    def val(self, I, st, a):
        for _ in range(3):
            if a[0] == "ref":
                a = I.read(st, a[1])
        return a


def run(cx, fn):
    h = H(cx, cx.F, fn)
    I = Interp2(cx.F, h)
    I.split = 64
    I.budget = 3000
    outs = I.run(fn)
    for t in h.want:
        if t not in h.have or t in h.fail:
            cx.viol(f"{fn.p}:count", fn.sp, f"{fn.p} can panic: it counts down from a number that may be zero")
    return h, I, outs


# ------------------------------------------------------------------ what is appended
def digits(cx, fn, h, I, seen):
    F = cx.F
    for st, nm, args, site in h.pushed:
        kind = uc = elem = None
        for t, f in st.facts.items():
            if t[0] == "discr" and f[0] == "in" and len(f[1]) == 1 and isinstance(t[1], tuple):
                ti = I.ttype(t[1])
                if ti is not None and F.adt_of(ti) == h.kinds:
                    kind, elem = h.names[min(f[1])], t[1]
                    ki = min(f[1])
        if nm == "start":
            cx.ob("start", f"{site.fn.p}:{site.line}")
            ok = args and any(isinstance(x, tuple) and x[:1] == ("fld",) and len(x) == 3 and I.ttype(x) is not None and "Nick" in F.ts(I.ttype(x)) for x in subterms(args[0]))
            if not ok:
                cx.viol(f"{fn.p}:start", site.where, f"{site.fn.p} does not start from the nickname it was given")
            continue
        if kind is None:
            cx.viol(f"{fn.p}:{nm}", site.where, f"{site.fn.p} appends something that is not one of the configured suffixes (`{nm}`)")
            continue
        cx.ob("appended", f"{kind}: {nm} at {site.fn.p}:{site.line}")
        own = ("fld", elem, ki, 0)
        if kind in ALPHA or kind in ALPHA2:
            if nm != "try_push":
                cx.viol(f"{kind}:{nm}", site.where, f"{site.fn.p} appends something other than a digit for {kind}")
                continue
            if kind in ALPHA2:
                f = I.fact(st, own)
                uc = min(f[1]) if f is not None and f[0] == "in" and len(f[1]) == 1 else None
                sets = ALPHA2[kind] if uc is None else (ALPHA2[kind][uc],)
                want = set(sets[0]) & set(sets[-1])
            else:
                want = set(ALPHA[kind])
            try:
                got = {chr(x) for x in h.values(I, st, args[0])}
            except valset.Unknown:
                raise Missing(f"which bytes are appended for {kind}")
            if got - want:
                cx.viol(f"{kind}", site.where, f"{site.fn.p} can append `{sorted(got - want)[0]}` for the suffix {kind}{'' if uc is None else f'({bool(uc)})'.lower()}")
            strat = strategy(F, I, st)
            for u in ((0, 1) if uc is None and kind in ALPHA2 else (uc,)):
                seen.setdefault((kind, u, strat), set()).update(got)
        elif kind == "Choice":
            if not (nm in ("append", "try_append") and element(args[0], own)):
                cx.viol(f"{kind}:{nm}", site.where, f"{site.fn.p} does not append one of the listed suffixes")
        elif kind == "Char":
            if not (nm in ("try_push_char",) and args[0] == own):
                cx.viol(f"{kind}:{nm}", site.where, f"{site.fn.p} does not append the configured character")
        else:
            raise Missing(f"the alphabet of the suffix {kind}")


def strategy(F, I, st):
    for t, f in st.facts.items():
        if t[0] == "discr" and f[0] == "in" and len(f[1]) == 1 and isinstance(t[1], tuple):
            ti = I.ttype(t[1])
            p = F.adt_of(ti) if ti is not None else None
            if p in F.adts and any(v["n"] == "Seq" for v in F.adts[p]["vs"]):
                return F.adts[p]["vs"][min(f[1])]["n"]
    return None


def element(t, vec):
    """Is this an element of the list?"""
    for _ in range(8):
        if t[0] in ("mem", "deref", "fld") and isinstance(t[1], tuple):
            if t[0] == "fld" and len(t) == 4 and t[2:] != (1, 0):
                return False
            t = t[1]
        elif t[0] == "call" and t[1].split("::")[-1] in ("index", "get", "clone", "first", "last", "get_unchecked", "next", "nth") and t[2]:
            t = t[2][0]
            if mentions(t, lambda x: x == vec):
                return True
        elif t[0] == "elem":
            return mentions(t[1], lambda x: x == vec)
        else:
            return False
    return False


# ------------------------------------------------------------------ it ends
def inner(I, st, v):
    """The generator a (boxed) continuation is: its fields as a struct value, if it is one built or modified here."""
    return v


def progress(cx, fn, h, I, outs):
    F = cx.F
    me = strip_lt(F.ts(fn.impl["self"]))
    for st, v in outs:
        if v[0] != "adt" or v[1] != "tuple" or len(v[3]) != 2:
            # the result of another generator, as it is
            t = I.term(v, st)
            cx.ob("continuation", f"{fn.p}: delegated")
            if not (t[0] == "call" and t[1].split("::")[-1] == "next_nick"):
                raise Missing(f"the continuation of {fn.p}")
            continue
        nxt = v[3][1]
        if nxt == opt(None):
            cx.ob("continuation", f"{fn.p}: ends")
            continue
        t = I.term(nxt, st)
        if mentions(t, lambda x: isinstance(x, tuple) and x[:1] == ("call",) and x[1].split("::")[-1] == "next_nick"):
            if not mentions(t, lambda x: x == ("arg", 1)) or t[0] == "fld":
                cx.ob("continuation", f"{fn.p}: what is left of a part")
                continue
        why = used(F, I, st, nxt)
        cx.ob("continuation", f"{fn.p}: {why}")
        if why is None:
            cx.viol(f"{fn.p}:forever", fn.sp, f"{fn.p} can say that there are more nicknames without having used anything up, so it may never end")


def entries(I, st):
    """What was written to the generator behind the box: {field: value}."""
    out = {}
    for k, v in st.store.items():
        if k[0][0] == "M" and isinstance(k[0][1], tuple) and mentions(k[0][1], lambda x: x == ("arg", 1)) and len(k[1]) == 1 and k[1][0][0] == "f":
            out[k[1][0][1]] = (("fld", ("mem", k[0][1]), k[1][0][1]), v)
        if k[0][0] == "M" and isinstance(k[0][1], tuple) and mentions(k[0][1], lambda x: x == ("arg", 1)) and not k[1] and v[0] in ("st", "adt"):
            fs = v[3] if v[0] == "adt" else ()
            for i, x in enumerate(fs):
                out[i] = (("fld", ("mem", k[0][1]), i), x)
    return out


def used(F, I, st, nxt):
    if not mentions(I.term(nxt, st), lambda x: x == ("arg", 1)):
        return None
    for i, (old, v) in entries(I, st).items():
        t = I.term(v, st)
        ti = I.ttype(old)
        ty = F.ts(ti) if ti is not None else ""
        if ty in ("u8", "u16", "u32", "u64", "usize"):
            dec = t[0] == "call" and t[1].split("::")[-1] in ("saturating_sub", "wrapping_sub") and t[2] and t[2][0] == old and t[2][1][0] == "c" and t[2][1][1] > 0 or \
                t[0] == "op" and t[1] == "Sub" and t[2] == old and t[3][0] == "c" and t[3][1] > 0
            if lower(st, t, old):
                return "its counter went down"
            f, g = I.fact(st, t), I.fact(st, old)
            if dec and (no0(f) or no0(g) or not valset.holds(st, {t: 0}) or not valset.holds(st, {old: 0})):
                return "its counter went down"
        if "NickGen" in ty and mentions(t, lambda x: isinstance(x, tuple) and x[:1] == ("call",) and x[1].split("::")[-1] == "next_nick"):
            return "a part went on"
    for t, f in st.facts.items():
        if t[0] == "discr" and f == ("in", frozenset([1])) and isinstance(t[1], tuple) and t[1][:1] == ("call",) and t[1][1].split("::")[-1] == "next":
            return "its iterator went on"
    for t in list(st.facts) + [I.term(v, st) for _, v in entries(I, st).values()]:
        if mentions(t, lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] in ("hv", "call") and str(x[1]).split("::")[-1] == "next"):
            return "its iterator went on"
    return None


def lower(st, t, old):
    """A table of a byte that is below the byte wherever this path can be."""
    if t[0] != "bf" or t[1] != old:
        return False
    vs = [v for v in range(len(t[2])) if valset.holds(st, {old: v})]
    return all(t[2][v] < v for v in vs)


def no0(f):
    return f is not None and (f[0] == "not" and 0 in f[1] or f[0] == "in" and 0 not in f[1])


def keeps_second(cx, fn, h, I, outs):
    """A sequence of two that is returned still has its second part."""
    F = cx.F
    for p, ix in h.chain:
        for st, v in outs:
            t = v
            if v[0] == "adt" and v[1] == "tuple" and len(v[3]) == 2:
                t = v[3][1]
            if t[0] == "adt" and t[1] == OPT and t[2] == 1:
                t = t[3][0]
            if t == ("s", ("arg", 1)) and fn.impl and F.adt_of(fn.impl["self"]) == p and fn.ins and "Box" in F.ts(fn.ins[0]):
                w = entries(I, st)
                cx.ob("second part", f"{fn.p}")
                for i in ix:
                    if i in w:
                        b = w[i][1]
                        f = I.fact(st, ("discr", I.term(b, st)))
                        if not (b[0] == "adt" and b[2] == 1 or f == ("in", frozenset([1]))):
                            cx.viol(f"{fn.p}:second", fn.sp, f"{fn.p} returns a sequence without its second part, which panics when it is used")
            else:
                x = t
                for _ in range(3):
                    if x[0] == "adt" and x[1] == "alloc::boxed::Box" and x[3]:
                        x = x[3][0]
                if x[0] == "adt" and x[1] == p:
                    cx.ob("second part", f"{fn.p}")
                    for i in ix:
                        if not (x[3][i][0] == "adt" and x[3][i][2] == 1):
                            cx.viol(f"{fn.p}:second", fn.sp, f"{fn.p} makes a sequence without its second part")
        # wherever one is built
        for st, kk, vals, site in h.__dict__.get("built", []):
            pass


class Built(H):
    """Also records every generator that is built."""

    def agg(self, I, st, kk, vals, site):
        if kk[0] == "adt" and kk[1].startswith(NICK):
            self.__dict__.setdefault("built", []).append((st, kk[1], vals, site))


def sequence(cx, fn, I, outs, h):
    """state + counter never grows while a sequence is being generated, and starts with the state at 0."""
    F = cx.F
    for p, si in sorted(cx.counted):
        fs = F.adts[p]["vs"][0]["f"]
        li = [i for i, f in enumerate(fs) if F.ts(f["t"]) == "u8"]
        for st, q, vals, site in h.__dict__.get("built", []):
            if q != p:
                continue
            cx.ob("sequence", f"{fn.p}: starts")
            v = vals[si]
            if I.known(st, v) == 0:
                continue
            if not_seq(F, I, st, vals, p):
                continue
            cx.viol(f"{fn.p}:state", fn.sp, f"{fn.p} can panic: it starts counting from something other than zero")
        if fn.nm == "next_nick" and fn.impl and F.adt_of(fn.impl["self"]) == p:
            for st, v in outs:
                w = entries(I, st)
                if v[0] == "adt" and v[1] == "tuple" and v[3][1] == opt(None):
                    continue
                if strategy(F, I, st) not in (None, "Seq"):
                    continue
                cx.ob("sequence", f"{fn.p}: goes on")
                if si in w:
                    old, x = w[si]
                    t = I.term(x, st)
                    if not (t == old or t == ("op", "Add", ("c", 1), old) or t == ("op", "Add", old, ("c", 1))):
                        cx.viol(f"{fn.p}:state", fn.sp, f"{fn.p} can panic: it may count past the largest number")
                    dn = [i for i in li if i in w and lower(st, I.term(w[i][1], st), w[i][0]) or i in w and mentions(I.term(w[i][1], st), lambda z: isinstance(z, tuple) and (z[:2] == ("op", "Sub") or z[:1] == ("call",) and str(z[1]).endswith("saturating_sub")))]
                    if t != old and not dn:
                        cx.viol(f"{fn.p}:counter", fn.sp, f"{fn.p} can panic: it counts up without counting down what is left")


def not_seq(F, I, st, vals, p):
    s = strategy(F, I, st)
    if s is not None and s != "Seq":
        return True
    for v in vals:
        for x in subterms(I.term(v, st)):
            if isinstance(x, tuple) and len(x) == 4 and x[0] == "adt" and x[1] in F.adts and any(y["n"] == "Seq" for y in F.adts[x[1]]["vs"]):
                return F.adts[x[1]]["vs"][x[2]]["n"] != "Seq"
    return False


def one(cx, fn, seen):
    F = cx.F
    cx.cover(fn)
    h = Built(cx, F, fn)
    I = Interp2(F, h)
    I.split = 64
    I.budget = 3000
    outs = I.run(fn)
    for t in h.want:
        if t not in h.have or t in h.fail:
            cx.viol(f"{fn.p}:count", fn.sp, f"{fn.p} can panic: it counts down from a number that may be zero")
    entry = fn.impl and fn.impl.get("tr") in (GEN, TRANS)
    if entry:
        digits(cx, fn, h, I, seen)
    if entry and fn.nm == "next_nick":
        progress(cx, fn, h, I, outs)
    keeps_second(cx, fn, h, I, outs)
    return I, outs, h


def check(cx):
    F = cx.F
    cx.counted = set()
    seen, done = {}, []
    for fn in sorted(F.fns.values(), key=lambda f: f.p):
        if fn.body is None or not in_nick(fn) or fn.impl and fn.impl.get("derived") or "::tests::" in fn.p:
            continue
        if (fn.impl or {}).get("tr") and str(fn.impl["tr"]).startswith(("serde", "core::fmt", "core::clone", "core::cmp", "core::hash")):
            continue
        if (fn.impl or {}).get("self") is not None and F.adt_of(fn.impl["self"]) in F.adts and fn.impl.get("tr") is None and not fn.reach:
            pass
        r = cx.guard(fn.p, one, cx, fn, seen)
        if r is not None:
            done.append((fn,) + r)
    for fn, I, outs, h in done:
        cx.guard(fn.p, sequence, cx, fn, I, outs, h)
    strats = {k[2] for k in seen}
    for kind, alpha in list(ALPHA.items()) + list(ALPHA2.items()):
        for u in ((None,) if kind in ALPHA else (0, 1)):
            for s in sorted(strats, key=str):
                want = set(alpha if kind in ALPHA else alpha[u])
                got = seen.get((kind, u, s), set())
                cx.ob("alphabet", f"{kind}{'' if u is None else u} by {s}: {''.join(sorted(got))}")
                if want - got:
                    cx.viol(f"{kind}:{s}", "-", f"the suffix {kind}{'' if u is None else f'({bool(u)})'.lower()} never uses its documented digit `{sorted(want - got)[0]}`")
    cx.need("alphabet", 20)
    cx.need("continuation", 5)
    cx.need("cannot panic", 20)
