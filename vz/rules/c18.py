"""C18: numeric replies are always three decimal digits."""
from facts import strip_lt, Missing, calls
from interp import Interp
from rules.strs import StrHook
from rules.valset import ev, holds, atoms, Unknown

EXPLAIN = ("Every operation of Numeric is interpreted abstractly on all paths and its result terms are decided over their whole "
           "value range: from_bytes accepts exactly three-byte slices of digits and stores them in order; from_int and "
           "TryFrom<u16> accept exactly 0..=999 and store the decimal digits, most significant first; into_int and the "
           "conversion to u16 give back the value; the text, byte and Display forms expose exactly the three stored bytes; "
           "is_error follows its documented ranges. Every construction of the type anywhere in the crate happens with digits "
           "or inside an unsafe function.")
NUM = "ircmsg::numeric::Numeric"
DIG = frozenset(range(48, 58))


class H(StrHook):
    max_depth = 14

    def __init__(self, F):
        super().__init__(F)
        self.made = []

    def agg(self, I, st, kk, vals, site):
        if kk and isinstance(kk, (tuple, list)) and NUM in [strip_lt(str(x)) for x in kk]:
            self.made.append((st, vals, site))

    def call(self, I, st, cal, args, site):
        F = self.F
        a0 = F.ts(cal.args[0]) if cal.args and isinstance(cal.args[0], int) else "?"
        x = None
        if cal.nm == "fmt" and (cal.tr or "").startswith("core::fmt::") and a0.lstrip("&") == "str":
            x = args[0]
        elif cal.p.endswith(("::write_str", "Formatter::pad", "Formatter::<'a>::pad")) and len(args) == 2:
            x = args[1]
        elif cal.nm == "write_all" and len(args) == 2:
            x = args[1]
        elif "fmt::rt::Argument" in cal.p and cal.nm in ("new_display", "new_debug"):
            x = args[0]
        if x is not None:
            while x[0] == "ref" and not (x[1][0] == ("M", ("arg", 1))):
                x = I.read(st, x[1])
            s2 = st.copy()
            s2.auto = (s2.auto or ()) + (x,)
            return [(s2, ("s", ("w", site.bb)))]
        if cal.nm in ("from_utf8_unchecked", "as_slice") and args and args[0][0] == "ref":
            return [(st, args[0])]
        return super().call(I, st, cal, args, site)


def run(F, fn, auto=None):
    I = Interp(F, H(F))
    I.unroll = 8
    return I, I.run(fn, auto=auto)


def digits(I, v):
    """The three byte values stored in a Numeric value."""
    if v[0] == "s" and v[1][0] == "arg":
        return None
    arr = v[3][0] if v[0] == "adt" and v[1] == NUM else v
    return [I.project(arr, (("ix", ("c", i)),)) for i in range(3)]


def from_int(cx, fn, wrap):
    F = cx.F
    I, outs = run(F, fn)
    cx.cover(fn)
    seen = {}
    for st, v in outs:
        good = v
        some = True
        if wrap:
            if v[0] != "adt" or v[1] not in ("core::option::Option", "core::result::Result"):
                raise Missing("result of unknown shape")
            some = (v[2] == 1) if v[1].endswith("Option") else v[2] == 0
            good = v[3][0] if some else None
        ds = digits(I, good) if some else None
        for n in range(65536 if wrap else 1000):
            env = {("arg", 1): n}
            if not holds(st, env):
                continue
            seen[n] = True
            if some and n >= 1000:
                cx.viol(f"int:{fn.p}", fn.sp, f"{fn.p} accepts {n}")
                break
            if not some and n < 1000:
                cx.viol(f"int:{fn.p}", fn.sp, f"{fn.p} rejects {n}")
                break
            if some:
                try:
                    got = bytes(ev(I.term(d), env) & 255 for d in ds)
                except Unknown as e:
                    raise Missing(f"digit not decidable: {str(e)[:80]}")
                if got != b"%03d" % n:
                    cx.viol(f"int:{fn.p}", fn.sp, f"{fn.p} stores {got!r} for {n}")
                    break
    cx.ob("integer conversion exact over its whole domain", fn.p)
    missing = [n for n in range(65536 if wrap else 1000) if n not in seen]
    if missing:
        cx.viol(f"int:{fn.p}", fn.sp, f"{fn.p} has no result for {missing[0]}")


def into_int(cx, fn):
    F = cx.F
    I, outs = run(F, fn)
    cx.cover(fn)
    cx.ob("value exact over all digit triples", fn.p)
    covered = 0
    for st, v in outs:
        t = I.term(v)
        els = atoms(t)
        for x in st.facts:
            els |= atoms(x)
        pos = {}
        for a in els:
            if a[0] == "elem" and a[-1][0] == "c" and a[-1][1] in (0, 1, 2, -1, -2, -3):
                pos[a] = a[-1][1] % 3
            else:
                raise Missing(f"value depends on {str(a)[:80]}")
        for n in range(1000):
            env = {a: (b"%03d" % n)[p] for a, p in pos.items()}
            if not holds(st, env):
                continue
            covered += 1
            if ev(t, env) != n:
                cx.viol(f"into:{fn.p}", fn.sp, f"{fn.p} gives {ev(t, env)} for {n:03d}")
                return
    if covered < 1000:
        cx.viol(f"into:{fn.p}", fn.sp, f"{fn.p} has no result for some numeric")


def from_bytes(cx, fn):
    F = cx.F
    I, outs = run(F, fn)
    cx.cover(fn)
    for st, v in outs:
        cx.ob("text accepted iff three digits", fn.p)
        if v[0] != "adt" or v[1] not in ("core::option::Option", "core::result::Result"):
            raise Missing("result of unknown shape")
        some = (v[2] == 1) if v[1].endswith("Option") else v[2] == 0
        ln = None
        el = {}
        for t, f in st.facts.items():
            if t[0] == "len" and t[1] in (("arg", 1), ("mem", ("arg", 1)), ("deref", ("arg", 1))):
                ln = f
            if t[0] == "elem" and t[1] in (("mem", ("arg", 1)), ("arg", 1), ("deref", ("arg", 1))) and t[-1][0] == "c" and f[0] == "in":
                i = t[-1][1]
                el[i if i >= 0 else 3 + i] = f[1]
        is3 = ln == ("in", frozenset({3}))
        if some:
            ds = digits(I, v[3][0])
            ok = is3 and ds is not None
            for i in range(3):
                t = I.term(ds[i]) if ds else None
                ok = ok and t is not None and t[0] == "elem" and t[1] in (("mem", ("arg", 1)), ("arg", 1)) and t[-1] in (("c", i), ("c", i - 3)) and el.get(i, DIG | {0}) <= DIG
            if not ok:
                cx.viol(f"bytes:{fn.p}", fn.sp, f"{fn.p} accepts bytes that are not three digits, or stores them wrongly")
        else:
            no3 = ln is not None and (ln[0] == "not" and 3 in ln[1] or ln[0] == "in" and 3 not in ln[1])
            if not no3 and not any(s.isdisjoint(DIG) for s in el.values()):
                cx.viol(f"bytes:{fn.p}", fn.sp, f"{fn.p} can reject three digits")


def exposes(cx, fn, how):
    F = cx.F
    I, outs = run(F, fn, auto=())
    cx.cover(fn)
    for st, v in outs:
        cx.ob("three digits exposed", fn.p)
        xs = [v] if how == "ret" else [e for e in st.auto or ()]
        for x in xs or [None]:
            ok = x is not None and x[0] == "ref" and x[1][0] == ("M", ("arg", 1)) and [p for p in x[1][1]] in ([("f", 0)], [])
            if not ok or len(xs) != 1:
                cx.viol(f"text:{fn.p}", fn.sp, f"{fn.p} does not expose exactly the three stored digits")
                break


def is_error(cx, fn):
    F = cx.F
    I, outs = run(F, fn)
    cx.cover(fn)
    cx.ob("documented error ranges", fn.p)
    for st, v in outs:
        els = set()
        for x in st.facts:
            els |= atoms(x)
        pos = {a: a[-1][1] for a in els if a[0] == "elem" and a[-1][0] == "c"}
        if len(pos) != len(els):
            raise Missing("depends on more than the digits")
        for n in range(569):
            env = {a: (b"%03d" % n)[p] for a, p in pos.items()}
            if not holds(st, env):
                continue
            w = ("adt", "core::option::Option", 1, (("c", int(n >= 400)),))
            if v != w and not (v[0] == "adt" and v[2] == 1 and I.known(st, v[3][0]) == int(n >= 400)):
                r = v[3][0] if v[0] == "adt" and v[2] == 1 else None
                if r is not None and r[0] == "s":
                    try:
                        if ev(r[1], env) == int(n >= 400):
                            continue
                    except Unknown:
                        pass
                cx.viol(f"err:{fn.p}", fn.sp, f"{fn.p} misreports {n:03d}")
                return


def check(cx):
    F = cx.F
    done = set()
    for fn in list(F.fns.values()):
        if fn.body is None or "{closure" in fn.p or not fn.impl:
            continue
        s = fn.impl.get("self")
        sd = strip_lt(F.types[s]["d"]) if isinstance(s, int) and F.types[s].get("k") == "adt" else F.ts(s) if isinstance(s, int) else ""
        tr = fn.impl.get("tr") or ""
        ta = [F.ts(x) for x in (fn.impl.get("ta") or [])[1:] if isinstance(x, int)]
        if sd == NUM and not tr:
            if fn.nm == "from_bytes":
                cx.guard(fn.p, from_bytes, cx, fn)
            elif fn.nm == "from_int":
                cx.guard(fn.p, from_int, cx, fn, True)
            elif fn.nm == "from_int_unchecked":
                cx.guard(fn.p, from_int, cx, fn, False)
            elif fn.nm == "into_int":
                cx.guard(fn.p, into_int, cx, fn)
            elif fn.nm in ("as_bytes", "as_str"):
                cx.guard(fn.p, exposes, cx, fn, "ret")
            elif fn.nm == "write_to":
                cx.guard(fn.p, exposes, cx, fn, "out")
            elif fn.nm == "is_error":
                cx.guard(fn.p, is_error, cx, fn)
        elif sd == NUM and tr == "core::convert::TryFrom" and ta == ["u16"]:
            cx.guard(fn.p, from_int, cx, fn, True)
        elif sd == "u16" and tr == "core::convert::From" and ta == [NUM]:
            cx.guard(fn.p, into_int, cx, fn)
        elif sd == NUM and tr in ("core::convert::AsRef", "core::borrow::Borrow", "core::ops::deref::Deref"):
            cx.guard(fn.p, exposes, cx, fn, "ret")
        elif sd == NUM and tr in ("core::fmt::Display", "core::fmt::Debug"):
            cx.guard(fn.p, exposes, cx, fn, "out")
        done.add(fn.p)
    # constructions
    adt = F.adts[NUM]
    cx.ob("fields private", NUM)
    if any(f["vis"] not in ("ircmsg::numeric",) and "pub" == f["vis"] for f in adt["vs"][0]["f"]):
        cx.viol("vis", "src/ircmsg/numeric.rs", "the digits of Numeric can be replaced from outside")
    for fn in F.fns.values():
        if fn.body is None or fn.unsafe:
            continue
        hit = False
        for bb in fn.body["bbs"]:
            for x in bb["s"]:
                if x[0] == "=" and isinstance(x[2], list) and x[2] and x[2][0] == "agg" and list(x[2][1])[:2] == ["adt", NUM]:
                    hit = True
        cs = [c for _, _, c in calls(fn) if c["p"] in (NUM + "::from_bytes_unchecked", NUM + "::from_int_unchecked")]
        if not hit and not cs:
            continue
        cx.ob("construction with digits", fn.p)
        own = fn.impl and isinstance(fn.impl.get("self"), int) and F.ts(fn.impl["self"]) == NUM and (fn.nm in ("from_bytes", "from_int") or fn.impl.get("tr") == "core::convert::TryFrom" or fn.impl.get("tr") == "core::clone::Clone")
        if own:
            continue
        h = H(F)
        I = Interp(F, h)
        I.unroll = 8
        I.run(fn)
        if not h.made:
            cx.viol(f"make:{fn.p}", fn.sp, f"{fn.p} builds a Numeric without validation")
        for st, vals, site in h.made:
            ds = [I.project(vals[0], (("ix", ("c", i)),)) for i in range(3)]
            for d in ds:
                t = I.term(d)
                f = st.facts.get(t)
                if not (t[0] == "c" and t[1] in DIG or f and f[0] == "in" and f[1] <= DIG or d[0] == "bf" and set(d[2][i] for i in (I.byteset(st, d[1]) or range(256))) <= DIG):
                    cx.viol(f"make:{fn.p}", site.where, f"{fn.p} builds a Numeric from bytes not known to be digits")
                    break
    cx.need("integer conversion exact over its whole domain", 2)
    cx.need("value exact over all digit triples", 1)
    cx.need("text accepted iff three digits", 1)
    cx.need("three digits exposed", 5)
