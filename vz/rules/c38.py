"""C38: taking ownership never leaves a dangling borrow."""
import re
from facts import Missing, strip_lt
from interp import Interp, Hook, subterms
from seqs import base_of, content, tcontent
from rules.strs import BYTES, newtype_of
from rules.c05 import fidx

EXPLAIN = (
    "Every construction of and every field write to a byte string is interpreted over all paths: the slice it holds must be "
    "backed by the buffer it holds a share of (both halves of one fresh buffer, or another string's slice together with that "
    "string's share, which may only be left out when that string is known not to own anything). Safe functions that hand out a "
    "slice for longer than they borrow the string must know it owns nothing. Every in-place conversion must end owning on each "
    "path; every function whose result carries a lifetime its inputs do not, through a transmute, must reach it only with each "
    "contained string converted (for collections: inside a loop over all elements). Composite conversions must take each field "
    "of the result from the same field of the input.")
ASSUME = ["the borrow checker enforces lifetimes wherever no unsafe code is used",
          "implementations of the unsafe Transform trait outside the crate keep its contract (returned borrows come from the argument)"]
ONE = ("in", frozenset([1]))
PASS1 = ("from_utf8_unchecked", "from_utf8_lossy", "from_utf8", "as_bytes", "as_str", "as_ref", "deref", "borrow", "into", "from", "as_slice",
         "as_bytes_unsafe", "split_at", "split_first", "split_last", "get_unchecked", "index", "get", "trim_ascii", "trim_ascii_start", "trim_ascii_end",
         "unwrap", "trim", "utf8_cow", "as_slice_unsafe")


def lts(s):
    s = re.sub(r"DefId\(([^()]|\([^()]*\))*\)", lambda m: "D" + re.sub(r"\W", "", m.group(0)), s)
    return set(re.findall(r"'[^\s,>)]+", s))


def views(s):
    """Lifetimes that a type's references and Cows carry."""
    s = re.sub(r"DefId\(([^()]|\([^()]*\))*\)", lambda m: "D" + re.sub(r"\W", "", m.group(0)), s)
    return set(re.findall(r"&('[^\s,>)]+)", s)) | set(re.findall(r"Cow<('[^\s,>)]+)", s))


def direct(F, fn, adt):
    """Does fn itself build an adt?"""
    for b in fn.body["bbs"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], (list, tuple)) and len(s[2][1]) > 1 and isinstance(s[2][1][1], str) \
                    and strip_lt(s[2][1][1]) == adt:
                return True
    return False


def transmutes(fn):
    for b in fn.body["bbs"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "cast" and s[2][1] == "Transmute":
                yield s[2]


def is_from_vec(F, fn):
    if fn is None or fn.out is None:
        return False
    return bool(re.fullmatch(r"\(.*OwnedBytes>?, &(mut )?\[u8\]\)", F.ts(fn.out))) and bool(fn.ins) and "Vec<u8>" in F.ts(fn.ins[0])


class Own(Hook):
    """Follows everything; a buffer taken into shared ownership yields a matching pair (share, slice)."""
    max_depth = 12

    def __init__(self, F):
        self.F = F
        self.n = 0
        self.aggs = []
        self.roots = {}           # loop-carried slices: term -> what they may be
        self.vi, self.oi = fidx(F, BYTES, "value"), fidx(F, BYTES, "ownership")

    def call(self, I, st, cal, args, site):
        fn = self.F.fns.get(cal.id)
        if is_from_vec(self.F, fn):
            tag = ("own", site.fn.id, site.bb)
            v = args[0]
            c = tcontent(("deref", v)) if v[0] == "vec" else (("sl", ("deref", I.term(v, st))),)
            return [(st, ("adt", "tuple", 0, (("s", tag), ("s", ("ownv", tag, c)))))]
        return self.cow_to_mut(I, st, cal, args)

    def cow_to_mut(self, I, st, cal, args):
        """Cow::to_mut leaves the value owned."""
        if cal.p.endswith("Cow::to_mut") or "Cow" in cal.p and cal.nm == "to_mut":
            loc = args[0][1] if args[0][0] == "ref" else (("M", I.term(args[0], st)), ())
            old = I.term(I.read(st, loc), st)
            s2 = st.copy()
            I.write(s2, loc, ("adt", "alloc::borrow::Cow", 1, (("s", ("owned", old)),)))
            return [(s2, ("ref", (loc[0], loc[1] + (("f", 0),))))]
        return None

    def agg(self, I, st, kk, vals, site):
        if kk[0] == "adt" and kk[1] == BYTES:
            self.aggs.append((site, [I.term(v, st) for v in vals], dict(st.facts)))

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        for k in havoced:
            lv = ("loop", frame, head, k)
            s = self.roots.setdefault(lv, set())
            for x in list(states) + list(backs):
                if k in x.store:
                    s.add(I.term(I.read(x, k), x))


def known(facts, t, v):
    f = facts.get(t)
    return f is not None and f == ("in", frozenset([v]))


def roots(t, H, seen=()):
    """What a slice term borrows from: a set of terms; None for a value borrowing nothing."""
    if t in seen:
        return set()
    seen = seen + (t,)
    if t[0] in ("b", "c", "const", "static", "str") or t[0] == "mem" and t[1][0] in ("static", "const"):
        return {None}
    if t[0] == "sub":
        return roots(t[1], H, seen)
    if t[0] in ("deref", "mem", "s", "elem", "as") and isinstance(t[1], tuple):
        return roots(t[1], H, seen)
    if t[0] == "loop":
        out = set()
        for x in H.roots.get(t, ()):
            out |= roots(x, H, seen)
        return out or {t}
    if t[0] == "call" and len(t) > 2 and t[1].split("::")[-1] in PASS1:
        xs = [x for x in t[2] if isinstance(x, tuple)] if isinstance(t[2], tuple) else []
        return roots(xs[0], H, seen) if xs else {t}
    if t[0] == "fld" and isinstance(t[1], tuple) and t[1][0] == "call":
        return roots(t[1], H, seen)
    if t[0] == "adt" and t[1] == "alloc::borrow::Cow":
        if t[2] == 1:
            return {None}
        return roots(t[3][0], H, seen)
    return {t}


def pair(cx, H, vt, ot, facts, I):
    """Is the slice vt backed by the share ot?  None if so, else the reason."""
    if vt[0] == "ownv":
        return None if ot == vt[1] else "the slice of a fresh buffer without the share that keeps it alive"
    none = ot[0] == "adt" and ot[1].endswith("option::Option") and ot[2] == 0
    if not none and ot[0] == "call" and ot[1].split("::")[-1] == "default":
        none = True
    if known(facts, ("len", vt), 0):
        return None
    for r in roots(vt, H):
        if r is None:
            continue
        if r[0] == "ownv":
            if ot != r[1]:
                return "the slice of a fresh buffer without the share that keeps it alive"
            continue
        if r[0] == "fld" and len(r) == 3 and r[2] == H.vi and is_str(cx.F, I, r[1]):
            own = ("fld", r[1], H.oi)
            if ot == own or clone_of(ot, own):
                continue
            if none and (known(facts, ("discr", own), 0) or known(facts, ("len", r), 0)):
                continue
            return "another string's slice without that string's share of the buffer"
        if r[0] in ("arg", "fld") and none and root_is_slice(cx.F, I, r):
            continue
        return f"a slice whose backing cannot be told ({short(r)})"
    return None


def short(t):
    s = str(t)
    return s if len(s) < 90 else s[:90] + "…"


def clone_of(ot, own):
    return ot[0] == "call" and ot[1].split("::")[-1] == "clone" and any(x == own for x in subterms(ot))


def is_str(F, I, t):
    ti = I.ttype(t)
    while ti is not None and F.types[ti].get("k") == "ref":
        ti = F.types[ti]["t"]
    if ti is None:
        return t[0] in ("arg", "mem") and False
    return F.types[ti].get("k") == "adt" and (strip_lt(F.types[ti]["d"]) == BYTES or newtype_of(F, ti) is not None)


def root_is_slice(F, I, t):
    ti = I.ttype(t)
    return ti is not None and F.types[ti].get("k") == "ref" and F.ts(ti).replace("mut ", "") in ("&[u8]", "&str")


def run(cx, fn, H=None, sub=()):
    H = H or Own(cx.F)
    I = Interp(cx.F, H)
    H.I = I
    I.split = 32
    outs = I.run(fn, sub=sub)
    cx.cover(fn)
    return H, I, outs


def check_builds(cx):
    """Each construction of a byte string pairs slice and share."""
    F = cx.F
    todo = [f for f in F.fns.values() if f.body and direct(F, f, BYTES)]
    done, sites = set(), 0
    while todo:
        fn = todo.pop()
        if fn.id in done:
            continue
        done.add(fn.id)
        H, I, outs = run(cx, fn)
        bad = []
        for site, vals, facts in H.aggs:
            vt, ot = vals[H.vi], vals[H.oi]
            if fn.unsafe and fn.nm == "using_value" and vt == ("arg", 2):
                # its contract: the value given is one of self's (or static)
                own = ("fld", ("mem", ("arg", 1)), H.oi)
                ok = ot == own or clone_of(ot, own) or (known(facts, ("len", vt), 0))
                why = None if ok else "the value of another string without its share of the buffer"
            else:
                why = pair(cx, H, vt, ot, facts, I)
            if why:
                bad.append((site, why))
        if bad and not fn.unsafe and not fn.reach and fn.nm not in ("drop",) and not fn.impl.get("tr") if fn.impl else bad and not fn.reach:
            # a private helper: judge it where it is called
            cs = [g for g in F.fns.values() if g.body and any(c and (c.get("rid") or c.get("id")) == fn.id for _, _, c in callees(g))]
            if cs:
                todo += cs
                continue
        for site, why in bad:
            cx.viol("built-dangling:" + site.fn.p, f"{site.fn.sp} line {site.line}", f"a string is built on {why}" + (f" (reached from {fn.p})" if fn is not site.fn else ""))
        for site, vals, facts in H.aggs:
            cx.ob("build", (site.fn.p, site.line))
    cx.need("build", 10)


def callees(g):
    from facts import calls
    return calls(g)


def check_writes(cx):
    """No field of a byte string is overwritten on its own, except the slice by a transformation of that string."""
    F = cx.F
    vi, oi = fidx(F, BYTES, "value"), fidx(F, BYTES, "ownership")
    fields = [f["n"] for f in F.adts[BYTES]["vs"][0]["f"]]

    class W(Own):
        max_depth = 0

        def __init__(s, F):
            super().__init__(F)
            s.w = []

        def inline(s, I, fn, cal):
            return False

        def write(s, I, st, loc, val, site):
            if site is None or not loc[1] or loc[1][-1][0] != "f" or loc[1][-1][1] not in (vi, oi):
                return
            ti = I.loc_type(st, (loc[0], loc[1][:-1])) if hasattr(I, "loc_type") else None
            s.w.append((site, loc, I.term(val, st)))
    for fn in F.fns.values():
        if not fn.body or not fn.p.lstrip("<").startswith("string::bytes"):
            continue
        if not any(s[0] == "=" and len(s[1]) > 1 and s[1][-1][0] == "f" and s[1][-1][1] in (vi, oi) and place_is(F, fn, s[1]) for b in fn.body["bbs"] for s in b["s"]):
            continue
        H, I, outs = run(cx, fn, W(F))
        for site, loc, vt in H.w:
            if not place_at(F, fn, site, loc):
                continue
            cx.ob("write", (site.fn.p, site.line))
            if loc[1][-1][1] == oi:
                cx.viol("share-overwritten:" + fn.p, f"{fn.sp} line {site.line}", "a string's share of its buffer is overwritten while its slice stays")
                continue
            rs = roots(vt, H)
            own_value = ("fld", loc_term(loc), vi)
            bad = [r for r in rs if r is not None and not tf_result(r) and r != own_value]
            if bad:
                cx.viol("slice-overwritten:" + fn.p, f"{fn.sp} line {site.line}", f"a string's slice is replaced by one that is not its own ({short(bad[0])})")


def loc_term(loc):
    t = loc[0][1] if loc[0][0] == "M" else loc[0]
    t = ("mem", t) if loc[0][0] == "M" else t
    for p in loc[1][:-1]:
        t = ("fld", t, p[1]) if p[0] == "f" else t
    return t


def tf_result(r):
    """Something produced by a transformation of the string."""
    return any(x and x[0] == "call" and x[1].split("::")[-1] == "transform" for x in subterms(r))


def place_is(F, fn, pl):
    """Is the place a field of a byte string?  Projection elements carry the field type only, so look at the base."""
    ti = fn.body["locals"][pl[0]][0]
    t = F.types[ti]
    for e in pl[1:-1]:
        if e[0] == "d" or e == "d" or e[0] == "*" or e == "*":
            ti = t.get("t")
        elif e[0] == "f":
            ti = e[2] if len(e) > 2 else None
        else:
            return True
        if ti is None:
            return True
        t = F.types[ti]
    return t.get("k") == "adt" and strip_lt(t["d"]) == BYTES


def place_at(F, fn, site, loc):
    return site.fn is fn


def check_transforms(cx):
    """What a transformation lends out must come from its argument."""
    F = cx.F
    fns = [f for f in F.fns.values() if f.body and f.nm == "transform" and f.impl and (f.impl.get("tr") or "").endswith("string::Transform")]
    for fn in fns:
        H, I, outs = run(cx, fn)
        ok = ("fld", ("mem", ("arg", 2)), H.vi)
        for st, v in outs:
            t = I.term(v, st)
            if t[0] != "adt" or not t[1].endswith("Transformation"):
                raise Missing(f"result of {fn.p}")
            tr = t[3][fidx(F, "string::Transformation", "transformed")]
            if tr[0] == "adt" and tr[2] == 1:
                continue
            if tr[0] == "call" and tr[1].split("::")[-1] in ("into", "from") and any(isinstance(x, tuple) and x and (x[0] == "vec" or x[0] == "call" and "Vec" in x[1]) for x in tr[2]):
                continue                      # an owned vector
            cx.ob("lend", fn.p)
            for r in roots(tr, H):
                if r is not None and r != ok:
                    cx.viol("transform-lends:" + fn.p, fn.sp, f"the transformation lends out something other than its argument's text ({short(r)})")
    cx.need("lend", 2)


def check_using(cx):
    """Callers of using_value hand it a slice of the same string."""
    F = cx.F
    for fn in F.fns.values():
        if not fn.body or not any(c and c.get("nm") == "using_value" for _, _, c in callees(fn)):
            continue
        if fn.nm == "using_value":
            H0 = ("forward", )
        vs = []

        class U(Own):
            def call(s, I, st, cal, args, site):
                if cal.nm == "using_value" and len(args) >= 2:
                    me = I.read(st, args[0][1]) if args[0][0] == "ref" else args[0]
                    vs.append((site, I.term(me, st), I.term(args[1], st), dict(st.facts), I))
                    return [(st, ("s", ("used", site.fn.id, site.bb)))]
                return super().call(I, st, cal, args, site)
        H, I, outs = run(cx, fn, U(F))
        for site, s, v, facts, I in vs:
            s0 = strip_ref(s)
            cx.ob("slice-of-self", (site.fn.p, site.line))
            if fn.nm == "using_value" and fn.unsafe and v == ("arg", 2) and base_arg(s0) == ("arg", 1):
                continue
            for r in roots(v, H):
                if r is None or known(facts, ("len", v), 0):
                    continue
                r0 = strip_val(r, H.vi) if r[0] != "fld" or is_str(F, I, r[1]) else r
                if strip_ref(r0) != s0:
                    cx.viol("foreign-slice:" + fn.p, f"{fn.sp} line {site.line}", f"a string is made from another one's share and a slice that is not its own ({short(r)})")
    cx.need("slice-of-self", 10)


def base_arg(t):
    while t and t[0] in ("fld", "mem", "deref") and isinstance(t[1], tuple):
        t = t[1]
    return t


def strip_ref(t):
    while t and t[0] in ("mem", "ref", "addr") and isinstance(t[1], tuple) and t[0] != "mem":
        t = t[1]
    if t and t[0] == "ref" and len(t) == 2:
        t = t[1]
    return t


def strip_val(t, vi):
    if t[0] == "fld" and len(t) == 3 and t[2] == vi:
        return t[1]
    if t[0] == "call" and t[1].split("::")[-1] in ("as_bytes_unsafe",):
        return t[2][0]
    return t


def check_views(cx):
    """Safe functions that lend a string's text for longer than they borrow the string know it owns nothing."""
    F = cx.F
    vi, oi = fidx(F, BYTES, "value"), fidx(F, BYTES, "ownership")
    for fn in F.fns.values():
        l = fn.raw.get("lt")
        if not fn.body or not l or fn.unsafe or (fn.impl or {}).get("derived") or "{closure" in fn.p:
            continue
        out = views(l[-1])
        tied = set()
        for x in l[:-1]:
            tied |= set(re.findall(r"^&('[^\s,>)]+)", re.sub(r"DefId\(([^()]|\([^()]*\))*\)", lambda m: "D" + re.sub(r"\W", "", m.group(0)), x)))
        loose = out - tied
        if not loose or "Cow" not in l[-1] and not re.search(r"\[u8\]|str\b", l[-1]):
            continue
        if not re.search(r"string::|owning|bytes", fn.p) and not any("string::" in x for x in l):
            continue
        if fn.trait and not fn.impl:
            continue
        H, I, outs = run(cx, fn)
        cx.ob("long-view", fn.p)
        for st, v in outs:
            t = I.term(v, st)
            for r in exposed(t, H):
                if r[0] == "fld" and len(r) == 3 and r[2] == vi and is_str(F, I, r[1]):
                    if not known(st.facts, ("discr", ("fld", r[1], oi)), 0) and not known(st.facts, ("len", r), 0):
                        cx.viol("long-view:" + fn.p, fn.sp, "lends out a string's text for longer than the string is borrowed without knowing that the string owns nothing")
    cx.need("long-view", 2)


def exposed(t, H):
    if t[0] == "adt":
        out = set()
        if t[1] == "alloc::borrow::Cow" and t[2] == 1:
            return out
        for x in t[3]:
            out |= exposed(x, H)
        return out
    if t[0] == "call" and t[1].split("::")[-1] in ("into_owned", "to_owned", "to_vec", "to_string", "clone"):
        return set()
    return {r for r in roots(t, H) if r is not None}


def owning_val(F, H, I, st, v):
    """Is the (newtype of a) byte string v owning in state st?  None if so, else the reason."""
    o = I.project(v, tuple([("f", H.oi)])) if v[0] != "s" else ("s", ("fld", v[1], H.oi))
    s = I.project(v, tuple([("f", H.vi)])) if v[0] != "s" else ("s", ("fld", v[1], H.vi))
    ot, vt = I.term(o, st), I.term(s, st)
    if ot[0] == "own" and vt == ("ownv", ot, vt[2] if len(vt) > 2 else None):
        return None
    if ot[0] == "adt" and ot[2] == 1 and vt[0] == "ownv":
        return None
    for w in whole_of(F, I, ot[1] if ot[0] == "fld" else None):
        # (a reference to a newtype may be seen as one to the string it wraps)
        if known(st.facts, ("discr", ("fld", w, H.oi)), 1) and vt == ("fld", ot[1], H.vi):
            return None
    if vt[0] == "b" and ot[0] == "adt" and ot[2] == 0:
        return None                            # static text
    if known(st.facts, ("len", vt), 0) and vt[0] != "fld":
        return None
    return "still borrows"


def whole_of(F, I, t):
    out = []
    while t is not None:
        out.append(t)
        t = t[1] if t[0] == "fld" and len(t) == 3 and t[2] == 0 and isinstance(t[1], tuple) and t[1][0] in ("mem", "arg", "fld") else None
    return out


def same_text(H, t, src):
    """Is the slice t the text of src, moved or copied?"""
    while src[0] == "fld" and src[1][0] == "fld":
        if same_text1(H, t, src):
            return True
        src = ("fld", src[1][1], src[2])
    return same_text1(H, t, src)


def same_text1(H, t, src):
    if t == src:
        return True
    return t[0] == "ownv" and len(t[2]) == 1 and t[2][0][0] == "sl" and base_eq(t[2][0][1], src)


def base_eq(t, src):
    while t != src and t and t[0] in ("deref", "call", "s", "mem"):
        if t[0] == "call":
            if t[1].split("::")[-1] not in ("to_vec", "to_owned", "into_owned", "clone", "into", "from"):
                return False
            xs = [x for x in t[2] if isinstance(x, tuple)]
            t = xs[0] if xs else None
        else:
            t = t[1]
    return t == src


def check_in_place(cx):
    """Every implementation of MakeOwning ends owning, with the text it had."""
    F = cx.F
    fns = [f for f in F.fns.values() if f.body and f.nm == "make_owning" and f.impl]
    for fn in fns:
        self_ti = fn.impl.get("self")
        t = F.types[self_ti]
        H, I, outs = run(cx, fn)
        cx.ob("in-place", fn.p)
        if not outs:
            raise Missing(f"{fn.p} never returns")
        for st, _ in outs:
            v = I.read(st, (("M", ("arg", 1)), ()))
            if strip_lt(t.get("d", "")) == BYTES or newtype_of(F, self_ti):
                b = unwrap(F, I, v, self_ti)
                why = owning_val(F, H, I, st, b)
                if why:
                    cx.viol("not-owning:" + fn.p, fn.sp, f"make_owning returns with a string that {why}")
                    continue
                vt = I.term(I.project(b, (("f", H.vi),)) if b[0] != "s" else ("s", ("fld", b[1], H.vi)), st)
                if not same_text(H, vt, self_value(F, H, self_ti)):
                    cx.viol("other-text:" + fn.p, fn.sp, "make_owning changes the text it was to copy")
            elif "Cow" in F.ts(self_ti):
                t0 = I.term(v, st)
                if t0 == ("mem", ("arg", 1)):
                    if not known(st.facts, ("discr", t0), 1):
                        cx.viol("not-owning:" + fn.p, fn.sp, "make_owning returns with a value that still borrows")
                elif not (t0[0] == "adt" and t0[2] == 1):
                    cx.viol("not-owning:" + fn.p, fn.sp, "make_owning returns with a value that still borrows")
            else:
                raise Missing(f"make_owning for {F.ts(self_ti)}")
    cx.need("in-place", 11)


def unwrap(F, I, v, ti):
    d = 0
    while newtype_of(F, ti) is not None and d < 5 and not (v[0] == "adt" and v[1] == BYTES):
        v = I.project(v, (("f", 0),)) if v[0] != "s" else ("s", ("fld", v[1], 0))
        ti = F.adts[strip_lt(F.types[ti]["d"])]["vs"][0]["f"][0]["t"]
        d += 1
    return v


def self_value(F, H, ti):
    """Term of the text of *self."""
    t = ("mem", ("arg", 1))
    d = 0
    while newtype_of(F, ti) is not None and d < 5:
        t = ("fld", t, 0)
        ti = F.adts[strip_lt(F.types[ti]["d"])]["vs"][0]["f"][0]["t"]
        d += 1
    return ("fld", t, H.vi)


def holds_bytes(F, ti, seen=()):
    """Does a type contain a byte string?"""
    if ti is None or ti in seen or not isinstance(ti, int):
        return False
    t = F.types[ti]
    seen = seen + (ti,)
    if t.get("k") == "adt":
        d = strip_lt(t["d"])
        if d == BYTES:
            return True
        for x in t.get("a", []):
            if isinstance(x, int) and holds_bytes(F, x, seen):
                return True
        if d in F.adts and len(seen) < 12:
            return any(holds_bytes(F, f["t"], seen) for v in F.adts[d]["vs"] for f in v["f"])
        return False
    for x in list(t.get("a", [])) + ([t["t"]] if "t" in t else []):
        if isinstance(x, int) and holds_bytes(F, x, seen):
            return True
    return False


def string_leaves(F, ti, d=0):
    """Field paths of the strings a tuple or string type consists of."""
    t = F.types[ti]
    if t.get("k") == "adt" and (strip_lt(t["d"]) == BYTES or newtype_of(F, ti)):
        return [()]
    if t.get("k") == "tuple" or t.get("k") == "tup":
        out = []
        for i, x in enumerate(t.get("a", [])):
            if holds_bytes(F, x):
                sub = string_leaves(F, x, d + 1)
                if sub is None:
                    return None
                out += [(i,) + p for p in sub]
        return out
    return None if holds_bytes(F, ti) else []


class Coll(Own):
    """Records in-place conversions of a collection's elements."""

    def __init__(self, F):
        super().__init__(F)
        self.full = {}            # slice term -> set of converted field paths common to all iterations
        self.skipped = False

    def call(self, I, st, cal, args, site):
        if cal.nm == "make_owning":
            a = args[0]
            loc = a[1] if a[0] == "ref" else (("M", I.term(a, st)), ())
            s2 = st.copy()
            s2.facts[("conv",) + loc_path(loc)] = ONE
            return [(s2, ("adt", "tuple", 0, ()))]
        if cal.nm in ("iter_mut", "into_iter") and args and not self.F.fns.get(cal.id):
            if args[0][0] == "s" and args[0][1][0] == "it":
                return [(st, args[0])]
            ty = self.F.types[I.cur_argtys[0]] if I.cur_argtys and I.cur_argtys[0] is not None else {}
            t = I.slice_term(st, args[0]) if ty.get("k") == "ref" and self.F.types[ty["t"]].get("k") == "slice" else None
            if t is not None:
                return [(st, ("s", ("it", t, 0, "ref")))]
        if cal.nm == "for_each" and args and args[0][0] == "s" and args[0][1][0] == "it" and args[0][1][2] == 0 and args[0][1][3] == "ref":
            S = args[0][1][1]
            at = ("each", site.fn.id, site.bb)
            outs = I.call_fnlike(st.copy(), [args[1], ("adt", "tuple", 0, (I.elem_ref(S, ("itpos", S, at)),))], [None, None], site, ("each", site.bb), 1, None)
            if outs is not None:
                conv = None
                for s2, _ in outs:
                    new = {f[2] for f in s2.facts if f[0] == "conv" and is_elem_of(f[1], S, at)}
                    conv = new if conv is None else conv & new
                self.full[(S, at)] = conv or set()
                s2 = st.copy()
                s2.facts[("itdone", S, at)] = ONE
                return [(s2, ("adt", "tuple", 0, ()))]
        return super().call(I, st, cal, args, site)

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        super().loop(I, fn, frame, head, states, backs, exits, rets, havoced)
        at = ("at", frame, head)
        done = {}
        for k in havoced:
            for s in states:
                v = s.store.get(k)
                if v and v[0] == "s" and v[1][0] == "it" and v[1][2] == 0:
                    done[v[1][1]] = k
        for S in done:
            conv = None
            for s in backs:
                new = {f[2] for f in s.facts if f[0] == "conv" and is_elem_of(f[1], S, at)}
                conv = new if conv is None else conv & new
            if conv:
                self.full[(S, at)] = conv


def is_elem_of(b, S, at):
    """Is the location base an element of S at the loop's own position?"""
    return b[0] == "el" and b[1] == S and any(x == at for x in subterms(b[2]))


def loc_path(loc):
    """(element the location lies in, field path below it)."""
    base, pr = loc
    if base[0] == "M":
        ix = [i for i, p in enumerate(pr) if p[0] == "ix"]
        if ix:
            i = ix[-1]
            return (("el", term_of_loc((base, pr[:i])), pr[i][1]), tuple(p[1] for p in pr[i + 1:] if p[0] == "f"))
        t = base[1]
        path = tuple(p[1] for p in pr if p[0] == "f")
        while t[0] in ("fld",) and len(t) == 3:
            path = (t[2],) + path
            t = t[1]
        if t[0] == "elem":
            return (("el", strip_mem(t[1]), t[2]), path)
    return (("loc", base), tuple(p[1] for p in pr if p[0] == "f"))


def strip_mem(t):
    return t[1] if t[0] == "mem" else t


def term_of_loc(l):
    base, pr = l
    t = base[1]
    return t if not pr else ("locterm", t, pr)


def check_extending(cx):
    """A transmute that lets a string outlive what it was made from is reached with an owning string only."""
    F = cx.F
    n = 0
    for fn in F.fns.values():
        l = fn.raw.get("lt")
        if not fn.body or not l or fn.unsafe:
            continue
        tm = list(transmutes(fn))
        if not tm:
            continue
        outl, inl = lts(l[-1]), set().union(set(), *map(lts, l[:-1]))
        extra = outl - inl
        if not extra or not holds_bytes(F, fn.out) or not any(f[-1] is None or True for f in tm):
            continue
        tys = [t for t in cast_types(F, fn) if t is None or F.types[t].get("k") != "ptr" and holds_bytes(F, t)]
        if not tys:
            continue
        if any(re.fullmatch(r"impl .*|\w+/#\d+", x) for x in l[:-1]) and "'static" not in extra and fn.nm == "from_super":
            # generic input converted into the type's own lifetime first
            H, I, outs = run(cx, fn)
            continue
        n += 1
        cx.ob("extends", fn.p)
        self_ti = fn.ins[0] if fn.ins else None
        if self_ti is not None and (newtype_of(F, self_ti) or strip_lt(F.types[self_ti].get("d", "")) == BYTES) and newtype_or_bytes(F, fn.out):
            H, I, outs = run(cx, fn)
            for st, v in outs:
                b = unwrap(F, I, v, fn.out)
                why = owning_val(F, H, I, st, b)
                if why:
                    cx.viol("extended-borrow:" + fn.p, fn.sp, f"the lifetime is extended of a string that {why}")
                    continue
                vt = I.term(I.project(b, (("f", H.vi),)) if b[0] != "s" else ("s", ("fld", b[1], H.vi)), st)
                d, t = ("arg", 1), self_ti
                while newtype_of(F, t):
                    d, t = ("fld", d, 0), F.adts[strip_lt(F.types[t]["d"])]["vs"][0]["f"][0]["t"]
                if not same_text(H, vt, ("fld", d, H.vi)):
                    cx.viol("other-text:" + fn.p, fn.sp, "the owning form has a different text")
            continue
        check_collection(cx, fn)
    if not n:
        raise Missing("a lifetime extension")


def newtype_or_bytes(F, ti):
    return newtype_of(F, ti) is not None or strip_lt(F.types[ti].get("d", "")) == BYTES


def cast_types(F, fn):
    for c in transmutes(fn):
        yield c[-1] if isinstance(c[-1], int) else None


def check_collection(cx, fn):
    F = cx.F
    H, I, outs = run(cx, fn, Coll(F))
    # the strings each element consists of
    vecs = element_types(F, I, fn.ins[0])
    if len(vecs) != 1:
        raise Missing(f"the elements of what {fn.p} converts")
    path, elt = vecs[0]
    leaves = string_leaves(F, elt)
    if not leaves:
        raise Missing(f"the strings in {F.ts(elt)}")
    whole = ("arg", 1)
    for p in path:
        whole = ("fld", whole, p)
    ok_s = {("deref", whole), whole}
    for st, v in outs:
        t = I.term(v, st)
        if base_arg_all(t) - {("arg", 1)}:
            cx.viol("other-collection:" + fn.p, fn.sp, "the result is not the collection that was converted")
        got = set()
        if any(known(st.facts, ("len", s), 0) for s in ok_s):
            continue
        for (S, at), conv in H.full.items():
            if S in ok_s and known(st.facts, ("itdone", S, at), 1):
                got |= conv
        missing = [p for p in leaves if not any(p[:len(q)] == q or q == p for q in got)]
        for p in missing:
            cx.viol("element-borrows:" + fn.p, fn.sp, f"the lifetime of a collection is extended without converting part {'.'.join(map(str, p))} of every element")
        for p in leaves:
            cx.ob("element-part", (fn.p, p))
    cx.need("element-part", 2)


def base_arg_all(t):
    return {x for x in subterms(t) if x and x[0] == "arg"}


def element_types(F, I, ti, path=(), d=0):
    """Vectors of strings inside a struct: [(field path, element type)]."""
    t = F.types[ti]
    if t.get("k") != "adt" or d > 4:
        return []
    p = strip_lt(t["d"])
    if p == "alloc::vec::Vec":
        e = t["a"][0]
        return [(path, e)] if holds_bytes(F, e) else []
    if p not in F.adts or len(F.adts[p]["vs"]) != 1:
        return []
    out = []
    for i, f in enumerate(F.adts[p]["vs"][0]["f"]):
        out += element_types(F, I, I.subst(f["t"], tuple(t.get("a", []))), path + (i,), d + 1)
    return out


def grown(t, H):
    """All subterms of t, including what loops put into the vectors and values it is made of."""
    seen, todo = set(), [t]
    while todo:
        for x in subterms(todo.pop()):
            if x in seen:
                continue
            seen.add(x)
            if x and x[0] == "acc":
                x = ("loop",) + x[1:]
            if x and x[0] == "loop":
                todo += list(H.roots.get(x, ()))
    return seen


def check_composites(cx):
    """owning() of a compound value takes each field of the result from the same field of its input."""
    F = cx.F
    fns = [f for f in F.fns.values() if f.body and f.nm == "owning" and f.impl and not f.unsafe and not newtype_or_bytes(F, f.out)
           and not any(holds_bytes(F, t) for t in cast_types(F, f) if t is not None)]
    for fn in fns:
        class Leaf(Own):
            def inline(s, I, g, cal):
                return g.nm != "owning" and not is_from_vec(F, g)
        H, I, outs = run(cx, fn, Leaf(F))
        p = strip_lt(F.types[fn.out].get("d", ""))
        q = strip_lt(F.types[fn.ins[0]].get("d", ""))
        for st, v in outs:
            t = I.term(v, st)
            if t[0] != "adt" or p != q:
                # a wrapper: the result must come from the wrapped value
                if not any(x == ("arg", 1) for x in subterms(t)):
                    cx.viol("other-value:" + fn.p, fn.sp, "the owning form does not come from the value converted")
                cx.ob("composite", fn.p)
                continue
            vs = F.adts[p]["vs"]
            if len(vs) > 1 and not known(st.facts, ("discr", ("arg", 1)), t[2]):
                cx.viol("other-variant:" + fn.p, fn.sp, "the owning form has a different variant")
                continue
            for i, f in enumerate(vs[t[2]]["f"]):
                cx.ob("composite", (fn.p, f["n"]))
                src = ("fld", ("arg", 1), i) if len(vs) == 1 else ("fld", ("arg", 1), t[2], i)
                srcs = {x for x in grown(t[3][i], H) if x and x[0] == "fld" and x[1] == ("arg", 1)}
                none = t[3][i][0] == "adt" and t[3][i][1].endswith("Option") and t[3][i][2] == 0
                if none and known(st.facts, ("discr", src), 0):
                    continue
                if srcs != {src}:
                    cx.viol("field-lost:" + fn.p, fn.sp, f"field {f['n']} of the owning form does not come from that field of the original")
    cx.need("composite", 8)


def check(cx):
    for nm, f in (("build", check_builds), ("write", check_writes), ("transform", check_transforms), ("using", check_using), ("views", check_views),
                  ("in-place", check_in_place), ("extend", check_extending), ("composite", check_composites)):
        cx.guard(nm, f, cx)
