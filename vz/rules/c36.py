"""C36: length accounting matches what is written."""
from facts import Missing, strip_lt
from interp import Interp, St
from rules.out import Out, RESULT
from rules.c05 import fidx
from rules.c13 import disc
from seqs import lin, lin_sub, len_of, canon, mk

EXPLAIN = ("Every length function (sources, user@host, argument lists, message kinds, CTCP text, bytes left in a message) and the writer "
           "it accounts for are interpreted on all paths. Lengths and written byte counts become linear forms over the lengths of the "
           "strings involved, with loops over the arguments closed as sums; for every combination of fields present the two forms "
           "must be equal (the last argument of a message counted with its colon, as documented).")
ASSUME = ["the lengths of the strings of one message add up to less than the address space"]
GH = (("M", ("ghost", "written")), ())
SRC, UH, ARGS = "ircmsg::source::Source", "ircmsg::source::UserHost", "ircmsg::args::Args"
CMSG, SMSG, KIND, CTCP = "ircmsg::client::ClientMsg", "ircmsg::server::ServerMsg", "ircmsg::servermsgkind::ServerMsgKindRaw", "ircmsg::ctcp::MaybeCtcp"
MAX = 510


class Sums(Out):
    """Closes integer accumulations over slice iterators; counts what is written in a ghost variable."""

    def __init__(self, F, sink=lambda I, st, r: None):
        super().__init__(F, sink)
        self.maps = {}

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        its = {}
        for k in havoced:
            vs = {I.read(s, k) for s in states if k in s.store}
            if len(vs) == 1:
                v = next(iter(vs))
                if v[0] == "s" and v[1][0] == "it" and v[1][2] == 0:
                    its[k] = v[1][1]
        if len(its) != 1:
            return
        S = next(iter(its.values()))
        at = ("at", frame, head)
        def done(s):
            return s.facts.get(("itdone", S, at)) == ("in", frozenset([1])) or s.facts.get(("len", S)) == ("in", frozenset([0]))
        for k in havoced:
            lv = ("loop", frame, head, k)
            ini = {I.term(I.read(s, k), s) for s in states}
            if len(ini) != 1:
                continue
            ds = set()
            for s in backs:
                d = lin_sub(lin(I.term(I.read(s, k), s)), lin(lv))
                if lv in d[1]:
                    ds = None
                    break
                ds.add(mk(d))
            if ds and len(ds) == 1:
                tot = canon(("op", "Add", next(iter(ini)), ("total", S, hole(next(iter(ds)), ("itpos", S, at)))))
                for ss in exits.values():
                    for s in ss:
                        if done(s) and I.read(s, k) == ("s", lv):
                            I.write(s, k, ("s", tot))

    def call(self, I, st, cal, args, site):
        nm = cal.nm
        if cal.id not in self.F.fns and args:
            a = args[0]
            if nm == "map" and a[0] == "s" and a[1][0] == "it" and a[1][2] == 0 and len(args) == 2:
                key = ("mapit", a[1][1], site.fn.id, site.bb)
                self.maps[key] = (a[1], args[1], st)
                return [(st, ("s", key))]
            if nm == "sum" and a[0] == "s" and a[1] in self.maps:
                it, f, s0 = self.maps[a[1]]
                return self.total(I, st, it, ("c", 0), lambda e: [f, ("adt", "tuple", 0, (e,))], site)
            if nm == "fold" and a[0] == "s" and a[1][0] == "it" and a[1][2] == 0 and len(args) == 3:
                acc = ("foldacc", site.fn.id, site.bb)
                return self.total(I, st, a[1], I.term(args[1], st), lambda e: [args[2], ("adt", "tuple", 0, (("s", acc), e))], site, acc)
            if nm in ("saturating_add", "wrapping_add", "unchecked_add") and len(args) == 2:
                return [(st, ("s", ("op", "Add", I.term(args[0], st), I.term(args[1], st))))]
            if nm in ("try_from", "try_into") and len(args) == 1 and I.cur_argtys and I.cur_argtys[0] is not None and self.F.ts(I.cur_argtys[0]) == "usize":
                return [(st, ("adt", RESULT, 0, (args[0],)))]
        return super().call(I, st, cal, args, site)

    def total(self, I, st, it, init, mk_args, site, acc=None):
        S = it[1]
        pos = ("itpos", S, "each")
        e = I.elem_ref(S, pos)
        if it[3] != "ref":
            e = I.read(st, e[1])
        outs = I.call_fnlike(st.copy(), mk_args(e), [None, None], site, ("sum", site.bb), 1, None)
        if not outs or len(outs) != 1:
            raise Missing("a sum whose term has several cases")
        t = I.term(outs[0][1], outs[0][0])
        d = lin(t)
        if acc is not None:
            d = lin_sub(d, lin(acc))
        return [(st, ("s", canon(("op", "Add", init, ("total", S, hole(mk(d), pos))))))]

    def op(self, I, st, nm, r, ss, args, site, vec):
        if nm == "flush":
            return [(st, True)]
        p = self.pieces(I, st, nm, args)
        if p is None or any(s[0] not in ("one", "sl") for s in p):
            raise Missing(f"what is written at {site.where}")
        s2 = st.copy()
        n = I.term(I.read(s2, GH), s2)
        for s in p:
            n = ("op", "Add", n, ("c", 1) if s[0] == "one" else len_of(s[1]))
        I.write(s2, GH, ("s", canon(n)))
        return [(s2, True)] + ([] if vec else [(st.copy(), False)])


def hole(t, x):
    if t == x:
        return ("each",)
    if isinstance(t, tuple):
        return tuple(hole(y, x) for y in t)
    return t


def fill(t, x):
    if t == ("each",):
        return x
    if isinstance(t, tuple):
        return tuple(fill(y, x) for y in t)
    return t


def form(H, t):
    """A linear form with loop accumulations replaced by sums over whole slices."""
    c, d = lin(t)
    out = [c, {}]

    def addf(f, k):
        out[0] += f[0] * k
        for a, n in f[1].items():
            out[1][a] = out[1].get(a, 0) + n * k
            if out[1][a] == 0:
                del out[1][a]
    for a, n in d.items():
        if a[0] == "total":
            _, S, dl = a
            back = 0
            while S[0] == "sub" and S[2] == ("c", 0) and lin_sub(lin(("len", S[1])), lin(S[3])) == (1, {}):
                back += 1
                S = S[1]
            # The deltas address elements of the slice iterated over: its elements are those of the whole.
            dl = refer(dl)
            for a2, n2 in lin(dl)[1].items():
                addf((0, {("sum", S, a2): 1}), n * n2)
            if lin(dl)[0]:
                addf((0, {("len", S): 1}), n * lin(dl)[0])
            if back > 1:
                raise Missing("a sum over part of the arguments")
            if back:
                addf(lin(fill(dl, ("c", -1))), -n)
        elif a[0] == "len" and a[1][0] == "sub":
            addf(lin(a), n)
        else:
            addf((0, {a: 1}), n)
    return out[0], out[1]


def refer(t):
    """Elements addressed through a prefix of a slice are elements of the slice."""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "mem" and isinstance(t[1], tuple) and t[1][:1] == ("sub",) and t[1][2] == ("c", 0):
            return ("mem", refer(t[1][1]))
        return tuple(refer(x) for x in t)
    return t


def lastix(H, f):
    """Write the last element the same way everywhere."""
    def fix(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == "elem" and lin_sub(lin(("len", t[1][1] if t[1][0] == "mem" else t[1])), lin(t[2])) == (1, {}):
                return ("elem", fix(t[1]), ("c", -1))
            return tuple(fix(x) for x in t)
        return t
    d = {}
    for a, n in f[1].items():
        b = fix(refer(a))
        d[b] = d.get(b, 0) + n
    return f[0], {a: n for a, n in d.items() if n}


def compat(I, a, b):
    """Can both paths be taken by the same arguments?"""
    for t, f in a.facts.items():
        g = b.facts.get(t)
        if g is None or any(_local(x) for x in _sub(t)):
            continue
        if f[0] == "in" and g[0] == "in" and not (f[1] & g[1]):
            return False
        if f[0] == "in" and g[0] == "not" and not (f[1] - g[1]):
            return False
        if f[0] == "not" and g[0] == "in" and not (g[1] - f[1]):
            return False
    return True


def _sub(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from _sub(x)


def _local(t):
    return t and t[0] in ("loop", "itpos", "itdone", "at")


def simplify(st, f):
    """Lengths known to be zero vanish, and so do sums over nothing."""
    z = ("in", frozenset([0]))
    d = {}
    for a, n in f[1].items():
        if st.facts.get(a) == z:
            continue
        if a[0] == "sum" and st.facts.get(("len", a[1])) == z:
            continue
        g = st.facts.get(a)
        d[a] = n
    return f[0], d


def merged(a, b):
    s = a.copy()
    for t, g in b.facts.items():
        f = s.facts.get(t)
        if f is None or (f[0] == "not" and g[0] == "in"):
            s.facts[t] = g
    return s


def run(F, fn, sink=None, st=None):
    H = Sums(F, sink or (lambda I, s, r: None))
    I = Interp(F, H, budget=4000)
    I.split = 64
    return H, I, I.run(fn, st=st)


def counted(F, fn, w):
    """(state, bytes written) for every successful path of a writer with sink parameter w."""
    root = (("M", ("arg", w)), ())
    st = St()
    st.store[GH] = ("c", 0)
    H, I, res = run(F, fn, lambda I, s, r: ("S0",) if r == root else None, st)
    out = []
    for s, v in res:
        if v[0] == "adt" and v[1] == RESULT and v[2] == 1:
            continue
        if not (v[0] == "adt" and v[2] == 0):
            raise Missing(f"the result of {fn.p}")
        out.append((s, form(H, I.term(I.read(s, GH), s))))
    return H, I, out


def find(F, owner, nm):
    fs = [f for f in F.fns.values() if f.body and f.nm == nm and f.impl and not f.impl.get("tr") and f.impl.get("self") is not None
          and F.types[f.impl["self"]].get("k") == "adt" and strip_lt(F.types[f.impl["self"]]["d"]) == owner]
    if len(fs) != 1:
        raise Missing(f"{owner}::{nm}")
    return fs[0]


def compare(cx, rule, fn, lens, writes, extra=None, wname="what is written"):
    """lens, writes: [(state, form)]; extra(state) -> linear form to add to what is written."""
    n = 0
    for s1, a in lens:
        for s2, b in writes:
            if not compat(None, s1, s2):
                continue
            s = merged(s1, s2)
            n += 1
            cx.ob(rule, f"{fn.p} case {n}")
            b2 = b
            for e in (extra(s) if extra else [((0, {}), s)]):
                ex, s3 = e
                d = dict(b2[1])
                for t, k in ex[1].items():
                    d[t] = d.get(t, 0) + k
                f1, f2 = lastix(None, simplify(s3, a)), lastix(None, simplify(s3, (b2[0] + ex[0], {t: k for t, k in d.items() if k})))
                if f1 != f2:
                    diff = lin_sub(f1, f2)
                    cx.viol(f"C36:{fn.p}:{rule}", fn.sp, f"{fn.p} differs from {wname} by {show(diff)} bytes when {cond(s3)}")
    if not n:
        raise Missing(f"cases of {fn.p}")


def show(d):
    r = []
    for a, k in d[1].items():
        r.append(f"{k:+d}*{'sum of lengths' if a[0] == 'sum' else 'a string length'}")
    if d[0] or not r:
        r.append(f"{d[0]:+d}")
    return " ".join(r)


def cond(st):
    r = []
    for t, f in st.facts.items():
        if t[0] == "discr" and f[0] == "in" and len(f[1]) == 1 and t[1][0] == "fld":
            r.append("a field is " + ("present" if 1 in f[1] else "absent"))
    return ", ".join(sorted(set(r))) or "always"


def lengths(F, fn):
    H, I, res = run(F, fn)
    return H, I, [(s, form(H, I.term(v, s))) for s, v in res]


def check(cx):
    F = cx.F
    for t in (SRC, UH, ARGS, CMSG, SMSG):
        if t not in F.adts:
            raise Missing(t)
    for owner in (SRC, UH):
        cx.guard(f"C36:{owner}", textual, cx, owner)
    cx.guard("C36:nonzero", nonzero, cx)
    cx.guard("C36:args", args, cx)
    for owner in (CMSG, SMSG):
        cx.guard(f"C36:{owner}", message, cx, owner)
    if KIND in F.adts:
        cx.guard("C36:kind", kind, cx)
    if CTCP in F.adts:
        cx.guard("C36:ctcp", ctcp, cx)
    cx.need("textual length", 4)
    cx.need("bytes left", 8)


def textual(cx, owner):
    F = cx.F
    ln, wr = find(F, owner, "len"), find(F, owner, "write_to")
    cx.cover(ln)
    cx.cover(wr)
    _, _, a = lengths(F, ln)
    _, _, b = counted(F, wr, 2)
    compare(cx, "textual length", ln, a, b)


def nonzero(cx):
    F = cx.F
    fn, ln = find(F, SRC, "len_nonzero"), find(F, SRC, "len")
    cx.cover(fn)
    compare(cx, "textual length", fn, lengths(F, fn)[2], lengths(F, ln)[2], wname="the length")


def args(cx):
    """Sum over the words of their length and a separator, likewise for the long argument."""
    F = cx.F
    fn = find(F, ARGS, "len_bytes")
    cx.cover(fn)
    iw, il = fidx(F, ARGS, "words"), fidx(F, ARGS, "long")
    H, I, res = run(F, fn)
    A = ("mem", ("arg", 1))
    W = ("deref", ("fld", A, iw))
    L0 = ("fld", A, il)
    n = 0
    for st, v in res:
        f = form(H, I.term(v, st))
        for k in (0, 1):
            s = st.copy()
            if not I.assume(s, ("discr", L0), k):
                continue
            n += 1
            cx.ob("argument length", f"{fn.p} case {n}")
            el = ("len", ("fld", ("elem", ("mem", W), ("each",)), 0))
            want = {("sum", W, el): 1, ("len", W): 1}
            c = 0
            if k:
                want[("len", ("fld", ("fld", L0, 1, 0), 0))] = 1
                c = 1
            a, b = lastix(H, simplify(s, f)), lastix(H, simplify(s, (c, want)))
            if a != b:
                cx.viol(f"C36:{fn.p}:args", fn.sp, f"{fn.p} is not the sum of the arguments' lengths with a separator each, the last one with its colon (differs by {show(lin_sub(a, b))})")


def message(cx, owner):
    F = cx.F
    bl, wr = find(F, owner, "bytes_left"), find(F, owner, "write_to")
    cx.cover(bl)
    cx.cover(wr)
    ia, ig = fidx(F, owner, "args"), fidx(F, owner, "tags")
    iw, il = fidx(F, ARGS, "words"), fidx(F, ARGS, "long")
    M = ("mem", ("arg", 1))
    A = ("fld", M, ia)
    W, L0 = ("deref", ("fld", A, iw)), ("fld", A, il)
    H, I, res = run(F, bl)
    a = []
    for s, v in res:
        c, d = form(H, I.term(v, s))
        a.append((s, (MAX - c, {t: -k for t, k in d.items()})))
    H2, I2, wrs = counted(F, wr, 2)
    b = []
    for s, f in wrs:
        # Tags are not counted.
        s = s.copy()
        keep = True
        for t, g in list(s.facts.items()):
            if t[0] == "len" and mentions(t, ("fld", M, ig)) and not I2.assume(s, t, 0):
                keep = False
        if keep and not any(mentions(t, ("fld", M, ig)) and t[0] in ("len", "sum") and s.facts.get(t) != ("in", frozenset([0])) for t in f[1]):
            b.append((s, f))
    if not b:
        raise Missing(f"a path of {wr.p} without tags")
    src_len = source_extra(F) if owner == CMSG else None

    def extra(s):
        outs = []
        for k in (0, 1):
            s1 = s.copy()
            if not I.assume(s1, ("discr", L0), k):
                continue
            for e in ((0,) if k else (0, 1)):
                s2 = s1.copy()
                if not k:
                    ok = I.assume(s2, ("len", W), 0) if e == 0 else I.assume_not(s2, ("len", W), [0])
                    if not ok:
                        continue
                colon = 1 if not k and e == 1 else 0
                if src_len is None:
                    outs.append(((colon, {}), s2))
                    continue
                for p in (0, 1):
                    s3 = s2.copy()
                    if not I.assume(s3, ("discr", ("arg", 2)), p):
                        continue
                    if p == 0:
                        outs.append(((colon, {}), s3))
                        continue
                    for s4, f in src_len:
                        if compat(None, s3, s4):
                            outs.append(((colon + 2 + f[0], f[1]), merged(s3, s4)))
        return outs
    compare(cx, "bytes left", bl, a, b, extra, "510 less what is written without tags")


def mentions(t, x):
    return any(y == x for y in _sub(t))


def source_extra(F):
    """What writing the given source takes, in terms of the optional source parameter."""
    wr = find(F, SRC, "write_to")
    _, _, b = counted(F, wr, 2)
    old, new = ("arg", 1), ("fld", ("arg", 2), 1, 0)

    def ren(t):
        if t == old:
            return new
        if isinstance(t, tuple):
            return tuple(ren(x) for x in t)
        return t
    out = []
    for s, f in b:
        s2 = St()
        s2.facts = {ren(t): g for t, g in s.facts.items()}
        out.append((s2, (f[0], {ren(t): k for t, k in f[1].items()})))
    return out


def kind(cx):
    F = cx.F
    ln, tx = find(F, KIND, "len"), find(F, KIND, "as_str")
    cx.cover(ln)
    H, I, res = run(F, ln)
    H2, I2, rs = run(F, tx)
    n = 0
    for s1, v in res:
        for s2, t in rs:
            if not compat(None, s1, s2):
                continue
            n += 1
            cx.ob("textual length", f"{ln.p} case {n}")
            S = I2.term(t, s2)
            want = form(H2, ("len", S))
            got = form(H, I.term(v, s1))
            ti = I2.ttype(S)
            num = s2.facts.get(("discr", ("mem", ("arg", 1))))
            names = [x["n"] for x in F.adts[KIND]["vs"]]
            if num and num[0] == "in" and names[next(iter(num[1]))] == "Numeric":
                want = (3, {})      # C18
            if got != want:
                cx.viol(f"C36:{ln.p}", ln.sp, f"{ln.p} is not the length of the text")


def ctcp(cx):
    F = cx.F
    ln, tx = find(F, CTCP, "len"), find(F, CTCP, "into_line")
    cx.cover(ln)
    cx.cover(tx)
    H, I, res = run(F, ln)
    st0 = St()
    st0.store[GH] = ("c", 0)
    H2 = Built(F)
    I2 = Interp(F, H2, budget=4000)
    rs = I2.run(tx, st=st0)

    def ren(t):
        if t == ("mem", ("arg", 1)):
            return ("arg", 1)
        if isinstance(t, tuple):
            return tuple(ren(x) for x in t)
        return t
    n = 0
    for s1, v in res:
        s1r = St()
        s1r.facts = {ren(t): f for t, f in s1.facts.items()}
        got = form(H, ren(I.term(v, s1)))
        for s2, t in rs:
            if not compat(None, s1r, s2):
                continue
            n += 1
            cx.ob("textual length", f"{ln.p} case {n}")
            if mentions(I2.term(t, s2), ("builder",)):
                want = form(H2, I2.term(I2.read(s2, GH), s2))
            else:
                tot = ("c", 0)
                for seg in content_of(I2, s2, t):
                    tot = ("op", "Add", tot, ("c", 1) if seg[0] == "one" else len_of(seg[1]))
                want = form(H2, tot)
            s = merged(s1r, s2)
            if simplify(s, got) != simplify(s, want):
                cx.viol(f"C36:{ln.p}", ln.sp, f"{ln.p} differs from the length of the line made by {show(lin_sub(got, want))}")
    if not n:
        raise Missing("cases of into_line")


class Built(Sums):
    """A string builder's length instead of its contents."""

    def call(self, I, st, cal, args, site):
        fn = self.F.fns.get(cal.id)
        if fn is not None and fn.impl and strip_lt(self.F.ts(fn.impl["self"])).startswith("string::builder::Builder"):
            s2 = st.copy()
            n = I.term(I.read(s2, GH), s2)
            ok = ("adt", RESULT, 0, (("adt", "tuple", 0, ()),))
            if fn.nm in ("new", "default"):
                I.write(s2, GH, ("s", length(I, st, args[0])) if args else ("c", 0))
                return [(s2, ("s", ("builder",)))]
            if fn.nm in ("append", "try_append", "try_append_str"):
                I.write(s2, GH, ("s", canon(("op", "Add", n, length(I, st, args[1])))))
                return [(s2, ("adt", "tuple", 0, ()) if fn.nm == "append" else ok)]
            if fn.nm in ("try_push", "try_push_char"):
                c = I.known(st, args[1])
                if c is None or c in (0, 10, 13) or c > 127:
                    raise Missing("a character that may not be one byte of a line")
                I.write(s2, GH, ("s", canon(("op", "Add", n, ("c", 1)))))
                return [(s2, ok)]
            if fn.nm in ("reserve", "reserve_exact", "shrink_to_fit"):
                return [(s2, ("adt", "tuple", 0, ()))]
            if fn.nm == "build":
                return [(s2, ("s", ("built", ("builder",))))]
            raise Missing(f"the builder operation {fn.nm}")
        return super().call(I, st, cal, args, site)


def length(I, st, v):
    tot = ("c", 0)
    for seg in content_of(I, st, v):
        tot = ("op", "Add", tot, ("c", 1) if seg[0] == "one" else len_of(seg[1]))
    return canon(tot)


def content_of(I, st, v):
    """Segments of a string value's text."""
    t = I.term(v, st)
    inner = False
    for _ in range(6):
        if t[0] == "adt" and t[3]:
            t = t[3][0]
            inner = True
        elif t[0] == "s":
            t = t[1]
        elif t[0] == "deref" and inner and t[1][0] == "vec":
            t = t[1]
        else:
            break
    if t[0] == "vec":
        return t[1]
    if t[0] == "b":
        return tuple(("one", ("c", x)) for x in t[1])
    return (("sl", t if inner else ("fld", t, 0)),)
