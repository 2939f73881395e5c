"""C13: only the last argument of a message can be a long one."""
from facts import Missing, strip_lt
from interp import Interp, St
from rules.lists import ListHook, norm, EMPTY
from rules.strs import invalid_witness, slice_verdict, val_slice
from rules.c05 import fidx
from seqs import lin, lin_sub

EXPLAIN = ("Argument lists are modelled as a symbolic sequence of words plus an optional long last argument. Every function that "
           "builds, edits or views one is interpreted on all paths: at exit the long argument is absent, unchanged, or a string "
           "that this path established not to be a valid single-word argument; the words and long argument equal what the "
           "operation is documented to do (append, insert before the last, replace, clear, set), and each view returns exactly "
           "the words, all arguments only if none is long, and the split around the actual last argument. The fields cannot be "
           "reached from outside the module, and every function constructing one is among those analysed.")
ARGS = "ircmsg::args::Args"
GUARD = "ircmsg::args::ArgsEditGuard"
MOD = "ircmsg::args"
OPT = "core::option::Option"


class H(ListHook):
    def __init__(self, F, elem):
        super().__init__(F, elem)
        self.bad = {}
        self.checked = set()

    def added(self, I, st, v, site):
        self.checked.add(site.where)
        w = slice_verdict(I, st, val_slice(I, st, v), "Arg")
        if w is not None:
            self.bad.setdefault(site.where, w)

    def snapshot(self):
        return dict(self.bad), set(self.checked)

    def restore(self, s):
        self.bad, self.checked = s

    def inline(self, I, fn, cal):
        if fn.p.startswith("string::splitter::"):
            return False
        return super().inline(I, fn, cal)


def elem(s):
    return newname(s) == "Arg"


def newname(s):
    return strip_lt(s).rsplit("::", 1)[-1]


def interp(F):
    h = H(F, elem)
    I = Interp(F, h, budget=4000)
    I.split = 16
    return I


def base_ty(F, ti):
    n = 0
    while F.types[ti].get("k") == "ref":
        ti = F.types[ti]["t"]
        n += 1
    t = F.types[ti]
    return (strip_lt(t["d"]) if t.get("k") == "adt" else None), n, ti


def same_str(I, st, a, b):
    """Is string a the same text as b (a conversion between string types, or an owning copy)?"""
    a, b = strs(I, st, a), strs(I, st, b)
    return a is not None and a == b


def strs(I, st, t):
    """Underlying contents of a string value, ignoring wrappers and copies."""
    for _ in range(12):
        if t[0] == "s":
            t = t[1]
        elif t[0] == "ref":
            t = I.term(I.read(st, t[1]), st)
        elif t[0] == "st":
            t = t[1]
        elif t[0] == "adt" and t[3]:
            t = t[3][0]
        elif t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("into", "from", "clone", "into_bytes", "owning", "try_into", "from_unchecked") and t[2]:
            t = t[2][0]
        elif t[0] == "fld" and t[2] == 0 and len(t) == 3:
            t = t[1]
        elif t[0] == "fld" and t[1][0] == "call" and t[1][1].rsplit("::", 1)[-1] in ("try_into", "try_from"):
            t = t[1]
        elif t[0] == "deref" and t[1][0] == "vec" and len(t[1][1]) == 1 and t[1][1][0][0] == "sl":
            t = t[1][1][0][1]
        elif t[0] == "vec" and len(t[1]) == 1 and t[1][0][0] == "sl":
            t = t[1][0][1]
        elif t[0] == "deref":
            t = t[1]
        else:
            return t
    return t


def slices(I, st, v):
    """Candidate slice terms of a string value."""
    t = I.term(v, st)
    out = [t]
    for _ in range(4):
        if t[0] == "adt" and t[3]:
            t = t[3][0]
        else:
            t = ("fld", t, 0)
        out.append(t)
    return out


def long_cases(I, st, L0):
    """The states split by whether the initial long argument is present: [(state, 0|1)]."""
    out = []
    for k in (0, 1):
        s = st.copy()
        if I.assume(s, ("discr", L0), k):
            out.append((s, k))
    return out


def disc(I, st, v):
    """Option value -> list of (state, payload or None)."""
    out = []
    if v[0] == "adt" and v[1] == OPT:
        return [(st, v[3][0] if v[2] else None)]
    for k in (0, 1):
        s = st.copy()
        d = I.discr(s, v)
        if d[0] == "c":
            if d[1] != k:
                continue
        elif not I.assume(s, d[1] if d[0] == "s" else d, k):
            continue
        out.append((s, I.project(v, (("dc", 1), ("f", 0))) if k else None))
    return out


class Spec:
    def __init__(self, cx, fn):
        self.cx, self.fn, self.F = cx, fn, cx.F

    def bad(self, what, msg):
        self.cx.viol(f"C13:{self.fn.p}:{what}", self.fn.sp, f"{self.fn.p}: {msg}")


def places(F, fn):
    """How a function reaches an argument list: (initial words, initial long, reader) or None."""
    iw, il = fidx(F, ARGS, "words"), fidx(F, ARGS, "long")
    for i, ti in enumerate(fn.ins or ()):
        d, n, _ = base_ty(F, ti)
        a = ("arg", i + 1)
        if d == GUARD:
            g = ("mem", a) if n else a
            pw, pl = ("fld", g, 0), ("fld", g, 1)
            return ("mem", pw), ("mem", pl), lambda I, st, pw=pw: I.read(st, (("M", pw), ())), lambda I, st, pl=pl: I.read(st, (("M", pl), ()))
        if d == ARGS:
            m = ("mem", a) if n else a
            if n:
                return ("fld", m, iw), ("fld", m, il), lambda I, st, a=a: I.read(st, (("M", a), (("f", iw),))), lambda I, st, a=a: I.read(st, (("M", a), (("f", il),)))
            return ("fld", m, iw), ("fld", m, il), None, None
    ws = [i for i, ti in enumerate(fn.ins or ()) if "Vec<" in F.ts(ti) and "::Arg" in F.ts(ti) and F.types[ti].get("k") == "ref"]
    ls = [i for i, ti in enumerate(fn.ins or ()) if F.ts(ti).startswith("&mut core::option::Option<") and "::Line" in F.ts(ti)]
    if len(ws) == 1 and len(ls) == 1:
        pw, pl = ("arg", ws[0] + 1), ("arg", ls[0] + 1)
        return ("mem", pw), ("mem", pl), lambda I, st: I.read(st, (("M", pw), ())), lambda I, st: I.read(st, (("M", pl), ()))
    return None


def is_old(I, st, v, L0):
    t = I.term(v, st)
    return t == ("fld", L0, 1, 0) or strs(I, st, v) == strs(I, st, ("s", ("fld", L0, 1, 0)))


def long_ok(I, st, v, L0):
    """Is a long argument at exit the old one, or known not to be a single word?"""
    if L0 is not None and is_old(I, st, v, L0):
        return True
    cand = slices(I, st, v)
    me = strs(I, st, v)
    for t in list(st.facts):
        S = t[1][1] if t[0] == "elem" and t[1][0] == "mem" else t[1] if t[0] == "len" else None
        if S is not None and S not in cand and strs(I, st, S) == me:
            cand.append(S)
    return any(invalid_witness(I, st, S, "Arg") for S in cand)


def arg_of(F, fn, want):
    """Index and kind of the parameter that provides a string of type `want`."""
    for i, ti in enumerate(fn.ins or ()):
        s = F.ts(ti)
        if newname(s) == want:
            return i + 1
        if F.types[ti].get("k") == "param":
            for p in fn.raw.get("preds", []):
                if F.types[ti]["s"] in str(p) and "convert::Into" in str(p) and f"::{want}" in str(p):
                    return i + 1
    return None


def exits(cx, fn):
    F = cx.F
    I = interp(F)
    pl = places(F, fn)
    cx.cover(fn)
    res = []
    for st, v in I.run(fn):
        res.append((st, v))
    for w in sorted(I.hook.checked):
        cx.ob("word is a word", f"{w} adds a valid single-word argument")
    for w, why in I.hook.bad.items():
        cx.viol(f"C13:word:{fn.p}:{w.rsplit(':', 1)[0]}", w, f"a string that may not be a single word is added to the words here: {why}")
    return I, pl, res


def generic(cx, fn):
    """Whatever the function does, a long argument it leaves behind is really long."""
    F = cx.F
    sp = Spec(cx, fn)
    I, pl, res = exits(cx, fn)
    il = fidx(F, ARGS, "long")
    n = 0
    for st, v in res:
        outs = []
        L0 = pl[1] if pl else None
        if pl and pl[3]:
            outs.append(pl[3](I, st))
        for a in built(v):
            outs.append(I.project(a, (("f", il),)))
        for o in outs:
            n += 1
            cx.ob("long is long", f"{fn.p} exit {n}")
            for s, x in disc(I, st, o):
                if x is None:
                    continue
                if not long_ok(I, s, x, L0):
                    sp.bad("long", "a path leaves an argument as the long one without having established that it is not a single word "
                           "(it would be missing from the words view and from lookups)")
    return I, pl, res


def built(v):
    """Args values inside a returned value."""
    if v[0] == "adt":
        if strip_lt(v[1]) == ARGS:
            yield v
            return
        for x in v[3]:
            yield from built(x)


def words_at(I, st, w):
    return norm(I, st, w)


def check_add(cx, fn, I, pl, res, S, retold):
    """words' = words, long' = Some(S) (S not a word) or words' = words + [S], long' = None; the old long argument is returned."""
    sp = Spec(cx, fn)
    W0, L0, rw, rl = pl
    n = 0
    for st, v in res:
        n += 1
        cx.ob("add", f"{fn.p} path {n}")
        w = words_at(I, st, rw(I, st))
        for s, x in disc(I, st, rl(I, st)):
            if x is None:
                if not (w[1] == () and w[2] == W0 and len(w[3]) == 1 and same_str(I, s, w[3][0], S)):
                    sp.bad("end", f"with no long argument left, the words are not the old words followed by the added string (found {show(w)})")
            else:
                if not same_str(I, s, x, S):
                    sp.bad("kept", "a long argument other than the added one stays the last argument")
                if w != ("lst", (), W0, ()):
                    sp.bad("words", f"words change although the long argument was set (found {show(w)})")
        if retold and I.term(v, st) != L0:
            if not (v[0] == "adt" and I.known(st, ("s", ("discr", L0))) == v[2] and (v[2] == 0 or is_old(I, st, v[3][0], L0))):
                sp.bad("old", "the replaced long argument is not returned")


def show(w):
    return f"{len(w[1])} new + {'none' if w[2] is None else 'existing' if w[2][0] not in ('init', 'tail') else w[2][0] + ' of existing'} + {len(w[3])} new"


def ptr_list(I, st, v):
    """The list a view's reference points to."""
    if v[0] == "ref":
        return norm(I, st, I.read(st, v[1]))
    if v[0] == "s" and v[1][0] in ("deref", "sub", "lst"):
        return norm(I, st, v[1])
    if v[0] in ("b",) or (v[0] == "adt" and v[1] == "array"):
        return norm(I, st, v)
    return norm(I, st, I.read(st, (("M", I.term(v)), ())))


def check(cx):
    F = cx.F
    if ARGS not in F.adts or GUARD not in F.adts:
        raise Missing("the argument list types")
    for nm in ("words", "long"):
        fidx(F, ARGS, nm)
    for path in (ARGS, GUARD):
        for f in F.adts[path]["vs"][0]["f"]:
            cx.ob("private field", f"{path}.{f['n']}")
            if f.get("vis") == "Public":
                cx.viol(f"C13:pub:{path}:{f['n']}", F.adts[path].get("sp", "?"), f"field {f['n']} of {path} is public: a long argument could be left out of place")
    done = {}
    fns = []
    for fn in F.fns.values():
        if not fn.body or fn.raw.get("kind") == "closure" or "{closure" in fn.p:
            continue
        if fn.impl and fn.impl.get("derived"):
            continue
        makes = any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and strip_lt(s[2][1][1]) in (ARGS, GUARD) for bb in fn.body["bbs"] for s in bb["s"])
        edits = fn.p.startswith(MOD) and any(base_ty(F, ti)[0] in (ARGS, GUARD) for ti in fn.ins or ())
        if makes or edits:
            fns.append(fn)
    for fn in fns:
        cx.guard(f"C13:{fn.p}", generic_one, cx, fn, done)
    specs = {"add_word": s_add_word, "add_before_last": s_before_last, "add": s_add, "add_literal": s_add, "clear": s_clear,
             "words": s_words, "all": s_all, "split_last": s_split, "is_last_long": s_is_long, "is_empty": s_is_empty, "len": s_len,
             "new": s_new, "set": s_new, "from": s_from, "empty": s_empty, "edit": s_edit, "parse": s_parse}
    for fn in fns:
        owner = fn.impl and base_ty(F, fn.impl["self"])[0]
        if owner in (ARGS, GUARD) and fn.nm in specs and fn.id in done:
            cx.guard(f"C13:{fn.p}:spec", specs[fn.nm], cx, fn, *done[fn.id])
    names = {(base_ty(F, f.impl["self"])[0], f.nm) for f in fns if f.impl}
    for k in [(GUARD, "add_word"), (GUARD, "add_before_last"), (GUARD, "add"), (GUARD, "clear"), (GUARD, "words"), (GUARD, "all"), (GUARD, "split_last"),
              (ARGS, "new"), (ARGS, "set"), (ARGS, "words"), (ARGS, "all"), (ARGS, "split_last"), (ARGS, "is_last_long"), (ARGS, "parse"), (ARGS, "clear")]:
        if k not in names:
            raise Missing(f"{k[0]}::{k[1]}")
    cx.need("long is long", 20)
    cx.need("view", 5)


def generic_one(cx, fn, done):
    if fn.nm in ("fmt", "serialize", "hash", "len_bytes"):
        return
    done[fn.id] = generic(cx, fn)


def s_add_word(cx, fn, I, pl, res):
    F = cx.F
    sp = Spec(cx, fn)
    W0, L0, rw, rl = pl
    a = arg_of(F, fn, "Arg")
    for n, (st, v) in enumerate(res):
        cx.ob("add word", f"{fn.p} path {n}")
        w = words_at(I, st, rw(I, st))
        if not (w[1] == () and w[2] == W0 and len(w[3]) == 1 and same_str(I, st, w[3][0], ("s", ("arg", a)))):
            sp.bad("words", f"the words are not the old words followed by the added one (found {show(w)})")
        if I.term(rl(I, st), st) != L0 and not kept(I, st, rl(I, st), L0):
            sp.bad("long", "adding a word changes the long argument")


def kept(I, st, v, L0):
    for s, k in long_cases(I, st, L0):
        for s2, x in disc(I, s, v):
            if (x is None) != (k == 0) or (x is not None and not is_old(I, s2, x, L0)):
                return False
    return True


def s_before_last(cx, fn, I, pl, res):
    F = cx.F
    sp = Spec(cx, fn)
    W0, L0, rw, rl = pl
    a = ("s", ("arg", arg_of(F, fn, "Arg")))
    for n, (st, v) in enumerate(res):
        cx.ob("add before last", f"{fn.p} path {n}")
        w = words_at(I, st, rw(I, st))
        if I.term(rl(I, st), st) != L0 and not kept(I, st, rl(I, st), L0):
            sp.bad("long", "adding a word changes the long argument")
        for s, k in long_cases(I, st, L0):
            empty, full = I.hook.emptiness(I, s, ("lst", (), W0, ()))
            f = I.fact(s, ("empty", W0))
            if f and f[0] == "in":
                empty, full = empty and 1 in f[1], full and 0 in f[1]
            if w[1] == () and w[2] == W0 and len(w[3]) == 1 and same_str(I, s, w[3][0], a):
                if k == 0 and full:
                    sp.bad("order", "the word is added after the last argument")
            elif w[1] == () and w[2] == ("init", W0) and len(w[3]) == 2 and same_str(I, s, w[3][0], a) and w[3][1] == ("last", W0):
                if k == 1:
                    sp.bad("order", "the word is added before the last word although the last argument is the long one")
            else:
                sp.bad("words", f"the words are not the old ones with the new one added (found {show(w)})")


def s_add(cx, fn, I, pl, res):
    F = cx.F
    a = arg_of(F, fn, "Line")
    if a is None:
        a = next((i + 1 for i, ti in enumerate(fn.ins) if F.ts(ti) == "&str"), None)
        S = None
        for st, v in res:
            # The literal checked and wrapped: whatever is stored or pushed must be made from it.
            pass
        if a is None:
            raise Missing("the added string")
        S = ("s", ("arg", a))
    else:
        S = ("s", ("arg", a))
    check_add(cx, fn, I, pl, res, S, fn.out is not None and F.ts(fn.out).startswith(OPT))


def s_clear(cx, fn, I, pl, res):
    sp = Spec(cx, fn)
    for n, (st, v) in enumerate(res):
        cx.ob("clear", f"{fn.p} path {n}")
        if words_at(I, st, pl[2](I, st)) != EMPTY:
            sp.bad("words", "words are left after clearing")
        if any(x is not None for _, x in disc(I, st, pl[3](I, st))):
            sp.bad("long", "a long argument is left after clearing")


def s_words(cx, fn, I, pl, res):
    sp = Spec(cx, fn)
    for n, (st, v) in enumerate(res):
        cx.ob("view", f"{fn.p} path {n}")
        if ptr_list(I, st, v) != ("lst", (), pl[0], ()):
            sp.bad("words", "the words view is not exactly the words")


def s_all(cx, fn, I, pl, res):
    sp = Spec(cx, fn)
    for n, (st, v) in enumerate(res):
        cx.ob("view", f"{fn.p} path {n}")
        for s, k in long_cases(I, st, pl[1]):
            for s2, x in disc(I, s, v):
                if x is None and k == 0:
                    sp.bad("none", "no arguments are given although none is long")
                if x is not None:
                    if k == 1:
                        sp.bad("some", "all arguments are claimed to be words although the last is long")
                    elif ptr_list(I, s2, x) != ("lst", (), pl[0], ()):
                        sp.bad("words", "the view is not exactly the words")


def s_split(cx, fn, I, pl, res):
    sp = Spec(cx, fn)
    W0, L0 = pl[0], pl[1]
    full0 = ("lst", (), W0, ())
    for n, (st, v) in enumerate(res):
        cx.ob("view", f"{fn.p} path {n}")
        w, o = v[3] if v[0] == "adt" and v[1] == "tuple" else (None, None)
        if w is None:
            sp.bad("shape", "a split that does not come from the argument list")
            continue
        wl = ptr_list(I, st, w)
        for s, k in long_cases(I, st, L0):
            empty, full = I.hook.emptiness(I, s, full0)
            f = I.fact(s, ("empty", W0))
            if f and f[0] == "in":
                empty, full = empty and 1 in f[1], full and 0 in f[1]
            for s2, x in disc(I, s, o):
                if k == 1:
                    if x is None or wl != full0:
                        sp.bad("long", "with a long last argument, the split is not all words and the long argument")
                    elif I.term(x, s2) != ("fld", L0, 1, 0) and not is_old(I, s2, x, L0):
                        sp.bad("last", "the last argument given is not the long one")
                elif x is None:
                    if full:
                        sp.bad("none", "no last argument is given although there is one")
                    if wl != EMPTY and wl != full0:
                        sp.bad("rest", "words out of nowhere")
                else:
                    if wl != ("lst", (), ("init", W0), ()):
                        sp.bad("rest", f"the words given are not all but the last (found {show(wl)})")
                    t = I.term(x, s2)
                    if not last_of(t, W0) and not (x[0] == "ref" and x[1][1] and x[1][1][-1] == ("ix", ("c", -1)) and norm(I, s2, ("s", x[1][0][1])) == full0):
                        sp.bad("last", "the last argument given is not the last word")


def last_of(t, W0):
    """The last word (or its text through the string's own dereference)."""
    if t == ("last", W0):
        return True
    if t[0] == "elem" and t[2] in (("c", -1),) or (t[0] == "elem" and lin_sub(lin(("len", ("deref", W0))), lin(t[2])) == lin(("c", 1))):
        return True
    return t[0] == "fld" and len(t) == 3 and t[2] == 0 and last_of(t[1], W0)


def bools(I, st, v):
    """A boolean result as [(state, 0|1)]."""
    if v[0] == "c":
        return [(st, int(v[1]))]
    out = []
    for k in (0, 1):
        for s in truth(I, st, v, k):
            out.append((s, k))
    return out


def truth(I, st, v, k):
    t = I.term(v)
    if t[0] == "not":
        return truth(I, st, ("s", t[1]), 1 - k)
    if t[0] == "cmp" and t[1] == "Eq" and t[3][0] == "c":
        s = st.copy()
        if k:
            return [s] if I.assume(s, t[2], t[3][1]) else []
        return [s] if I.assume_not(s, t[2], [t[3][1]]) else []
    kn = I.known(st, v)
    if kn is not None:
        return [st] if int(kn) == k else []
    s = st.copy()
    return [s] if I.assume(s, t, k) else []


def s_is_long(cx, fn, I, pl, res):
    sp = Spec(cx, fn)
    for n, (st, v) in enumerate(res):
        cx.ob("view", f"{fn.p} path {n}")
        for s, r in bools(I, st, v):
            for s2, k in long_cases(I, s, pl[1]):
                if r != k:
                    sp.bad("result", f"reports {'a' if r else 'no'} long argument when there is {'one' if k else 'none'}")


def s_is_empty(cx, fn, I, pl, res):
    sp = Spec(cx, fn)
    for n, (st, v) in enumerate(res):
        cx.ob("view", f"{fn.p} path {n}")
        for s, r in bools(I, st, v):
            for s2, k in long_cases(I, s, pl[1]):
                empty, full = I.hook.emptiness(I, s2, ("lst", (), pl[0], ()))
                if r and (k or full):
                    sp.bad("result", "reports no arguments although there may be one")
                if not r and not k and empty:
                    sp.bad("result", "reports arguments although there may be none")


def s_len(cx, fn, I, pl, res):
    sp = Spec(cx, fn)
    for n, (st, v) in enumerate(res):
        cx.ob("view", f"{fn.p} path {n}")
        want = lin(("len", ("deref", pl[0])))
        for s, k in long_cases(I, st, pl[1]):
            t = subst_disc(I, s, I.term(v, s))
            if lin(t) != lin(("op", "Add", ("len", ("deref", pl[0])), ("c", k))):
                sp.bad("result", f"the number of arguments is not the number of words{' plus one' if k else ''}")


def subst_disc(I, st, t):
    if isinstance(t, tuple) and t:
        if t[0] in ("cmp", "not", "discr"):
            k = I.known(st, ("s", t))
            if k is not None:
                return ("c", int(k))
        if t[0] == "op":
            return ("op", t[1]) + tuple(subst_disc(I, st, x) for x in t[2:])
        if t[0] == "lin":
            c, d = t[1], []
            for a, n in t[2]:
                b = subst_disc(I, st, a)
                if b[0] == "c":
                    c += b[1] * n
                else:
                    d.append((b, n))
            from seqs import mk
            return mk((c, dict(d)))
    return t


def s_new(cx, fn, I, pl, res):
    F = cx.F
    sp = Spec(cx, fn)
    iw, il = fidx(F, ARGS, "words"), fidx(F, ARGS, "long")
    ins = fn.ins
    o = next((i + 1 for i, ti in enumerate(ins) if F.ts(ti).startswith(OPT) and "::Line" in F.ts(ti)), None)
    ws = [i + 1 for i, ti in enumerate(ins) if i + 1 != o and base_ty(F, ti)[0] != ARGS]
    if o is None or len(ws) != 1:
        raise Missing(f"the parameters of {fn.p}")
    O = ("arg", o)
    for n, (st, v) in enumerate(res):
        cx.ob("build", f"{fn.p} path {n}")
        if pl:
            w, l = words_at(I, st, pl[2](I, st)), pl[3](I, st)
        else:
            w, l = words_at(I, st, I.project(v, (("f", iw),))), I.project(v, (("f", il),))
        base = w[2] is not None and src(I, st, w[2]) == ("arg", ws[0]) and not w[1]
        lead = w[3]
        if w[2] is None and lead and lead[0][0] == "all":
            base = src(I, st, lead[0]) == ("arg", ws[0]) and not w[1]
            lead = lead[1:]
        if not base:
            sp.bad("base", f"the words do not start with exactly those given (found {show(w)})")
            continue
        for s, k in long_cases(I, st, O):
            for s2, x in disc(I, s, l):
                if k == 0:
                    if x is not None or lead:
                        sp.bad("extra", "arguments beyond those given")
                elif x is not None:
                    if not same_str(I, s2, x, ("s", ("fld", O, 1, 0))):
                        sp.bad("last", "the long argument is not the last one given")
                    if lead:
                        sp.bad("extra", "words beyond those given")
                elif len(lead) != 1 or not same_str(I, s2, lead[0], ("s", ("fld", O, 1, 0))):
                    sp.bad("last", "the last argument given is lost or out of place")


def src(I, st, t):
    for _ in range(8):
        if t[0] == "all":
            t = t[1]
        elif t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("into", "from", "into_iter", "collect", "into_owned", "to_vec") and t[2]:
            t = t[2][0]
        elif t[0] == "s":
            t = t[1]
        elif t[0] == "adt" and t[1] == "alloc::borrow::Cow":
            t = t[3][0]
        else:
            return t
    return t


def s_from(cx, fn, I, pl, res):
    F = cx.F
    sp = Spec(cx, fn)
    iw, il = fidx(F, ARGS, "words"), fidx(F, ARGS, "long")
    for n, (st, v) in enumerate(res):
        cx.ob("build", f"{fn.p} path {n}")
        w = words_at(I, st, I.project(v, (("f", iw),)))
        if not (not w[1] and not w[3] and w[2] is not None and src(I, st, w[2]) == ("arg", 1)):
            sp.bad("words", "the words are not those given")
        if any(x is not None for _, x in disc(I, st, I.project(v, (("f", il),)))):
            sp.bad("long", "a long argument out of nowhere")


def s_empty(cx, fn, I, pl, res):
    F = cx.F
    sp = Spec(cx, fn)
    iw, il = fidx(F, ARGS, "words"), fidx(F, ARGS, "long")
    for n, (st, v) in enumerate(res):
        cx.ob("build", f"{fn.p} path {n}")
        if words_at(I, st, I.project(v, (("f", iw),))) != EMPTY or any(x is not None for _, x in disc(I, st, I.project(v, (("f", il),)))):
            sp.bad("empty", "an empty argument list that is not empty")


def s_edit(cx, fn, I, pl, res):
    sp = Spec(cx, fn)
    for n, (st, v) in enumerate(res):
        cx.ob("view", f"{fn.p} path {n}")
        g = v[3] if v[0] == "adt" and strip_lt(v[1]) == GUARD else None
        if g is None:
            sp.bad("guard", "an edit guard that is not made here")
            continue
        if words_at(I, st, g[0]) != ("lst", (), pl[0], ()) or g[1] != ("ref", (("M", ("arg", 1)), (("f", fidx(cx.F, ARGS, "long")),))):
            sp.bad("guard", "the edit guard does not refer to this list's own words and long argument")


def s_parse(cx, fn, I, pl, res):
    """The long argument is set at most once, as the last thing; nothing is parsed after it."""
    F = cx.F
    sp = Spec(cx, fn)
    iw, il = fidx(F, ARGS, "words"), fidx(F, ARGS, "long")
    for n, (st, v) in enumerate(res):
        cx.ob("build", f"{fn.p} path {n}")
        w = words_at(I, st, I.project(v, (("f", iw),)))
        for s, x in disc(I, st, I.project(v, (("f", il),))):
            if x is not None and w[3]:
                sp.bad("after", "words are added in the step that sets the long argument")
