"""C21: each handler sees each message once until it finishes."""
import re
from facts import Missing, calls, strip_lt
from interp import Interp, St
from rules.lists import ListHook, norm, EMPTY
from rules.c12 import deref
from seqs import lin, mk_sub

EXPLAIN = (
    "The handler table's functions are interpreted over all their paths with its id lists as symbolic sequences. For the run loop, "
    "every way through one iteration is compared with the one step that keeps the invariant 'entries before the index have run "
    "once, the others have not': run the entry at the index, then either keep it and advance, or remove exactly it, report its id "
    "as finished and stay; the loop may only end past the last entry. Adding takes a reported-free id or, when there is none, the "
    "number of entries; cancelling moves an entry's id to the free list; and a handler's wrapper calls it exactly once and "
    "reports completion exactly when it says so.")
HS = "client::handler::Handlers"
LOGIC = "client::logic::ClientLogic"
RAN = (("M", ("ghost", "ran")), ())
REC = (("M", ("ghost", "rec")), ())
UNIT = ("adt", "tuple", 0, ())


def shape(F):
    a = F.adts.get(HS)
    if a is None:
        raise Missing(HS)
    fs = a["vs"][0]["f"]
    tab = None
    ids = []
    for i, f in enumerate(fs):
        s = F.ts(f["t"])
        if s == "alloc::vec::Vec<usize>":
            ids.append(i)
        elif s.startswith("alloc::vec::Vec<") and "FnMut" in s:
            tab = i, f["t"]
    if tab is None or len(ids) != 2:
        raise Missing("the handler table's fields")
    e = [x for x in F.types[tab[1]]["a"] if isinstance(x, int)][0]
    t = F.types[e]
    el = t.get("a") or t.get("t") or t.get("f") if t.get("k") == "tuple" else [f["t"] for f in F.adts[strip_lt(t["d"])]["vs"][0]["f"]]
    idf = [i for i, x in enumerate(el) if F.ts(x) == "usize"]
    cf = [i for i, x in enumerate(el) if "FnMut" in F.ts(x)]
    if len(idf) != 1 or len(cf) != 1:
        raise Missing("a handler table entry")
    return tab[0], ids, idf[0], cf[0], F.ts(e)


class H(ListHook):
    def __init__(self, F, sh, status):
        super().__init__(F, lambda t: t == "usize")
        self.tab, self.ids, self.idf, self.cf, self.ety = sh
        self.status = status
        self.bad = {}
        self.loops = []
        self.odd = set()

    def snapshot(self):
        return dict(self.bad)

    def restore(self, s):
        self.bad = dict(s)

    def fail(self, key, where, msg):
        self.bad.setdefault((key, where), msg)

    def is_tab(self, ti):
        for _ in range(3):
            if ti is not None and self.F.types[ti].get("k") == "ref":
                ti = self.F.types[ti]["t"]
        if ti is None:
            return False
        s = self.F.ts(ti)
        return s in ("alloc::vec::Vec<%s>" % self.ety, "[%s]" % self.ety) or s.startswith("alloc::vec::Vec<%s," % self.ety)

    def loc(self, I, st, a):
        for _ in range(4):
            if a[0] == "ref":
                v = I.read(st, a[1])
                if v[0] == "ref":
                    a = v
                    continue
                return a[1]
            if a[0] == "s" and a[1][0] == "deref" and a[1][1][0] == "fld":
                t = a[1][1]
                return (("M", t[1][1]), (("f", t[2]),)) if t[1][0] == "mem" else None
            return (("M", I.term(a)), ())
        return None

    def entry(self, I, st, a):
        """(table value, index) if the callee is a table entry's function."""
        for _ in range(6):
            if a[0] == "ref":
                b, proj = a[1]
                if b[0] == "M" and b[1][0] == "he":
                    return b[1][1], b[1][2]
                a = I.read(st, a[1])
            elif a[0] == "s":
                t = a[1]
                while t[0] in ("mem", "deref", "fld"):
                    t = t[1]
                if t[0] == "he":
                    return t[1], t[2]
                return None
            else:
                return None
        return None

    def run_entry(self, I, st, H0, ix):
        outs = []
        for (vi, arity, yf, done) in self.status[1]:
            for y in (0, 1):
                for w in ((0, 1) if arity > 1 else (0,)):
                    s2 = st.copy()
                    n = I.term(I.read(st, RAN), st)
                    I.write(s2, RAN, ("s", ("op", "Add", n, ("c", 1))))
                    I.write(s2, REC, ("adt", "#rec", 0, (("s", H0), ("s", ix), ("c", int(done)), ("c", y))))
                    fs = tuple(("c", y if k == yf else w) for k in range(arity))
                    outs.append((s2, ("adt", self.status[0], vi, fs)))
        return outs

    def call(self, I, st, cal, args, site):
        nm = cal.nm
        F = self.F
        if nm in ("call_mut", "call", "call_once") and args:
            e = self.entry(I, st, args[0])
            if e is not None:
                return self.run_entry(I, st, *e)
        ti = I.cur_argtys[0] if I.cur_argtys else None
        if cal.id not in F.fns and args and ti is not None and self.is_tab(ti) and F.types[ti].get("k") == "ref":
            loc = self.loc(I, st, args[0])
            mut = F.types[ti].get("m")
            if loc is None:
                return super().call(I, st, cal, args, site)
            Hv = I.term(I.read(st, loc), st)
            le = ("len", ("deref", Hv))
            s2 = st.copy()
            if nm in ("deref_mut", "as_mut_slice", "as_mut"):
                return [(st, ("ref", loc))]
            if nm == "len":
                return [(st, ("s", le))]
            if nm in ("get_mut", "get") and mut:
                ix = I.term(args[1], st)
                outs = []
                lt = ("cmp", "Lt", ix, le)
                s0 = st.copy()
                if I.assume(s0, lt, 0):
                    outs.append((s0, ("adt", "core::option::Option", 0, ())))
                if I.assume(s2, lt, 1):
                    outs.append((s2, ("adt", "core::option::Option", 1, (("ref", (("M", ("he", Hv, ix)), ())),))))
                return outs
            if nm == "index_mut":
                ix = I.term(args[1], st)
                return [(st, ("ref", (("M", ("he", Hv, ix)), ())))]
            if nm in ("swap_remove", "remove"):
                ix = I.term(args[1], st)
                I.write(s2, loc, ("s", ("rm", nm, Hv, ix)))
                return [(s2, ("s", ("he", Hv, ix)))]
            if nm == "push":
                I.write(s2, loc, ("s", ("pushed", Hv, I.term(args[1], st))))
                return [(s2, UNIT)]
            if nm == "clear" or nm == "truncate" and I.known(st, args[1]) == 0:
                I.write(s2, loc, ("s", ("hempty",)))
                return [(s2, UNIT)]
            if nm in ("retain_mut", "retain"):
                return self.retain(I, st, args, loc, Hv, site)
            if mut and nm not in ("reserve", "shrink_to_fit", "is_empty", "iter", "deref", "as_slice"):
                self.odd.add((site.where, nm))
        return super().call(I, st, cal, args, site)

    def retain(self, I, st, args, loc, Hv, site):
        ix = ("each", site.fn.id, site.bb)
        a = st.copy()
        lists = {i: ("s", ("each-list", i)) for i in self.ids}
        me = (("M", ("arg", 1)), ())
        saved = {i: I.read(st, (me[0], (("f", i),))) for i in self.ids}
        for i, v in lists.items():
            I.write(a, (me[0], (("f", i),)), v)
        I.write(a, RAN, ("c", 0))
        outs = I.call_fnlike(a, [args[1], ("adt", "tuple", 0, (("ref", (("M", ("he", Hv, ix)), ())),))], [None, None], site, ("ret", site.bb), 1, None)
        if outs is None:
            raise Missing("the function that keeps or removes handlers")
        idt = ("fld", ("mem", ("he", Hv, ix)), self.idf)
        for s, v in outs:
            n = I.term(I.read(s, RAN), s)
            rec = I.read(s, REC)
            if lin(n) != (1, {}) or rec[0] != "adt":
                self.fail("runs", site.where, "a handler is not run exactly once for a message")
                continue
            done, y = rec[3][2][1], rec[3][3][1]
            k = I.known(s, v)
            if k is None:
                raise Missing("whether a handler is kept")
            if k == done:
                self.fail("keep", site.where, "a handler that is not finished is removed" if not k else "a handler that is finished is kept and will run again")
            self.lists(I, s, {i: ("each-list", i) for i in self.ids}, idt, done, y, site.where)
        s2 = st.copy()
        for i in self.ids:
            I.write(s2, (me[0], (("f", i),)), ("s", ("ran-over", i, I.term(saved[i], st))))
        I.write(s2, loc, ("s", ("kept", Hv)))
        I.write(s2, RAN, ("s", ("op", "Add", I.term(I.read(st, RAN), st), ("c", 1))))
        return [(s2, UNIT)]

    def lists(self, I, s, base, idt, done, y, where):
        """What one run does to the yielded and finished lists; the two are told apart by how they are used."""
        got = {}
        for i in self.ids:
            l = norm(I, s, I.read(s, (("M", ("arg", 1)), (("f", i),))))
            b = base[i]
            got[i] = l == ("lst", (), b, (idt,)) if l != ("lst", (), b, ()) else False
            if l != ("lst", (), b, ()) and not got[i]:
                self.fail("lists", where, "a run reports something other than the id of the handler that ran")
        self.roles.setdefault("obs", []).append((done, y, tuple(got[i] for i in self.ids), where))

    roles = {}

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        t = ("loop", frame, head, RAN)
        if not any(I.term(I.read(b, RAN), b) != t and RAN in b.store for b in backs) and not any(RAN in s.store for s in backs):
            return
        self.loops.append((fn, head))
        me = ("M", ("arg", 1))
        tl = (me, (("f", self.tab),))
        where = f"{fn.p} ({fn.sp})"

        def base(loc):
            if loc in havoced:
                return ("loop", frame, head, loc)
            vs = {I.term(I.read(s, loc), s) for s in states}
            if len(vs) != 1:
                raise Missing("the table when its loop begins")
            return vs.pop()
        ends = [s for ss in exits.values() for s in ss] if isinstance(exits, dict) else list(exits)
        ends += [r[0] if isinstance(r, tuple) else r for r in (rets or ())]
        for b in backs:
            n = I.term(I.read(b, RAN), b)
            c, d = lin(n)
            if d != {t: 1} or c != 1:
                if d == {t: 1}:
                    self.fail("runs", where, f"one step of the loop over the handlers runs {c} handlers")
                    continue
                raise Missing("how many handlers one step runs")
            rec = I.read(b, REC)
            Hr, ir, done, y = rec[3][0][1], rec[3][1][1], rec[3][2][1], rec[3][3][1]
            Hh = base(tl)
            Hb = I.term(I.read(b, tl), b)
            if Hr != Hh:
                self.fail("table", where, "the table is changed before the handler at the index is run")
                continue
            if ir[0] != "loop" or ir[1:3] != (frame, head):
                raise Missing("the index of the handler that is run")
            il = ir[3]
            ib = lin(I.term(I.read(b, il), b))
            for s in states:
                if I.known(s, I.read(s, il)) != 0 and not (s.store.get(il, ("?",))[0] == "s" and s.store[il][1] == ir):
                    self.fail("start", where, "the loop over the handlers does not start at the first one")
            if not done:
                if Hb != Hr:
                    self.fail("kept", where, "a handler that is not finished is removed from the table")
                if ib != (1, {ir: 1}):
                    self.fail("step", where, "after a handler that stays, the index does not move to the next one: a handler is skipped or run twice")
            else:
                if Hb == Hr:
                    self.fail("removed", where, "a handler that is finished stays in the table and will run again")
                elif Hb[0] == "rm" and Hb[2] == Hr and Hb[3] == ir:
                    if ib != (0, {ir: 1}):
                        self.fail("step2", where, "after a finished handler is removed, the handler that takes its place is skipped")
                else:
                    self.fail("removed2", where, "the entry removed from the table is not the handler that finished")
            idt = ("fld", ("mem", ("he", Hr, ir)), self.idf)
            self.lists(I, b, {i: base((me, (("f", i),))) for i in self.ids}, idt, done, y, where)
        for s in ends:
            n = I.term(I.read(s, RAN), s)
            if lin(n) != (0, {t: 1}):
                self.fail("exit", where, "the loop over the handlers can end before every handler has run")
                continue
            ok = False
            Hh = base(tl)
            for f, v in s.facts.items():
                if f[0] == "cmp" and f[1] == "Lt" and f[2][0] == "loop" and f[2][1:3] == (frame, head) and v == ("in", frozenset([0])):
                    if f[3] == ("len", ("deref", Hh)):
                        ok = True
            if not ok:
                self.fail("exit", where, "the loop over the handlers can end before the last one has been reached")


def wrapper(cx, F, sh):
    """The boxed function of a handler: (status type, [(variant, fields, yielded field, is done)])."""
    fn = None
    for f in F.fns.values():
        if "{closure" in f.p and f.p.startswith("client::handler::") and f.body is not None:
            if any(c["p"].endswith("handler::Handler::handle") for _, _, c in calls(f)):
                fn = f
    if fn is None:
        raise Missing("the function that runs one handler")
    cx.cover(fn)

    class W(ListHook):
        def __init__(self):
            super().__init__(F, lambda t: False)

        def call(self, I, st, cal, args, site):
            if cal.p.endswith("handler::Handler::handle"):
                outs = []
                for r in (0, 1):
                    for y in (0, 1):
                        s = st.copy()
                        s.auto = (s.auto or ()) + ((r, y),)
                        sr = args[-1]
                        fl = [x for x in sr[3] if x[0] == "ref"] if sr[0] == "adt" else []
                        if len(fl) != 1:
                            raise Missing("the flag a handler's sender sets")
                        if I.known(st, I.read(st, fl[0][1])) != 0:
                            s.auto += ("dirty",)
                        if y:
                            I.write(s, fl[0][1], ("c", 1))
                        outs.append((s, ("adt", "core::ops::control_flow::ControlFlow", r, (UNIT,))))
                return outs
            return super().call(I, st, cal, args, site)
    I = Interp(F, W())
    var = {}
    ty = None
    for st, v in I.run(fn):
        cx.ob("wrapper path", f"{fn.p} {st.auto}")
        if not st.auto or len([x for x in st.auto if isinstance(x, tuple)]) != 1:
            cx.viol("wrapper:runs", fn.sp, f"{fn.p} does not run its handler exactly once per message")
            continue
        if "dirty" in st.auto:
            cx.viol("wrapper:flag", fn.sp, f"{fn.p} hands its handler a sender that already counts as used")
        r, y = st.auto[0]
        if v[0] != "adt":
            raise Missing("the status of a handler")
        ty = v[1]
        var.setdefault(v[2], {"done": set(), "f": []})
        var[v[2]]["done"].add(r)
        var[v[2]]["f"].append((y, [I.known(st, x) for x in v[3]]))
    out = []
    for vi, d in sorted(var.items()):
        if len(d["done"]) != 1:
            cx.viol("wrapper:done", fn.sp, f"{fn.p} gives the same status whether or not its handler is finished")
            return None
        ar = len(d["f"][0][1])
        ys = [k for k in range(ar) if all(fs[k] == y for y, fs in d["f"])]
        if len(ys) != 1:
            cx.viol("wrapper:yielded", fn.sp, f"{fn.p} does not report whether its handler sent a value")
            return None
        out.append((vi, ar, ys[0], d["done"].pop() == 1))
    return ty, out


def fresh():
    st = St()
    st.store[RAN] = ("c", 0)
    return st


def check(cx):
    F = cx.F
    sh = shape(F)
    status = cx.guard("wrapper", wrapper, cx, F, sh)
    if status is None:
        return
    tab, ids = sh[0], sh[1]
    H.roles = {}

    def field(I, st, i):
        return norm(I, st, I.read(st, (("M", ("arg", 1)), (("f", i),))))

    # ------------------------------------------------------------------ the run
    runs = [f for f in F.fns.values() if f.body is not None and f.impl and F.adt_of(f.impl["self"]) == HS and f.ins and F.types[f.ins[0]].get("m")
            and any(strip_lt(F.types[deref(F, t)].get("d", "")) == "ircmsg::server::ServerMsg" for t in f.ins if F.types[deref(F, t)].get("k") == "adt")]
    if len(runs) > 1:       # the entry point is the one the client calls
        ext = {c.get("id") for f in F.fns.values() if not (f.impl and F.adt_of(f.impl["self"]) == HS) for _, _, c in calls(f)}
        runs = [f for f in runs if f.id in ext]
    if len(runs) != 1:
        raise Missing("one function that runs the handlers")
    run = runs[0]
    cx.cover(run)
    h = H(F, sh, status)
    I = Interp(F, h)
    I.split = 64
    rs = I.run(run, st=fresh())
    if h.odd:
        w, nm = sorted(h.odd)[0]
        cx.viol("handle:odd", w, f"{run.p} changes the table with `{nm}`, which this analysis does not follow")
    obs = H.roles.get("obs", [])
    if not obs:
        raise Missing("a step that runs a handler")
    # which list is which: the finished list is appended to exactly when done, the other exactly when yielded
    fin = yl = None
    for k, i in enumerate(ids):
        if all(g[k] == bool(d) for d, y, g, w in obs):
            fin = i
        elif all(g[k] == bool(y) for d, y, g, w in obs):
            yl = i
    for d, y, g, w in obs:
        cx.ob("step", f"done={d} yielded={y}")
    names = [f["n"] for f in F.adts[HS]["vs"][0]["f"]]
    if fin is None:
        cx.viol("handle:finished", run.sp, f"{run.p}: no list receives the id of a handler exactly when it finishes")
        fin = ids[1]
    if yl is None:
        cx.viol("handle:yielded", run.sp, f"{run.p}: no list receives the id of a handler exactly when it sent a value")
        yl = [i for i in ids if i != fin][0]
    for (k, w), msg in h.bad.items():
        cx.viol(f"handle:{k}", w, msg)
    for st, v in rs:
        cx.ob("run path", repr(sorted(map(repr, st.facts)))[:300])
        got = I.term(v, st)
        if strip(got) != strip(("len", ("deref", ("fld", ("mem", ("arg", 1)), fin)))):
            cx.viol("handle:mark", run.sp, f"{run.p} does not return where the ids finished by this message begin")
        if I.term(I.read(st, RAN), st) == ("c", 0):
            cx.viol("handle:none", run.sp, f"{run.p} can return without running the handlers")
    # reports of earlier messages must be dropped
    h2 = H(F, sh, status)
    for s in entry_lists(F, run, sh, status, yl):
        cx.ob("cleared", "yielded list at the first run")
        if s != EMPTY:
            cx.viol("handle:stale", run.sp, f"{run.p} can report a value sent for an earlier message again")
    # ------------------------------------------------------------------ the others
    mine = {f.id for f in F.fns.values() if f.body is not None and f.impl and F.adt_of(f.impl["self"]) == HS}
    ext = {c.get("id") for f in F.fns.values() if f.id not in mine and f.p.split("::{closure")[0] not in {F.fns[m].p for m in mine} for _, _, c in calls(f)}
    # private steps of the functions above are followed where they are called
    inner = {c.get("id") for m in mine for _, _, c in calls(F.fns[m])} & mine - ext
    inner = {m for m in inner if F.fns[m].raw.get("vis") != "Public"}
    for fn in F.fns.values():
        if fn.body is None or not fn.impl or "{closure" in fn.p or F.adt_of(fn.impl["self"]) != HS or fn is run or not fn.ins:
            continue
        if F.types[fn.ins[0]].get("k") != "ref" or not F.types[fn.ins[0]].get("m"):
            continue
        if fn.id in inner:
            continue
        cx.cover(fn)
        cx.ob("table function", fn.p)
        cx.guard(fn.p, lambda fn=fn: other(cx, F, fn, sh, status, fin, yl))
    results(cx, F, fin, yl)
    logic(cx, F, run)
    cx.need("table function", 3)
    cx.need("step", 4)


def strip(t):
    if isinstance(t, tuple) and t:
        if t[0] == "mem":
            return strip(t[1])
        return tuple(strip(x) for x in t)
    return t


def entry_lists(F, run, sh, status, yl):
    out = []

    class E(H):
        def run_entry(self, I, st, H0, ix):
            out.append(norm(I, st, I.read(st, (("M", ("arg", 1)), (("f", yl),)))))
            return super().run_entry(I, st, H0, ix)

        def retain(self, I, st, *a):
            out.append(norm(I, st, I.read(st, (("M", ("arg", 1)), (("f", yl),)))))
            return super().retain(I, st, *a)
    roles = H.roles
    H.roles = {}
    I = Interp(F, E(F, sh, status))
    I.run(run, st=fresh())
    H.roles = roles
    return out[:1]


def other(cx, F, fn, sh, status, fin, yl):
    h = H(F, sh, status)
    I = Interp(F, h)
    I.split = 64
    tab = sh[0]
    T0 = ("fld", ("mem", ("arg", 1)), tab)
    F0 = ("fld", ("mem", ("arg", 1)), fin)
    for st, v in I.run(fn, st=fresh()):
        T = I.term(I.read(st, (("M", ("arg", 1)), (("f", tab),))), st)
        f = norm(I, st, I.read(st, (("M", ("arg", 1)), (("f", fin),))))
        same = T == T0
        if I.term(I.read(st, RAN), st) != ("c", 0):
            cx.viol(f"{fn.p}:ran", fn.sp, f"{fn.p} runs handlers outside of a message")
        if same:
            if f not in (("lst", (), F0, ()),):
                cx.viol(f"{fn.p}:free", fn.sp, f"{fn.p} changes which ids are free without a handler being added or removed")
        elif T == ("hempty",) or T[0] == "default" and "alloc::vec::Vec<" in str(T[1]) or T[0] == "call" and re.match(r"alloc::vec::Vec::<.*>::(new|with_capacity)$", str(T[1])):
            if f != EMPTY:
                cx.viol(f"{fn.p}:cancel", fn.sp, f"{fn.p} removes all handlers but keeps ids as free or finished: a new handler can get an id that is taken, or a finished one is reported")
            y = norm(I, st, I.read(st, (("M", ("arg", 1)), (("f", yl),))))
            if y != EMPTY:
                cx.viol(f"{fn.p}:cancel2", fn.sp, f"{fn.p} removes all handlers but still reports their values")
        elif T[0] == "pushed" and T[1] == T0:
            x = T[2]
            idt = x[3][sh[2]] if x[0] == "adt" else None
            if idt is None:
                raise Missing("the entry that is added")
            idt = I.term(idt, st)
            if I.term(v, st) != idt:
                cx.viol(f"{fn.p}:id", fn.sp, f"{fn.p} returns an id other than the one the handler was added with")
            if f == ("lst", (), ("init", F0), ()):
                if idt != ("last", F0):
                    cx.viol(f"{fn.p}:id2", fn.sp, f"{fn.p} takes an id off the free list and uses another one")
            elif f == ("lst", (), F0, ()) or f == EMPTY:
                if strip(idt) != strip(("len", ("deref", T0))) or not empty(I, st, F0):
                    cx.viol(f"{fn.p}:id3", fn.sp, f"{fn.p} can give a new handler an id that another handler or an unreported completion uses")
            else:
                raise Missing("where a new handler's id comes from")
        elif T[0] == "rm" and T[2] == T0:
            idt = ("fld", ("elem", ("mem", ("deref", T0)), T[3]), sh[2])
            ids = {idt, ("fld", ("mem", ("he", T0, T[3])), sh[2]), ("fld", ("he", T0, T[3]), sh[2])}
            eq = {t[2] if t[3] in ids else t[3] for t, ff in st.facts.items() if t[0] == "cmp" and t[1] == "Eq" and (t[2] in ids or t[3] in ids) and ff == ("in", frozenset([1]))}
            if not (f[1] == () and f[2] == F0 and len(f[3]) == 1 and (f[3][0] in ids or f[3][0] in eq)):
                cx.viol(f"{fn.p}:release", fn.sp, f"{fn.p} removes a handler without making exactly its id free again")
        else:
            raise Missing(f"what {fn.p} does to the table")


def empty(I, st, t):
    f = I.fact(st, ("len", ("deref", t)))
    return f is not None and f[0] == "in" and f[1] <= {0}


def results(cx, F, fin, yl):
    """What is reported after a message."""
    for fn in F.fns.values():
        if fn.body is None or not fn.impl or F.adt_of(fn.impl["self"]) != HS or len(fn.ins or ()) != 2 or F.ts(fn.ins[1]) != "usize" or F.types[fn.ins[0]].get("m"):
            continue
        cx.cover(fn)
        cx.ob("report", fn.p)
        class R(ListHook):
            def call(self, I, st, cal, args, site):
                if cal.nm in ("index", "get_unchecked") and len(args) == 2 and args[0][0] in ("ref", "s"):
                    t = ("deref", I.term(I.read(st, args[0][1]) if args[0][0] == "ref" else args[0], st))
                    t = t[1] if t[1][0] == "deref" else t
                    r = I.range_of(args[1], t)
                    if r is not None:
                        return [(st, ("s", mk_sub(t, *r)))]
                return super().call(I, st, cal, args, site)
        I = Interp(F, R(F, lambda t: t == "usize"))
        Y, Fi = ("fld", ("mem", ("arg", 1)), yl), ("fld", ("mem", ("arg", 1)), fin)
        for st, v in I.run(fn):
            if F.ts(fn.out) == "bool":
                for ny in (0, 1):
                    for nf in (0, 1, 2):
                        for at in range(nf + 1):
                            val = {("len", ("deref", strip(Y))): ny, ("len", ("deref", strip(Fi))): nf, ("arg", 2): at}
                            if any(holds(strip(t), f, val) is False for t, f in st.facts.items()):
                                continue
                            k = I.known(st, v)
                            got = k if k is not None else evl(strip(I.term(v, st)), val)
                            if got is None:
                                raise Missing("when there is something to report")
                            if bool(got) != bool(ny or nf > at):
                                cx.viol(f"{fn.p}:any", fn.sp, f"{fn.p} is {bool(got)} when {ny} handlers sent values and {nf - at} finished")
                continue
            if v[0] != "adt" or len(v[3]) != 2:
                raise Missing("the reported ids")
            a, b = (strip(I.term(x, st)) for x in v[3])
            if a != strip(("deref", Y)):
                cx.viol(f"{fn.p}:yielded", fn.sp, f"{fn.p} does not report all handlers that sent a value")
            full = strip(("sub", ("deref", Fi), ("arg", 2), ("len", ("deref", Fi))))
            if b != full:
                cx.viol(f"{fn.p}:finished", fn.sp, f"{fn.p} does not report exactly the handlers that this message finished")


def evl(t, val):
    if t in val:
        return val[t]
    if t[0] == "c":
        return t[1]
    if t[0] == "cmp" or t[0] == "op":
        a, b = evl(t[2], val), evl(t[3], val)
        if a is None or b is None:
            return None
        return {"Lt": lambda: int(a < b), "Le": lambda: int(a <= b), "Gt": lambda: int(a > b), "Ge": lambda: int(a >= b), "Eq": lambda: int(a == b),
                "Ne": lambda: int(a != b), "Sub": lambda: a - b, "Add": lambda: a + b, "BitOr": lambda: a | b, "BitAnd": lambda: a & b}.get(t[1], lambda: None)()
    if t[0] == "len" and t[1][0] == "deref" and t[1][1][0] == "sub":
        t = ("len", t[1][1])
    if t[0] == "len" and t[1][0] == "sub":
        a, b = evl(t[1][2], val), evl(t[1][3], val) if len(t[1]) > 3 else evl(("len", t[1][1]), val)
        return None if a is None or b is None else b - a
    if t[0] == "not":
        a = evl(t[1], val)
        return None if a is None else 1 - a
    return None


def holds(t, f, val):
    k = evl(t, val)
    if k is None:
        return None
    return (k in f[1]) == (f[0] == "in")


def logic(cx, F, run):
    """The client runs the table exactly once for a message."""
    n = 0
    for fn in F.fns.values():
        if fn.body is None or not fn.impl or F.adt_of(fn.impl["self"]) != LOGIC or "{closure" in fn.p:
            continue
        if not any(c.get("id") == run.id for _, _, c in calls(fn)):
            continue
        n += 1
        cx.cover(fn)

        class L(ListHook):
            def __init__(self):
                super().__init__(F, lambda t: False)

            def inline(self, I, f, cal):
                return f.id != run.id and not f.p.startswith("client::queue")

            def after(self, I, st, cal, args, val, site):
                if cal.id == run.id:
                    st.auto = (st.auto or 0) + 1
        I = Interp(F, L())
        for st, v in I.run(fn):
            cx.ob("client step", fn.p)
            if st.auto != 1:
                cx.viol(f"{fn.p}:once", fn.sp, f"{fn.p} can run the handlers {st.auto or 0} times for one message")
    if not n:
        raise Missing("the client's use of the handler table")
