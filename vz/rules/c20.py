"""C20: the outgoing queue sends in order, once, and within its rate limit."""
from facts import Missing, strip_lt
from interp import Interp
from rules.lists import ListHook, norm, EMPTY
from rules.c12 import deref, body_of
from rules.dur import ev, holds, Unknown

EXPLAIN = (
    "Every function that can change the queue (all methods and trait implementations taking a queue or an edit guard mutably) is "
    "interpreted over all its paths with the message list as a symbolic sequence. A path may only keep the list as it was with "
    "messages appended at its end; taking the first message off (pop, which must then return it), emptying (clear, reset), "
    "filtering through the adjuster, and cutting back to the guard's starting length are each allowed in their own function only. "
    "pop's path conditions and its new time point are compared, over a grid of time points, with the documented limit.")
ASSUME = ["Instant::now is monotonic (documented by std)",
          "time arithmetic in the summaries is piecewise linear with breakpoints the grid of time points separates"]
MSG = "ircmsg::client::ClientMsg"
Q = "client::queue::Queue"
G = "client::queue::QueueEditGuard"
QUIET = ("reserve", "reserve_exact", "shrink_to_fit", "make_contiguous", "len", "is_empty", "iter", "as_slices", "front", "back", "get", "contains",
         "deref", "as_ref", "borrow", "fmt", "capacity", "clone", "range", "into_iter", "eq", "iter_mut", "get_mut", "front_mut", "back_mut")
INPLACE = ("iter_mut", "get_mut", "front_mut", "back_mut", "make_contiguous", "swap", "rotate_left", "rotate_right", "insert", "remove", "drain", "retain",
           "retain_mut", "truncate", "split_off", "append", "resize", "swap_remove_back", "swap_remove_front", "pop_back", "sort", "as_mut_slices",
           "resize_with", "replace", "take", "range_mut")


class H(ListHook):
    def __init__(self, F, fn, roles):
        super().__init__(F, lambda t: t.startswith(MSG))
        self.fn = fn
        self.roles = roles
        self.ops = []
        self.tails = []
        self.muts = set()

    def above_start(self, I, st, l):
        """Is the list known to be longer than it was when the guard was made?"""
        le = strip(self.length(l))
        for t, f in st.facts.items():
            if t[0] == "cmp" and f[0] == "in" and len(f[1]) == 1:
                v, = f[1]
                op, a, b = t[1], strip(t[2]), strip(t[3])
                if a == le:
                    a, b, op = b, a, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
                if b == le and a == ("fld", ("arg", 1), self.roles[5]) and (op, v) in (("Lt", 1), ("Ge", 0)):
                    return True
        return False

    def is_queue(self, ti):
        while ti is not None and self.F.types[ti].get("k") == "ref":
            ti = self.F.types[ti]["t"]
        return ti is not None and self.F.ts(ti).startswith("alloc::collections::vec_deque::VecDeque<" + MSG)

    def call(self, I, st, cal, args, site):
        nm = cal.nm
        if cal.id not in self.F.fns and args and I.cur_argtys and I.cur_argtys[0] is not None:
            ti = I.cur_argtys[0]
            if nm in ("add_assign", "sub_assign") and args[0][0] in ("ref", "s") and self.F.ts(ti).startswith(("&mut std::time::Instant", "&mut core::time::Duration")):
                loc = args[0][1] if args[0][0] == "ref" else (("M", args[0][1]), ())
                s2 = st.copy()
                I.write(s2, loc, ("s", ("call", nm[:3], (I.term(I.read(st, loc), st), I.term(args[1], st)))))
                return [(s2, ("adt", "tuple", 0, ()))]
            if self.is_queue(ti) and self.F.types[ti].get("k") == "ref" and self.F.types[ti].get("m"):
                self.muts.add(nm)
                if nm in ("truncate", "drain", "split_off", "pop_back", "append", "retain", "retain_mut") or nm in INPLACE:
                    r = self.edit(I, st, cal, args, site)
                    if r is not None:
                        return r
            if nm in ("replace", "take", "swap") and cal.p.startswith("core::mem") and self.is_queue(ti):
                self.ops.append((site.where, nm))
        if nm in ("call_once", "call_mut", "call") and cal.id not in self.F.fns and len(args) == 2:
            if args[0] == ("s", ("arg", 2)):
                s2 = st.copy()
                a = args[1]
                a = a[3][0] if a[0] == "adt" and a[1] == "tuple" and a[3] else a
                s2.auto = (s2.auto or ()) + (a,)
                return [(s2, ("adt", "tuple", 0, ()))]
        return super().call(I, st, cal, args, site)

    def edit(self, I, st, cal, args, site):
        nm = cal.nm
        a = args[0]
        loc = a[1] if a[0] == "ref" else (("M", I.term(a)), ())
        l = norm(I, st, I.read(st, loc))
        s2 = st.copy()
        dt = I.cur_dty

        def res(x):
            from rules.lists import UNIT
            if dt is not None and self.F.ts(dt) != "()":
                return [(x, ("s", ("call", cal.p, (), (site.fn.id, site.bb, 0))))]
            return [(x, UNIT)]
        n = args[1] if len(args) > 1 else None
        if nm == "truncate" and I.known(st, n) == 0:
            I.write(s2, loc, ("s", EMPTY))
            return res(s2)
        if nm in ("truncate", "split_off"):
            I.write(s2, loc, ("s", ("lst", (), ("trunc", l, I.term(n, st)), ())))
            return res(s2)
        if nm == "drain" and n is not None and n[0] == "adt" and n[1].endswith("RangeFrom"):
            I.write(s2, loc, ("s", ("lst", (), ("trunc", l, I.term(n[3][0], st)), ())))
            return res(s2)
        if nm in ("retain", "retain_mut"):
            cl = args[1]
            I.write(s2, loc, ("s", ("lst", (), ("kept", l, cl[1] if cl[0] == "adt" else "?"), ())))
            return res(s2)
        if nm == "append":
            return None
        if nm == "pop_back":
            self.tails.append((site.where, self.above_start(I, st, l)))
            return None
        self.ops.append((site.where, nm))
        return None


def fields(F):
    a = F.adts.get(Q)
    if a is None:
        raise Missing(Q)
    fs = a["vs"][0]["f"]
    q = [i for i, f in enumerate(fs) if F.ts(f["t"]).startswith("alloc::collections::vec_deque::VecDeque<" + MSG)]
    tp = [i for i, f in enumerate(fs) if F.ts(f["t"]) == "std::time::Instant"]
    ds = [i for i, f in enumerate(fs) if F.ts(f["t"]) == "core::time::Duration"]
    g = F.adts.get(G)
    gf = g["vs"][0]["f"]
    gq = [i for i, f in enumerate(gf) if F.adt_of(deref(F, f["t"])) == Q]
    gl = [i for i, f in enumerate(gf) if F.ts(f["t"]) == "usize"]
    if not (len(q) == 1 and len(tp) == 1 and len(ds) == 2 and len(gq) == 1 and len(gl) == 1):
        raise Missing("the fields of the queue and its guard")
    return q[0], tp[0], ds, gq[0], gl[0], fs, gf


def check(cx):
    F = cx.F
    q, tp, ds, gq, gl, fs, gf = fields(F)
    for n, f in [(Q, x) for x in fs] + [(G, x) for x in gf]:
        cx.ob("private field", f"{n}.{f['n']}")
        if f["vis"] == "Public" or f.get("reach"):
            cx.viol(f"field:{n}.{f['n']}", n, f"{n}.{f['n']} can be changed from outside the crate, past the rate limit")
    # roles of the two durations
    setr = F.fn(Q + "::set_rate_limit")
    delay, sub = cx.guard("set_rate_limit", rate, cx, setr, ds, tp) or (None, None)
    if delay is None:
        raise Missing("the rate limit's fields")
    for fn in list(F.fns.values()):
        if fn.body is None or not fn.ins or "{closure" in fn.p or not (fn.reach or (fn.impl and fn.impl.get("tr"))):
            continue
        t = fn.ins[0]
        d = deref(F, t)
        own = F.adt_of(d) if F.types[d].get("k") == "adt" else None
        if own not in (Q, G):
            continue
        if F.types[t].get("k") == "ref" and not F.types[t].get("m"):
            continue
        cx.ob("queue function", fn.p)
        cx.guard(fn.p, lambda fn=fn, own=own: method(cx, fn, own, (q, tp, delay, sub, gq, gl)))
    for fn in F.fns.values():
        if fn.body is None or "{closure" in fn.p:
            continue
        if fn.out is not None and F.types[fn.out].get("k") == "adt" and F.adt_of(fn.out) == Q and (fn.reach or (fn.impl and fn.impl.get("tr"))):
            cx.ob("constructor", fn.p)
            cx.guard(fn.p, lambda fn=fn: ctor(cx, fn, (q, tp, delay, sub, gq, gl)))
    cx.need("queue function", 10)
    cx.need("constructor", 3)


def rate(cx, fn, ds, tp):
    F = cx.F
    cx.cover(fn)
    I = Interp(F, H(F, fn, None))
    roles = set()
    rs = I.run(fn)
    for st, v in rs:
        f = {i: I.term(I.read(st, (("M", ("arg", 1)), (("f", i),))), st) for i in ds + [tp]}
        dl = [i for i in ds if f[i] == ("arg", 2)]
        if len(dl) != 1:
            raise Missing("the field set_rate_limit stores the delay in")
        roles.add(dl[0])
    if len(roles) != 1:
        raise Missing("one field for the delay")
    delay, = roles
    sub, = [i for i in ds if i != delay]
    # the burst allowance is delay * burst, and no message may go out early after a change
    for D in (0, 1, 2, 3):
        for B in (0, 1, 4):
            for now in (100, 105):
                env = {("arg", 2): D, ("arg", 3): B, ("now",): now}
                for st, v in rs:
                    if not holds(st, env):
                        continue
                    cx.ob("rate point", f"delay={D} burst={B} now={now}")
                    t = I.term(I.read(st, (("M", ("arg", 1)), (("f", sub),))), st)
                    try:
                        got = ev(t, env)
                    except Unknown:
                        raise Missing("the burst allowance set_rate_limit stores")
                    if got != D * B:
                        cx.viol("set_rate_limit:burst", fn.sp, f"{fn.p}: with a delay of {D} and a burst of {B} the allowance becomes {got}, not {D * B}")
                    t = I.term(I.read(st, (("M", ("arg", 1)), (("f", tp),))), st)
                    try:
                        got = ev(t, env)
                    except Unknown:
                        if t == ("fld", ("mem", ("arg", 1)), tp):
                            got = -1
                        else:
                            raise Missing("the time point set_rate_limit stores")
                    if got < now + D * B + D:
                        cx.viol("set_rate_limit:timepoint", fn.sp, f"{fn.p}: after a change of the limit the next message can go out sooner than the longest delay under the new settings")
    return delay, sub


def ctor(cx, fn, R):
    F = cx.F
    q, tp, delay, sub, gq, gl = R
    cx.cover(fn)
    I = Interp(F, H(F, fn, R))
    for st, v in I.run(fn):
        if v[0] != "adt" or v[1] != Q:
            if v[0] == "s" and v[1][0] == "arg":
                continue
            if v[0] == "s" and v[1][0] == "call":
                continue      # built elsewhere (checked there)
            raise Missing(f"the queue {fn.p} returns")
        for i, want, what in ((delay, 2, "delay between messages"), (sub, 8, "burst allowance")):
            cx.ob("default", f"{fn.p} {what}")
            try:
                got = ev(I.term(v[3][i], st), {})
            except Unknown:
                raise Missing(f"{fn.p}: the {what}")
            if got != want:
                cx.viol(f"{fn.p}:{what}", fn.sp, f"{fn.p}: the default {what} is {got} s instead of the documented {want} s (five messages at once, then one every two seconds)")


def method(cx, fn, own, R):
    F = cx.F
    q, tp, delay, sub, gq, gl = R
    cx.cover(fn)
    h = H(F, fn, R)
    I = Interp(F, h)
    I.split = 64
    isref = F.types[fn.ins[0]].get("k") == "ref"
    if not isref:
        cx.ob("consumes", fn.p)
        return
    base = ("M", ("arg", 1)) if own == Q else ("M", ("fld", ("mem", ("arg", 1)), gq))
    me = ("mem", base[1])
    L0 = ("fld", me, q)
    rs = I.run(fn)
    kind = fn.nm if fn.p in (Q + "::pop", Q + "::clear", Q + "::reset", Q + "::adjust", G + "::clear", Q + "::set_rate_limit") else None
    tag = (own, kind)
    for n, (st, v) in enumerate(rs):
        cx.ob("path", f"{fn.p} path {n}")
        l = norm(I, st, I.read(st, (base, (("f", q),))))
        f = {i: I.term(I.read(st, (base, (("f", i),))), st) for i in (tp, delay, sub)}
        why = None
        if tag == (Q, "pop"):
            continue
        l = whole(l, L0)
        same = l[1] == () and l[2] == L0
        if tag in ((Q, "clear"), (Q, "reset")):
            if l != EMPTY and not (same and l[3] == () and knows_empty(I, st, L0)):
                why = "does not leave the queue empty"
        elif tag == (Q, "adjust"):
            if l[1] == () and l[3] == () and l[2] is not None and l[2][0] == "kept" and whole(l[2][1], L0) == ("lst", (), L0, ()):
                why = closure(cx, F, l[2][2])
            elif not (same and l[3] == ()):
                why = "changes the queue other than by keeping what the adjuster keeps"
        elif tag == (G, "clear"):
            lim = ("fld", ("mem", ("arg", 1)), gl)
            b = l[2]
            if not (same and l[3] == ()) and not (l[1] == () and l[3] == () and b is not None and b[0] == "trunc" and whole(b[1], L0) == ("lst", (), L0, ()) and b[2] == lim) \
                    and not (l[1] == () and l[3] == () and b is not None and b[0] == "loop" and h.muts - set(QUIET) <= {"pop_back", "pop"} and all(ok for _, ok in h.tails)):
                why = "can discard messages that were queued before the edit began, or keep some that were added since"
        elif not same:
            if l[2] is not None and l[2][0] == "loop" and h.muts - set(QUIET) <= {"push_back", "extend", "append"}:
                pass
            elif l[2] is not None and l[2][0] in ("loop", "hv", "phi") and not h.ops:
                why = "changes the queue in a way this analysis cannot follow"
            else:
                why = "removes or reorders messages that were queued before"
        if why is None and h.ops:
            why = f"rearranges the queue with `{h.ops[0][1]}`"
        if why:
            cx.viol(f"{fn.p}:list", fn.sp, f"{fn.p} {why}")
        if kind not in ("set_rate_limit",):
            for i, nmi in ((tp, "next time point"), (delay, "delay"), (sub, "burst allowance")):
                if f[i] != ("fld", me, i):
                    ok = False
                    if tag == (Q, "reset") and i == tp:
                        try:
                            ok = ev(f[i], {("now",): 100}) >= 100
                        except Unknown:
                            ok = False
                    if not ok:
                        cx.viol(f"{fn.p}:limit", fn.sp, f"{fn.p} changes the limiter's {nmi}")
        if own == G:
            x = I.term(I.read(st, (("M", ("arg", 1)), (("f", gl),))), st)
            if x != ("fld", ("mem", ("arg", 1)), gl):
                cx.viol(f"{fn.p}:start", fn.sp, f"{fn.p} changes the guard's starting length: messages queued before the edit are no longer told apart")
        if v[0] == "adt" and v[1] == G:
            cx.ob("guard made", fn.p)
            n0 = I.term(v[3][gl], st)
            want = ("len", ("deref", L0))
            if strip(n0) != strip(want):
                cx.viol(f"{fn.p}:guard", fn.sp, f"{fn.p} makes an edit guard whose starting length is not the number of messages queued at that moment")
    if tag == (Q, "pop"):
        pop(cx, fn, I, rs, R, L0, me, base, h)


def strip(t):
    if isinstance(t, tuple) and t:
        if t[0] == "mem":
            return strip(t[1])
        return tuple(strip(x) for x in t)
    return t


def whole(l, L0):
    """first(x) + tail(x) is x; init(x) + last(x) is x."""
    _, pre, b, post = l
    while b is not None and b[0] == "tail" and pre and pre[-1] == ("first", b[1]):
        b, pre = b[1], pre[:-1]
    while b is not None and b[0] == "init" and post and post[0] == ("last", b[1]):
        b, post = b[1], post[1:]
    return ("lst", pre, b, post)


def knows_empty(I, st, L0):
    f = I.fact(st, ("len", ("deref", L0)))
    return f is not None and f[0] == "in" and f[1] <= {0}


def closure(cx, F, name):
    fid = name.split("closure:", 1)[1] if "closure:" in name else None
    fn = F.fns.get(fid)
    if fn is None:
        return "filters the queue with something other than the adjuster's decision"
    cx.cover(fn)
    I = Interp(F, H(F, fn, None))
    for st, v in I.run(fn):
        t = I.term(v, st)
        if not (t[0] == "call" and t[1].endswith("Adjuster::update")):
            return "keeps or drops queued messages other than by the adjuster's decision"
    return None


def pop(cx, fn, I, rs, R, L0, me, base, h):
    F = cx.F
    q, tp, delay, sub, gq, gl = R
    if h.ops:
        cx.viol(f"{fn.p}:ops", fn.sp, f"{fn.p} rearranges the queue with `{h.ops[0][1]}`")
    for T in range(100, 107):
        for N in range(100, 107):
            for S in (0, 1, 2, 4):
                for D in (1, 3):
                    env = {("fld", me, tp): T, ("fld", me, sub): S, ("fld", me, delay): D, ("now",): N}
                    for empty in (True, False):
                        hit = 0
                        for st, v in rs:
                            e = I.fact(st, ("len", ("deref", L0)))
                            if e is not None and e[0] == "in" and e[1] == {0}:
                                if not empty:
                                    continue
                            elif e is not None and ((e[0] == "not" and 0 in e[1]) or (e[0] == "in" and 0 not in e[1])):
                                if empty:
                                    continue
                            if not holds(st, env):
                                continue
                            hit += 1
                            l = whole(norm(I, st, I.read(st, (base, (("f", q),)))), L0)
                            x = I.term(I.read(st, (base, (("f", tp),))), st)
                            where = f"next time point {T - N:+d} s from now, burst allowance {S} s, delay {D} s"
                            cx.ob("limit point", f"T={T} N={N} S={S} D={D} empty={empty}")
                            for i in (delay, sub):
                                if I.term(I.read(st, (base, (("f", i),))), st) != ("fld", me, i):
                                    cx.viol(f"{fn.p}:limit", fn.sp, f"{fn.p} changes the limiter's settings")
                            got = v[0] == "adt" and v[1] == "core::option::Option" and v[2]
                            if v[0] != "adt":
                                raise Missing("what pop returns")
                            try:
                                tv = ev(x, env)
                            except Unknown:
                                raise Missing("the limiter's time point after a pop")
                            outs = [I.term(a, st) if not (a[0] == "adt") else a for a in (st.auto or ())]
                            if got:
                                val = I.term(v[3][0], st)
                                if empty or val != ("first", L0) or l != ("lst", (), ("tail", L0), ()):
                                    cx.viol(f"{fn.p}:order", fn.sp, f"{fn.p} can return a message other than the first one queued, or leave it in the queue")
                                if T - N > S:
                                    cx.viol(f"{fn.p}:early", fn.sp, f"{fn.p} yields a message before the rate limit allows one ({where})")
                                if tv != max(T, N) + D:
                                    cx.viol(f"{fn.p}:charge", fn.sp, f"{fn.p}: a popped message moves the limiter's time point to {tv - N:+d} s from now instead of {max(T, N) + D - N:+d} s ({where})")
                            else:
                                if l != ("lst", (), L0, ()) and not (empty and l == EMPTY):
                                    cx.viol(f"{fn.p}:lost", fn.sp, f"{fn.p} can drop or reorder a queued message without returning it ({where})")
                                if tv != T:
                                    cx.viol(f"{fn.p}:charge0", fn.sp, f"{fn.p} charges the limiter although no message is returned ({where})")
                                if not empty and T - N <= S:
                                    cx.viol(f"{fn.p}:late", fn.sp, f"{fn.p} withholds a message although the rate limit allows one ({where})")
                                want = "none" if empty else ("some", T - N - S)
                                if len(outs) != 1:
                                    cx.viol(f"{fn.p}:timeout", fn.sp, f"{fn.p} reports the time to wait {len(outs)} times when it returns no message")
                                else:
                                    try:
                                        o = ev(outs[0], env)
                                    except Unknown:
                                        raise Missing("the time to wait that pop reports")
                                    if o != want and (empty or T - N > S):
                                        cx.viol(f"{fn.p}:timeout", fn.sp, f"{fn.p} reports {o} as the time to wait instead of {want} ({where})")
                        if not hit:
                            raise Missing(f"a path of pop for T={T - N:+d}, S={S}")
