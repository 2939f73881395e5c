"""C29: resetting a client leaves nothing of the old connection."""
from facts import Missing, strip_lt
from interp import Interp, St, Hook as Base
from rules.strs import StrHook
from rules.trace import deep

EXPLAIN = ("Each way to reset a client is interpreted with everything it calls in the crate, from a client in an arbitrary state. On every "
           "path each part of the client that is not configuration (buffers, handlers and their bookkeeping, queued messages, shared "
           "state) must end up empty, or as a new one's; the queue's labeler unset, its time restarted, its adjuster reset. A client "
           "given another connection must use it and apply its timeouts to it.")
ASSUME = ["`clear` empties a library collection; dropping handlers drops their senders (C22, C23)"]
UNIT = ("adt", "tuple", 0, ())
OPT = "core::option::Option"
EMPTY = ("s", ("empty",))
COLL = ("alloc::vec::Vec", "alloc::collections::", "std::collections::", "alloc::string::String", "hashbrown")
TREE = ("client::conn::MsgIo", "client::logic::ClientLogic", "client::queue::Queue", "client::logic::ClientState", "client::handler::Handlers")


def leaf(t):
    return t[1].split("::")[-1] if isinstance(t, tuple) and len(t) > 1 and t[0] == "call" and isinstance(t[1], str) else None


class H(StrHook):
    max_depth = 14

    def inline(self, I, fn, cal):
        if fn.id not in self.F.fns:
            return super().inline(I, fn, cal)
        return True

    def adt(self, I, i):
        ti = I.cur_argtys[i] if I.cur_argtys and i < len(I.cur_argtys) else None
        return self.F.adt_of(ti) if ti is not None else None

    def loc(self, I, st, a):
        loc = None
        for _ in range(6):
            if a[0] != "ref":
                break
            loc = a[1]
            a = I.read(st, loc)
        return loc

    def call(self, I, st, cal, args, site):
        nm = cal.nm
        d = self.adt(I, 0) or ""
        if d.startswith(COLL):
            if nm == "clear" or nm == "truncate" and args[1] == ("c", 0) or nm in ("drain", "split_off") and self.whole(I, st, args[1]):
                loc = self.loc(I, st, args[0])
                if loc is None:
                    raise Missing("what is cleared")
                s2 = st.copy()
                I.write(s2, loc, EMPTY)
                return [(s2, UNIT if nm in ("clear", "truncate") else I.opaque(s2, cal, args, I.cur_argtys, site)[0][1])]
        if nm == "reset" and "Adjuster" in cal.p + str(cal.tr):
            s2 = st.copy()
            s2.auto = (st.auto or ()) + (("adjuster", self.target(I, st, args[0])),)
            return [(s2, UNIT)]
        return super().call(I, st, cal, args, site)

    def whole(self, I, st, v):
        return v == ("c", 0) or v[0] == "adt" and "RangeFull" in v[1] or v[0] == "const" and "RangeFull" in v[1]

    def target(self, I, st, a):
        return I.term(a, st)


def empty(v, I, st):
    for _ in range(4):
        if v[0] == "adt" and v[1].startswith("util::") and len(v[3]) >= 1:
            v = v[3][0]
        elif v[0] == "st" and not v[2]:
            v = v[1]
        else:
            break
    if v == EMPTY or v == ("vec", ()) or v[0] == "lst" and v == ("lst", (), None, ()):
        return True
    t = I.term(v, st)
    return t[0] == "default" or leaf(t) in ("new", "with_capacity", "default") or t == ("vec", ())


def unbox(F, ti):
    """The type in a box."""
    x = F.types[ti]
    if F.adt_of(ti) == "alloc::boxed::Box":
        for a in x.get("a") or x.get("args") or []:
            if isinstance(a, int) and F.adt_of(a) in TREE:
                return a
    return None


def into(I, st, loc):
    """Where the content of a box at `loc` is."""
    return (("M", ("fld", I.term(I.read(st, loc), st), 0)), ())


def walk(F, I, st, ti, loc):
    """Every part of a client: (place, field, owner)."""
    d = F.adt_of(ti)
    for i, f in enumerate(F.adts[d]["vs"][0]["f"]):
        fd = F.adt_of(f["t"])
        l = (loc[0], loc[1] + (("f", i),))
        b = unbox(F, f["t"])
        if b is not None:
            yield from walk(F, I, st, b, into(I, st, l))
        elif fd in TREE or fd is not None and fd.startswith("util::flatmap::FlatMap") and len(F.adts[fd]["vs"][0]["f"]) >= 1:
            yield from walk(F, I, st, f["t"], l)
        else:
            yield l, f, d


def check_reset(cx, F, fn, base, I, st, v, root, what):
    """Every part of the client at `root` is as a new client's."""
    for loc, f, owner in walk(F, I, st, root, base):
        path = loc[1]
        val = I.read(st, loc)
        ty = F.ts(f["t"])
        fd = F.adt_of(f["t"]) or ""
        nm = f"{owner.split('::')[-1]}.{f['n']}"
        old = I.term(I.read(St(), loc), St())
        t = I.term(val, st)
        key = f"{what}:{nm}"
        if fd.startswith(COLL) or owner.startswith("util::flatmap"):
            if owner.startswith("util::flatmap") and not fd.startswith(COLL):
                continue
            cx.ob("part", f"{what}: {nm} is empty")
            if not empty(val, I, st):
                cx.viol(key, fn.sp, f"{fn.p} leaves {nm} as it was")
        elif owner == "client::handler::Handlers" and ty == "bool":
            cx.ob("part", f"{what}: {nm} is unset")
            if t != ("c", 0):
                cx.viol(key, fn.sp, f"{fn.p} leaves {nm} as it was")
        elif owner == "client::logic::ClientState":
            cx.ob("part", f"{what}: {nm} is as in a new state")
            new = initial(F, owner, path[-1][1])
            if t != new:
                cx.viol(key, fn.sp, f"{fn.p} does not restore {nm} to what it is at first")
        elif owner == "client::queue::Queue" and "Instant" in ty:
            cx.ob("part", f"{what}: {nm} is restarted")
            if not deep(t, lambda x: leaf(x) == "now") or deep(t, lambda x: x == old):
                cx.viol(key, fn.sp, f"{fn.p} leaves the time up to which the queue waits")
        elif owner == "client::queue::Queue" and fd == OPT and "Adjuster" in ty:
            cx.ob("part", f"{what}: {nm} is reset")
            dis = st.facts.get(("discr", old))
            none = dis == ("in", frozenset([0])) or val[0] == "adt" and val[2] == 0
            if not none and not any(e[0] == "adjuster" and deep(e[1], lambda x: x == old) for e in st.auto or ()):
                cx.viol(key, fn.sp, f"{fn.p} does not reset the queue's adjuster")
        elif owner == "client::queue::Queue" and fd == OPT:
            cx.ob("part", f"{what}: {nm} is unset")
            if not (val[0] == "adt" and val[2] == 0):
                cx.viol(key, fn.sp, f"{fn.p} leaves {nm} as it was")
    return True


def initial(F, owner, i):
    fn = F.fn(owner + "::new")
    I = Interp(F, H(F))
    vals = set()
    for st, v in I.run(fn):
        vals.add(I.term(I.project(v, (("f", i),)), st))
    if len(vals) != 1:
        raise Missing(f"what a new {owner} is")
    return vals.pop()


def client(F):
    for d in F.adts:
        if d == "client::Client":
            return d
    raise Missing("the client")


def parts(F):
    """Where the client keeps its connection and whether its timeouts must be applied."""
    d = client(F)
    fs = F.adts[d]["vs"][0]["f"]
    ci = li = None
    for i, f in enumerate(fs):
        if F.adt_of(f["t"]) == "client::conn::MsgIo":
            ci = i
        if F.adt_of(unbox(F, f["t"]) or f["t"]) == "client::logic::ClientLogic":
            li = i
    if ci is None or li is None:
        raise Missing("the parts of the client")
    mio = F.adts["client::conn::MsgIo"]["vs"][0]["f"]
    cc = [i for i, f in enumerate(mio) if not (F.adt_of(f["t"]) or "").startswith(COLL)]
    lg = F.adts["client::logic::ClientLogic"]["vs"][0]["f"]
    ti = [i for i, f in enumerate(lg) if F.adt_of(f["t"]) == "client::conn::time::TimeLimits"]
    tl = F.adts.get("client::conn::time::TimeLimits")
    box = unbox(F, fs[li]["t"]) is not None if li is not None else False
    if len(cc) != 1 or len(ti) != 1 or tl is None:
        raise Missing("the parts of the client")
    bi = [i for i, f in enumerate(tl["vs"][0]["f"]) if F.ts(f["t"]) == "bool"]
    if len(bi) != 1:
        raise Missing("whether timeouts must be applied")


    def limits(I, st, v):
        """Where the timeouts of the client `v` are."""
        x = I.project(v, (("f", li),))
        if box:
            return (("M", ("fld", I.term(x, st), 0)), (("f", ti[0]),))
        raise Missing("where the client keeps its timeouts")
    return (("f", ci), ("f", cc[0])), ("f", bi[0]), tl["vs"][0]["f"], limits


def check(cx):
    F = cx.F
    conn, upd, tfs, limits = parts(F)
    base = (("M", ("arg", 1)), ())
    n = 0
    for nm in ("reset", "reset_with_conn"):
        fn = F.fn(f"client::Client::<C, S>::{nm}")
        cx.cover(fn)
        root = fn.ins[0]
        I = Interp(F, H(F))
        I.split = 10000
        outs = I.run(fn)
        if not outs:
            raise Missing(fn.p)
        d = client(F)
        for st, v in outs:
            n += 1
            cx.guard(nm, check_reset, cx, F, fn, base, I, st, v, pointee(F, root), nm)
            now = I.term(I.read(st, (base[0], conn)), st)
            old = I.term(I.read(St(), (base[0], conn)), St())
            if nm == "reset":
                continue
            cx.ob("part", f"{nm}: connection")
            if now != ("arg", 2):
                cx.viol(f"{nm}:conn", fn.sp, f"{fn.p} does not use the new connection")
            if I.term(v, st) != old:
                cx.viol(f"{nm}:old", fn.sp, f"{fn.p} does not return the old connection")
            tl = limits(I, st, I.read(st, base))
            applied(cx, F, I, st, fn, I.read(st, (tl[0], tl[1] + (upd,))), nm)
            for i, f in enumerate(tfs):
                if F.ts(f["t"]) != "bool":
                    cx.ob("part", f"{nm}: {f['n']} timeout kept")
                    a = I.term(I.read(st, (tl[0], tl[1] + (("f", i),))), st)
                    if a != I.term(I.read(St(), (tl[0], tl[1] + (("f", i),))), St()):
                        cx.viol(f"{nm}:{f['n']}", fn.sp, f"{fn.p} changes the configured {f['n']} timeout")
    fn = F.fn("client::Client::<C, S>::with_conn")
    cx.cover(fn)
    I = Interp(F, H(F))
    for st, v in I.run(fn):
        cx.ob("part", "with_conn: connection")
        if I.term(I.project(v, conn), st) != ("arg", 2):
            cx.viol("with_conn:conn", fn.sp, f"{fn.p} does not use the new connection")
        tl = limits(I, st, v)
        applied(cx, F, I, st, fn, I.read(st, (tl[0], tl[1] + (upd,))), "with_conn")
    cx.guard("multi", multi, cx, F)
    cx.need("part", 16)


def applied(cx, F, I, st, fn, v, nm):
    cx.ob("part", f"{nm}: timeouts are applied again")
    if I.term(v, st) != ("c", 1):
        cx.viol(f"{nm}:timeouts", fn.sp, f"{fn.p} does not apply the configured timeouts to the new connection")


def pointee(F, ti):
    from rules.c12 import deref
    return deref(F, ti)


def multi(cx, F):
    """Resetting a collection of adjusters resets each of them and what it noted about them."""
    for i in F.impls:
        if strip_lt(str(i.get("tr") or "")) != "client::queue::Adjuster":
            continue
        d = F.adt_of(i["self"])
        fn = next((F.fns[fid] for nm, fid, k in i["items"] if nm == "reset" and fid in F.fns), None)
        if d is None or d not in F.adts or fn is None:
            continue
        fs = F.adts[d]["vs"][0]["f"]
        if not any("Adjuster" in F.ts(f["t"]) for f in fs):
            continue
        cx.cover(fn)

        bad = []
        seen = []

        class M(H):
            def call(self, I, st, cal, args, site):
                if cal.nm == "reset" and "Adjuster" in cal.p + str(cal.tr):
                    seen.append(site.where)
                    s2 = st.copy()
                    s2.auto = None
                    return [(s2, UNIT)]
                if cal.nm == "next":
                    if st.auto == "item":
                        bad.append(site.where)
                    s2 = st.copy()
                    s2.auto = "item"
                    return I.opaque(s2, cal, args, I.cur_argtys, site)
                if cal.nm in ("take", "skip", "filter", "step_by", "take_while", "skip_while"):
                    bad.append(site.where)
                return super().call(I, st, cal, args, site)
        I = Interp(F, M(F))
        I.run(fn)
        cx.ob("part", f"{d}: every adjuster is reset")
        if not seen or bad:
            cx.viol("multi", fn.sp, f"{fn.p} does not reset every adjuster in it")
