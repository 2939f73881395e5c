"""The state machine of connection registration, read off its handler: for every state it can be in and every kind of message its
code tells apart, what it sends, what it reports, and which state it is left in, with the conditions of each case."""
from facts import Missing, strip_lt
from interp import Interp, St
from rules.disp import Disp, handlers, prepare, OTHER, RES, UNIT, bare

RH = "client::register::handler::Handler"
SASL = "client::auth::handler::Handler"


class Shape:
    def __init__(self, F):
        a = F.adts.get(RH)
        if a is None:
            raise Missing(RH)
        self.fs = fs = a["vs"][0]["f"]

        def one(pred, what):
            r = [i for i, f in enumerate(fs) if pred(f)]
            if len(r) != 1:
                raise Missing(what)
            return r[0]
        self.si = one(lambda f: F.adt_of(f["t"]) in F.adts and len(F.adts[F.adt_of(f["t"])]["vs"]) > 1 and F.adt_of(f["t"]).startswith("client::register::"), "the state of registration")
        self.ni = one(lambda f: F.ts(f["t"]) == "bool", "whether a login is required")
        self.ri = one(lambda f: (F.adt_of(f["t"]) or "").endswith("::Registration"), "the registration")
        self.st = F.adt_of(fs[self.si]["t"])
        self.vs = F.adts[self.st]["vs"]
        rf = F.adts[F.adt_of(fs[self.ri]["t"])]["vs"][0]["f"]
        self.ai = [i for i, f in enumerate(rf) if f["n"] == "account"]
        if len(self.ai) != 1:
            raise Missing("the account of a registration")
        self.ai = self.ai[0]
        ci = [i for i, f in enumerate(rf) if f["n"] == "caps"]
        self.ci = ci[0] if ci else None
        self.role = {}
        for i, v in enumerate(self.vs):
            tys = [F.ts(f["t"]) for f in v["f"]]
            if any("CapFn" in t for t in tys):
                self.role["req"] = i
            elif any("BTreeSet" in t for t in tys):
                self.role["ack"] = i
            elif any(F.adt_of(f["t"]) == SASL for f in v["f"]):
                self.role["sasl"] = i
        if len(self.role) != 3:
            raise Missing("the states of registration that hold requests, acknowledgements and authentication")
        self.account = ("fld", ("fld", ("mem", ("arg", 1)), self.ri), self.ai)
        self.need = ("fld", ("mem", ("arg", 1)), self.ni)

    def loc(self, *fs):
        return (("M", ("arg", 1)), tuple(("f", f) for f in fs))


def is_set(F, ti):
    for _ in range(3):
        if ti is not None and F.types[ti].get("k") == "ref":
            ti = F.types[ti]["t"]
    return ti is not None and F.ts(ti).startswith("alloc::collections::btree::set::BTreeSet<")


class Hook(Disp):
    def __init__(self, F, kind, S):
        super().__init__(F, kind)
        self.S = S

    def cut(self, fn):
        return fn.p.startswith(("client::cap::ServerMsgArgs", "client::auth::handler::Handler::handle", "client::cap::req"))

    def ok(self, I, st):
        """Is a login confirmed here, or none required?"""
        S = self.S
        n = I.read(st, S.loc(S.ni))
        if I.known(st, n) == 0:
            return True
        a = I.read(st, S.loc(S.ri, S.ai))
        if a[0] == "adt":
            if a[2] == 1:
                return True
        elif I.fact(st, ("discr", I.term(a, st))) == ("in", frozenset([1])):
            return True
        return I.fact(st, ("discr", S.account)) == ("in", frozenset([1]))

    def emit(self, I, st, e, site):
        super().emit(I, st, e + (self.ok(I, st), site.where), site)

    def call(self, I, st, cal, args, site):
        F = self.F
        nm = cal.nm
        if cal.p.endswith("channel::Sender::send") and len(args) == 2:
            v = args[1]
            s2 = st.copy()
            r = v[2] if v[0] == "adt" and v[1] == RES else None
            self.emit(I, s2, ("report", r), site)
            return I.opaque(s2, cal, args, I.cur_argtys, site)
        d0 = self.argadt(I, 0)
        if d0 is not None and d0.startswith("names::") and "Edit" in d0 and nm not in ("drop", "deref", "get") and len(args) > 1 and nm.startswith(("insert", "try_insert", "update", "add", "extend")):
            s2 = st.copy()
            self.emit(I, s2, ("offer", nm, I.term(args[1], st)), site)
            return I.opaque(s2, cal, args, I.cur_argtys, site)
        fn = F.fns.get(cal.id)
        if fn is not None and fn.p.startswith("client::cap::req"):
            s2 = st.copy()
            S = self.S
            self.emit(I, s2, ("req", I.term(args[0], st), I.term(I.read(st, S.loc(S.ri, S.ci)), st) if S.ci is not None else None), site)
            return [(s2, UNIT)]
        ti = I.cur_argtys[0] if I.cur_argtys else None
        if cal.id not in F.fns and args and ti is not None and is_set(F, ti) and F.types[ti].get("k") == "ref" and F.types[ti].get("m"):
            loc = args[0][1] if args[0][0] == "ref" else (("M", I.term(args[0])), ())
            for _ in range(4):
                v = I.read(st, loc)
                if v[0] == "ref":
                    loc = v[1]
                else:
                    break
            old = I.term(I.read(st, loc), st)
            s2 = st.copy()
            if nm == "is_empty":
                return None or super().call(I, st, cal, args, site)
            x = I.term(args[1], st) if len(args) > 1 else None
            if x is not None and x[0] == "ref" or len(args) > 1 and args[1][0] == "ref":
                x = I.term(I.read(st, args[1][1]), st)
            t = self.text(I, st, args[1]) if len(args) > 1 and nm in ("insert", "remove") else None
            if t is not None:
                x = ("lit", t)
            I.write(s2, loc, ("s", ("set", nm, old, x)))
            if nm in ("insert", "remove"):
                return [(s2, ("s", ("call", nm, (old, x), (site.fn.id, site.bb))))]
            return [(s2, UNIT)]
        return super().call(I, st, cal, args, site)


class Path:
    def __init__(self, S, I, h, v0, kind, st, res):
        self.I, self.h, self.v0, self.kind, self.st, self.res = I, h, v0, kind, st, res
        self.events = list(st.auto or ())
        x = I.read(st, S.loc(S.si))
        self.state = x
        if x[0] == "s" and x[1][0] == "st":
            x = x[1][1]
        while x[0] == "st":
            x = x[1]
        if x[0] == "s":
            x = x[1]
            while x[0] == "st":
                x = x[1]
        if x[0] != "adt":
            raise Missing("the state registration is left in")
        self.v1 = x[2]
        if res[0] != "adt":
            raise Missing("whether the registration handler stays")
        self.stays = res[2] == 0

    def sends(self, kind=None):
        return [e for e in self.events if e[0] == "send" and (kind is None or e[1] == kind)]

    def ends(self):
        return [e for e in self.sends("CAP") if e[2] and e[2][0] == ("lit", "END")]

    def ok(self):
        return self.h.ok(self.I, self.st)

    def account(self, S):
        return self.I.read(self.st, S.loc(S.ri, S.ai))


def machine(cx, F):
    S = Shape(F)
    fn = dict(handlers(F)).get(RH)
    if fn is None:
        raise Missing("the registration handler")
    cx.cover(fn)
    out = []
    todo, seen = [OTHER], set()
    while todo:
        k = todo.pop(0)
        if k in seen:
            continue
        seen.add(k)
        for vi, v in enumerate(S.vs):
            h = Hook(F, k, S)
            I = Interp(F, h)
            I.split, I.budget = 100000, 20000
            st = prepare(F, fn, St())
            st.store[S.loc(S.si)] = ("adt", S.st, vi, tuple(("s", ("st0", j)) for j in range(len(v["f"]))))
            rs = I.run(fn, st=st)
            todo += sorted(h.kinds - seen)
            cx.ob("state and kind", f"{v['n']} {k!r}: {len(rs)} paths")
            for s, r in rs:
                out.append(Path(S, I, h, vi, k, s, r))
            if I.joined:
                raise Missing("all paths of the registration handler one by one")
            for i in I.fn_seen:
                if i in F.fns:
                    cx.cover(F.fns[i])
    if len(seen) < 10:
        raise Missing("the kinds of messages registration reacts to")
    return S, fn, out
