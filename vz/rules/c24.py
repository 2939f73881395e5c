"""C24: required authentication is enforced."""
from facts import Missing, calls
from interp import Interp, St
from rules.disp import Disp, show
from rules.reg import RH, machine, Shape
from rules.strs import StrHook

EXPLAIN = ("The registration handler is interpreted from each of its states for every kind of message its code tells apart. On every "
           "path that sends the end of negotiation or reports success, no login is required or the server's login reply has set an "
           "account; states from which success is reported without that test may only be entered when it held. The account is set by "
           "nothing but the login reply, the requirement is never dropped, and it is set up as configured whenever there is an authenticator.")


def check(cx):
    F = cx.F
    S, fn, ps = machine(cx, F)
    names = [v["n"] for v in S.vs]
    # states from which success is reported on the strength of how they were entered
    V = set()
    for p in ps:
        for e in p.events:
            if e[0] == "report":
                if e[1] is None:
                    raise Missing("what registration reports")
                if e[1] == 0 and not e[-2]:
                    V.add(p.v0)
    nrep = 0
    for p in ps:
        w = f"state {names[p.v0]}, message {show(p.kind)}"
        for e in p.ends():
            cx.ob("end of negotiation", f"{w} {e[-1]}")
            if not e[-2] and p.v0 not in V:
                cx.viol(f"end:{names[p.v0]}:{p.kind}", e[-1], f"in {w}, negotiation is concluded although a login is required and none is confirmed")
        for e in p.events:
            if e[0] == "report" and e[1] == 0:
                nrep += 1
                cx.ob("success", f"{w} {e[-1]}")
        if p.v1 in V and p.v0 not in V and p.stays:
            cx.ob("entering a state that leads to success", f"{w} -> {names[p.v1]}")
            if not p.ok():
                cx.viol(f"enter:{names[p.v0]}:{p.kind}", fn.sp, f"in {w}, registration goes on to {names[p.v1]}, where success is reported, although a login is required and none is confirmed")
        a = p.account(S)
        t = p.I.term(a, p.st)
        cx.ob("account", f"{w} {str(t)[:80]}")
        if not (t == S.account or a[0] == "adt" and a[2] == 0):
            if p.kind != "900" and p.stays:
                cx.viol(f"account:{p.kind}", fn.sp, f"in {w}, the account is set although the server has not confirmed a login")
        n = p.I.term(p.I.read(p.st, S.loc(S.ni)), p.st)
        if n != S.need and n != ("c", 1):
            cx.viol(f"need:{p.kind}", fn.sp, f"in {w}, the requirement to log in is dropped")
    if not nrep:
        raise Missing("a path on which success is reported")
    start(cx, F, S, V, names)
    cx.guard("options", options, cx, F)
    cx.need("end of negotiation", 2)
    cx.need("requirement", 2)


def start(cx, F, S, V, names):
    """How a registration handler begins."""
    n = 0
    for fn in F.fns.values():
        if fn.body is None or "{closure" in fn.p or fn.out is None or F.adt_of(fn.out) != RH or F.types[fn.out].get("k") != "adt" or fn.impl and F.adt_of(fn.impl["self"]) == RH:
            continue
        n += 1
        cx.cover(fn)
        auth = {}

        class H(Disp):
            def call(self, I, st, cal, args, site):
                d = I.cur_dty
                if d is not None and F.types[d].get("k") == "tuple" and "SaslQueue" in F.ts(d) and "bool" in F.ts(d):
                    auth[1] = 1
                    s2 = st.copy()
                    return [(s2, ("adt", "tuple", 0, (("s", ("auths",)), ("s", ("required",)))))]
                if cal.nm == "is_empty" and args and self.bare_auths(I, st, args[0]):
                    return [(st, ("s", ("noauths",)))]
                if cal.nm == "len" and args and self.bare_auths(I, st, args[0]):
                    return [(st, ("s", ("nauths",)))]
                return super().call(I, st, cal, args, site)

            def bare_auths(self, I, st, a):
                while a[0] == "ref":
                    a = I.read(st, a[1])
                t = I.term(a, st)
                while t[0] in ("mem", "deref") or t[0] == "fld":
                    t = t[1]
                return t == ("auths",)
        I = Interp(F, H(F, ""))
        I.split = 1000
        for st, v in I.run(fn):
            if v[0] != "adt":
                raise Missing("a new registration handler")
            if not auth:
                raise Missing("where the authenticators come from")
            x = I.project(v, (("f", S.si),))
            if x[0] != "adt" or x[2] in V:
                cx.viol(f"start:{fn.p}", fn.sp, f"{fn.p} begins registration in a state that reports success without a login")
            a = I.project(v, (("f", S.ri), ("f", S.ai)))
            if not (a[0] == "adt" and a[2] == 0):
                cx.viol(f"start2:{fn.p}", fn.sp, f"{fn.p} begins registration with an account")
            need = I.term(I.project(v, (("f", S.ni),)), st)
            env = {("required",): 1, ("noauths",): 0, ("nauths",): 1}
            cx.ob("requirement", fn.p)
            if feasible(I, st, env):
                k = I.known(st, ("s", need))
                k = ev(need, env) if k is None else k
                if k is None:
                    raise Missing(f"whether a login is required ")
                if not k:
                    cx.viol(f"need:{fn.p}", fn.sp, f"{fn.p} does not require a login although it is configured and there is an authenticator")
    if not n:
        raise Missing("where a registration handler is made")


def feasible(I, st, env):
    for t, f in st.facts.items():
        k = ev(t, env)
        if k is not None and (k in f[1]) != (f[0] == "in"):
            return False
    return True


def ev(t, env):
    if t in env:
        return env[t]
    if t[0] == "c":
        return t[1]
    if t[0] == "not":
        a = ev(t[1], env)
        return None if a is None else 1 - a
    if t[0] in ("and", "or"):
        ks = [ev(x, env) for x in t[1:]]
        z = 0 if t[0] == "and" else 1
        return z if z in ks else None if None in ks else 1 - z
    if t[0] in ("op", "cmp") and len(t) == 4:
        a, b = ev(t[2], env), ev(t[3], env)
        if t[1] in ("BitAnd", "Mul") and 0 in (a, b):
            return 0
        if t[1] == "BitOr" and 1 in (a, b):
            return 1
        if a is None or b is None:
            return None
        return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "Eq": int(a == b), "Ne": int(a != b), "Lt": int(a < b), "Gt": int(a > b), "Le": int(a <= b), "Ge": int(a >= b)}.get(t[1])
    return None


def options(cx, F):
    """The default options require a login exactly when failure is not allowed and there is an authenticator."""
    n = 0
    for fn in F.fns.values():
        if fn.body is None or "{closure" in fn.p or fn.out is None or F.types[fn.out].get("k") != "tuple" or len(fn.ins) != 1:
            continue
        s = F.ts(fn.out)
        if not ("SaslQueue" in s and "bool" in s):
            continue
        d = F.adt_of(fn.ins[0])
        if d not in F.adts:
            continue
        fs = F.adts[d]["vs"][0]["f"]
        bl = [i for i, f in enumerate(fs) if F.ts(f["t"]) == "bool"]
        if len(bl) != 1 or "allow" not in fs[bl[0]]["n"]:
            raise Missing("the option that allows authentication to fail")
        n += 1
        cx.cover(fn)

        class H(Disp):
            def call(self, I, st, cal, args, site):
                if cal.nm == "is_empty":
                    return [(st, ("s", ("noauths",)))]
                return super().call(I, st, cal, args, site)
        I = Interp(F, H(F, ""))
        allow = ("fld", ("mem", ("arg", 1)), bl[0])
        seen = set()
        for st, v in I.run(fn):
            cx.ob("requirement", fn.p + str(sorted(map(repr, st.facts))))
            if v[0] != "adt":
                raise Missing("what the options say about authentication")
            bi = [i for i, x in enumerate(F.types[fn.out]["a"] if "a" in F.types[fn.out] else F.types[fn.out].get("t")) if F.ts(x) == "bool"][0]
            t = I.term(v[3][bi], st)
            env = {allow: 0, ("noauths",): 0}
            if feasible(I, st, env):
                k = I.known(st, ("s", t))
                k = ev(t, env) if k is None else k
                if k is None:
                    raise Missing("whether the options require a login")
                if not k:
                    cx.viol(f"options:{fn.p}", fn.sp, f"{fn.p} does not require a login although failure is not allowed and there is an authenticator")
    if not n:
        raise Missing("the options' authenticators")
