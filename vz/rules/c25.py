"""C25: capability negotiation only requests what it may and ends once."""
from facts import Missing, strip_lt
from interp import Interp
from rules.disp import Disp, show, bare, tobytes
from rules.reg import machine
from rules.trace import deep

EXPLAIN = ("The registration handler is interpreted from each of its states for every kind of message its code tells apart, with sets of "
           "capabilities as symbolic set expressions. What is requested is what the configuration requires, plus authentication, minus "
           "strict transport security, on paths that know that nothing of it is missing from what the server offered; only the server's "
           "own list fills the offered set. Waiting for acknowledgements ends only when nothing requested is outstanding, a refusal of "
           "something outstanding ends in an error, authentication that can be tried is, and its end is awaited. The end of negotiation "
           "is sent at most once: no state after it leads to another.")


def leaf(t):
    return t[1].split("::")[-1] if isinstance(t, tuple) and len(t) > 1 and t[0] == "call" and isinstance(t[1], str) else None


PRED = {}


def pred(F, c):
    """(set, present) when the closure tells whether its argument is in the set or absent from it."""
    if not (isinstance(c, tuple) and c[:1] == ("adt",) and c[1].startswith("closure:")):
        return None
    k = c[1]
    if k not in PRED:
        PRED[k] = None
        fn = F.fns.get(k.split("closure:", 1)[1])
        if fn is not None:
            I = Interp(F, Disp(F, ""))
            got = set()
            for st, v in I.run(fn):
                t = I.term(v, st)
                got.add(t)
            if len(got) == 1:
                t, neg = got.pop(), False
                while isinstance(t, tuple) and t[0] == "not":
                    t, neg = t[1], not neg
                if leaf(t) in ("contains_key", "contains") and len(t[2]) == 2 and deep(t[2][0], lambda x: x == ("arg", 1)) and deep(t[2][1], lambda x: x == ("arg", 2)):
                    PRED[k] = not neg
    if PRED[k] is None or len(c[3]) != 1:
        return None
    return nset(c[3][0]), PRED[k]


FACTS = []


def nset(t):
    """A set's expression without the iteration and collection around it."""
    for _ in range(30):
        if not isinstance(t, tuple) or not t:
            return t
        l = leaf(t)
        if t[0] in ("mem", "deref", "s"):
            t = t[1]
        elif t[0] == "it":
            t = t[1]
        elif l in ("collect", "cloned", "copied", "iter", "into_iter", "clone", "as_ref", "from_iter") and len(t[2]) == 1:
            t = t[2][0]
        elif l == "map" and len(t[2]) == 2:
            t = t[2][0]             # a conversion of each element
        elif l == "filter" and len(t[2]) == 2 and FACTS and pred(FACTS[0], t[2][1]) is not None:
            b, has = pred(FACTS[0], t[2][1])
            return ("intersection" if has else "difference", nset(t[2][0]), b)
        elif t[0] == "set" and t[1] == "retain" and FACTS and pred(FACTS[0], t[3]) is not None:
            b, has = pred(FACTS[0], t[3])
            return ("intersection" if has else "difference", nset(t[2]), b)
        elif l in ("difference", "intersection", "union") and len(t[2]) == 2:
            return (l, nset(t[2][0]), nset(t[2][1]))
        elif t[0] == "op" and len(t) == 4 and t[1] in ("Sub", "BitAnd"):
            return ("difference" if t[1] == "Sub" else "intersection", nset(t[2]), nset(t[3]))
        elif l in ("sub", "bitand") and len(t[2]) == 2:
            return ("difference" if l == "sub" else "intersection", nset(t[2][0]), nset(t[2][1]))
        elif t[0] == "set":
            return ("set", t[1], nset(t[2]), t[3])
        else:
            return t
    return t


def yes(f, v):
    return f == ("in", frozenset([v]))


def subset(st):
    """Pairs (A, B) of sets with A within B on this path."""
    out = []
    for t, f in st.facts.items():
        l = leaf(t)
        if l == "is_empty" and yes(f, 1):
            s = nset(t[2][0])
            if s[0] == "difference":
                out.append((s[1], s[2]))
        elif l == "is_subset" and yes(f, 1):
            out.append((nset(t[2][0]), nset(t[2][1])))
        elif l == "is_superset" and yes(f, 1):
            out.append((nset(t[2][1]), nset(t[2][0])))
        elif t[0] == "discr" and leaf(t[1]) == "next" and yes(f, 0):
            s = nset(t[1][2][0])
            if isinstance(s, tuple) and s and s[0] == "difference":
                out.append((s[1], s[2]))
    return out


def empties(st):
    return [nset(t[2][0]) for t, f in st.facts.items() if leaf(t) == "is_empty" and yes(f, 1)]


def disjoint(st):
    out = []
    for t, f in st.facts.items():
        if leaf(t) == "is_empty" and yes(f, 1):
            s = nset(t[2][0])
            if s[0] == "intersection":
                out.append({s[1], s[2]})
        elif leaf(t) == "is_disjoint" and yes(f, 1):
            out.append({nset(t[2][0]), nset(t[2][1])})
    return out


def stages(R):
    """R and what it was made from, with the changes in between: [(set, changes from it to R)]."""
    out = [(R, [])]
    ch = []
    while R[0] == "set":
        ch = [(R[1], R[3])] + ch
        R = R[2]
        out.append((R, list(ch)))
    return out


def request(cx, key, where, p, R, caps):
    """Is R what may and must be requested?"""
    R = nset(R)
    sg = stages(R)
    base, ch = sg[-1]
    if leaf(base) != "require":
        if base[0] in ("difference", "intersection"):
            cx.viol(f"{key}:dropped", where, "capabilities the configuration requires are left out of the request instead of failing")
            return
        raise Missing(f"where the requested capabilities come from: {str(base)[:80]}")
    last = None
    for op, x in ch:
        lit = x[1] if x is not None and x[0] == "lit" else None
        if op == "insert":
            if lit is None:
                raise Missing("what is added to the requested capabilities")
            if lit == "sts":
                last = "insert"
        elif op == "remove":
            if lit == "sts":
                last = "remove"
            else:
                cx.viol(f"{key}:dropped", where, f"{lit or 'a capability'} is left out of the request even if it is required")
        else:
            raise Missing(f"`{op}` on the requested capabilities")
    if last != "remove":
        cx.viol(f"{key}:sts", where, "strict transport security can be requested")
    av = [b for a, b in subset(p.st) for s, c in sg if a == s and all(op == "remove" for op, x in c)]
    if not av:
        cx.viol(f"{key}:offered", where, "capabilities are requested without knowing that the server offered all of them")
        return
    if caps is not None and not any(leaf(b) == "keys" and deep(b, lambda t: t == caps) for b in av):
        cx.viol(f"{key}:offered2", where, "the requested capabilities are not compared with those the server offered")


def check(cx):
    F = cx.F
    FACTS[:] = [F]
    PRED.clear()
    S, fn, ps = machine(cx, F)
    names = [v["n"] for v in S.vs]
    rq, ak, sa = S.role["req"], S.role["ack"], S.role["sasl"]
    sub = subcmds(cx, F)
    held = {rq, ak, sa}
    # states in which negotiation is over but the end is not sent yet
    C = {p.v0 for p in ps if p.ends() and p.v0 not in held}
    setj = [j for j, f in enumerate(S.vs[ak]["f"]) if "BTreeSet" in F.ts(f["t"])][0]
    quj = [j for j, f in enumerate(S.vs[ak]["f"]) if j != setj]
    set0 = ("st0", setj)
    for p in ps:
        w = f"state {names[p.v0]}, message {show(p.kind)}"
        key = f"{names[p.v0]}:{p.kind}"
        I, st = p.I, p.st
        failed = not p.stays
        reqs = [e for e in p.events if e[0] == "req"]
        ends = p.ends()
        stray = [e for e in p.sends("CAP") if e not in ends]
        if stray:
            cx.viol(f"{key}:cap", stray[0][-1], f"in {w}, a negotiation message other than its end is sent")
        sc = subcmd(I, st, sub)
        for e in p.events:
            if e[0] == "offer" and e[1] != "x" and deep(e[2], lambda t: leaf(t) == "parse" and "cap::" in t[1]):
                cx.ob("offered", f"{w} {e[-1]}")
                if sc is not None and sc not in ("Ls", "New", "Ack"):
                    cx.viol(f"{key}:offer", e[-1], f"in {w}, capabilities of a {sc.upper()} message are taken as offered")
        for e in reqs:
            cx.ob("request", f"{w} {e[-1]} {sorted(map(repr, st.facts))}"[:600])
            if p.v0 != rq:
                cx.viol(f"{key}:req", e[-1], f"in {w}, capabilities are requested again")
                continue
            cx.guard(key, request, cx, key, e[-1], p, e[1], e[2])
            if p.v1 != ak:
                cx.viol(f"{key}:noack", e[-1], f"in {w}, capabilities are requested but their acknowledgement is not awaited")
            elif nset(fld(I, p, setj)) != nset(e[1]):
                cx.viol(f"{key}:ackset", e[-1], f"in {w}, the acknowledgements awaited are not those of the capabilities requested")
        if len(reqs) > 1:
            cx.viol(f"{key}:req2", reqs[0][-1], f"in {w}, capabilities are requested more than once")
        if len(ends) > 1:
            cx.viol(f"{key}:end2", ends[0][-1], f"in {w}, the end of negotiation is sent more than once")
        if p.v0 == rq and sc == "Ls" and (reqs or p.v1 != rq or failed and deep_require(st)):
            cx.ob("whole listing", f"{w} {sorted(map(repr, st.facts))}"[:600])
            if not complete(st, sub):
                cx.viol(f"{key}:partial", fn.sp, f"in {w}, capabilities are chosen before the server's list is complete")
        over = bool(ends) or p.v1 in C and p.v0 not in C and not failed
        auth = p.v1 == sa and p.v0 != sa or p.v0 != sa and bool(p.sends("AUTHENTICATE"))
        where = ends[0][-1] if ends else fn.sp
        if failed and not ends:
            continue
        if p.v0 == rq and over:
            cx.ob("concluding", f"{w} {sorted(map(repr, st.facts))}"[:600])
            cand = [s for s in empties(st) if leaf(stages(s)[-1][0]) == "require" and s[0] != "difference"]
            if not cand:
                cx.viol(f"{key}:early", where, f"in {w}, negotiation ends without what is required having been requested")
            else:
                cx.guard(key, request, cx, key, where, p, cand[-1], None)
        if p.v0 == ak and (over or auth):
            cx.ob("concluding", f"{w} {sorted(map(repr, st.facts))}"[:600])
            if not any(outstanding(s, set0, sc) for s in empties(st)):
                cx.viol(f"{key}:pending", where, f"in {w}, negotiation goes on although requests are not acknowledged")
            if over and quj and not noauth(st, quj[0]):
                cx.viol(f"{key}:noauth", where, f"in {w}, negotiation ends although an authenticator is left to try")
        if p.v0 == ak and p.v1 == ak:
            s = nset(fld(I, p, setj))
            cx.ob("waiting", f"{w} {str(s)[:100]}")
            if s != set0 and not outstanding(s, set0, sc):
                cx.viol(f"{key}:forget", fn.sp, f"in {w}, requests are taken as acknowledged that the server did not acknowledge")
        if p.v0 == ak and sc in ("Nak", "Del") and not failed:
            cx.ob("refusal", f"{w} {sc}")
            if not any(set0 in d for d in disjoint(st)):
                cx.viol(f"{key}:refused", fn.sp, f"in {w}, the client continues although a capability it requires was refused")
        if p.v0 == sa and over:
            cx.ob("concluding", f"{w} {sorted(map(repr, st.facts))}"[:600])
            if not authover(st):
                cx.viol(f"{key}:auth", where, f"in {w}, negotiation ends while authentication is still going on")
        if p.v0 not in held | C and over:
            cx.viol(f"{key}:again", where, f"in {w}, the end of negotiation is sent")
        if p.v0 == rq and auth:
            cx.viol(f"{key}:auth2", fn.sp, f"in {w}, authentication begins before negotiation")
    # nothing after the end leads back
    post = {p.v1 for p in ps if p.ends() and p.stays}
    for _ in range(len(names)):
        post |= {p.v1 for p in ps if p.v0 in post and p.stays}
    cx.ob("after the end", ", ".join(sorted(names[v] for v in post)))
    for v in sorted(post & (held | C)):
        cx.viol(f"after:{names[v]}", fn.sp, f"after the end of negotiation, the client can be back in state {names[v]} and send it again")
    if not any(p.ends() for p in ps):
        raise Missing("the end of negotiation")
    reqmsgs(cx, F)
    cx.need("request", 2)
    cx.need("concluding", 3)
    cx.need("refusal", 1)


def fld(I, p, j):
    v = p.state
    x = I.project(v, (("dc", p.v1), ("f", j))) if v[0] != "adt" else v[3][j]
    return I.term(x, p.st)


def outstanding(s, set0, sc):
    """Is s the outstanding requests less what an acknowledgement names?"""
    if s == set0:
        return True
    if s[0] == "difference" and s[1] == set0 and sc == "Ack":
        return deep(s[2], lambda t: leaf(t) == "parse" and "cap::" in t[1])
    return False


def deep_require(st):
    return any(deep(t, lambda x: leaf(x) == "require") for t in st.facts)


def noauth(st, j):
    for t, f in st.facts.items():
        if t[0] == "discr" and leaf(t[1]) in ("pop", "pop_front", "pop_back", "from_queue", "next") and yes(f, 0) and deep(t, lambda x: x == ("st0", j)):
            return True
        if leaf(t) == "is_empty" and yes(f, 1) and deep(t, lambda x: x == ("st0", j)):
            return True
    return False


def authover(st):
    for t, f in st.facts.items():
        if t[0] == "discr" and leaf(t[1]) == "handle" and "auth::handler" in t[1][1]:
            if yes(f, 1):
                return True
            v = st.facts.get(("fld", t[1], 0, 0))
            if yes(f, 0) and v is not None and yes(v, 1):
                return True
    return False


def subcmd(I, st, sub):
    for t, f in st.facts.items():
        if t[0] == "discr" and t[1][0] == "fld" and deep(t[1], lambda x: leaf(x) == "parse" and "cap::" in x[1]) and t[1][2] == sub[1] and len(t[1]) == 3:
            if f[0] == "in" and len(f[1]) == 1:
                return sub[0][next(iter(f[1]))]
    return None


def subcmds(cx, F):
    """The subcommands and where a parsed message holds them; each is recognised by its own name."""
    d = "client::cap::SubCmd"
    a = F.adts.get(d)
    m = F.adts.get("client::cap::ServerMsgArgs")
    if a is None or m is None:
        raise Missing("the subcommands of negotiation")
    names = [v["n"] for v in a["vs"]]
    fi = [i for i, f in enumerate(m["vs"][0]["f"]) if F.adt_of(f["t"]) == d]
    fn = F.fn("client::cap::SubCmd::from_bytes")
    cx.cover(fn)
    I = Interp(F, Disp(F, ""))
    seen = set()
    for st, v in I.run(fn):
        if v[0] != "adt":
            raise Missing("a subcommand")
        if v[2] == 0:
            continue
        x = v[3][0]
        n, el = None, {}
        for t, f in st.facts.items():
            if t[0] == "len" and f[0] == "in" and len(f[1]) == 1:
                n = next(iter(f[1]))
            elif t[0] == "elem" and t[2][0] == "c" and f[0] == "in" and len(f[1]) == 1:
                el[t[2][1]] = next(iter(f[1]))
            elif leaf(t) == "eq" and yes(f, 1):
                b = next((tobytes(y) for y in t[2] if tobytes(y) is not None), None)
                if b is not None:
                    n, el = len(b), dict(enumerate(b))
        if n is None or any(i not in el and i - n not in el for i in range(n)):
            raise Missing("the text of a subcommand")
        text = bytes(el.get(i, el.get(i - n)) for i in range(n)).decode("latin-1")
        cx.ob("subcommand", text)
        if x[0] != "adt" or names[x[2]].upper() != text:
            cx.viol(f"subcmd:{text}", fn.sp, f"{fn.p} takes {text} for another subcommand")
        seen.add(text)
    for n in names:
        if n.upper() not in seen:
            cx.viol(f"subcmd:{n}", fn.sp, f"{fn.p} does not recognise {n.upper()}")
    bi = [i for i, f in enumerate(m["vs"][0]["f"]) if F.ts(f["t"]) == "bool"]
    return names, fi[0], bi[0] if len(bi) == 1 else None


def complete(st, sub):
    """Is the message known to be the last of its listing?"""
    if sub[2] is None:
        raise Missing("which message ends a listing")
    for t, f in st.facts.items():
        if t[0] == "fld" and len(t) == 3 and t[2] == sub[2] and yes(f, 1) and deep(t, lambda x: leaf(x) == "parse" and "cap::" in x[1]):
            return True
    return False


def reqmsgs(cx, F):
    """The request messages contain nothing but the capabilities given."""
    fn = F.fn("client::cap::req")
    cx.cover(fn)
    bad = []
    seen = [0]

    class H(Disp):
        def call(self, I, st, cal, args, site):
            d0 = self.argadt(I, 0)
            if d0 is not None and d0.startswith("string::builder::Builder") and len(args) > 1 and cal.nm not in ("reserve", "reserve_exact"):
                x = self.text(I, st, args[1])
                t = bare(I.term(args[1], st))
                seen[0] += 1
                if not (x == " " or args[1] == ("c", 32) or item(t)):
                    bad.append((site.where, cal.nm))
            if cal.nm == "new" and I.cur_dty is not None and (F.adt_of(I.cur_dty) or "").startswith("string::builder::Builder") and args:
                seen[0] += 1
                if not item(bare(I.term(args[0], st))):
                    bad.append((site.where, cal.nm))
            return super().call(I, st, cal, args, site)
    I = Interp(F, H(F, ""))
    I.run(fn)
    cx.ob("request text", f"{seen[0]} pieces")
    if not seen[0]:
        raise Missing("how a request is written")
    for w, nm in sorted(set(bad)):
        cx.viol("reqmsgs", w, f"{fn.p} puts something other than the given capabilities into a request")


def item(t):
    return t[0] == "fld" and leaf(bare(t[1])) == "next" or t[0] == "elem" or deep(t, lambda x: leaf(x) == "next")
