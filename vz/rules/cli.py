"""What one turn of the client's run loop does, for both the blocking and the asynchronous client.

The run and flush functions are interpreted with the operations they are made of (flush, read, timers, handlers, queue) as
opaque steps that fork over their outcomes. A path is the sequence of steps it takes; the loop is cut at every flush (and at
every message popped, inside a flush), so the finitely many sequences between two cuts, or up to a return, are the result."""
from facts import Missing, strip_lt
from interp import Hook as Base, Interp, mentions, subterms
from rules.c12 import body_of, writers

RES, OPT, POLL = "core::result::Result", "core::option::Option", "core::task::poll::Poll"
UNIT = ("adt", "tuple", 0, ())
CLIENT, LIMITS = "client::Client", "client::conn::time::TimeLimits"
WOULDBLOCK, TIMEDOUT = 13, 22          # std::io::ErrorKind of this toolchain
HANDLERS, QUEUE = "client::handler::Handlers", "client::queue::Queue"
HOPS = ("is_empty", "wants_owning", "has_results")


def res(ok, x):
    return ("adt", RES, 0 if ok else 1, (x,))


def opt(x):
    return ("adt", OPT, 1, (x,)) if x is not None else ("adt", OPT, 0, ())


def err(k):
    return ("s", ("err", k))


def fields(F):
    """(index of the read limit, index of the write limit, index of the update flag) in TimeLimits."""
    a = F.adts.get(LIMITS)
    if a is None:
        raise Missing(LIMITS)
    out = {}
    for what in ("read", "write"):
        fn = F.fn(f"{LIMITS}::set_{what}_timeout")
        I = Interp(F, Base())
        hit = set()
        flag = set()
        for st, v in I.run(fn, [("s", ("arg", 1)), ("s", ("arg", 2))]):
            for i, f in enumerate(a["vs"][0]["f"]):
                x = I.read(st, (("M", ("arg", 1)), (("f", i),)))
                t = I.term(x, st)
                if t != ("fld", ("mem", ("arg", 1)), i):
                    (flag if F.ts(f["t"]) == "bool" else hit).add(i)
        if len(hit) != 1:
            raise Missing(f"where {fn.p} stores the limit")
        out[what] = hit.pop()
        out[what + "flag"] = flag
    return out


class Interp2(Interp):
    def ttype(self, t, d=0):
        r = super().ttype(t, d)
        if r is None and d <= 30 and isinstance(t, tuple) and len(t) == 2 and t[0] == "mem" and isinstance(t[1], tuple) and t[1][0] == "fld" and len(t[1]) == 3 and t[1][2] == 0:
            b = self.ttype(t[1][1], d + 1)
            if b is not None and self.F.adt_of(b) == "alloc::boxed::Box":
                return self.F.types[b]["a"][0]
        return r


def kind_eq(I, st, cal, args):
    """Comparison of an error's kind with a constant: fork, and remember the outcome as if it had been matched on."""
    if cal.nm not in ("eq", "ne") or len(args) != 2:
        return None
    ks, ns = [], []
    for a in args:
        for _ in range(4):
            if a[0] == "ref":
                a = I.read(st, a[1])
        if a[0] == "s" and a[1][0] == "kind":
            ks.append(a[1])
        elif a[0] == "adt" and a[1].endswith("ErrorKind"):
            ns.append(a[2])
        else:
            n = I.known(st, a)
            if n is not None:
                ns.append(n)
    if len(ks) != 1 or len(ns) != 1:
        return None
    d = ("discr", ks[0])
    out = []
    for same in (1, 0):
        s = st.copy()
        if (I.assume(s, d, ns[0]) if same else I.assume_not(s, d, {ns[0]})) is not False:
            out.append((s, ("c", same if cal.nm == "eq" else 1 - same)))
    return out


class Run(Base):
    """Steps of run: cut at flushes. Steps of a flush: cut at pops."""
    max_depth = 14

    def __init__(self, F, level):
        self.F, self.level = F, level
        self.segs = set()
        self.where = {}
        self.fl = fields(F)
        self.writers = {w[0].id for w in writers(F)}
        self.flush = {body_of(F, f).id: f for f in F.fns.values() if f.nm.startswith("flush_partial") and f.body}
        self.flush.update({f.id: f for f in list(self.flush.values())})
        if not self.flush:
            raise Missing("the flush functions of the client")

    def snapshot(self):
        return set(self.segs)

    def restore(self, s):
        self.segs = set(s)

    def tok(self, st, *t):
        st.auto = (st.auto or ()) + (t,)
        if len(st.auto) > 60:
            raise Missing("a turn of the loop that does not end")

    def cut(self, st):
        old = st.auto or ()
        self.segs.add(old + (("next",),))
        st.auto = tuple(("after", t[1]) for t in old if t[0] == "has_results")[-1:]

    # ------------------------------------------------------------ names of places
    def name(self, I, t):
        """Name of the part of the client a term or location denotes."""
        if isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple) and t[0] and t[0][0] in ("L", "M") and isinstance(t[1], tuple):
            base, proj = t
            if base[0] == "L":
                return None
            t = ("mem", base[1])
            for p in proj:
                if p[0] == "f":
                    t = ("fld", t, p[1])
        out = []
        for _ in range(30):
            ti = I.ttype(t)
            if ti is not None:
                for _ in range(4):
                    if self.F.types[ti].get("k") == "ref":
                        ti = self.F.types[ti]["t"]
                if self.F.adt_of(ti) == CLIENT:
                    return ".".join(["self"] + out[::-1])
            if t[0] == "arg":
                return ".".join([f"argument {t[1]}"] + out[::-1])
            if t[0] == "fld" and len(t) == 3:
                pt = I.ttype(t[1])
                ad = self.F.adt_of(pt) if pt is not None else None
                if ad in self.F.adts and self.F.types[pt].get("k") == "adt":
                    out.append(self.F.adts[ad]["vs"][0]["f"][t[2]]["n"])
                t = t[1]
            elif t[0] in ("mem", "deref", "ref", "vec", "s") and len(t) > 1 and isinstance(t[1], tuple):
                if t[0] == "vec":
                    if len(t[1]) == 1 and t[1][0][0] == "sl":
                        t = t[1][0][1]
                        continue
                    return None
                if t[0] == "ref":
                    return self.name(I, t[1])
                t = t[1]
            elif t[0] == "call" and t[1].split("::")[-1] in ("deref", "deref_mut", "as_slice", "as_mut", "as_ref", "borrow") and t[2]:
                t = t[2][0]
            else:
                return None
        return None

    def at(self, I, st, a):
        for _ in range(6):
            if a[0] == "ref":
                n = self.name(I, a[1])
                if n is not None:
                    return n
                a = I.read(st, a[1])
            else:
                break
        return self.name(I, I.term(a, st))

    # ------------------------------------------------------------ limits
    def limit(self, I, t):
        if mentions(t, lambda x: x == ("wait",)):
            return "wait"
        F = self.F

        def cfg(x):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] == self.fl["read"]:
                ti = I.ttype(x[1])
                return ti is not None and F.adt_of(ti) == LIMITS
            return False
        if mentions(t, cfg):
            return "cfg"
        return "?"

    def unlimited(self, I, st):
        """No limit on this read: because none is configured, or in spite of one?"""
        for b, pr in self.limits_at(I):
            v = I.read(st, (b, pr + (("f", self.fl["read"]),)))
            if v == opt(None) or I.fact(st, ("discr", I.term(v, st))) == ("in", frozenset([0])):
                return "none"
        return "unbounded"

    def has(self, t, tag):
        return mentions(t, lambda x: x == tag)

    # ------------------------------------------------------------ steps
    def read_outcomes(self, I, st, limit, own, timer=False):
        out = []
        s = st.copy()
        self.tok(s, "read", own, limit, "ok")
        out.append((s, res(1, ("s", ("msg",)))))
        for k, n in (("wouldblock", WOULDBLOCK), ("timedout", TIMEDOUT)):
            s = st.copy()
            self.tok(s, "read", own, limit, "timeout")
            I.assume(s, ("discr", ("kind", k)), n)
            out.append((s, res(0, err(k))))
        s = st.copy()
        self.tok(s, "read", own, limit, "error")
        I.assume_not(s, ("discr", ("kind", "read")), {WOULDBLOCK, TIMEDOUT})
        out.append((s, res(0, err("read"))))
        return out

    def fut(self, I, st, a):
        v = a
        for _ in range(8):
            if v[0] == "adt" and v[1].startswith("core::pin") and v[3]:
                v = v[3][0]
            elif v[0] == "ref":
                v = I.read(st, v[1])
            else:
                break
        return v

    def limits_at(self, I):
        """Location of the client's time limits."""
        F = self.F

        def one(ad, pred):
            fs = [i for i, f in enumerate(F.adts[ad]["vs"][0]["f"]) if pred(F.ts(f["t"]))]
            if len(fs) != 1:
                raise Missing(f"the time limits in {ad}")
            return fs[0]
        li = one(CLIENT, lambda t: "client::logic::ClientLogic" in t and "FnMut" not in t)
        lt = F.ts(F.adts[CLIENT]["vs"][0]["f"][li]["t"])
        ti = one("client::logic::ClientLogic", lambda t: t == LIMITS)
        if lt.startswith("alloc::boxed::Box<"):
            # a box is followed through its pointer, or (in a coroutine body) as such
            bx = ("fld", ("mem", ("arg", 1)), li)
            return [(("M", ("fld", bx, 0)), (("f", ti),)), (("M", bx), (("f", ti),))]
        return [(("M", ("arg", 1)), (("f", li), ("f", ti)))]

    def applied(self, I, st):
        """Is the connection known to have been given the current write limit?"""
        fl = self.fl["writeflag"]
        return len(fl) == 1 and any(I.known(st, I.read(st, (b, pr + (("f", min(fl)),)))) == 0 for b, pr in self.limits_at(I))

    def recv(self, I, st, a):
        """The wrapper a write goes through."""
        for _ in range(6):
            if a[0] == "ref":
                a = I.read(st, a[1])
            elif a[0] == "adt" and a[1].startswith("core::pin") and a[3]:
                a = a[3][0]
            else:
                break
        return a

    def guarded(self, I, st, a, fut):
        """How is a write bounded here: by the limit the connection was given, or by a wrapper that enforces it?"""
        if not fut:
            return "limited" if self.applied(I, st) else "unlimited"
        v = self.recv(I, st, a)
        if v[0] != "adt" or not v[1].startswith("client::conn::"):
            return "unlimited"
        F = self.F

        def w(x):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] == self.fl["write"]:
                ti = I.ttype(x[1])
                return ti is not None and F.adt_of(ti) == LIMITS
            return False
        return "limited" if any(mentions(I.term(x, st), w) for x in v[3] if x[0] != "ref") else "unlimited"

    def ready(self, outs):
        return [(s, ("adt", POLL, 0, (x,))) for s, x in outs]

    def call(self, I, st, cal, args, site):
        F = self.F
        nm = cal.nm
        fn = F.fns.get(cal.id)
        p = fn.p if fn is not None else cal.p
        if cal.p.startswith(("tracing", "<tracing")) or "::__CALLSITE" in p:
            return None
        k = kind_eq(I, st, cal, args)
        if k is not None:
            return k
        if nm == "into_future" and args:
            return [(st, args[0])]
        if nm == "poll" and args:
            v = self.fut(I, st, args[0])
            if v[0] == "adt" and v[1].startswith("coroutine:") and v[1][10:] in self.flush and self.level == "run":
                return self.ready(self.do_flush(I, st))
            if v[0] == "s":
                t = v[1]
                if t[0] == "readfut":
                    return self.ready(self.read_outcomes(I, st, self.unlimited(I, st), t[1]))
                if t[0] == "timeoutfut":
                    lim = self.limit(I, t[1])
                    f = t[2]
                    if f[0] != "readfut":
                        raise Missing("a time limit on something that is not a read")
                    outs = [(s, res(1, x)) for s, x in self.read_outcomes(I, st, lim, f[1])]
                    s = st.copy()
                    self.tok(s, "read", f[1], lim, "timeout")
                    outs.append((s, res(0, ("s", ("elapsed",)))))
                    return self.ready(outs)
                if t[0] == "sleepfut":
                    s = st.copy()
                    self.tok(s, "sleep", "wait" if self.has(t[1], ("wait",)) else "?")
                    return self.ready([(s, UNIT)])
                if t[0] == "iofut" and t[1] == "read_until":
                    return self.ready(self.reading(I, st, t[2]))
                if t[0] == "iofut":
                    return self.ready(self.io(I, st, *t[1:]))
            return None
        if self.level == "codec":
            return self.codec(I, st, cal, args, site)
        if fn is not None and fn.id in self.flush and self.level == "run" and not (F.types.get(fn.out) if isinstance(F.types, dict) else F.types[fn.out]).get("k") in ("coroutine", "opaque", "alias"):
            return self.do_flush(I, st)
        if p.startswith("ircmsg::codec::ClientCodec::read_"):
            own = "owning" if "owning" in nm else "borrowing"
            if "tokio" in nm or F.types[I.cur_dty].get("k") in ("coroutine", "opaque", "alias"):
                return [(st, ("s", ("readfut", own)))]
            return self.read_outcomes(I, st, self.sync_limit(I, st, args[0]), own)
        if cal.id in self.writers and self.level == "flush":
            s = st.copy()
            m = I.term(args[0], st)
            if args[0][0] == "ref":
                m = I.term(I.read(st, args[0][1]), st)
            self.tok(s, "encode", fn.p, "popped" if self.has(m, ("popped",)) else self.at(I, st, args[0]), self.at(I, st, args[1]))
            return [(s, res(1, UNIT))]
        if nm == "sleep" and fn is None and args:
            if cal.p.startswith("tokio"):
                return [(st, ("s", ("sleepfut", I.term(args[0], st))))]
            s = st.copy()
            self.tok(s, "sleep", "wait" if self.has(I.term(args[0], st), ("wait",)) else "?")
            return [(s, UNIT)]
        if nm in ("timeout", "timeout_at") and cal.p.startswith("tokio"):
            f = self.fut(I, st, args[1])
            if f[0] != "s":
                return None
            return [(st, ("s", ("timeoutfut", I.term(args[0], st), f[1])))]
        if nm in ("into", "from") and args and fn is None and args[0][0] == "s" and args[0][1] == ("elapsed",):
            s = st.copy()
            I.assume(s, ("discr", ("kind", "elapsed")), TIMEDOUT)
            return [(s, err("elapsed"))]
        if nm == "kind" and args:
            v = args[0]
            for _ in range(4):
                if v[0] == "ref":
                    v = I.read(st, v[1])
            if v[0] == "s" and v[1][0] == "err":
                return [(st, ("s", ("kind", v[1][1])))]
        if nm == "set_write_timeout" and (fn is None or fn.impl is None or fn.impl.get("tr")):
            s1, s2 = st.copy(), st.copy()
            x = args[1]
            same = self.mine(I) and any(
                I.term(x, st) == I.term(I.read(st, (b, pr + (("f", self.fl["write"]),))), st) for b, pr in self.limits_at(I))
            self.tok(s1, "limit", "write" if same else "other", "ok")
            self.tok(s2, "limit", "write" if same else "other", "error")
            return [(s1, res(1, UNIT)), (s2, res(0, err("limit")))]
        if fn is not None and p.startswith(HANDLERS + "::") and nm in HOPS:
            outs = []
            for b in (0, 1):
                s = st.copy()
                self.tok(s, nm, b)
                outs.append((s, ("c", b)))
            return outs
        if fn is not None and p.startswith(HANDLERS + "::") and nm == "handle":
            s = st.copy()
            self.tok(s, "handle", "msg" if self.has(self.val(I, st, args[1]), ("msg",)) else "?")
            return [(s, ("s", ("handled",)))]
        if fn is not None and p.startswith(HANDLERS + "::") and nm == "last_run_results":
            return [(st, ("s", ("results", self.has(I.term(args[1], st), ("handled",)))))]
        if fn is not None and p.startswith(QUEUE + "::") and nm == "adjust":
            s = st.copy()
            self.tok(s, "adjust", "msg" if self.has(self.val(I, st, args[1]), ("msg",)) else "?")
            return [(s, UNIT)]
        if fn is not None and p.startswith(QUEUE + "::") and nm == "is_empty":
            outs = []
            for b in (0, 1):
                s = st.copy()
                self.tok(s, "queue empty", b)
                outs.append((s, ("c", b)))
            return outs
        if fn is not None and p.startswith(QUEUE + "::") and nm == "pop":
            return self.pop(I, st, args, site)
        if cal.tr in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn") and args:
            t = self.val(I, st, args[0])
            ti = I.cur_argtys[0] if I.cur_argtys else None
            if "dyn" in (F.ts(ti) if ti is not None else "") or (cal.self_ty is not None and "dyn" in F.ts(cal.self_ty)):
                outs = []
                for b in (0, 1):
                    s = st.copy()
                    self.tok(s, "on timeout", ("continue", "break")[b])
                    outs.append((s, ("adt", "core::ops::control_flow::ControlFlow", b, (UNIT,))))
                return outs
        if self.level == "flush" and nm in ("write_all", "flush", "write", "write_vectored", "write_fmt", "shutdown") and args:
            vec = self.at(I, st, args[0])
            ti = I.cur_argtys[0] if I.cur_argtys else None
            if vec is None or "Vec<u8" not in (F.ts(ti) if ti is not None else ""):
                what = self.at(I, st, args[1]) if len(args) > 1 else None
                fut = F.adt_of(I.cur_dty) != RES
                g = self.guarded(I, st, args[0], fut) if self.mine(I) else None
                if not fut:
                    return self.io(I, st, nm, what, g)
                if fn is None or F.types[I.cur_dty].get("k") in ("coroutine", "opaque", "alias"):
                    return [(st, ("s", ("iofut", nm, what, g)))]
        if args and fn is None and I.cur_argtys and I.cur_argtys[0] is not None:
            ti = I.cur_argtys[0]
            s0 = F.ts(ti)
            if s0.startswith("&mut alloc::vec::Vec<u8"):
                pl = self.at(I, st, args[0])
                if pl is not None:
                    s = st.copy()
                    x = None
                    if nm in ("extend_from_slice", "extend", "push", "write_all", "append") and len(args) > 1:
                        x = self.bytes(I, st, args[1])
                    if isinstance(x, int):
                        x = bytes([x])
                    if isinstance(x, bytes):
                        # bytes added one after another are the bytes added at once
                        last = s.auto[-1] if s.auto else None
                        if last and last[0] == "append" and last[1] == pl and isinstance(last[2], bytes):
                            s.auto, x = s.auto[:-1], last[2] + x
                        self.tok(s, "append", pl, x)
                    else:
                        self.tok(s, nm, pl, x)
                    r = res(1, UNIT) if F.adt_of(I.cur_dty) == RES else UNIT if F.ts(I.cur_dty) == "()" else None
                    if r is not None:
                        return [(s, r)]
                    return I.opaque(s, cal, args, I.cur_argtys, site)
        return None

    def codec(self, I, st, cal, args, site):
        """Steps of reading one message: cut at every look at the last byte."""
        F, nm = self.F, cal.nm
        fn = F.fns.get(cal.id)
        if fn is not None and nm == "parse" and fn.p.startswith("ircmsg::"):
            outs = []
            for ok in (1, 0):
                s = st.copy()
                self.tok(s, "parse", fn.impl["self"] and strip_lt(F.ts(fn.impl["self"])) or "?", self.norm(I.term(args[0], st)), "ok" if ok else "error")
                outs.append((s, res(1, ("s", ("msg",))) if ok else res(0, err("parse"))))
            return outs
        if fn is not None:
            return None
        if nm == "take" and len(args) == 2:
            s = st.copy()
            self.tok(s, "take")
            return [(s, ("s", ("take",)))]
        if nm == "set_limit":
            s = st.copy()
            self.tok(s, "limit", self.norm(I.term(args[1], st)))
            return [(s, UNIT)]
        if nm == "read_until":
            key = ("delimiter", I.known(st, args[1]))
            if F.adt_of(I.cur_dty) == RES:
                return self.reading(I, st, key)
            return [(st, ("s", ("iofut", "read_until", key)))]
        if nm == "last":
            base = st.copy()
            self.cut(base)
            outs = []
            for b in (10, 13, 0, 97, None):
                s = base.copy()
                self.tok(s, "last", b)
                if b is None:
                    outs.append((s, opt(None)))
                    continue
                loc = (("L", ("last",), b), ())
                I.write(s, loc, ("c", b))
                outs.append((s, opt(("ref", loc))))
            return outs
        if nm in ("truncate", "pop", "clear", "drain", "take", "swap", "resize", "remove", "split_off", "set_len") and args:
            s = st.copy()
            self.tok(s, nm, *[self.norm(I.term(a, st)) for a in args[1:]])
            if F.ts(I.cur_dty) == "()":
                return [(s, UNIT)]
            return I.opaque(s, cal, args, I.cur_argtys, site)
        return None

    def reading(self, I, st, key):
        outs = []
        for r in ("eof", "some", "error"):
            s = st.copy()
            self.tok(s, "read_until", key[1], r)
            v = ("s", ("readn",))
            if r == "some":
                I.assume_not(s, ("readn",), {0})
            outs.append((s, res(0, err("read")) if r == "error" else res(1, ("c", 0) if r == "eof" else v)))
        return outs

    def norm(self, t):
        if not isinstance(t, tuple):
            return t
        if t and t[0] in ("loop", "hv", "join", "local", "readn"):
            return t[0]
        if t and t[0] == "call":
            return (t[1].split("::")[-1],) + tuple(self.norm(x) for x in t[2])
        return tuple(self.norm(x) for x in t if not (isinstance(x, str) and ":" in x and x.replace(":", "").isdigit()))

    def bytes(self, I, st, a):
        v = a
        for _ in range(3):
            if v[0] == "ref":
                v = I.read(st, v[1])
        if v[0] == "b":
            return v[1]
        if v[0] == "c":
            return v[1]
        if v[0] == "adt" and v[1] == "array":
            return bytes(x[1] for x in v[3] if x[0] == "c")
        return "?"

    def val(self, I, st, a):
        for _ in range(4):
            if a[0] == "ref":
                a = I.read(st, a[1])
        return I.term(a, st)

    def mine(self, I):
        """Is a client being driven (rather than a bare codec)?"""
        ti = I.ttype(("mem", ("arg", 1)))
        return ti is not None and self.F.adt_of(ti) == CLIENT

    def io(self, I, st, nm, what, g=None):
        outs = []
        for ok in (1, 0):
            s = st.copy()
            self.tok(s, nm, what, *([g] if g else []), "ok" if ok else "error")
            outs.append((s, res(1, UNIT) if ok else res(0, err(nm))))
        return outs

    def pop(self, I, st, args, site):
        outs = []
        base = st.copy()
        self.cut(base)
        s = base.copy()
        self.tok(s, "pop", 1)
        outs.append((s, opt(("s", ("popped",)))))
        for w, tag in ((opt(("s", ("wait",))), "wait"), (opt(None), "none")):
            s = base.copy()
            self.tok(s, "pop", 0, tag)
            r = I.call_fnlike(s, [args[1], ("adt", "tuple", 0, (w,))], [None, None], site, ("x", site.bb), 1, None)
            if r is None:
                raise Missing("what is done with the delay of the queue")
            outs.extend((s2, opt(None)) for s2, _ in r)
        return outs

    def do_flush(self, I, st):
        base = st.copy()
        self.cut(base)
        outs = []
        for tag, v in (("none", res(1, opt(None))), ("wait", res(1, opt(("s", ("wait",))))), ("error", res(0, err("flush")))):
            s = base.copy()
            self.tok(s, "flush", tag)
            outs.append((s, v))
        return outs

    def sync_limit(self, I, st, a):
        """The deadline a wrapper around the connection will enforce."""
        v = a
        for _ in range(4):
            if v[0] == "ref":
                v = I.read(st, v[1])
        if v[0] == "adt" and v[1].startswith("client::conn::"):
            ls = set()
            for x in v[3]:
                if x[0] == "ref":
                    continue
                if x == opt(None):
                    ls.add(self.unlimited(I, st))
                    continue
                ls.add(self.limit(I, I.term(x, st)))
            if len(ls) == 1:
                return ls.pop()
        return "unbounded"

    def result(self, I, st, v):
        """Name of a returned value."""
        if v[0] != "adt" or v[1] != RES:
            return ("other",)
        x = v[3][0]
        if v[2] == 1:
            if x[0] == "s" and x[1][0] == "err":
                return ("error", x[1][1])
            t = I.term(x, st)
            if self.level == "codec":
                return ("error",) + tuple(sorted({str(y[-3 if y[0] == "adt" else 1]).split("::")[-1] + ":" + str(y[2]) for y in subterms(t) if isinstance(y, tuple) and len(y) == 4 and y[0] == "adt"} | {str(y) for y in subterms(t) if isinstance(y, tuple) and y and y[0] == "err"}))
            if x[0] == "s" and x[1][0] == "call" and x[1][2]:
                k = x[1][2][0]
                k = I.known(st, ("s", k) if k[0] not in ("c", "adt") else k)
                a = x[1][2][0]
                if isinstance(a, tuple) and a[0] == "adt" and a[1].endswith("ErrorKind"):
                    k = a[2]
                return ("error", {TIMEDOUT: "timed out", WOULDBLOCK: "would block"}.get(k, "new"))
            return ("error", "?")
        if x[0] == "adt" and x[1] == OPT:
            if x[2] == 0:
                return ("ok", "none")
            y = x[3][0]
            if y[0] == "s" and y[1][0] == "results":
                return ("ok", "results" if y[1][1] else "other results")
            if y[0] == "s" and y[1] == ("wait",):
                return ("ok", "wait")
            if y[0] == "adt" and y[1] == "tuple":
                return ("ok", "empty")
            return ("ok", "?")
        if x == UNIT:
            return ("ok", "unit")
        if x[0] == "s" and x[1][0] == "msg":
            return ("ok", "msg")
        return ("ok", "?")

    def cb(self, I, st):
        """Is a timeout callback known to be set, or known not to be?"""
        for t, f in st.facts.items():
            if t[0] == "discr" and (self.name(I, t[1]) or "").endswith(".on_timeout"):
                if f == ("in", frozenset([1])):
                    return 1
                if f == ("in", frozenset([0])):
                    return 0
        return None


def drive(F, fn, level):
    """Segments of a run or flush function: sequences of steps ended by ("next",) or ("return", ...)."""
    h = Run(F, level)
    I = Interp2(F, h)
    I.budget = 8000
    I.auto_heads = True
    I.split = 64
    outs = I.run(fn)
    body = body_of(F, fn)
    if body is not fn:
        done = []
        for st, v in outs:
            if v[0] != "adt" or not v[1].startswith("coroutine:"):
                raise Missing(f"the future {fn.p} returns")
            loc = (("L", ("drv",), "co"), ())
            I.write(st, loc, v)
            self_ty = F.types[body.body["locals"][1][0]]
            k = self_ty.get("k")
            a0 = ("ref", loc) if k == "ref" else v if k == "coroutine" else ("adt", "core::pin::Pin", 0, (("ref", loc),))
            I.steps = 0
            done.extend(I.exec_fn(body, [a0, ("s", ("cx",))][: body.body["argc"]], st, (), ("drv2",), (), 1))
        outs = done
    segs = set(h.segs)
    for st, v in outs:
        r = h.result(I, st, v)
        c = h.cb(I, st) if r == ("ok", "none") or r[0] == "error" else None
        segs.add((st.auto or ()) + (("return",) + r + ((("callback", c),) if c is not None else ()),))
    return segs, h, I


def drop(segs, *pre):
    return {tuple(t for t in s if t[0] not in pre) for s in segs}
