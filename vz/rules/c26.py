"""C26: SASL data is sent only on request and framed as specified."""
from facts import Missing, strip_lt
from interp import Interp, St
from rules.disp import Disp, runs, sends, show, bare, tobytes, msg_arg, MSG, UNIT, RES, OPT
from rules.strs import StrHook
from rules.dur import ev, holds, Unknown
from rules.trace import deep

EXPLAIN = ("The authentication handler is interpreted on all paths for each kind of message its code tells apart. Payloads may be sent only "
           "for the server's own message, only after its challenge is complete and decoded and the current mechanism has answered it, as all "
           "the chunks of that answer at 400 bytes, marked secret. A refusal takes the next mechanism of the queue from its front and names "
           "it, or fails when there is none; nothing else is sent, and success is returned for the server's success replies only. The chunk "
           "encoder's step is compared with the specification in every case of how much is left; the decoder's step likewise.")
ASSUME = ["Splitter::until_count limits what is taken to the given number of bytes and save_end restores the rest (C10)",
          "the base64 crate encodes and decodes correctly"]
H0 = "client::auth::handler::Handler"
OKS = {"900", "903", "907"}


def leaf(t):
    return t[1].split("::")[-1] if isinstance(t, tuple) and len(t) > 1 and t[0] == "call" and isinstance(t[1], str) else None


def one(st, t):
    f = st.facts.get(t)
    return next(iter(f[1])) if f is not None and f[0] == "in" and len(f[1]) == 1 else None


class H(Disp):
    def call(self, I, st, cal, args, site):
        nm = cal.nm
        if nm == "reply" and "SaslLogic" in (cal.p + str(cal.tr)) and len(args) == 3:
            r = ("call", "reply", (I.term(args[0], st), I.term(args[1], st)))
            outs = []
            loc = self.argloc(I, st, args[2])
            if loc is None:
                raise Missing("where an answer is written")
            fresh = self.empty_buf(I, I.read(st, loc), st)
            for ok in (0, 1):
                s2 = st.copy()
                s2.facts[("discr", r)] = ("in", frozenset([ok]))
                I.write(s2, loc, ("s", ("payload", r if fresh else None)))
                self.emit(I, s2, ("reply", r, ok), site)
                outs.append((s2, ("adt", RES, 0, (UNIT,)) if ok == 0 else ("adt", RES, 1, (("s", ("err", r)),))))
            return outs
        if nm == "new" and "ChunkEncoder" in cal.p and len(args) == 3:
            return [(st, ("s", ("chunks", bare(I.term(args[0], st)), I.term(args[1], st), I.term(args[2], st))))]
        if nm in ("into_iter", "by_ref") and args and self.chunks(I, st, args[0]) is not None:
            return [(st, args[0])]
        if nm == "next" and args:
            c = self.chunks(I, st, args[0])
            if c is not None:
                outs = []
                for k in (0, 1):
                    s2 = st.copy()
                    if k:
                        self.emit(I, s2, ("item",), site)
                        outs.append((s2, ("adt", OPT, 1, (("s", ("piece", c)),))))
                    else:
                        self.emit(I, s2, ("done",), site)
                        outs.append((s2, ("adt", OPT, 0, ())))
                return outs
        if nm == "for_each" and len(args) == 2 and self.chunks(I, st, args[0]) is not None:
            c = self.chunks(I, st, args[0])
            s2 = st.copy()
            self.emit(I, s2, ("done",), site)
            outs = [(s2, UNIT)]
            s3 = st.copy()
            self.emit(I, s3, ("item",), site)
            for s4, v in I.call_fnlike(s3, [args[1], ("adt", "tuple", 0, (("s", ("piece", c)),))], [None, None], site, ("each", site.bb), 1, None) or ():
                self.emit(I, s4, ("done",), site)
                outs.append((s4, UNIT))
            return outs
        return super().call(I, st, cal, args, site)

    def empty_buf(self, I, v, st):
        t = bare(I.term(v, st))
        return leaf(t) in ("with_capacity", "new", "default") or t[0] in ("default", "vec") or t[0] == "adt"

    def chunks(self, I, st, v):
        for _ in range(5):
            if v[0] == "ref":
                v = I.read(st, v[1])
        t = v[1] if v[0] == "s" else v
        return t if t[0] == "chunks" else None

    def inline(self, I, fn, cal):
        if fn.id in self.F.fns and fn.p.lstrip("<").startswith("string::base64"):
            return False
        return super().inline(I, fn, cal)


def fields(F, adt):
    return F.adts[adt]["vs"][0]["f"]


def shape(F):
    q = l = d = None
    for i, f in enumerate(fields(F, H0)):
        s = F.ts(f["t"])
        if "ChunkDecoder" in s:
            d = i
        elif "SaslLogic" in s:
            l = i
        elif "SaslQueue" in s:
            q = i
    if q is None or l is None or d is None:
        raise Missing("the parts of the authentication handler")
    return q, l, d


def strip(t):
    """A boxed mechanism's term without the boxes."""
    while isinstance(t, tuple) and t:
        if t[0] in ("mem", "deref", "s"):
            t = t[1]
        elif t[0] == "fld" and len(t) == 3 and t[2] == 0 and t[1][0] == "fld":
            t = t[1]
        elif leaf(t) in ("as_ref", "deref", "as_mut", "deref_mut", "borrow", "clone", "owning") and len(t[2]) == 1:
            t = t[2][0]
        else:
            break
    return t


def named(t):
    """The mechanism a start message names, if it is one."""
    t = bare(t)
    if leaf(t) == "name" and "SaslLogic" in t[1]:
        return strip(t[2][0])
    return None


def popped(t):
    t = strip(t)
    return t[0] == "fld" and len(t) == 4 and t[2] == 1 and leaf(t[1]) == "pop_front"


def complete(F, fn, st, chal, me, d):
    """Is the challenge what the decoder made of the server's message, complete and decoded?"""
    t = bare(chal)
    if not (t[0] == "fld" and len(t) == 4 and t[2:] == (0, 0)):
        return "the challenge is not what the server's message decodes to"
    r = t[1]
    if one(st, ("discr", r)) != 0:
        return "the challenge may not have been decoded"
    if leaf(r) == "decode":
        c = r
        if one(st, ("len", words_of(st))) != 0 and not nowords(st):
            return "the server's data is left out of the challenge"
    elif r[0] == "fld" and len(r) == 4 and r[2:] == (1, 0) and leaf(r[1]) == "add":
        c = r[1]
        if one(st, ("discr", c)) != 1:
            return "the challenge may be incomplete"
        if not deep(c[2][1], lambda x: x[0] == "arg" and x[1] == msg_arg(F, fn) + 1):
            return "the challenge is not the server's message"
    else:
        return "the challenge is not what the server's message decodes to"
    if strip(c[2][0]) not in (("fld", ("mem", ("arg", me)), d), ("fld", ("arg", me), d)):
        return "the challenge is not decoded by the handler's decoder"
    return None


def words_of(st):
    for t in st.facts:
        if t[0] == "len" and leaf(t[1]) == "words":
            return t[1]
    return None


def nowords(st):
    for t, f in st.facts.items():
        if t[0] == "discr" and one(st, t) == 0 and leaf(t[1]) in ("first", "next", "get", "split_first"):
            return True
        if leaf(t) == "is_empty" and one(st, t) == 1:
            return True
    return False


def handle(cx, F):
    fn = F.fn(H0 + "::handle")
    cx.cover(fn)
    q, l, d = shape(F)
    me = 1
    cur0 = ("fld", ("mem", ("arg", me)), l)
    rs = runs(F, fn, make=H, base=("AUTHENTICATE", "902", "904", "906", "900", "903"))
    for k, (I, h, outs) in sorted(rs.items()):
        cx.ob("kind", repr(k))
        for st, v in outs:
            w = f"for a message {show(k)}"
            evs = [e[:-2] if e and isinstance(e[-1], str) and False else e for e in (st.auto or ())]
            ss = sends(st)
            cls = []
            for e in ss:
                if e[1] != "AUTHENTICATE" or len(e[2]) != 1:
                    raise Missing(f"what is sent {w}: {str(e[1])[:60]}")
                a = e[2][0]
                n = None if a[0] == "lit" else named(a)
                b = bare(a)
                if a == ("lit", "*"):
                    cls.append(("abort",))
                elif n is not None:
                    cls.append(("start", n))
                elif b[0] == "piece":
                    cls.append(("data", b[1]))
                else:
                    cls.append(("odd", str(b)[:80]))
            fin = strip(I.term(I.read(st, (("M", ("arg", me)), (("f", l),))), st))
            res, val = None, None
            if v[0] == "adt" and v[1] == RES:
                res = v[2]
                val = I.term(v[3][0], st) if res == 0 else None
            if res is None or res == 0 and val not in (("c", 0), ("c", 1)):
                raise Missing(f"what the handler returns {w}")
            cx.ob("path", f"{k!r} {res} {cls} {sorted(map(repr, st.facts))}"[:500])
            ok = res == 0 and val == ("c", 1)
            if ok and k not in OKS:
                cx.viol(f"{k}:success", fn.sp, f"{fn.p} reports success {w}")
            if k == "903" and not ok:
                cx.viol("903:nosuccess", fn.sp, f"{fn.p} does not end when the server reports success")
            for c in cls:
                if c[0] == "odd":
                    cx.viol(f"{k}:odd", fn.sp, f"{fn.p} sends something other than an answer, a mechanism or an abort {w}")
            kinds = [c[0] for c in cls]
            if k == "AUTHENTICATE":
                challenge(cx, F, fn, I, st, cls, kinds, res, ok, fin, cur0, me, d, q)
                continue
            if "data" in kinds:
                cx.viol(f"{k}:data", fn.sp, f"{fn.p} sends authentication data {w}, which is no challenge")
            if k in ("902", "904"):
                cx.ob("refusal", f"{k} {res} {kinds}")
                if res == 0:
                    if kinds != ["start"]:
                        cx.viol(f"{k}:next", fn.sp, f"{fn.p} goes on {w} without starting the next mechanism exactly once")
                    elif not popped(cls[0][1]) or cls[0][1] != fin:
                        cx.viol(f"{k}:which", fn.sp, f"{fn.p} does not start the next mechanism in the queue {w}")
                else:
                    if kinds:
                        cx.viol(f"{k}:fail", fn.sp, f"{fn.p} fails {w} but sends a message")
                    if not drained(st):
                        cx.viol(f"{k}:early", fn.sp, f"{fn.p} gives up {w} although a mechanism may be left to try")
            elif k == "906":
                if kinds != ["start"] and res == 0:
                    cx.viol("906:next", fn.sp, f"{fn.p} does not start the mechanism in use when the server has stopped the last one")
                elif kinds == ["start"] and (cls[0][1] != fin or fin != strip(cur0)):
                    cx.viol("906:which", fn.sp, f"{fn.p} starts another mechanism than the one in use {w}")
            else:
                if "start" in kinds:
                    cx.viol(f"{k}:start", fn.sp, f"{fn.p} starts a mechanism {w}")
                if fin != strip(cur0):
                    cx.viol(f"{k}:swap", fn.sp, f"{fn.p} changes the mechanism in use {w} without starting it")
    cx.need("path", 12)
    cx.need("refusal", 3)


def drained(st):
    for t, f in st.facts.items():
        if t[0] == "discr" and leaf(t[1]) == "pop_front" and one(st, t) == 0:
            return True
        if leaf(t) == "is_empty" and one(st, t) == 1:
            return True
    return False


def challenge(cx, F, fn, I, st, cls, kinds, res, ok, fin, cur0, me, d, q):
    w = "for a challenge"
    reps = [e for e in (st.auto or ()) if e[0] == "reply"]
    if "start" in kinds:
        cx.viol("chal:start", fn.sp, f"{fn.p} starts a mechanism {w}")
    if len(reps) > 1:
        cx.viol("chal:twice", fn.sp, f"{fn.p} answers a challenge twice")
        return
    good = reps and reps[0][2] == 0
    if "data" in kinds and not good:
        cx.viol("chal:noreply", fn.sp, f"{fn.p} sends data although the mechanism did not answer")
        return
    if "data" in kinds and "abort" in kinds:
        cx.viol("chal:both", fn.sp, f"{fn.p} sends data and aborts {w}")
    if reps:
        r = reps[0][1]
        cx.ob("answer", f"{reps[0][2]} {sorted(map(repr, st.facts))}"[:500])
        if strip(r[2][0]) != strip(cur0):
            cx.viol("chal:mech", fn.sp, f"{fn.p} has another mechanism than the one in use answer")
        m = complete(F, fn, st, r[2][1], me, d)
        if m:
            cx.viol("chal:which", fn.sp, f"{fn.p} answers a challenge, but {m}")
    if not good:
        if reps:
            # the mechanism cannot go on: the next one, after an abort
            if kinds != ["abort"]:
                cx.viol("chal:abort", fn.sp, f"{fn.p} does not abort exactly once when the mechanism cannot answer")
            if res == 0 and not popped(fin):
                cx.viol("chal:next", fn.sp, f"{fn.p} goes on without the next mechanism when one cannot answer")
            if res == 1 and not drained(st):
                cx.viol("chal:early", fn.sp, f"{fn.p} gives up although a mechanism may be left to try")
        elif fin != strip(cur0):
            cx.viol("chal:swap", fn.sp, f"{fn.p} changes the mechanism {w}")
        return
    if res != 0:
        cx.viol("chal:err", fn.sp, f"{fn.p} fails after the mechanism answered")
    if fin != strip(cur0):
        cx.viol("chal:swap", fn.sp, f"{fn.p} changes the mechanism {w}")
    r = reps[0][1]
    for c in cls:
        if c[0] == "data":
            _, pl, mx, sec = c[1]
            if pl != ("payload", r):
                cx.viol("chal:what", fn.sp, f"{fn.p} sends something other than the mechanism's answer")
            if mx != ("c", 400):
                cx.viol("chal:400", fn.sp, f"{fn.p} does not split answers at 400 bytes")
            if sec != ("c", 1):
                cx.viol("chal:secret", fn.sp, f"{fn.p} sends answers that are not marked secret")
    # every piece is sent: pieces and messages alternate, up to the last piece
    seq = [("item" if e[0] == "item" else "done" if e[0] == "done" else "data") for e in st.auto if e[0] in ("item", "done") or
           e[0] == "send" and len(e[2]) == 1 and bare(e[2][0])[0] == "piece"]
    cx.ob("pieces", " ".join(seq))
    if not seq or seq[-1] != "done" and "done" not in seq:
        cx.viol("chal:all", fn.sp, f"{fn.p} can leave out part of an answer")
    body = [s for s in seq if s != "done"]
    if body not in ([], ["item", "data"], ["item", "data", "item", "data"]):
        cx.viol("chal:pieces", fn.sp, f"{fn.p} does not send each part of an answer exactly once")


class Trait(Disp):
    def cut(self, fn):
        return fn.p == H0 + "::handle"

    def call(self, I, st, cal, args, site):
        if cal.nm == "send" and "channel" in cal.p + str(cal.tr) and len(args) == 2 and self.argadt(I, 0) != "client::queue::QueueEditGuard":
            s2 = st.copy()
            v = args[1]
            self.emit(I, s2, ("report", v[2] if v[0] == "adt" and v[1] == RES else I.term(v, st)), site)
            return I.opaque(s2, cal, args, I.cur_argtys, site)
        return super().call(I, st, cal, args, site)


def wrapper(cx, F):
    """The handler the client runs reports what the inner one returned."""
    from rules.disp import handlers
    fn = [f for t, f in handlers(F) if t == H0]
    if len(fn) != 1:
        raise Missing("the authentication handler the client runs")
    fn = fn[0]
    cx.cover(fn)
    I = Interp(F, Trait(F, ""))
    n = 0
    for st, v in I.run(fn):
        rep = [e for e in (st.auto or ()) if e[0] == "report"]
        r = None
        for t in st.facts:
            if t[0] == "discr" and leaf(t[1]) == "handle":
                r = t[1]
        if r is None:
            raise Missing("what the inner handler returned")
        d = one(st, ("discr", r))
        b = one(st, ("fld", r, 0, 0))
        n += 1
        cx.ob("report", f"{d} {b} {rep}")
        stops = v[0] == "adt" and v[2] == 1
        if d == 0 and b == 0:
            if rep or stops:
                cx.viol("wrap:more", fn.sp, f"{fn.p} ends although authentication goes on")
        elif d == 0 and b == 1:
            if not stops or len(rep) != 1 or rep[0][1] not in (0,):
                if not (rep and deep(rep[0][1], lambda x: x == r)):
                    cx.viol("wrap:ok", fn.sp, f"{fn.p} does not report success when authentication succeeds")
        elif d == 1:
            if rep and rep[0][1] == 0 or not stops or len(rep) != 1:
                cx.viol("wrap:err", fn.sp, f"{fn.p} does not report failure when authentication fails")
        else:
            raise Missing("what is reported for which result")
    if not n:
        raise Missing("what is reported")


def starts(cx, F):
    """Adding authentication starts the first mechanism, once."""
    n = 0
    q, l, d = shape(F)
    for i in F.impls:
        if "MakeHandler" not in str(i.get("tr") or "") or F.adt_of(i["self"]) != "names::cmd::AUTHENTICATE":
            continue
        for nm, fid, kd in i["items"]:
            if nm != "make_handler":
                continue
            fn = F.fns[fid]
            cx.cover(fn)
            n += 1
            I = Interp(F, H(F, ""))
            for st, v in I.run(fn):
                ss = sends(st)
                cx.ob("start", f"{fn.p} {i.get('ta')} {v[2] if v[0] == 'adt' else ''} {len(ss)}")
                if v[0] != "adt" or v[1] != RES:
                    raise Missing("whether a handler was made")
                if v[2] == 1:
                    if ss:
                        cx.viol("make:fail", fn.sp, f"{fn.p} sends a message but makes no handler")
                    if not drained(st):
                        cx.viol("make:none", fn.sp, f"{fn.p} makes no handler although there is a mechanism to try")
                    continue
                m = named(ss[0][2][0]) if len(ss) == 1 and ss[0][1] == "AUTHENTICATE" and len(ss[0][2]) == 1 else None
                if m is None or not popped(m):
                    cx.viol("make:start", fn.sp, f"{fn.p} does not start the first mechanism exactly once")
    if n < 2:
        raise Missing("how authentication is started")


def news(cx, F):
    """A new handler has an empty decoder of the right size."""
    q, l, d = shape(F)
    fn = F.fn(H0 + "::new")
    cx.cover(fn)
    I = Interp(F, Disp(F, ""))
    for st, v in I.run(fn):
        cx.ob("new", fn.p)
        x = I.project(v, (("f", d),))
        t = I.term(x, st)
        if leaf(t) == "new" and "ChunkDecoder" in t[1]:
            n = t[2][0]
        elif t[0] == "adt" and len(t[3]) == 2:
            n = t[3][1]
        else:
            raise Missing("a new handler's decoder")
        if n != ("c", 400):
            cx.viol("new:400", fn.sp, f"{fn.p} does not join challenges of 400-byte chunks")


# ------------------------------------------------------------------ the encoder
ENC = "string::base64::ChunkEncoder"


class Enc(StrHook):
    """Splitters as symbolic amounts left: ("spl", k) after k chunks were taken."""

    def __init__(self, F):
        super().__init__(F)

    def inline(self, I, fn, cal):
        return fn.id not in self.F.fns and super().inline(I, fn, cal) or fn.p.lstrip("<").startswith("string::base64") and fn.id in self.F.fns

    def at(self, I, st, v):
        loc = None
        for _ in range(8):
            if v[0] != "ref":
                break
            loc = v[1]
            v = I.read(st, loc)
        return loc, v

    def call(self, I, st, cal, args, site):
        nm = cal.nm
        if args:
            loc, v = self.at(I, st, args[0])
            t = v[1] if v[0] == "s" else v
            if t[0] == "spl":
                if nm in ("save_end", "save"):
                    return [(st, ("s", ("sav", loc, t[1])))] if nm == "save_end" else None
                if nm in ("is_empty",):
                    return [(st, ("s", ("cmp", "Eq", ("left", t[1]), ("c", 0))))]
                if nm == "len":
                    return [(st, ("s", ("left", t[1])))]
                if nm == "is_secret":
                    return [(st, ("s", ("sec",)))]
                if nm in ("deref", "deref_mut", "borrow", "as_ref"):
                    return [(st, args[0])]
                raise Missing(f"`{nm}` on what is left to encode")
            if t[0] in ("sav", "lim") and nm == "drop":
                return [(st, UNIT)]
            if t[0] == "sav":
                if nm in ("deref", "deref_mut", "borrow_mut"):
                    return [(st, args[0])]
                if nm == "until_count":
                    return [(st, ("s", ("lim", t[1], t[2], I.term(args[1], st))))]
                raise Missing(f"`{nm}` on what is left to encode")
            if t[0] == "lim":
                if nm in ("deref", "deref_mut"):
                    return [(st, args[0])]
                if nm in ("rest", "rest_or_default"):
                    s2 = st.copy()
                    I.write(s2, t[1], ("s", ("spl", t[2] + 1)))
                    c = ("s", ("chunk", t[2], t[3]))
                    return [(s2, c if nm != "rest" else ("adt", RES, 0, (c,)))]
                raise Missing(f"`{nm}` on a chunk")
            if t[0] == "chunk":
                if nm == "len":
                    return [(st, ("s", ("clen", t)))]
                if nm == "is_empty":
                    return [(st, ("s", ("cmp", "Eq", ("clen", t), ("c", 0))))]
                if nm in ("deref", "as_bytes", "as_ref", "clone", "owning", "into"):
                    return [(st, ("s", t))]
            if nm == "unwrap" and v[0] == "adt":
                return [(st, v[3][0])]
        return super().call(I, st, cal, args, site)


def envs(mx, lim):
    for M in range(1, 5):
        for L in range(1, 3 * M + 2):
            yield M, L


def encoder(cx, F):
    fs = fields(F, ENC)
    mi = [i for i, f in enumerate(fs) if F.ts(f["t"]) == "usize"]
    si = [i for i, f in enumerate(fs) if "Splitter" in F.ts(f["t"])]
    if len(mi) != 1 or len(si) != 1 or "Result" not in F.ts(fs[si[0]]["t"]):
        raise Missing("the parts of the chunk encoder")
    mi, si = mi[0], si[0]
    fn = [f for f in F.fns.values() if f.nm == "next" and f.impl and F.adt_of(f.impl["self"]) == ENC]
    if len(fn) != 1:
        raise Missing("the chunk encoder's step")
    fn = fn[0]
    cx.cover(fn)
    M0 = (("M", ("arg", 1)), ())

    def mem(*pr):
        return (("M", ("arg", 1)), tuple(pr))
    for mode in ("more", "marker", "over"):
        st = St()
        st.store[mem(("f", mi))] = ("s", ("max",)) if mode != "over" else ("c", 0)
        if mode == "more":
            st.store[mem(("f", si))] = ("adt", RES, 0, (("s", ("spl", 0)),))
        else:
            st.store[mem(("f", si))] = ("adt", RES, 1, (("s", ("sec",)),))
        I = Interp(F, Enc(F))
        outs = I.run(fn, st=st)
        for M, L in (envs(None, None) if mode == "more" else [(M, 0) for M in range(1, 4)] if mode == "marker" else [(0, 0)]):
            for sec in (0, 1):
                n = 0
                for s, v in outs:
                    env = {("max",): M, ("left", 0): L, ("sec",): bool(sec)}
                    try:
                        if not alive(s, env, L):
                            continue
                    except Unknown as e:
                        raise Missing(f"a condition of {fn.p}: {str(e)[:80]}")
                    n += 1
                    cx.ob("step", f"{mode} max {M} left {L} secret {sec}")
                    if v[0] != "adt" or v[1] != OPT:
                        raise Missing(f"what {fn.p} returns")
                    pm, ps = I.read(s, mem(("f", mi))), I.read(s, mem(("f", si)))
                    m1 = ev2(I.term(pm, s), env, L)
                    w = f"with {L} of chunks of {M} left"
                    if mode == "over":
                        if v[2] != 0:
                            cx.viol("enc:over", fn.sp, f"{fn.p} goes on after the last chunk")
                        continue
                    if v[2] != 1:
                        cx.viol("enc:none", fn.sp, f"{fn.p} ends {w} without the rest")
                        continue
                    x = bare0(v[3][0], I, s)
                    if mode == "marker":
                        if x[0] != "plus":
                            cx.viol("enc:plus", fn.sp, f"{fn.p} does not end in the marker")
                        elif x[1] != bool(sec):
                            cx.viol("enc:plussec", fn.sp, f"{fn.p}'s marker is not marked as the data is")
                        if m1 != 0:
                            cx.viol("enc:plusend", fn.sp, f"{fn.p} goes on after the marker")
                        continue
                    if x[0] != "chunk" or x[1] != 0:
                        cx.viol("enc:chunk", fn.sp, f"{fn.p} does not return the next chunk")
                        continue
                    c = min(ev2(x[2], env, L), L)
                    if c != min(M, L):
                        cx.viol("enc:size", fn.sp, f"{fn.p}, {w}, returns a chunk of {c}")
                        continue
                    if c < M:
                        if m1 != 0:
                            cx.viol("enc:end", fn.sp, f"{fn.p}, {w}, does not end after its short last chunk")
                        continue
                    if m1 != M:
                        cx.viol("enc:short", fn.sp, f"{fn.p}, {w}, " + ("ends without the marker after a full last chunk" if L == c else "ends with data left"))
                        continue
                    if ps[0] == "st" and ps[1][0] == "adt" and all(w[0] and w[0][0][0] == "dc" for w in ps[2]):
                        vi = ps[1][2]
                        ps = ("adt", RES, vi, (I.project(ps, (("dc", vi), ("f", 0))),))
                    if ps[0] != "adt":
                        raise Missing("what is left after a chunk")
                    if L == c:
                        if ps[2] == 1 and ev2(I.term(ps[3][0], s), env, L) != bool(sec):
                            cx.viol("enc:marksec", fn.sp, f"{fn.p} forgets whether the data is secret")
                        elif ps[2] != 1:
                            cx.viol("enc:marker", fn.sp, f"{fn.p}, {w}, does not end in the marker after a full last chunk")
                    elif ps[2] != 0 or I.term(ps[3][0], s) != ("spl", 1):
                        cx.viol("enc:left", fn.sp, f"{fn.p}, {w}, loses data")
                if n == 0:
                    raise Missing(f"{fn.p} in the case of {L} left")
    maker(cx, F, mi, si)
    cx.need("step", 20)


def alive(s, env, L):
    for t, f in s.facts.items():
        x = ev2(t, env, L)
        x = int(x) if isinstance(x, bool) else x
        if (x in f[1]) != (f[0] == "in"):
            return False
    return True


def ev2(t, env, L):
    e = dict(env)

    def walk(t):
        if isinstance(t, tuple) and t:
            for x in t:
                walk(x)
            if t[0] == "clen":
                e[t] = min(ev(t[1][2], e), L) if t[1][1] == 0 else None
            if t == ("left", 1):
                # what is left after the only chunk taken
                lims = [x for x in e if x[0] == "clen"]
                e[t] = L - min(e[("max",)], L)
    walk(t)
    return ev(t, e)


def bare0(v, I, st):
    t = I.term(v, st)
    sec = False
    for _ in range(8):
        if t[0] in ("s", "mem", "deref"):
            t = t[1]
        elif leaf(t) == "secret":
            sec, t = True, t[2][0]
        elif leaf(t) in ("clone", "owning", "into", "unwrap") and len(t[2]) == 1:
            t = t[2][0]
        else:
            break
    if t[0] == "const" and t[1] == "names::PLUS" or tobytes(t) == b"+":
        return ("plus", sec)
    return t


def maker(cx, F, mi, si):
    """A new encoder holds the whole encoded data, secret if asked."""
    fn = F.fn(ENC + "::new")
    cx.cover(fn)
    h = StrHook(F)
    I = Interp(F, Mk(F))
    for st, v in I.run(fn):
        mx, sec = ("arg", 2), ("arg", 3)
        if v[0] != "adt":
            raise Missing("a new chunk encoder")
        m, s = I.term(v[3][mi], st), v[3][si]
        zero = one(st, mx) == 0
        cx.ob("new encoder", str(sorted(map(repr, st.facts)))[:400])
        if zero:
            continue
        if m != mx:
            cx.viol("new:max", fn.sp, f"{fn.p} does not keep the chunk size")
        if s[0] != "adt":
            raise Missing("a new chunk encoder")
        x = I.term(s[3][0], st)
        empty = next((one(st, t) for t in st.facts if leaf(t) == "is_empty" and deep(t, lambda y: leaf(y) == "encode")), None)
        if s[2] == 1:
            if empty != 1:
                cx.viol("new:lost", fn.sp, f"{fn.p} leaves out data")
            if x != sec and not (x[0] == "c" and one(st, sec) == x[1]):
                cx.viol("new:sec", fn.sp, f"{fn.p} forgets whether the data is secret")
            continue
        if empty != 0:
            cx.viol("new:empty", fn.sp, f"{fn.p} of nothing gives an empty chunk instead of the marker")
        if leaf(x) != "new":
            raise Missing("what a new encoder splits")
        y, hid = x[2][0], False
        for _ in range(8):
            if leaf(y) == "secret":
                hid, y = True, y[2][0]
            elif leaf(y) in ("from_unchecked", "from", "into", "into_bytes", "owning", "from_super_unchecked", "from_string") and len(y[2]) == 1:
                y = y[2][0]
            elif leaf(y) in ("unwrap", "expect"):
                y = y[2][0]
            elif y[0] == "fld" and len(y) == 4 and y[2:] == (0, 0):
                y = y[1]
            else:
                break
        if leaf(y) != "encode" or y[2][-1] not in (("arg", 1), ("deref", ("arg", 1))) and not deep(y[2][-1], lambda z: z == ("arg", 1)):
            raise Missing("what a new encoder splits")
        if not deep(y[2][0], lambda z: z[0] == "const" and z[1].endswith("::STANDARD")):
            cx.viol("new:alphabet", fn.sp, f"{fn.p} does not use standard base64 with padding")
        if not hid and one(st, sec) != 0:
            cx.viol("new:sec2", fn.sp, f"{fn.p} does not mark the data secret")


class Mk(StrHook):
    def inline(self, I, fn, cal):
        return fn.id not in self.F.fns and super().inline(I, fn, cal) or fn.id in self.F.fns and fn.p.lstrip("<").startswith("string::base64")


def decoder(cx, F):
    """A chunk shorter than the chunk length completes the data; a full one does not."""
    D = "string::base64::ChunkDecoder"
    fn = F.fn(D + "::add")
    cx.cover(fn)
    fs = fields(F, D)
    li = [i for i, f in enumerate(fs) if F.ts(f["t"]) == "usize"][0]
    vi = 1 - li
    I = Interp(F, Mk(F))
    ch, ln = ("deref", ("arg", 2)), ("fld", ("mem", ("arg", 1)), li)
    old = ("fld", ("mem", ("arg", 1)), vi)
    for st, v in I.run(fn):
        if v[0] != "adt" or v[1] != OPT:
            raise Missing(f"what {fn.p} returns")
        plus = one(st, ch) == b"+" or any(leaf(t) == "eq" and one(st, t) == 1 for t in st.facts)
        for n in (0, 1, 2, 3):
            env = {ln: 2, ("len", ch): n}
            dead = False
            for t, f in st.facts.items():
                try:
                    x = ev(t, env)
                except (Unknown, KeyError):
                    continue
                x = int(x) if isinstance(x, bool) else x
                if isinstance(x, int) and (x in f[1]) != (f[0] == "in"):
                    dead = True
            if dead or plus and n != 1:
                continue
            cx.ob("challenge chunk", f"{n} of 2 {'marker' if plus else 'data'}")
            if v[2] == 0 and n < 2:
                cx.viol("dec:wait", fn.sp, f"{fn.p} waits for more after a chunk shorter than the chunk length")
            if v[2] == 1 and n >= 2:
                cx.viol("dec:early", fn.sp, f"{fn.p} takes a full chunk as the last one")
        now = I.term(I.read(st, (("M", ("arg", 1)), (("f", vi),))), st)
        if v[2] == 1:
            dec = []

            def find(t):
                if isinstance(t, tuple):
                    if leaf(t) in ("decode",) and "base64" in t[1]:
                        dec.append(t)
                    for x in t:
                        find(x)
            find(v)
            if not dec:
                raise Missing("what is decoded")
            what = dec[0][2][-1]
            parts = pieces(what)
            want = [bare2(old)] if plus else [bare2(old), bare2(ch)]
            if parts != want:
                cx.viol("dec:what", fn.sp, f"{fn.p} does not decode exactly the chunks received")
            if now not in (("vec", ()),) and leaf(now) not in ("new", "default"):
                cx.viol("dec:keep", fn.sp, f"{fn.p} keeps old data for the next challenge")
        else:
            if pieces(now) != [bare2(old), bare2(ch)]:
                cx.viol("dec:lost", fn.sp, f"{fn.p} does not keep a full chunk")


def bare2(t):
    while isinstance(t, tuple) and t and (t[0] in ("s", "sl", "mem", "deref") and len(t) == 2 or leaf(t) in ("as_ref", "deref", "as_slice")):
        t = t[1] if leaf(t) is None else t[2][0]
    return t


def pieces(t):
    t = t[1] if t[0] == "s" else t
    if t[0] == "vec":
        return [bare2(x) for x in t[1]]
    return [bare2(t)]


def check(cx):
    F = cx.F
    cx.guard("handle", handle, cx, F)
    cx.guard("wrapper", wrapper, cx, F)
    cx.guard("starts", starts, cx, F)
    cx.guard("news", news, cx, F)
    cx.guard("encoder", encoder, cx, F)
    cx.guard("decoder", decoder, cx, F)
    cx.need("answer", 2)
