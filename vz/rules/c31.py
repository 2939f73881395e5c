"""C31: reads and writes are bounded by the limits in force, and a limit does not outlive its operation."""
from facts import Missing, strip_lt
from interp import Hook as Base, Interp, mentions, subterms
from rules import cli
from rules.cli import Interp2, opt, res, err, UNIT, RES, OPT, POLL, TIMEDOUT, CLIENT, LIMITS

EXPLAIN = (
    "The run and flush functions of both clients are interpreted over all paths: every read has to be bounded by the queue's delay "
    "when there is one and by the configured limit otherwise (no bound only when none is configured), every write has to go through a "
    "connection that was given the current write limit or a wrapper that enforces it, and expiry has to lead back to the queue, to the "
    "timeout callback, or to the caller. The wrappers are interpreted the same way: each read first passes on what is left of its "
    "deadline (or removes an earlier limit), an asynchronous write arms its timer once and drops it when done. Every setter and every "
    "connection type has to store or forward exactly the limit it is given.")
CONN = "client::conn::"
TRAITS = (CONN + "time::ReadTimeout", CONN + "time::WriteTimeout")
# never block: there is nothing to limit
INSTANT = ("core::io::util::Empty", "core::io::util::Sink", "core::io::cursor::Cursor", "alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque",
           "std::io::util::Empty", "std::io::util::Sink", "std::io::cursor::Cursor")
IGNORES = (CONN + "time::NoTimeout",)     # documented to ignore limits


def some_fact(I, st, t):
    """1 / 0 when the option a term stands for is known to be Some / None."""
    f = I.fact(st, ("discr", t))
    if f == ("in", frozenset([1])):
        return 1
    if f == ("in", frozenset([0])):
        return 0
    return None


def show(s):
    return "; ".join(" ".join(str(x) for x in t) for t in s)


def timed_out(I, st, v):
    """Is this value an error of kind TimedOut made here?"""
    t = I.term(v, st)
    return any(isinstance(x, tuple) and len(x) == 4 and x[0] == "adt" and str(x[1]).endswith("ErrorKind") and x[2] == TIMEDOUT for x in subterms(t))


# ------------------------------------------------------------------ the run loop
def loop(cx, fn):
    F = cx.F
    cx.cover(fn)
    segs, h, I = cli.drive(F, fn, "run")
    for s in sorted(segs, key=repr):
        cx.ob("turn", f"{fn.p}: {show(s)}")
        due = None
        for i, t in enumerate(s):
            rest = s[i + 1:]
            if t[0] == "flush":
                due = t[1]
            elif t[0] == "sleep" and not (t[1] == "wait" and due == "wait"):
                cx.viol(f"{fn.p}:sleep", fn.sp, f"{fn.p} sleeps for something other than the delay of the queue ({show(s)})")
            elif t[0] == "read":
                lim, out = t[2], t[3]
                if due == "wait" and lim != "wait":
                    cx.viol(f"{fn.p}:due", fn.sp, f"{fn.p} reads without regard to when the next queued message is due ({show(s)})")
                if due != "wait" and lim not in ("cfg", "none"):
                    cx.viol(f"{fn.p}:bound", fn.sp, f"{fn.p} reads without the configured limit ({show(s)})")
                if out == "timeout":
                    end = rest[-1]
                    cb = [x for x in rest if x[0] == "on timeout"]
                    if lim == "wait":
                        if rest != (("next",),):
                            cx.viol(f"{fn.p}:retry", fn.sp, f"when a queued message becomes due, {fn.p} does not go back to the queue ({show(s)})")
                    elif cb:
                        if cb != [cb[0]] or (end == ("next",)) != (cb[0][1] == "continue") or (cb[0][1] == "break" and end[:3] != ("return", "error", "timed out")):
                            cx.viol(f"{fn.p}:callback", fn.sp, f"{fn.p} does not do what the timeout callback asked for ({show(s)})")
                    elif end != ("return", "ok", "none", ("callback", 0)):
                        cx.viol(f"{fn.p}:expiry", fn.sp, f"{fn.p} does not report that the read limit has expired ({show(s)})")
                elif any(x[0] == "on timeout" for x in rest):
                    cx.viol(f"{fn.p}:callback", fn.sp, f"{fn.p} calls the timeout callback without a timeout ({show(s)})")
        if due == "wait" and not any(t[0] in ("read", "sleep", "after", "limit") for t in s) and s[-1] != ("next",):
            cx.viol(f"{fn.p}:left", fn.sp, f"{fn.p} returns although queued messages are not due yet ({show(s)})")
        limits(cx, fn, s)


def limits(cx, fn, s):
    for i, t in enumerate(s):
        if t[0] == "limit" and t[1] != "write":
            cx.viol(f"{fn.p}:limit", fn.sp, f"{fn.p} gives the connection something other than the write limit ({show(s)})")


def flush(cx, fn):
    cx.cover(fn)
    segs, h, I = cli.drive(cx.F, fn, "flush")
    n = 0
    for s in sorted(segs, key=repr):
        for t in s:
            if t[0] in ("write_all", "flush", "write", "write_fmt", "write_vectored"):
                n += 1
                cx.ob("write", f"{fn.p}: {' '.join(str(x) for x in t)} in {show(s)}")
                if "limited" not in t:
                    cx.viol(f"{fn.p}:{t[0]}", fn.sp, f"{fn.p} writes on a path where the configured write limit may not be in force ({show(s)})")
        limits(cx, fn, s)
    if not n:
        raise Missing(f"the writes of {fn.p}")


# ------------------------------------------------------------------ blocking wrapper
class Sync(Base):
    """Reads through the blocking wrapper."""
    max_depth = 10

    def __init__(self, F):
        self.F = F

    def call(self, I, st, cal, args, site):
        if cal.id in self.F.fns and self.F.fns[cal.id].impl and self.F.fns[cal.id].impl.get("tr") not in TRAITS:
            return None
        if cal.nm == "set_read_timeout":
            a, b = st.copy(), st.copy()
            t = args[1]
            a.auto = (st.auto or ()) + (("set", t),)
            b.auto = (st.auto or ()) + (("set failed", t),)
            return [(a, res(1, UNIT)), (b, res(0, err("set")))]
        if cal.nm in ("set_write_timeout",):
            a = st.copy()
            a.auto = (st.auto or ()) + (("set write", args[1]),)
            return [(a, res(1, UNIT))]
        if cal.nm in ("read", "fill_buf", "read_vectored", "read_until", "read_exact", "read_line", "read_to_end", "read_buf", "has_data_left") and cal.id not in self.F.fns:
            a = st.copy()
            a.auto = (st.auto or ()) + (("read",),)
            return [(a, ("s", ("readresult",)))]
        return None


def opt_payload(I, st, v):
    """(is Some, payload term) of an option value."""
    if v[0] == "adt" and v[1] == OPT:
        return v[2], (I.term(v[3][0], st) if v[2] else None)
    t = I.term(v, st)
    k = some_fact(I, st, t)
    return k, ("fld", t, 1, 0)


def nonzero(I, st, t):
    for k, f in st.facts.items():
        if isinstance(k, tuple) and t in k and mentions(k, lambda x: x == ("const", "core::time::Duration::ZERO") or (isinstance(x, tuple) and len(x) == 2 and x[0] == "const" and "ZERO" in str(x[1]))):
            if k[0] == "cmp":
                if k[1] == "Eq" and f == ("in", frozenset([0])) or k[1] == "Ne" and f == ("in", frozenset([1])):
                    return 1
                if k[1] == "Eq" and f == ("in", frozenset([1])) or k[1] == "Ne" and f == ("in", frozenset([0])):
                    return 0
        if isinstance(k, tuple) and k[0] == "call" and k[1].split("::")[-1] == "is_zero" and mentions(k, lambda x: x == t):
            return 1 if f == ("in", frozenset([0])) else 0 if f == ("in", frozenset([1])) else None
    return None


def sync_wrapper(F):
    for p, a in F.adts.items():
        if p.startswith(CONN) and len(a["vs"]) == 1 and any("Instant" in F.ts(f["t"]) for f in a["vs"][0]["f"]):
            return p, [i for i, f in enumerate(a["vs"][0]["f"]) if "Instant" in F.ts(f["t"])][0]
    raise Missing("the wrapper that enforces read deadlines")


def sync_reads(cx):
    F = cx.F
    ad, di = sync_wrapper(F)
    n = 0
    for fn in F.fns.values():
        if fn.body is None or not fn.impl or F.adt_of(fn.impl["self"]) != ad or not fn.impl.get("tr"):
            continue
        if not str(fn.impl["tr"]).endswith(("::Read", "::BufRead")) or fn.nm == "consume":
            continue
        cx.cover(fn)
        h = Sync(F)
        I = Interp2(F, h)
        I.auto_heads = True
        reads = 0
        for st, v in I.run(fn):
            ev = st.auto or ()
            cx.ob("bounded read", f"{fn.p}: {[e[0] for e in ev]}")
            names = [e[0] for e in ev]
            deadline = some_fact(I, st, ("fld", ("mem", ("arg", 1)), di))
            n += 1
            if "read" in names:
                reads += 1
                i = names.index("read")
                if i == 0 or names[i - 1] != "set" or names.count("read") != 1:
                    cx.viol(f"{fn.p}:set", fn.sp, f"{fn.p} can read without first passing on what is left of its time limit")
                    continue
                k, t = opt_payload(I, st, ev[i - 1][1])
                if deadline == 0:
                    if k != 0:
                        cx.viol(f"{fn.p}:linger", fn.sp, f"{fn.p} reads without a deadline of its own but does not remove the limit of an earlier read")
                elif deadline == 1:
                    d = ("fld", ("fld", ("mem", ("arg", 1)), di), 1, 0)
                    left = t is not None and mentions(t, lambda x: isinstance(x, tuple) and x and x[0] == "call" and x[1].split("::")[-1] in ("saturating_duration_since", "checked_duration_since", "duration_since", "sub") and len(x[2]) == 2 and mentions(x[2][0], lambda y: y == d) and mentions(x[2][1], lambda y: isinstance(y, tuple) and y and y[0] == "call" and y[1].endswith("Instant::now")))
                    if k != 1 or not left:
                        cx.viol(f"{fn.p}:left", fn.sp, f"{fn.p} does not bound the read by what is left until its deadline")
                    elif nonzero(I, st, t) != 1:
                        cx.viol(f"{fn.p}:zero", fn.sp, f"{fn.p} may read although nothing is left until its deadline")
                else:
                    cx.viol(f"{fn.p}:deadline", fn.sp, f"{fn.p} reads without looking at its deadline")
            elif "set failed" in names:
                if not (v[0] == "adt" and v[1] == RES and v[2] == 1 and mentions(I.term(v, st), lambda x: x == ("err", "set"))):
                    cx.viol(f"{fn.p}:failed", fn.sp, f"{fn.p} does not report that the time limit could not be set")
            elif not (v[0] == "adt" and v[1] == RES and v[2] == 1 and timed_out(I, st, v) and deadline == 1):
                cx.viol(f"{fn.p}:expired", fn.sp, f"{fn.p} neither reads nor reports that its deadline has passed")
        if not reads:
            cx.viol(f"{fn.p}:never", fn.sp, f"{fn.p} never reads")
    if n < 4:
        raise Missing("the reads of the wrapper that enforces deadlines")


# ------------------------------------------------------------------ asynchronous wrapper
class Async(Base):
    max_depth = 10

    def __init__(self, F, nm):
        self.F, self.nm = F, nm

    def tok(self, st, *t):
        st.auto = (st.auto or ()) + (t,)

    def call(self, I, st, cal, args, site):
        if cal.id in self.F.fns:
            return None
        if cal.nm.startswith("poll_") and cal.tr and "AsyncWrite" in cal.tr:
            a, b = st.copy(), st.copy()
            self.tok(a, "inner", cal.nm, 1)
            self.tok(b, "inner", cal.nm, 0)
            return [(a, ("adt", POLL, 0, (("s", ("inner",)),))), (b, ("adt", POLL, 1, ()))]
        if cal.nm == "poll" and "Sleep" in str(cal.r or cal.p):
            a, b = st.copy(), st.copy()
            self.tok(a, "timer", 1)
            self.tok(b, "timer", 0)
            return [(a, ("adt", POLL, 0, (UNIT,))), (b, ("adt", POLL, 1, ()))]
        if cal.p.startswith("tokio") and cal.nm in ("sleep", "sleep_until", "timeout"):
            a = st.copy()
            self.tok(a, "arm", I.term(args[0], st) if cal.nm == "sleep" else None)
            return [(a, ("s", ("sleep", site.fn.id, site.bb)))]
        if cal.nm == "reset" and "Sleep" in str(cal.r or cal.p):
            a = st.copy()
            self.tok(a, "arm", None)
            return [(a, UNIT)]
        return None


def async_writes(cx):
    F = cx.F
    n = 0
    for fn in F.fns.values():
        if fn.body is None or not fn.impl or not str(fn.impl.get("tr") or "").endswith("AsyncWrite") or fn.nm == "poll_shutdown":
            continue
        ad = F.adt_of(fn.impl["self"])
        fs = F.adts[ad]["vs"][0]["f"] if ad in F.adts else []
        wi = [i for i, f in enumerate(fs) if F.ts(f["t"]) == "core::option::Option<core::time::Duration>"]
        si = [i for i, f in enumerate(fs) if "Sleep" in F.ts(f["t"])]
        if len(wi) != 1 or len(si) != 1:
            continue
        cx.cover(fn)
        I = Interp2(F, Async(F, fn.nm))
        I.auto_heads = True
        for st, v in I.run(fn):
            ev = st.auto or ()
            n += 1
            cx.ob("bounded write", f"{fn.p}: {ev}")
            me = ("deref", ("arg", 1))
            base = None
            for k in st.store:
                if k[0] == ("M", me):
                    base = me
            for t in st.facts:
                if mentions(t, lambda x: x == ("mem", me)):
                    base = me
            me = base or ("arg", 1)
            lim = some_fact(I, st, ("fld", ("mem", me), wi[0]))
            had = some_fact(I, st, ("fld", ("mem", me), si[0]))
            now = st.store.get((("M", me), (("f", si[0]),)))
            if now is None:
                has = had          # written, if at all, only behind the option
            elif now[0] == "adt" and now[1] == OPT:
                has = now[2]
            else:
                has = some_fact(I, st, I.term(now, st))
            inner = [e for e in ev if e[0] == "inner"]
            if len(inner) != 1 or inner[0][1] != fn.nm:
                cx.viol(f"{fn.p}:inner", fn.sp, f"{fn.p} does not pass the operation on exactly once")
                continue
            if inner[0][2]:
                if not (v[0] == "adt" and v[1] == POLL and v[2] == 0 and v[3][0] == ("s", ("inner",))):
                    cx.viol(f"{fn.p}:result", fn.sp, f"{fn.p} does not return the result of the finished operation")
                if has != 0:
                    cx.viol(f"{fn.p}:linger", fn.sp, f"{fn.p} keeps the timer of a finished write, which then limits a later one")
                continue
            if lim == 0:
                if not (v[0] == "adt" and v[1] == POLL and v[2] == 1):
                    cx.viol(f"{fn.p}:nolimit", fn.sp, f"{fn.p} does not stay pending although no limit is configured")
                continue
            timer = [e[1] for e in ev if e[0] == "timer"]
            arms = [e[1] for e in ev if e[0] == "arm"]
            if lim is None or len(timer) != 1:
                cx.viol(f"{fn.p}:timer", fn.sp, f"{fn.p} can stay pending without its time limit being checked")
                continue
            if had != 0 and arms:
                cx.viol(f"{fn.p}:rearm", fn.sp, f"{fn.p} restarts its timer whenever it is polled, so the limit may never expire")
            if had != 1 and (had == 0 or arms) and arms != [("fld", ("fld", ("mem", me), wi[0]), 1, 0)]:
                cx.viol(f"{fn.p}:arm", fn.sp, f"{fn.p} does not start its timer with the configured limit")
            if timer[0]:
                if not (v[0] == "adt" and v[1] == POLL and v[2] == 0 and timed_out(I, st, v)):
                    cx.viol(f"{fn.p}:expired", fn.sp, f"{fn.p} does not report that its time limit has expired")
                if has != 0:
                    cx.viol(f"{fn.p}:expired timer", fn.sp, f"{fn.p} keeps a timer that has expired")
            else:
                if not (v[0] == "adt" and v[1] == POLL and v[2] == 1):
                    cx.viol(f"{fn.p}:early", fn.sp, f"{fn.p} ends before its limit has expired")
                if has != 1:
                    cx.viol(f"{fn.p}:forget", fn.sp, f"{fn.p} forgets its timer while the write is pending, so the limit starts over")
    if n < 6 and any("tokio" in str(f.impl.get("tr")) for f in F.fns.values() if f.impl and f.impl.get("tr")):
        raise Missing("the writes of the asynchronous wrapper")


# ------------------------------------------------------------------ setters
def stored(cx):
    """TimeLimits keeps the limit it is given (raised to a minimum at most) and notes that the connection has to be told."""
    F = cx.F
    fl = cli.fields(F)
    for what in ("read", "write"):
        fn = F.fn(f"{LIMITS}::set_{what}_timeout")
        cx.cover(fn)
        I = Interp2(F, Base())
        for st, v in I.run(fn):
            given = some_fact(I, st, ("arg", 2))
            x = I.read(st, (("M", ("arg", 1)), (("f", fl[what]),)))
            cx.ob("stored limit", f"{fn.p}: {given}")
            if x == ("s", ("arg", 2)):
                pass
            elif given == 0 and x == opt(None):
                pass
            elif given == 1 and x[0] == "adt" and x[1] == OPT and x[2] == 1:
                t, a = I.term(x[3][0], st), ("fld", ("arg", 2), 1, 0)
                if not (t == a or t[0] == "call" and t[1].split("::")[-1] == "max" and a in t[2]):
                    cx.viol(f"{fn.p}:value", fn.sp, f"{fn.p} stores something other than the limit it is given")
            else:
                cx.viol(f"{fn.p}:value", fn.sp, f"{fn.p} stores something other than the limit it is given")
            if what == "write":
                f = [i for i, f in enumerate(F.adts[LIMITS]["vs"][0]["f"]) if F.ts(f["t"]) == "bool"]
                if len(f) != 1 or I.known(st, I.read(st, (("M", ("arg", 1)), (("f", f[0]),)))) != 1:
                    cx.viol(f"{fn.p}:flag", fn.sp, f"{fn.p} does not note that the connection has to be given the new limit")


class Told(Base):
    max_depth = 4

    def call(self, I, st, cal, args, site):
        if cal.nm == "set_write_timeout":
            a, b = st.copy(), st.copy()
            a.auto = (st.auto or ()) + ((1, I.term(args[1], st)),)
            b.auto = (st.auto or ()) + ((0, I.term(args[1], st)),)
            return [(a, res(1, UNIT)), (b, res(0, err("set")))]
        return None


def told(cx):
    """The note that the connection has to be given the limit is only crossed off once it was given it."""
    F = cx.F
    fl = cli.fields(F)
    flag = [i for i, f in enumerate(F.adts[LIMITS]["vs"][0]["f"]) if F.ts(f["t"]) == "bool"]
    for fn in sorted(F.fns.values(), key=lambda f: f.p):
        if fn.body is None or not fn.ins:
            continue
        at = [i + 1 for i, ti in enumerate(fn.ins) if F.types[ti].get("k") == "ref" and F.types[ti].get("m") and F.ts(F.types[ti]["t"]) == LIMITS]
        if len(at) != 1 or len(flag) != 1:
            continue
        cx.cover(fn)
        I = Interp2(F, Told())
        me = ("M", ("arg", at[0]))
        for st, v in I.run(fn):
            ev = st.auto or ()
            was = I.fact(st, ("fld", ("mem", ("arg", at[0])), flag[0]))
            now = I.read(st, (me, (("f", flag[0]),)))
            cx.ob("limit given", f"{fn.p}: {[e[0] for e in ev]}")
            if I.known(st, now) == 0 and was != ("in", frozenset([0])):
                w = I.term(I.read(st, (me, (("f", fl["write"]),))), st)
                if not ev or ev[-1] != (1, w):
                    cx.viol(f"{fn.p}:told", fn.sp, f"{fn.p} notes that the connection has been given the write limit although it was not")


class Fwd(Base):
    max_depth = 4

    def __init__(self, F, nms):
        self.F, self.nms = F, nms

    def call(self, I, st, cal, args, site):
        if cal.nm in self.nms:
            a = st.copy()
            a.auto = (st.auto or ()) + ((cal.nm, I.term(args[1], st), I.term(args[0], st)),)
            ti = I.cur_dty
            if self.F.adt_of(ti) == RES:
                return [(a, ("s", ("result",)))]
            return [(a, ("s", ("call", cal.nm, tuple(), (site.fn.id, site.bb))))]
        return None


def forwarded(cx):
    """Connection types and clients pass on exactly the limit they are given."""
    F = cx.F
    for fn in sorted(F.fns.values(), key=lambda f: f.p):
        if fn.body is None or not fn.impl or not fn.nm:
            continue
        m = [w for w in ("read", "write") if fn.nm in (f"set_{w}_timeout", f"with_{w}_timeout")]
        if not m or F.adt_of(fn.impl["self"]) == LIMITS:
            continue
        want = f"set_{m[0]}_timeout"
        ad = F.adt_of(fn.impl["self"])
        cx.cover(fn)
        I = Interp2(F, Fwd(F, ("set_read_timeout", "set_write_timeout")))
        for st, v in I.run(fn):
            ev = st.auto or ()
            cx.ob("forwarded limit", f"{fn.p}: {len(ev)}")
            if not ev:
                if ad in INSTANT or ad in IGNORES:
                    continue
                closed = False
                for t, f in st.facts.items():
                    if t[0] == "discr" and f[0] == "in" and len(f[1]) == 1:
                        ti = I.ttype(t[1])
                        a = F.adts.get(F.adt_of(ti)) if ti is not None else None
                        if a and len(a["vs"]) > 1 and not a["vs"][min(f[1])]["f"]:
                            closed = True
                if not closed:
                    cx.viol(f"{fn.p}:dropped", fn.sp, f"{fn.p} accepts a time limit and ignores it")
                continue
            for nm, t, to in ev:
                given = t == ("arg", 2) or t == ("adt", OPT, 1, (("arg", 2),))
                if nm != want:
                    cx.viol(f"{fn.p}:other", fn.sp, f"{fn.p} passes the limit on as `{nm}`")
                elif not given and not (t[0] == "adt" and t[1] == OPT and t[3] and t[3][0] in (("s", ("arg", 2)), ("arg", 2))):
                    cx.viol(f"{fn.p}:value", fn.sp, f"{fn.p} passes on something other than the limit it is given")
                if not mentions(to, lambda x: x == ("arg", 1)) and not mentions(to, lambda x: x[:1] == ("L",) if isinstance(x, tuple) else False):
                    cx.viol(f"{fn.p}:to", fn.sp, f"{fn.p} passes the limit on to something else")
            if len(ev) != 1:
                cx.viol(f"{fn.p}:twice", fn.sp, f"{fn.p} passes the limit on more than once")
            if F.adt_of(fn.out) == RES and v != ("s", ("result",)) and not mentions(I.term(v, st), lambda x: x == ("result",)):
                cx.viol(f"{fn.p}:result", fn.sp, f"{fn.p} does not report whether the limit could be set")


def connection_changes(cx):
    """A client that is given another connection has to tell it the write limit again."""
    F = cx.F
    n = 0
    flag = [i for i, f in enumerate(F.adts[LIMITS]["vs"][0]["f"]) if F.ts(f["t"]) == "bool"]
    ci = [i for i, f in enumerate(F.adts[CLIENT]["vs"][0]["f"]) if "MsgIo" in F.ts(f["t"])]
    if len(flag) != 1 or len(ci) != 1:
        raise Missing("the connection of a client")
    for fn in sorted(F.fns.values(), key=lambda f: f.p):
        if fn.body is None or not fn.ins or len(fn.ins) < 2 or not fn.reach:
            continue
        t0 = fn.ins[0]
        byref = F.types[t0].get("k") == "ref"
        d = F.types[t0]["t"] if byref else t0
        if F.adt_of(d) != CLIENT or F.types[fn.ins[1]].get("k") != "param":
            continue
        cx.cover(fn)

        class H(Base):
            max_depth = 8

            def inline(self, I, f, cal):
                return not f.p.endswith(("Handlers::cancel", "Queue::reset", "ClientState::clear"))
        I = Interp2(F, H())
        h = cli.Run.__new__(cli.Run)
        h.F = F
        for st, v in I.run(fn):
            if byref:
                conn = I.read(st, (("M", ("arg", 1)), (("f", ci[0]), ("f", 0))))
                lim = cli.Run.limits_at(h, I)
                fs = [I.known(st, I.read(st, (b, pr + (("f", flag[0]),)))) for b, pr in lim]
            else:
                if F.adt_of(fn.out) != CLIENT:
                    continue
                conn = I.project(v, (("f", ci[0]), ("f", 0)))
                fs = []
                for k, x in st.store.items():
                    if k[1][-1:] == (("f", flag[0]),) and mentions(k[0], lambda y: y == ("arg", 1)):
                        fs.append(I.known(st, x))
            if not mentions(I.term(conn, st), lambda x: x == ("arg", 2)):
                continue
            n += 1
            cx.ob("new connection", fn.p)
            if 1 not in fs:
                cx.viol(f"{fn.p}:flag", fn.sp, f"{fn.p} takes a new connection that is not given the write limit in force")
    if n < 2:
        raise Missing("the functions that give a client a new connection")


def check(cx):
    F = cx.F
    runs = [f for f in F.fns.values() if f.body is not None and f.impl and F.adt_of(f.impl["self"]) == CLIENT and f.nm in ("run", "run_tokio")]
    flushes = [f for f in F.fns.values() if f.body is not None and f.impl and F.adt_of(f.impl["self"]) == CLIENT and f.nm.startswith("flush_partial")]
    for f in runs:
        cx.guard(f.p, loop, cx, f)
    for f in flushes:
        cx.guard(f.p, flush, cx, f)
    cx.guard("blocking wrapper", sync_reads, cx)
    cx.guard("asynchronous wrapper", async_writes, cx)
    cx.guard("setters", stored, cx)
    cx.guard("limit given", told, cx)
    cx.guard("forwarding", forwarded, cx)
    cx.guard("connections", connection_changes, cx)
    cx.need("turn", 60)
    cx.need("write", 4)
    cx.need("forwarded limit", 20)
