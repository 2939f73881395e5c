"""C22: one-shot channels deliver at most one value and free their memory once."""
from facts import Missing, calls
from interp import Interp, Hook, subterms
from rules import conc
from rules.conc import UNIT, opt

EXPLAIN = (
    "Every function that can reach the inside of a one-shot channel's ends is interpreted over all paths, recording in order the changes of "
    "the share count with their ordering, whether the once-only section ran, and every write, read and destruction of the value. Each end "
    "lowers the count exactly once; the memory is freed exactly when the count showed the last holder and is not touched afterwards or "
    "after a share is given up; the value is written only inside the once-only section, and the receiving end takes or destroys it exactly "
    "once, exactly when its own attempt at the section found it already done; sending reports success exactly when the value was written. "
    "The parking primitive: a thread waits only with the state known to be idle under the lock and returns only when it is not, every "
    "wake-up writes the state under the lock and notifies, a wake-up is erased only once seen, the last sender's disappearance closes it, "
    "and a send wakes the parker unless it reports the channel closed. The pieces of a synchronous channel are wired to each other.")
ASSUME = ["std::sync::Once, Mutex, Condvar and Arc do what they document (including ordering)", "the count does not overflow",
          "callers pair a receiver with the parker created with it", "code outside a type's module cannot reach its private fields"]


def check(cx):
    F = cx.F
    hs = {h: x for h, x in conc.handles(F).items() if conc.has_once(F, h)}
    if len(hs) != 2:
        raise Missing("the two ends of the one-shot channel")
    cx.guard("ends", ends, cx, F, hs)
    cx.guard("copies", conc.check_copies, cx, F, hs)
    cx.guard("parker", parker, cx, F)
    cx.need("counted", 6)
    cx.need("parking", 3)


def ends(cx, F, hs):
    cloned = {F.adt_of(i["self"]) for i in F.impls_of.get("core::clone::Clone", [])} | {F.adt_of(i["self"]) for i in F.impls_of.get("core::marker::Copy", [])}
    recv = [h for h in hs if h not in cloned]
    if len(recv) != 1:
        cx.viol("receivers", "src/client/handler/channel/oneshot.rs", "there is no end of the one-shot channel that cannot be duplicated: a value could be taken twice" if not recv
                else "neither end of the one-shot channel can be told to be the receiving one")
        return
    recv = recv[0]
    res = conc.check_paths(cx, F, hs, True)
    drops = {fn.id: h for h, (i, fn) in hs.items()}
    taken = made = 0
    for fn, I, st, v in res:
        ev = st.auto or ()

        def bad(key, msg):
            cx.viol(f"{key}:{fn.p}", fn.sp, msg)
        who = drops.get(fn.id)
        if who is None:
            a = [F.adt_of(t) for t in fn.ins or () if F.adt_of(t) in hs] or [h for t in fn.ins or () for h in hs if h.split("::")[-1] + "<" in F.ts(t)]
            who = a[0] if a else None
        nr = [e for e in ev if e[0] == "make" and e[1] == recv]
        if nr:
            made += 1
            if who is not None or len(nr) != 1:
                bad("second", "makes another receiving end: a value could be taken twice")
        inside, ran, done = False, 0, 0
        for i, e in enumerate(ev):
            if e[0] == "once":
                inside = e[1]
                ran += e[1]
                done += not e[1]
            elif e[0] == "onceend":
                inside = False
            elif e[0] == "write":
                if not inside:
                    bad("unguarded", "writes the value outside the once-only section: it can race with another sender or with the receiver")
                if who == recv:
                    bad("receiver-writes", "the receiving end writes the value")
                if inside and e[2] not in sent(fn):
                    bad("other-value", "sends something other than the value it was given")
            elif e[0] in ("read", "drop", "view"):
                if who != recv:
                    bad("sender-reads", f"an end that does not own the value {e[0]}s it")
                elif e[0] == "view":
                    if e[2] == "assume_init_mut" and False:
                        bad("view", "")
                    if not any(x[0] == "completed" and x[1] for x in ev[:i]) and not done:
                        bad("unready", "looks at the value without knowing that it was fully written")
                elif not done or inside:
                    bad("unready", "takes or destroys the value without its own once-only section having been beaten: it may be unwritten or half written")
        ends_ = [e for e in ev if e[0] in ("read", "drop")]
        subs = [e for e in ev if e[0] == "sub"]
        if who == recv and (fn.id in drops or subs):
            taken += 1
            if ran + done != 1:
                bad("claim", f"the receiving end goes away having run the once-only section {ran + done} time(s), not once: a value sent later or meanwhile is lost or leaked")
            elif len(ends_) != (1 if done else 0):
                bad("contents", "the receiving end goes away with a sent value neither taken nor destroyed" if not ends_ else "the value is taken or destroyed more than once")
            if fn.id in drops and any(e[0] == "read" for e in ends_):
                bad("contents", "the destructor copies the value out instead of destroying it")
            if fn.id not in drops:
                got = value_of(v)
                if any(e[0] == "drop" for e in ends_):
                    bad("contents", "receiving destroys the value instead of returning it")
                if got is None:
                    raise Missing(f"what {fn.p} returns")
                if got != ("some" if ends_ else "none"):
                    bad("returned", "a received value is not returned" if ends_ else "returns a value that was not received")
        elif who == recv and ends_:
            bad("contents", "takes or destroys the value while the receiving end remains")
        if who is not None and who != recv and fn.id not in drops and any(e[0] == "dropself" for e in ev):
            outcome(cx, F, fn, I, st, v, ran, bad)
        if who == recv and fn.out is not None and F.ts(fn.out) == "bool":
            c = [e[1] for e in ev if e[0] == "completed"]
            if fn.nm == "is_empty" and v[0] == "c" and c and v[1] == c[-1]:
                bad("empty", "reports the channel empty exactly when it is not")
    if taken < 3 or not made:
        raise Missing("the functions in which the receiving end goes away")


def sent(fn):
    n = len(fn.ins or ())
    out = set()
    for k in range(n):
        out |= {("arg", k + 1), ("s", ("arg", k + 1))}
    return out


def value_of(v):
    if v[0] == "adt" and v[1] == conc.OPT:
        if not v[2]:
            return "none"
        x = v[3][0]
        return "some" if (x[1] if x[0] == "s" else x)[0] == "taken" else "other"
    return None


def outcome(cx, F, fn, I, st, v, ran, bad):
    """Sending reports success exactly when the value was written."""
    wrote = any(e[0] == "write" for e in st.auto)
    if ran and not wrote:
        bad("lost", "runs the once-only section without writing the value: the receiver would read an unwritten one")
    if v[0] != "adt":
        return
    if v[1].endswith("Result"):
        if (v[2] == 0) != wrote:
            bad("outcome", "reports success although the value was not sent" if v[2] == 0 else "reports failure, handing the value back, although it was sent")
        elif v[2] == 1 and I.term(v[3][0], st) not in sent(fn):
            bad("outcome", "hands back something other than the value it was given")
    elif v[1].endswith("ControlFlow"):
        x = v[3][0]
        if v[2] != 1:
            bad("outcome", "reports that a one-shot channel can be sent over again")
        elif x[0] == "adt" and (x[2] == 1) != wrote:
            bad("outcome", "reports the value sent although it was not" if x[2] == 1 else "reports the channel closed although the value was sent: the receiver would not be woken")


# ---- the parker

class Park(Hook):
    """auto = (value written and not yet announced, announced under the lock, values written, guard last used)"""
    max_depth = 12

    def __init__(self, cx, F, names):
        self.cx, self.F, self.names = cx, F, names
        self.idle, self.unparked, self.closed = names
        self.n = 0
        self.waits = 0

    def a(self, st):
        return st.auto or (None, False, frozenset(), None)

    def upd(self, st, **k):
        d = dict(zip(("dirty", "ncs", "sets", "g"), self.a(st)))
        d.update(k)
        st.auto = (d["dirty"], d["ncs"], d["sets"], d["g"])
        return st

    def bad(self, key, site, msg):
        self.cx.viol(f"{key}:{site.fn.p}", site.where, msg)

    def cell(self, g):
        return (("M", ("state", g)), ())

    def state(self, I, st, g):
        """Which states the guarded value may be in."""
        v = I.read(st, self.cell(g))
        if v[0] == "adt":
            return frozenset([v[2]])
        f = st.facts.get(("discr", I.term(v, st)))
        if f is None:
            return frozenset(range(3))
        return f[1] if f[0] == "in" else frozenset(range(3)) - f[1]

    def is_guard(self, ti):
        return ti is not None and "MutexGuard<" in self.F.ts(ti)

    def call(self, I, st, cal, args, site):
        F, nm, p = self.F, cal.nm, cal.p
        tys = I.cur_argtys or []
        if "Mutex::" in p and nm in ("lock", "try_lock") and "sync::" in p:
            if nm == "try_lock":
                raise Missing(f"try_lock at {site.where}")
            g = ("guard", I.term(args[0], st), site.fn.id, site.bb, hash(site.chain))
            s = st.copy()
            self.upd(s, g=g, ncs=False)
            s2 = s.copy()
            R = "core::result::Result"
            return [(s, ("adt", R, 0, (("s", g),))), (s2, ("adt", R, 1, (("s", g),)))]
        if "PoisonError" in p and nm in ("into_inner", "get_ref", "get_mut"):
            return [(st, args[0])]
        if nm in ("deref", "deref_mut") and tys and self.is_guard(tys[0]):
            v = args[0]
            if v[0] == "ref":
                v = I.read(st, v[1])
            g = I.term(v, st)
            s = st.copy()
            self.upd(s, g=g)
            return [(s, ("ref", self.cell(g)))]
        if nm == "send" and (cal.tr or "").endswith("channel::Sender"):
            s = st.copy()
            self.upd(s, sets=frozenset())
            return I.opaque(s, cal, args, tys, site)
        if "Condvar" in p:
            if nm == "wait":
                self.waits += 1
                g = I.term(args[1], st)
                if self.state(I, st, g) != {self.idle}:
                    self.bad("waits", site, "waits although the state under the lock is not known to be idle: a wake-up that already happened is never seen")
                if self.idle in self.a(st)[2]:
                    self.bad("erases", site, "waits after having erased a wake-up it was given")
                if self.a(st)[0] is not None:
                    self.bad("unannounced", site, "waits having changed the state without notifying")
                g2 = ("guard", g, site.fn.id, site.bb)
                if g[0] == "guard" and len(g) == 4:
                    g2 = g
                s = st.copy()
                self.upd(s, g=g2, ncs=False)
                I.write(s, self.cell(g2), ("s", ("woken", site.fn.id, site.bb)))
                s.facts.pop(("discr", ("woken", site.fn.id, site.bb)), None)
                s2 = s.copy()
                R = "core::result::Result"
                return [(s, ("adt", R, 0, (("s", g2),))), (s2, ("adt", R, 1, (("s", g2),)))]
            if nm in ("wait_while",):
                return self.wait_while(I, st, args, site)
            if nm.startswith("wait"):
                raise Missing(f"{nm} at {site.where}")
            if nm in ("notify_all", "notify_one"):
                s = st.copy()
                d = self.a(s)[0]
                if nm == "notify_all" or d != self.closed:
                    d = None
                self.upd(s, dirty=d, ncs=self.a(s)[1] or nm == "notify_all")
                return [(s, UNIT)]
        return None

    def wait_while(self, I, st, args, site):
        self.waits += 1
        g = I.term(args[1], st)
        g2 = ("guard", g, site.fn.id, site.bb)
        outs = []
        s0 = st.copy()
        self.upd(s0, g=g2, ncs=False)
        I.write(s0, self.cell(g2), ("s", ("woken", site.fn.id, site.bb)))
        res = I.call_fnlike(s0, [args[2], ("adt", "tuple", 0, (("ref", self.cell(g2)),))], [None, None], site, ("ww", site.bb), 1, None)
        if res is None:
            raise Missing(f"the condition waited for at {site.where}")
        R = "core::result::Result"
        for s, v in res:
            for s2, b in I.branch(s, v, (0, 1)):
                if b != 0:
                    if self.state(I, s2, g2) != {self.idle}:
                        self.bad("waits", site, "keeps waiting although the state is not known to be idle")
                    continue
                outs += [(s2, ("adt", R, 0, (("s", g2),))), (s2.copy(), ("adt", R, 1, (("s", g2),)))]
        return outs

    def drop(self, I, st, v, ti, site):
        if self.is_guard(ti):
            self.upd(st, ncs=False)
        return None

    def write(self, I, st, loc, v, site):
        if not (isinstance(loc[0], tuple) and loc[0][0] == "M" and isinstance(loc[0][1], tuple) and loc[0][1][0] == "state"):
            return
        g = loc[0][1][1]
        new = v[2] if v[0] == "adt" else None
        if new is None:
            f = st.facts.get(("discr", I.term(v, st)))
            new = next(iter(f[1])) if f and f[0] == "in" and len(f[1]) == 1 else None
        self.n += 1
        if new is None:
            self.bad("unknown", site, "writes a state that is not known")
            return
        old = getattr(self, "old", {}).get((id(st), loc))
        d, ncs, sets, _ = self.a(st)
        if new == self.idle:
            if self.before(I, st, g) != {self.unparked}:
                self.bad("erases", site, "goes back to idle although the state is not known to be a wake-up: a closing or an unseen wake-up is erased")
            self.upd(st, sets=sets | {new}, g=g)
        else:
            if new == self.unparked and False:
                pass
            self.upd(st, dirty=None if ncs else new, sets=sets | {new}, g=g)

    def before(self, I, st, g):
        return self.state(I, st, g)


def shared_type(F):
    """(path of the struct with the state and the condition variable, state enum path)"""
    for p, a in F.adts.items():
        if len(a["vs"]) == 1:
            tys = [F.ts(f["t"]) for f in a["vs"][0]["f"]]
            if any("Condvar" in t for t in tys):
                for f in a["vs"][0]["f"]:
                    t = F.types[f["t"]]
                    if t.get("k") == "adt" and t["d"].endswith("Mutex"):
                        e = F.adt_of([x for x in t["a"] if isinstance(x, int)][0])
                        if e in F.adts:
                            return p, e
    raise Missing("the state shared with a parked thread")


def go(cx, F, names, fn):
    H = Park(cx, F, names)
    I = Interp(F, H)
    I.split = 64
    return H, I, I.run(fn)


def holders(F, shared):
    """Types holding (a share of) the shared state, directly or through other such types."""
    own = {shared}
    grow = True
    while grow:
        grow = False
        for p, a in F.adts.items():
            if p not in own and any(any(x + ">" in F.ts(f["t"]) or F.ts(f["t"]) == x or x + "<" in F.ts(f["t"]) for x in own) for v in a["vs"] for f in v["f"]):
                own.add(p)
                grow = True
    return own


def parker(cx, F):
    shared, state = shared_type(F)
    vs = [v["n"] for v in F.adts[state]["vs"]]
    if len(vs) != 3:
        raise Missing("the three states of a parker")
    mod = shared.rsplit("::", 1)[0]
    own = holders(F, shared)
    # idle: the initial state
    init = initial(F, state)
    ds = [(F.adt_of(i["self"]), F.fns[fid]) for i in F.impls_of.get("core::ops::drop::Drop", []) for n, fid, _ in i["items"]
          if n == "drop" and fid in F.fns and F.adt_of(i["self"]) in own]
    closed = None
    for h, fn in ds:
        w = set()

        class Probe(Park):
            def bad(s, *a):
                pass
        H = Probe(cx, F, (init, -1, -2))
        I = Interp(F, H)
        for st, v in I.run(fn):
            w |= {x for x in H.a(st)[2]}
        if len(w) == 1:
            closed, handle, dfn = w.pop(), h, fn
    if closed is None or closed == init:
        cx.viol("close", f"{F.adts[shared].get('sp', mod)}", "nothing closes the parker when its last sender disappears: a parked thread is never woken")
        return
    unparked = next(i for i in range(3) if i not in (init, closed))
    names = (init, unparked, closed)
    for st, v in go(cx, F, names, dfn)[2]:
        if closed not in (st.auto or (None, 0, ()))[2]:
            cx.viol("close:" + dfn.p, dfn.sp, "the last sender's disappearance does not close the parker on some path")
    waits = wakes = 0
    for fn in F.fns.values():
        m = fn.raw.get("mod") or ""
        if not fn.body or "{closure" in fn.p or not (m == mod or m.startswith(mod + "::")) or (fn.impl or {}).get("derived") or "::tests" in m:
            continue
        if conc.private(fn):
            continue
        H, I, outs = go(cx, F, names, fn)
        touched = False
        for st, v in outs:
            d, ncs, sets, g = H.a(st)
            if g is None:
                continue
            touched = True
            if d is not None:
                cx.viol(f"unannounced:{fn.p}", fn.sp, f"sets the state to {vs[d]} without notifying{' every' if d == closed else ''} waiting thread{'s' if d != closed else ''}")
            if H.waits and init not in sets and init in H.state(I, st, g):
                cx.viol(f"spurious:{fn.p}", fn.sp, "stops waiting although the state may still be idle: the wait is not repeated after a spurious wake-up")
            if closed in sets and fn is not dfn:
                cx.viol(f"closes:{fn.p}", fn.sp, "closes the parker while senders remain")
        if touched:
            cx.cover(fn)
            cx.ob("parking", fn.p)
        waits += bool(H.waits)
        if fn.nm == "send" and F.adt_of(fn.impl["self"]) in own if fn.impl else False:
            wakes += 1
            for st, v in outs:
                d, ncs, sets, g = H.a(st)
                if unparked in sets:
                    continue
                if not closed_result(F, I, st, v):
                    cx.viol(f"unwoken:{fn.p}", fn.sp, "a send that may have delivered a value does not wake the parked receiver")
            cx.ob("parking", fn.p + " wakes")
        if fn.nm == "unpark":
            for st, v in outs:
                if unparked not in H.a(st)[2]:
                    cx.viol(f"unwoken:{fn.p}", fn.sp, "does not wake the parked thread on some path")
    if not waits or not wakes:
        raise Missing("the functions that park and unpark")
    wiring(cx, F, shared, handle, own)


def initial(F, state):
    for i in F.impls_of.get("core::default::Default", []):
        if F.adt_of(i["self"]) == state:
            fn = next((F.fns[fid] for n, fid, _ in i["items"] if n == "default" and fid in F.fns), None)
            if fn:
                vals = {v[2] for st, v in Interp(F, Hook()).run(fn) if v[0] == "adt"}
                if len(vals) == 1:
                    return vals.pop()
    raise Missing("the initial state of a parker")


def closed_result(F, I, st, v):
    """Is the ControlFlow<Sent> v known to be Break(Closed)?"""
    def disc(x):
        if x[0] == "adt":
            return x[2]
        f = st.facts.get(("discr", I.term(x, st)))
        return next(iter(f[1])) if f and f[0] == "in" and len(f[1]) == 1 else None
    t = I.term(v, st)
    for k, f in st.facts.items():
        if k[0] == "cmp" and k[1] in ("Eq", "Ne") and t in k[2:] and f == ("in", frozenset([1 if k[1] == "Eq" else 0])):
            o = k[3] if k[2] == t else k[2]
            if o[0] == "adt" and o[1].endswith("ControlFlow") and o[2] == 1 and o[3][0][:3] == ("adt",) + o[3][0][1:2] + (0,):
                return True
    if disc(v) != 1:
        return False
    p = v[3][0] if v[0] == "adt" else ("s", ("fld", t, 1, 0))
    return disc(p) == 0


def wiring(cx, F, shared, handle, own):
    """Both halves of what makes a parker, and of what makes a synchronous one-shot channel, share one state and one allocation."""
    n = 0
    hs = conc.handles(F)
    mod = shared.rsplit("::", 2)[0]
    for fn in F.fns.values():
        m = fn.raw.get("mod") or ""
        if not fn.body or fn.out is None or "{closure" in fn.p or F.types[fn.out].get("k") != "tuple" or conc.private(fn) or "::tests" in m \
                or not (m == mod or m.startswith(mod + "::")):
            continue
        I = Interp(F, Wire(F, hs))
        seen = False
        for st, v in I.run(fn):
            t = I.term(v, st)
            cells = {x[2] for x in subterms(t) if len(x) > 4 and x[0] == "adt" and x[1] == "#arc" and x[4] == shared}
            ends = {}
            for x in subterms(t):
                if len(x) == 4 and x[0] == "adt" and x[1] in hs:
                    ends.setdefault(x[3][0], set()).add(x[1])
            pairs = {x[1] for x in subterms(t) if len(x) == 3 and x[0] == "fld" and x[1][0] == "call" and x[1][1].split("::")[-1].endswith("channel")}
            if not cells and not ends and not pairs:
                continue
            seen = True
            if len(cells) > 1:
                cx.viol(f"wiring:{fn.p}", fn.sp, "the parker and the sender it is paired with do not share their state: the receiver is never woken")
            if cells and not any(len(x) == 4 and x[0] == "adt" and x[1] == handle for x in subterms(t)):
                cx.viol(f"wiring:{fn.p}", fn.sp, "the sender does not close the parker when it disappears")
            if cells and sum(1 for x in v[3] if any(len(y) > 4 and y[0] == "adt" and y[1] == "#arc" and y[4] == shared for y in subterms(I.term(x, st)))) < 2:
                cx.viol(f"wiring:{fn.p}", fn.sp, "only one half of what is made shares the parking state: the receiver is never woken")
            if any(len(y) == 4 and y[0] == "adt" and y[1] == handle for y in subterms(I.term(v[3][-1], st))):
                cx.viol(f"wiring:{fn.p}", fn.sp, "the parked side keeps the handle alive whose disappearance would wake it")
            if ends and (len(ends) != 1 or len(next(iter(ends.values()))) != 2):
                cx.viol(f"wiring:{fn.p}", fn.sp, "the two ends handed out do not belong to the same channel")
            if len(pairs) > 1 or pairs and sum(1 for x in v[3] if any(y[0] == "fld" and len(y) == 3 and y[1] in pairs for y in subterms(I.term(x, st)))) < 2:
                cx.viol(f"wiring:{fn.p}", fn.sp, "the two ends handed out do not belong to the same channel")
            if ends and fn.p.split("::")[-1] == "new_oneshot" and not cells:
                cx.viol(f"wiring:{fn.p}", fn.sp, "a synchronous one-shot channel whose sender does not wake the receiver")
        if seen:
            n += 1
            cx.cover(fn)
            cx.ob("parking", fn.p + " wiring")
    if n < 3:
        raise Missing("the functions that make a parker and a synchronous one-shot channel")


class Wire(conc.Shared):
    def call(self, I, st, cal, args, site):
        F, nm, p = self.F, cal.nm, cal.p
        if "Arc::" in p and nm == "new":
            ti = I.cur_argtys[0]
            return [(st, ("s", ("adt", "#arc", (site.fn.id, site.bb, hash(site.chain)), (I.term(args[0], st),), F.adt_of(ti))))]
        if nm == "clone" and args and I.cur_argtys and "Arc<" in F.ts(I.cur_argtys[0]):
            v = args[0]
            if v[0] == "ref":
                v = I.read(st, v[1])
            return [(st, v)]
        if "Box::" in p and nm == "new" and not any("Inner" in F.ts(x) for x in I.cur_argtys):
            return [(st, args[0])]
        return super().call(I, st, cal, args, site)
