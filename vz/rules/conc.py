"""Reference-counted allocations: what each function does to the count, the contents and the allocation, in order, on every path."""
from facts import strip_lt, Missing, calls
from interp import Interp, Hook, subterms

UNIT = ("adt", "tuple", 0, ())
RELEASE = ("Release", "AcqRel", "SeqCst")
ACQUIRE = ("Acquire", "AcqRel", "SeqCst")
READS = ("read", "assume_init_read", "assume_init", "read_volatile", "read_unaligned", "replace")
DROPS = ("drop_in_place", "assume_init_drop")
WRITES = ("write", "write_volatile", "write_unaligned")
VIEWS = ("assume_init_ref", "assume_init_mut", "make_ref", "make_ref_mut")
ONE = ("in", frozenset([1]))
ZERO = ("in", frozenset([0]))
NOT01 = ("in", frozenset(range(2, 64)))     # more holders than one: any count from 2 up behaves alike unless compared with a literal
OPT = "core::option::Option"


def opt(v=None):
    return ("adt", OPT, 0 if v is None else 1, () if v is None else (v,))


def atomic(F, ti):
    """What an atomic cell (or reference to one) holds: "usize", "bool", ..."""
    for _ in range(4):
        if ti is None:
            return None
        t = F.types[ti]
        if t.get("k") in ("ref", "ptr"):
            ti = t["t"]
            continue
        break
    if t.get("k") != "adt" or "sync::atomic::" not in t["d"]:
        return None
    a = [x for x in t.get("a", []) if isinstance(x, int)]
    return F.ts(a[0]) if a else t["d"].split("::")[-1].replace("Atomic", "").lower()


def handles(F):
    """Types whose destructor lowers a shared count: path -> (Drop impl, drop fn)."""
    out = {}
    for i in F.impls_of.get("core::ops::drop::Drop", []):
        p = F.adt_of(i["self"])
        if p not in F.adts:
            continue
        fn = next((F.fns[fid] for n, fid, _ in i["items"] if n == "drop" and fid in F.fns), None)
        if fn is None:
            continue
        if lowers(F, fn, set()):
            out[p] = (i, fn)
    return out


def lowers(F, fn, seen):
    if fn.id in seen or not fn.body or len(seen) > 40:
        return False
    seen.add(fn.id)
    for bb, t, c in calls(fn):
        if not c:
            continue
        if "sync::atomic" in c["p"] and c["nm"] in ("fetch_sub", "fetch_update", "compare_exchange", "swap", "fetch_add") and "usize" in c["p"] + str([F.ts(x) for x in c["a"] if isinstance(x, int)]):
            return True
        g = F.fns.get(c.get("rid") or c["id"])
        if g is not None and lowers(F, g, seen):
            return True
    return False


def ordering(v):
    """Name of a memory ordering argument."""
    names = ("Relaxed", "Release", "Acquire", "AcqRel", "SeqCst")
    if v[0] == "adt" and v[1].endswith("Ordering"):
        return names[v[2]]
    if v[0] == "c" and v[1] < 5:
        return names[v[1]]
    return "?"


class Shared(Hook):
    """Records, in order, per path (st.auto): count changes, frees, accesses to contents, what becomes of handles."""
    max_depth = 14

    def __init__(self, F, hs):
        self.F, self.hs = F, hs
        self.odd = []

    def ev(self, st, *e):
        s = st.copy()
        s.auto = (st.auto or ()) + (e,)
        return s

    def inline(self, I, fn, cal):
        return True

    def handle(self, ti):
        """Handle types directly inside a type."""
        if ti is None:
            return None
        p = self.F.adt_of(ti)
        return p if p in self.hs else None

    def drop(self, I, st, v, ti, site):
        h = self.handle(ti)
        if h:
            return [self.ev(st, "dropself", h)]
        return None

    def agg(self, I, st, kk, vals, site):
        if kk[0] == "adt" and kk[1] in self.hs:
            st.auto = (st.auto or ()) + (("make", kk[1], I.term(vals[0], st)),)

    def call(self, I, st, cal, args, site):
        F, nm, p = self.F, cal.nm, cal.p
        tys = I.cur_argtys or []
        if p.startswith("core::bool") and nm in ("then_some", "then") and len(args) == 2:
            out = []
            for b in (0, 1):
                s = st.copy()
                if args[0][0] == "c":
                    if args[0][1] != b:
                        continue
                elif I.assume(s, I.term(args[0], st), b) is False:
                    continue
                if not b:
                    out.append((s, opt()))
                elif nm == "then":
                    r = I.call_fnlike(s, [args[1], ("adt", "tuple", 0, ())], [None, None], site, ("then", site.bb), 1, None)
                    if r is None:
                        raise Missing(f"the closure called at {site.where}")
                    out += [(s2, opt(v)) for s2, v in r]
                else:
                    out.append((s, opt(args[1])))
            return out
        if p.startswith("core::option::Option::<") and nm in ("take", "replace", "insert") and args and args[0][0] == "ref":
            v = I.read(st, args[0][1])
            s = st.copy()
            I.write(s, args[0][1], opt(args[1] if nm != "take" else None))
            if nm == "insert":
                return None
            return [(s, v)]
        if "Option" in p and nm == "is_some_and" and len(args) == 2:
            v, out = args[0], []
            d = v[2] if v[0] == "adt" else None
            for k in (0, 1):
                if d is not None and d != k:
                    continue
                s = st.copy()
                if not k:
                    out.append((s, ("c", 0)))
                    continue
                pay = v[3][0] if d is not None else I.project(v, (("v", 1), ("f", 0)))
                r = I.call_fnlike(s, [args[1], ("adt", "tuple", 0, (pay,))], [None, None], site, ("isa", site.bb), 1, None)
                if r is None:
                    return None
                out += r
            return out
        if p == "core::mem::take" and args and args[0][0] == "ref" and tys and "Option" in F.ts(tys[0]):
            v = I.read(st, args[0][1])
            s = st.copy()
            I.write(s, args[0][1], opt())
            return [(s, v)]
        if "sync::atomic" in p:
            if nm == "fence":
                return [(self.ev(st, "fence", ordering(args[0])), UNIT)]
            w = atomic(F, tys[0]) if tys else None
            if nm == "new":
                if atomic(F, I.cur_dty) not in ("usize", None):
                    return [(st, ("adt", "#flag", 0, (args[0],)))]
                return [(st, ("adt", "#atomic", 0, (args[0],)))]
            if w is None:
                w = "usize" if "usize" in p else "bool" if "bool" in p.lower() else "?"
            old = ("s", ("atom", w, nm, site.fn.id, site.bb, len(st.auto or ())))
            if w == "bool":
                if nm == "store":
                    return [(self.ev(st, "flag", I.term(args[1], st), ordering(args[2])), UNIT)]
                return [(self.ev(st, "flagread", nm, ordering(args[1])), old)]
            if nm in ("fetch_sub", "fetch_add"):
                o = ordering(args[2])
                n = I.term(args[1], st)
                if nm == "fetch_add":
                    return [(self.ev(st, "add", n, o), old)]
                last, more = self.ev(st, "sub", n, o, True), self.ev(st, "sub", n, o, False)
                last.facts[old[1]] = ONE
                outs = [(last, ("c", 1))]
                more.facts[("notone", old[1])] = NOT01
                outs.append((more, ("s", ("notone", old[1]))))
                return outs
            if nm == "load":
                o = ordering(args[1])
                one, more = self.ev(st, "load", o, True), self.ev(st, "load", o, False)
                more.facts[("notone", old[1])] = NOT01
                return [(one, ("c", 1)), (more, ("s", ("notone", old[1])))]
            if nm in ("compare_exchange", "compare_exchange_weak") and len(args) >= 5 and args[1] == ("c", 1) and args[2] == ("c", 0):
                ok, no = self.ev(st, "load", ordering(args[3]), True), self.ev(st, "load", ordering(args[4]), False)
                no.facts[("notone", old[1])] = NOT01
                R = "core::result::Result"
                return [(ok, ("adt", R, 0, (("c", 1),))), (no, ("adt", R, 1, (("s", ("notone", old[1])),)))]
            if nm in ("compare_exchange", "compare_exchange_weak") and len(args) >= 5:
                ok = self.ev(st, "cas", I.term(args[1], st), I.term(args[2], st), ordering(args[3]), True)
                no = self.ev(st, "cas", I.term(args[1], st), I.term(args[2], st), ordering(args[4]), False)
                R = "core::result::Result"
                return [(ok, ("adt", R, 0, (args[1],))), (no, ("adt", R, 1, (old,)))]
            self.odd.append((site, f"an unexpected operation on the count ({nm})"))
            return [(self.ev(st, "odd", nm), old)]
        if p.endswith("alloc::dealloc"):
            return [(self.ev(st, "free", I.term(args[0], st)), UNIT)]
        if "Box" in p and nm in ("from_raw", "from_non_null"):
            s = self.ev(st, "free", I.term(args[0], st))
            return [(s, ("s", ("box", I.term(args[0], st))))]
        if p == "core::mem::forget" or "Box" in p and nm in ("leak", "into_raw", "into_non_null"):
            t = I.term(args[0], st)
            if t[0] == "box":
                return [(self.ev(st, "unfree"), UNIT if nm == "forget" else ("s", t[1]))]
        if p == "core::mem::forget" or "ManuallyDrop" in p and nm == "new":
            h = self.handle(tys[0] if tys else None)
            if h:
                s = self.ev(st, "forget", h)
                return [(s, UNIT if nm == "forget" else args[0])]
        if p == "core::mem::drop" and tys and self.handle(tys[0]):
            return [(self.ev(st, "dropself", self.handle(tys[0])), UNIT)]
        if "Once::" in p and "sync::" in p and nm in ("call_once", "call_once_force") and len(args) == 2:
            fresh, done = self.ev(st, "once", True), self.ev(st, "once", False)
            outs = I.call_fnlike(fresh, [args[1], ("adt", "tuple", 0, (("s", ("oncestate",)),) if nm != "call_once" else ())], [None, None], site, ("once", site.bb), 1, None)
            if outs is None:
                raise Missing(f"the closure run once at {site.where}")
            return [(self.ev(s, "onceend"), UNIT) for s, _ in outs] + [(done, UNIT)]
        if "Once::" in p and "sync::" in p and nm == "is_completed":
            a, b = self.ev(st, "completed", True), self.ev(st, "completed", False)
            return [(a, ("c", 1)), (b, ("c", 0))]
        if "Once::" in p and "sync::" in p and nm not in ("new", "call_once", "is_completed", "call_once_force") and "sync" in p:
            self.odd.append((site, f"an unexpected operation on the lock ({nm})"))
        mem = p.startswith(("core::ptr::", "core::mem::maybe_uninit", "std::ptr")) or (cal.tr or "").endswith("DynSized")
        if mem:
            k = "read" if nm in READS and "ManuallyDrop" not in p else "drop" if nm in DROPS else "write" if nm in WRITES else "view" if nm in VIEWS else None
            if k:
                s = self.ev(st, k, I.term(args[0], st) if args else None, I.term(args[1], st) if k == "write" and len(args) > 1 else nm)
                if k == "read":
                    return [(s, ("s", ("taken", site.fn.id, site.bb)))]
                if k in ("drop", "write"):
                    return [(s, UNIT)]
                return I.opaque(s, cal, args, tys, site)
        if nm in ("as_ref", "as_mut", "unwrap_unchecked", "as_ptr", "cast", "get", "unwrap") and args and (p.startswith(("core::ptr::", "core::cell::")) or "Option" in p and args[0][0] == "s"):
            return [(st, ("s", self.ptr(I.term(args[0], st))))]
        return None

    def ptr(self, t):
        return t


def run(F, hs, fn):
    H = Shared(F, hs)
    I = Interp(F, H)
    I.split = 64
    return H, I, I.run(fn)


def kinds(st):
    return [e[0] for e in st.auto or ()]


SHARED = ("add", "sub", "load", "cas", "odd", "flag", "flagread", "once", "completed", "read", "drop", "write", "view", "free")


def private(fn):
    v = fn.raw.get("vis") or "Public"
    return fn.trait is None and not (fn.impl or {}).get("tr") and v.startswith("Restricted")


def roots(F, hs):
    """Functions that may be called from outside the module of a handle type and can reach its fields or its private functions."""
    mods = {h.rsplit("::", 1)[0] for h in hs}
    calledby = {}
    for fn in F.fns.values():
        if fn.body:
            for bb, t, c in calls(fn):
                if c:
                    calledby.setdefault(c.get("rid") or c["id"], set()).add(fn.id)
    for fn in F.fns.values():
        if not fn.body or "{closure" in fn.p or (fn.impl or {}).get("derived"):
            continue
        m = fn.raw.get("mod") or ""
        if not any(m == x or m.startswith(x + "::") for x in mods):
            continue
        if private(fn) and calledby.get(fn.id):
            continue
        yield fn


def handle_args(F, hs, fn):
    """Indexes of the parameters that are handles taken by value."""
    return [i for i, t in enumerate(fn.ins or ()) if F.types[t].get("k") == "adt" and F.adt_of(t) in hs]


def whole(v, I, st, i):
    """Does the value v contain the i-th argument itself?"""
    if v[0] == "s":
        v = v[1]
    if v == ("arg", i + 1):
        return True
    if v[0] == "adt":
        return any(whole(x, I, st, i) for x in v[3])
    if v[0] == "ref":
        return False
    return False


def counts(term):
    """Initial counts of the allocations a term describes."""
    return [x[3][0] for x in subterms(term) if len(x) == 4 and x[0] == "adt" and x[1] == "#atomic" and x[3]]


def check_paths(cx, F, hs, once):
    """Count discipline of every root; `once`: contents are put in later, guarded by a Once."""
    n = 0
    drops = {fn.id: h for h, (i, fn) in hs.items()}
    res = []
    for fn in roots(F, hs):
        H, I, outs = run(F, hs, fn)
        for site, why in H.odd:
            cx.viol(f"odd:{fn.p}:{site.fn.p}", site.where, why + f", reached from {fn.p}: not understood")
        interesting = False
        for st, v in outs:
            ev = st.auto or ()
            ks = [e[0] for e in ev]
            ev = [e for e in ev]
            if not any(k in SHARED or k in ("make", "dropself", "forget") for k in ks) and not handle_args(F, hs, fn):
                continue
            interesting = True
            res.append((fn, I, st, v))
            one_path(cx, F, hs, fn, I, st, v, ev, drops)
        if interesting:
            n += 1
            cx.cover(fn)
            cx.ob("counted", fn.p)
    return res


def one_path(cx, F, hs, fn, I, st, v, ev, drops):
    def bad(key, msg):
        cx.viol(f"{key}:{fn.p}", fn.sp, msg)
    made = [e for e in ev if e[0] == "make"]
    adds = [e for e in ev if e[0] == "add"]
    subs = [i for i, e in enumerate(ev) if e[0] == "sub"]
    frees = [i for i, e in enumerate(ev) if e[0] == "free"]
    forg = [e for e in ev if e[0] == "forget"]
    dropped = [e for e in ev if e[0] == "dropself"]
    if any(e[0] == "odd" or e[0] == "cas" for e in ev):
        bad("odd", "changes the count by an operation that is not understood")
        return
    for e in adds:
        if e[1] != ("c", 1):
            bad("amount", "raises the count by something other than one")
    for i in subs:
        if ev[i][1] != ("c", 1):
            bad("amount", "lowers the count by something other than one")
        if ev[i][2] not in RELEASE:
            bad("release", "lowers the count without Release ordering: this holder's accesses may happen after another thread freed the memory")
    if len(subs) > 1:
        bad("twice", "lowers the count more than once on a path")
        return
    # what frees
    if len(frees) > 1:
        bad("double-free", "frees the shared memory more than once on a path")
        return
    if any(e[0] == "unfree" for e in ev):
        bad("leak", "takes the shared memory back without freeing it")
    is_drop = fn.id in drops
    lone = [i for i, e in enumerate(ev) if e[0] == "load" and e[2]]
    gate = None
    if subs and ev[subs[0]][3]:
        gate = subs[0]
        if not frees:
            bad("leak", "does not free the shared memory when the count it lowered was one")
        if frees and frees[0] < gate:
            bad("early-free", "frees the shared memory before lowering the count")
    elif subs:
        if frees:
            bad("early-free", "frees the shared memory although other holders remain")
        after = [e for e in ev[subs[0] + 1:] if e[0] in SHARED]
        if after:
            bad("use-after", f"still uses the shared memory ({after[0][0]}) after giving up its share while others may free it")
    elif frees:
        if not lone or lone[0] > frees[0]:
            bad("unshared", "frees the shared memory without knowing that there is no other holder")
        else:
            gate = lone[0]
    if gate is not None and frees:
        acq = ev[gate][2] if ev[gate][0] == "sub" else ev[gate][1]
        ok = acq in ACQUIRE
        for i in range(gate + 1, frees[0] + 1):
            e = ev[i]
            if e[0] == "fence" and e[1] in ACQUIRE or e[0] == "load" and e[1] in ACQUIRE:
                ok = True
            if e[0] in ("read", "drop", "view", "write", "free") and not ok:
                bad("acquire", f"reaches the contents ({e[0]}) as the last holder without an Acquire after the count: another holder's accesses may still be in flight")
                break
        after = [e for e in ev[frees[0] + 1:] if e[0] in SHARED]
        if after:
            bad("use-after", f"still uses the shared memory ({after[0][0]}) after freeing it")
        tgt = ev[frees[0]][1]
        own = [("fld", ("mem", ("arg", k + 1)), 0) for k in range(len(fn.ins or ()))] + [("fld", ("arg", k + 1), 0) for k in range(len(fn.ins or ()))]
        if tgt not in own:
            bad("freed", "frees something other than the memory the handle points to")
    # balance
    args = handle_args(F, hs, fn)
    kept = sum(1 for i in args if whole(v, I, st, i))
    if is_drop:
        if len(subs) != 1:
            bad("unlowered", "the destructor does not lower the count on a path: the memory is never freed")
        if forg or dropped or made or adds:
            bad("drop-odd", "the destructor makes or discards handles")
        return
    gone = len(args) - kept
    explicit = 1 if subs or (frees and lone) else 0
    taken = taken_handles(F, hs, fn)
    if not taken:
        if len(dropped) + len(forg) != gone:
            bad("handle", f"{gone} handle(s) are consumed on a path but {len(dropped)} destructor(s) run and {len(forg)} are suppressed")
        if explicit != len(forg):
            bad("balance", "lowers the count itself although the handle's destructor does so too" if explicit else
                "suppresses a handle's destructor without lowering the count: the memory is never freed")
    elif subs or frees or forg:
        bad("balance", "lowers the count of a handle it only borrows")
    fresh = [c for m in made for c in counts(m[2])] or [c for e in ev if e[0] == "write" for c in counts(e[2]) if isinstance(e[2], tuple)]
    if made:
        if fresh:
            if any(c != ("c", len(made)) for c in fresh) or adds:
                bad("initial", f"makes {len(made)} handle(s) of a new allocation whose count starts at {fresh[0][1]}")
            if len({m[2] for m in made}) != 1:
                bad("initial", "makes handles of different allocations at once")
        else:
            if len(adds) != len(made):
                bad("uncounted", f"makes {len(made)} handle(s) but raises the count {len(adds)} time(s)")
            own = [("fld", ("mem", ("arg", k + 1)), 0) for k in range(len(fn.ins or ()))]
            if any(m[2] not in own for m in made):
                bad("other", "makes a handle of something other than the memory of the handle it copies")
            first = min((i for i, e in enumerate(ev) if e[0] == "add"), default=None)
            if first is not None and first > min(i for i, e in enumerate(ev) if e[0] == "make"):
                pass
    elif adds:
        bad("uncounted", "raises the count without making a handle: the memory is never freed")


def taken_handles(F, hs, fn):
    """Does fn take handles out of something it borrows (an Option<Sender>)?"""
    return any(F.types[t].get("k") == "ref" and any(h.split("::")[-1] + "<" in F.ts(t) for h in hs) and F.adt_of(t) not in hs for t in fn.ins or ())


def has_once(F, h):
    """Does the allocation a handle points to guard its contents with a Once?"""
    seen, work = set(), [f["t"] for f in F.adts[h]["vs"][0]["f"]]
    while work:
        ti = work.pop()
        if ti in seen or ti is None:
            continue
        seen.add(ti)
        t = F.types[ti]
        if t.get("k") == "adt":
            if "sync::" in t["d"] and t["d"].endswith("Once"):
                return True
            work += [a for a in t.get("a", []) if isinstance(a, int)]
            if t["d"] in F.adts:
                work += [f["t"] for v in F.adts[t["d"]]["vs"] for f in v["f"]]
        elif t.get("k") in ("ref", "ptr"):
            work.append(t["t"])
    return False


COPIES = ("read", "read_volatile", "read_unaligned", "transmute_copy", "copy", "copy_nonoverlapping", "copy_to", "copy_from", "copy_to_nonoverlapping",
          "copy_from_nonoverlapping", "assume_init_read", "zeroed")


def contains(F, ti, hs, seen=None):
    """Does a value of type ti hold a handle (not behind a pointer)?"""
    seen = seen if seen is not None else set()
    if ti in seen or ti is None:
        return False
    seen.add(ti)
    t = F.types[ti]
    if t.get("k") == "adt":
        d = t["d"]
        if d in hs:
            return True
        if d.startswith("core::ptr") or d.endswith("PhantomData"):
            return False
        if any(contains(F, a, hs, seen) for a in t.get("a", []) if isinstance(a, int)):
            return True
        return d in F.adts and any(contains(F, f["t"], hs, seen) for v in F.adts[d]["vs"] for f in v["f"])
    if t.get("k") == "tuple":
        return any(contains(F, x, hs, seen) for x in t.get("ts", t.get("a", [])) if isinstance(x, int))
    if t.get("k") in ("array", "slice"):
        return contains(F, t["t"], hs, seen)
    return False


def check_copies(cx, F, hs):
    """Outside the modules of the handles, no raw copy duplicates a value that holds one."""
    mods = {h.rsplit("::", 1)[0] for h in hs}
    n = 0
    for fn in F.fns.values():
        if not fn.body or (fn.raw.get("mod") or "") in mods:
            continue
        for bb, t, c in calls(fn):
            if not c or c["nm"] not in COPIES or not c["p"].startswith(("core::ptr", "core::mem", "core::intrinsics", "std::ptr")):
                continue
            n += 1
            if any(contains(F, a, hs) for a in c["a"] if isinstance(a, int)):
                cx.viol(f"raw-copy:{fn.p}", fn.sp, f"duplicates a value holding a share of a counted allocation with `{c['nm']}`, without raising the count")
    cx.ob("raw copies", f"{n} raw copies outside the handles' modules")
