"""C23: only thread-safe values can cross threads."""
from facts import Missing

EXPLAIN = ("Every unsafe assertion of Send or Sync in the crate is enumerated. From the signatures of every function that takes the "
           "type (by value or by reference) the analysis derives what a holder can reach of each type parameter: a value, a "
           "reference, or another owner of the same allocation. The bounds under which the compiler's trait solver accepts the "
           "assertion must include what that access requires (Send for moving a value across, Sync for sharing a reference to it). "
           "Everything else inside the type, through raw pointers too, must itself be thread-safe. The trait solver is also asked "
           "whether the public string, message, name, state and client types are Send and Sync.")
ASSUME = ["the trait solver of the compiler decides Send and Sync for the types the crate only composes",
          "standard library types are thread-safe except cells, single-threaded reference counts and lock guards"]
NOT_SYNC = ("core::cell::Cell", "core::cell::RefCell", "core::cell::UnsafeCell", "core::cell::OnceCell", "core::cell::LazyCell",
            "std::sync::mpsc::Receiver")
NOT_SEND = ("alloc::rc::Rc", "alloc::rc::Weak", "std::sync::MutexGuard", "std::sync::RwLockReadGuard", "std::sync::RwLockWriteGuard",
            "std::sync::poison::mutex::MutexGuard")
PTRS = ("core::ptr::NonNull", "core::ptr::non_null::NonNull", "core::sync::atomic::AtomicPtr")
# Public types that hold values of a trait whose implementors are chosen elsewhere, and are documented to be used by one thread.
NO_SYNC_MODS = ("client::",)
NOT_ASSERTED = ("names::types::NameMap", "client::handler::channel::SenderRef")


def private(fn):
    """Only callable from the module it is in, which is where the unsafe code of the type lives."""
    v = fn.raw.get("vis") or "Public"
    return fn.trait is None and not (fn.impl or {}).get("tr") and v.startswith("Restricted") and v.rstrip(")").endswith("::" + fn.raw.get("mod", "?").split("::")[-1])


def targs(F, ti):
    return [a for a in F.types[ti].get("a", []) if isinstance(a, int)]


def mentions(F, ti, name, under=False, out=None, depth=0):
    """How a type mentions parameter `name`: subset of {'own', 'ref'}."""
    out = set() if out is None else out
    t = F.types[ti]
    k = t["k"]
    if depth > 12:
        return out
    if k == "param":
        if t["d"] == name:
            out.add("ref" if under else "own")
    elif k == "ref":
        # An exclusive reference gives as much as the value itself.
        mentions(F, t["t"], name, True if not t["m"] else under, out, depth + 1)
    elif k == "ptr":
        pass
    elif k in ("slice", "array"):
        mentions(F, t["t"], name, under, out, depth + 1)
    elif k in ("adt", "tuple"):
        if t.get("d") in PTRS:
            return out
        for a in targs(F, ti):
            mentions(F, a, name, under, out, depth + 1)
    elif k == "alias":
        for a in targs(F, ti):
            if mentions(F, a, name):
                out.add("ref")
    elif k in ("closure", "fndef", "fnptr", "dyn", "other") and name in F.ts(ti).replace("<", " ").replace(">", " ").replace(",", " ").split():
        out.add("own")
    return out


def holders(F, ti, adt, mode="own", depth=0):
    """Occurrences of adt in a type: yields (mode, type index)."""
    t = F.types[ti]
    k = t["k"]
    if depth > 8:
        return
    if k == "adt":
        if t["d"] == adt:
            yield mode, ti
            return
        for a in targs(F, ti):
            yield from holders(F, a, adt, mode, depth + 1)
    elif k == "ref":
        yield from holders(F, t["t"], adt, "ref" if not t["m"] else ("mut" if mode == "own" else mode), depth + 1)
    elif k in ("slice", "array"):
        yield from holders(F, t["t"], adt, mode, depth + 1)
    elif k == "tuple":
        for a in targs(F, ti):
            yield from holders(F, a, adt, mode, depth + 1)


def pointees(F, adt, seen=None):
    """Local types reached through raw pointers or phantom markers of the fields of adt."""
    out = set()
    for v in F.adts[adt]["vs"]:
        for f in v["f"]:
            t = F.types[f["t"]]
            if t["k"] == "adt" and (t["d"] in PTRS or t["d"].endswith("PhantomData")):
                for a in targs(F, f["t"]):
                    if F.types[a]["k"] == "adt" and F.types[a]["d"] in F.adts:
                        out.add(F.types[a]["d"])
            if t["k"] == "ptr" and F.types[t["t"]]["k"] == "adt" and F.types[t["t"]]["d"] in F.adts:
                out.add(F.types[t["t"]]["d"])
    return out


def unsafe_parts(F, ti, asserted, why="", depth=0, seen=None, sync=True):
    """Things inside a type that are not thread-safe whatever its parameters are: yields descriptions."""
    seen = seen or frozenset()
    t = F.types[ti]
    k = t["k"]
    if depth > 10:
        return
    if k == "adt":
        d = t["d"]
        if d in seen:
            return
        seen = seen | {d}
        if d in NOT_SEND:
            yield f"{why}{F.ts(ti)}"
            return
        if d in NOT_SYNC:
            # A cell around a parameter is how a value is handed over under a lock; a cell around anything else is plain shared state.
            args = targs(F, ti)
            if not (args and all(F.types[a]["k"] == "param" or (F.types[a]["k"] == "adt" and any(F.types[b]["k"] == "param" for b in targs(F, a))) for a in args)):
                yield f"{why}{F.ts(ti)}"
            return
        if d in F.adts:
            if d in asserted and depth:
                for a in targs(F, ti):
                    yield from unsafe_parts(F, a, asserted, why, depth + 1, seen)
                return
            for v in F.adts[d]["vs"]:
                for f in v["f"]:
                    yield from unsafe_parts(F, f["t"], asserted, f"{d}.{f['n']}: ", depth + 1, seen)
        for a in targs(F, ti):
            yield from unsafe_parts(F, a, asserted, why, depth + 1, seen)
    elif k in ("ref", "ptr", "slice", "array"):
        yield from unsafe_parts(F, t["t"], asserted, why, depth + 1, seen)
    elif k == "tuple":
        for a in targs(F, ti):
            yield from unsafe_parts(F, a, asserted, why, depth + 1, seen)
    elif k == "dyn":
        s = F.ts(ti)
        if "Send" not in s and "Error" not in s:
            yield f"{why}{s}"


def check(cx):
    F = cx.F
    adts = F.adts
    asserted = {}
    for tr in ("Send", "Sync"):
        for im in F.impls_of.get("core::marker::" + tr, ()):
            if im.get("pol", "Positive") != "Positive":
                continue
            st = F.types[im["self"]]
            if st["k"] != "adt" or st["d"] not in adts:
                cx.viol(f"C23:{tr}:{F.ts(im['self'])}", im["sp"], f"{tr} is asserted for {F.ts(im['self'])}, which is not a type of the crate")
                continue
            asserted.setdefault(st["d"], {})[tr] = im
    alloc = {}
    for a in asserted:
        for p in pointees(F, a):
            alloc.setdefault(p, set()).add(a)
    for a, trs in sorted(asserted.items()):
        A = adts[a]
        auto = A.get("auto")
        if not auto:
            raise Missing(f"no trait facts for {a}")
        params = [p for p in A["g"] if not p.startswith("'")]
        uses = []
        shared = any(len(v) > 1 and a in v for v in alloc.values())
        cloned = False
        for fn in F.fns.values():
            if fn.ins is None or private(fn):
                continue
            for i in fn.ins:
                for mode, ti in holders(F, i, a):
                    uses.append((fn, mode, ti))
                    if mode in ("ref", "mut") and any(m == "own" and targs(F, o) == targs(F, ti) for m, o in holders(F, fn.out, a)):
                        if mode == "ref":
                            cloned = True
        shared = shared or cloned
        for tr, im in trs.items():
            have = set(auto["given"]) | set(auto[tr.lower() + "_needs"])
            if not auto[tr.lower()]:
                cx.viol(f"C23:{a}:{tr}", im["sp"], f"{a} asserts {tr} but is not {tr} even when its parameters are")
            # Interior.
            cx.ob("interior", f"{tr} for {a}: nothing inside is thread-bound")
            for w in unsafe_parts(F, im["self"], asserted):
                cx.viol(f"C23:{a}:{tr}:inside", im["sp"], f"{a} asserts {tr} but contains {w}")
                break
            for pi, P in enumerate(params):
                need = {}
                for fn, mode, ti in uses:
                    args = targs(F, ti)
                    if pi >= len(args) or F.types[args[pi]]["k"] != "param":
                        continue
                    q = F.types[args[pi]]["d"]
                    pr = set(x.split(": ", 1)[1].rsplit("::", 1)[-1] for x in (fn.raw.get("preds") or []) + ((fn.impl or {}).get("preds") or []) if x.startswith(q + ": ") and x.split(": ", 1)[1].startswith("core::marker::"))
                    got = mentions(F, fn.out, q)
                    if fn.out is not None and any(True for _ in holders(F, fn.out, a)):
                        got = got - {"own"} if not mentions_besides(F, fn.out, q, a) else got
                    put = set()
                    for i2 in fn.ins:
                        if not any(True for _ in holders(F, i2, a)):
                            put |= mentions(F, i2, q)
                    cx.ob("access", f"{fn.p} on {mode} {a}<{P}>: gives {sorted(got)} takes {sorted(put)}")
                    cx.cover(fn)
                    if tr == "Send":
                        if (got or put) and "Send" not in pr:
                            need.setdefault("Send", fn)
                        if "ref" in got and shared and "Sync" not in pr:
                            need.setdefault("Sync", fn)
                    elif mode == "ref" or cloned:
                        if "own" in got | put and "Send" not in pr:
                            need.setdefault("Send", fn)
                        if "ref" in got and "Sync" not in pr:
                            need.setdefault("Sync", fn)
                            if cloned:
                                need.setdefault("Send", fn)
                # Whoever drops the last owner drops the value.
                if tr == "Send" or cloned:
                    dr = [f for f in F.fns.values() if f.impl and f.impl.get("tr") == "core::ops::drop::Drop" and F.adt_of(f.impl["self"]) == a]
                    if dr:
                        need.setdefault("Send", dr[0])
                for m, fn in need.items():
                    cx.ob("bound", f"{tr} for {a} needs {P}: {m} (because of {fn.p})")
                    if f"{P}: {m}" not in have:
                        cx.viol(f"C23:{a}:{tr}:{P}:{m}", im["sp"],
                                f"{a} asserts {tr} without {P}: {m}, but {fn.p} ({fn.sp}) gives the holder access to {P}: a thread-bound value could cross threads")
    # Public types.
    for p, A in sorted(adts.items()):
        if not A.get("reach") or "::_::" in p or not A.get("auto"):
            continue
        if p.startswith(NOT_ASSERTED):
            continue
        top = p.split("::")[0]
        if top not in ("string", "ircmsg", "names", "state", "client", "error"):
            continue
        cx.ob("public", f"{p} is Send")
        if not A["auto"]["send"]:
            cx.viol(f"C23:{p}:send", A["sp"], f"{p} can no longer be sent to another thread")
        if not p.startswith(NO_SYNC_MODS) or p in CLIENT_SYNC:
            cx.ob("public", f"{p} is Sync")
            if not A["auto"]["sync"]:
                cx.viol(f"C23:{p}:sync", A["sp"], f"{p} can no longer be shared between threads")
    cx.need("access", 12)
    cx.need("interior", 8)
    cx.need("public", 150)


# Client types that are values users hand around, not the running machinery.
CLIENT_SYNC = set("""client::conn::ServerAddr client::conn::sync::Stream client::conn::tokio::StreamTokio client::tls::Trust
client::tls::TlsConfigOptions client::auth::secret::Secret client::auth::AnySasl client::auth::sasl::password::Plain
client::auth::sasl::password::Password client::auth::sasl::external::External client::register::defaults::Options
client::register::handler::Registration client::register::handler::HandlerError client::auth::handler::HandlerError
client::handler::channel::oneshot::Receiver client::handler::channel::oneshot::Sender client::handler::channel::parker::Parker
client::handler::channel::parker::Unparker client::handler::channel::SyncChannels client::handler::channel::TokioChannels
client::logic::ClientState client::nick::Nicks client::nick::suffix::Suffix client::nick::suffix::SuffixGen
client::cap::ServerMsgArgs client::register::Register""".split())


def mentions_besides(F, ti, q, adt, depth=0):
    """Whether a type mentions the parameter outside an occurrence of adt."""
    t = F.types[ti]
    k = t["k"]
    if depth > 10:
        return True
    if k == "adt" and t["d"] == adt:
        return False
    if k == "param":
        return t["d"] == q
    if k in ("ref", "ptr", "slice", "array"):
        return mentions_besides(F, t["t"], q, adt, depth + 1)
    if k in ("adt", "tuple", "alias"):
        return any(mentions_besides(F, a, q, adt, depth + 1) for a in targs(F, ti))
    return False
