"""C12: a written message is one line and cannot be injected into."""
from facts import Missing, strip_lt, calls
from interp import Interp, St
from rules.out import Out, NAMES

EXPLAIN = (
    "Every function that writes a message or a part of one to a byte sink, and every function that sends or "
    "buffers client messages, is interpreted over all its paths; each piece written (constant bytes, or a "
    "string with the byte class its type guarantees) is fed to an automaton for the line grammar "
    "(tags, source, command, words, colon + trailing text, CR LF once). A piece the grammar does not allow in "
    "the state reached, a wrong final state, or a buffer that is not emptied before reuse is reported.")
MSG = "ircmsg::"
START = {"ircmsg::client::ClientMsg": (("S0",), ("K", "END")), "ircmsg::server::ServerMsg": (("S0",), ("K", "END")),
         "ircmsg::source::Source": (("N0",), ("N1", "H1")), "ircmsg::source::UserHost": (("UH",), ("H1",)),
         "ircmsg::tags::Tags": (("S0",), ("S0", "T1", "T3"))}


def deref(F, ti):
    while F.types[ti].get("k") == "ref":
        ti = F.types[ti]["t"]
    return ti


def writers(F):
    """Functions that write a message (or a part of one) to a generic byte sink: (fn, msg arg, sink arg, adt)."""
    out = []
    for fn in F.fns.values():
        if fn.body is None or not fn.reach:
            continue
        ms, ws = [], []
        for i, ti in enumerate(fn.ins or ()):
            d = deref(F, ti)
            t = F.types[d]
            if t.get("k") == "adt" and strip_lt(t["d"]) in START:
                ms.append((i + 1, strip_lt(t["d"])))
            if t.get("k") == "param" and F.types[ti].get("m"):
                if any("io::write::Write" in str(p) for p in fn.raw.get("preds", [])):
                    ws.append(i + 1)
        if len(ms) == 1 and len(ws) == 1 and len(fn.ins) == 2:
            out.append((fn, ms[0][0], ws[0], ms[0][1]))
    return out


def writer(cx, fn, m, w, adt):
    F = cx.F
    start, end = START[adt]
    cx.cover(fn)
    root = (("M", ("arg", w)), ())

    def sink(I, st, r):
        return start if r == root else None
    H = Out(F, sink)
    I = Interp(F, H)
    I.auto_heads = True
    I.split = 64
    n = 0
    for st, v in I.run(fn):
        n += 1
        ss = dict(st.auto or ()).get(root, start)
        cx.ob("writer path", f"{fn.p} path {n}")
        if v[0] == "adt" and v[2] == 1:
            continue
        if not (v[0] == "adt" and v[2] == 0):
            cx.viol(f"{fn.p}:result", fn.sp, f"{fn.p}: a result that does not come from writing")
        elif ss != ("BAD",) and not set(ss) & set(end):
            cx.viol(f"{fn.p}:end", fn.sp, f"{fn.p} may return successfully {' or '.join(NAMES.get(s, s) for s in ss)}")
    for (k, where), msg in H.bad.items():
        cx.viol(f"{fn.p}:{k}:{where}", where, f"{msg} (writing {adt} in {fn.p})")
    for s in H.sites:
        cx.ob("write site", f"{fn.p} {s}")


def place_ty(I, r):
    """Type of the place a receiver names."""
    (k, t), proj = r[0][:2], r[1]
    ti = I.ttype(("mem", t))
    for p in proj:
        if ti is None:
            return None
        if p[0] == "f":
            ti = I.field_ty(ti, 0, p[1])
        else:
            return None
    return ti


def sender(cx, fn, kind):
    """send_to: one message and its terminator go out, the buffer is emptied; encode: they are appended; flush: any number."""
    F = cx.F
    cx.cover(fn)

    def sink(I, st, r):
        ti = place_ty(I, r)
        if ti is None:
            return None
        s = F.ts(ti)
        if s.startswith(("alloc::vec::Vec<u8", "bytes::bytes_mut::BytesMut")):
            return ("S0",)
        if F.types[ti].get("k") in ("param", "alias", "opaque"):
            return ("S0",)
        return None
    H = Out(F, sink, opaque=("client::queue::Queue::pop",))
    I = Interp(F, H)
    I.auto_heads = True
    I.split = 64
    n = 0
    for st, v in I.run(fn):
        n += 1
        cx.ob("sender path", f"{fn.p} path {n}")
        ok = not (v[0] == "adt" and v[1] == "core::result::Result" and v[2] == 1)
        for r, ss in st.auto or ():
            buf = F.ts(place_ty(I, r)).startswith(("alloc::vec::Vec<u8", "bytes::bytes_mut::BytesMut"))
            if ss == ("BAD",):
                continue
            if buf and kind != "encode":
                if ss != ("S0",) and (ok or kind == "flush"):
                    cx.viol(f"{fn.p}:left", fn.sp, f"{fn.p} may return with the output buffer {' or '.join(NAMES.get(s, s) for s in ss)}, not empty: its text would go out again with the next message")
            elif ok and ss not in ([("L",)] if kind != "flush" else [("L",), ("S0",)]):
                cx.viol(f"{fn.p}:line", fn.sp, f"{fn.p} may return successfully with the output {' or '.join(NAMES.get(s, s) for s in ss)}: a message must be ended by exactly one line terminator")
        if ok and kind != "flush" and not any(ss == ("L",) for r, ss in st.auto or ()) and ("BAD",) not in [x for _, x in st.auto or ()]:
            cx.viol(f"{fn.p}:none", fn.sp, f"{fn.p} may return successfully without a message having been written")
    for (k, where), msg in H.bad.items():
        cx.viol(f"{fn.p}:{k}:{where}", where, f"{msg} (in {fn.p})")
    for s in H.sites:
        cx.ob("write site", f"{fn.p} {s}")
    if not H.sites:
        raise Missing(f"{fn.p} writes nothing")


def body_of(F, fn):
    """The function itself, or the coroutine an async function returns."""
    for g in F.fns.values():
        if g.raw.get("coroutine") and g.raw.get("parent") == fn.id:
            return g
    return fn


def pops(F, fn, d=0):
    """Does a public method take messages off the queue (itself or through private helpers)?"""
    for _, _, c in calls(body_of(F, fn)):
        if c["p"].endswith("queue::Queue::pop"):
            return True
        g = F.fns.get(c.get("id"))
        if g is not None and not g.reach and g.body is not None and d < 3 and pops(F, g, d + 1):
            return True
    return False


def senders(F):
    out = []
    for fn in F.fns.values():
        if fn.body is None or not fn.ins:
            continue
        ds = [deref(F, ti) for ti in fn.ins]
        ad = [strip_lt(F.types[d]["d"]) if F.types[d].get("k") == "adt" else None for d in ds]
        msg = [a for a in ad if a in ("ircmsg::client::ClientMsg", "ircmsg::server::ServerMsg")]
        vec = any(F.ts(d) == "alloc::vec::Vec<u8>" and F.types[t].get("m") for d, t in zip(ds, fn.ins))
        if msg and vec and any(F.types[d].get("k") == "param" for d in ds) and fn.reach:
            out.append((body_of(F, fn), "send"))
        elif fn.nm == "encode" and msg and any("BytesMut" in F.ts(d) for d in ds):
            out.append((fn, "encode"))
        elif "client::Client" in ad and fn.reach and pops(F, fn):
            out.append((body_of(F, fn), "flush"))
    return out


def check(cx):
    F = cx.F
    ws = writers(F)
    for fn, m, w, adt in ws:
        cx.guard(fn.p, lambda fn=fn, m=m, w=w, adt=adt: writer(cx, fn, m, w, adt))
    for fn, kind in senders(F):
        cx.ob("sender", fn.p)
        cx.guard(fn.p, lambda fn=fn, kind=kind: sender(cx, fn, kind))
    cx.need("writer path", 20)
    cx.need("sender", 10)
