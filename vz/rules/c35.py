"""C35: the blocking and the asynchronous client do the same thing."""
from facts import Missing, strip_lt
from rules import cli

EXPLAIN = (
    "Each blocking operation that has an asynchronous counterpart (running the client, flushing its queue, reading and sending "
    "messages) is interpreted together with that counterpart over all paths, with the same steps (flush, read and its limit, timers, "
    "handlers, queue, buffer changes, writes) left opaque and forked over their outcomes. The sets of step sequences the two "
    "can take, cut at every flush, popped message or byte looked at and ended by what is returned, have to be equal.")
SUF = "_tokio"


def sig(F, fn):
    s = fn.impl and fn.impl.get("self")
    return (strip_lt(F.ts(s)).split("<")[0] if s is not None else "")


def twins(F):
    """(blocking, asynchronous) pairs of functions: same type, the same name but for the suffix."""
    by = {}
    for f in F.fns.values():
        if f.body is not None and f.nm and not f.raw.get("coroutine") and f.reach:
            by.setdefault((sig(F, f), f.nm), []).append(f)
    out = []
    for (ty, nm), fs in sorted(by.items()):
        if SUF in nm and len(fs) == 1:
            b = by.get((ty, nm.replace(SUF, "")), [])
            if len(b) == 1:
                out.append((b[0], fs[0]))
    return out


def show(s):
    return "; ".join(" ".join(str(x) for x in t) for t in s) or "nothing"


def pair(cx, a, b, level):
    F = cx.F
    cx.cover(a)
    cx.cover(b)
    sa, ha, _ = cli.drive(F, a, level)
    sb, hb, _ = cli.drive(F, b, level)
    # the limit on writing is given to a blocking connection, and enforced around each write of an asynchronous one
    sa = cli.drop({s for s in sa if ("return", "error", "limit") not in s}, "limit") if level != "codec" else sa
    sb = cli.drop(sb, "limit") if level != "codec" else sb
    for s in sorted(sa | sb, key=repr):
        cx.ob("step sequence", f"{a.p} / {b.p}: {show(s)}")
    for x, y, f, g in ((sa, sb, a, b), (sb, sa, b, a)):
        d = sorted(x - y, key=lambda s: (len(s), repr(s)))
        if d:
            cx.viol(f"{a.p}", f.sp, f"{f.p} can do what {g.p} never does: {show(d[0])}" + (f" (and {len(d) - 1} more)" if len(d) > 1 else ""))
            break


def level(a):
    if a.nm == "run":
        return "run"
    if a.nm.startswith(("flush", "send")):
        return "flush"
    if a.nm.startswith("read_"):
        return "codec"
    return None


def check(cx):
    F = cx.F
    for a, b in twins(F):
        lv = level(a)
        if lv is None:
            continue
        cx.ob("pair", f"{a.p} / {b.p}")
        cx.guard(a.p, pair, cx, a, b, lv)
    cx.need("pair", 8)
    cx.need("step sequence", 60)
