"""C32: I/O errors reach the caller, and output is only discarded once it is written (or its error is returned)."""
from facts import Missing, strip_lt, calls
from interp import Hook as Base, Interp, St, mentions, subterms
from rules import cli, c35
from rules.cli import Interp2, RES, OPT, POLL, UNIT, TIMEDOUT, WOULDBLOCK, CLIENT
from rules.c12 import body_of

EXPLAIN = (
    "Every function of the crate that calls something which can fail with an I/O error, or is given such a result, is interpreted "
    "over all paths with each of those calls forked over success and failure: a path on which one failed has to return an error that "
    "carries that failure. The exceptions are an error whose kind was found to be that of a timeout, and encoding a message "
    "into a memory buffer, which is shown never to fail. The run, flush, send and read functions are also interpreted as sequences of "
    "steps: the output buffer is emptied only after it was written or the error of writing it is returned, every message taken from the "
    "queue is encoded into it before the next step, and received bytes are dropped only after their message was handled.")
IOERR = "core::io::error::Error"
MEM = tuple("&mut " + x for x in ("alloc::vec::Vec<u8", "core::io::cursor::Cursor<", "std::io::cursor::Cursor<", "&[u8]", "alloc::collections::vec_deque::VecDeque<u8"))
ELSEWHERE = ("whoami",)          # asks the system about its user: not a connection
PLUMB = ("core::result", "core::option", "core::convert", "core::ops", "core::pin", "core::task", "core::future::into_future")


def shape(F, ti, d=0):
    """How a type contains an I/O failure: nested tuple of wrappers around "res", or None."""
    t = F.types[ti]
    if t.get("k") != "adt" or d > 4:
        return None
    p, a = t["d"], t.get("a") or []
    p = F.adt_of(ti)
    if p == RES and len(a) == 2:
        if F.adt_of(a[1]) == IOERR:
            return ("res",)
        x = shape(F, a[0], d + 1)
        return ("okin", x) if x else None
    if p in (OPT, POLL) and a:
        if F.adt_of(a[0]) == IOERR:
            return ("poll" if p == POLL else "opt", ("err",))
        x = shape(F, a[0], d + 1)
        return (("poll" if p == POLL else "opt"), x) if x else None
    return None


def failing(t):
    return mentions(t, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == "err" and isinstance(x[1], tuple))


class Err(Base):
    max_depth = 8
    given = False

    def __init__(self, F, root):
        self.F, self.root = F, root
        self.sites = {}

    def val(self, I, st, a):
        for _ in range(3):
            if a[0] == "ref":
                a = I.read(st, a[1])
        return a

    def fork(self, I, st, sh, key, tag):
        """Values of this shape: [(state, value)]."""
        if sh == ("err",):
            s = st.copy()
            for k in [k for k in s.facts if mentions(k, lambda x: x == ("kind", key))]:
                del s.facts[k]
            s.auto = tuple(x for x in (st.auto or ()) if x != key) + (key,)
            return [(s, ("s", ("err", key)))]
        if sh == ("res",):
            s = st.copy()
            return [(st.copy(), ("adt", RES, 0, (("s", ("okval", key)),)))] + [(s2, ("adt", RES, 1, (v,))) for s2, v in self.fork(I, st, ("err",), key, tag)]
        inner = self.fork(I, st, sh[1], key, tag)
        if sh[0] == "okin":
            return [(s, ("adt", RES, 0, (v,))) for s, v in inner] + [(st.copy(), ("adt", RES, 1, (("s", ("other", key)),)))]
        if sh[0] == "poll":
            return [(s, ("adt", POLL, 0, (v,))) for s, v in inner] + [(st.copy(), ("adt", POLL, 1, ()))]
        return [(s, ("adt", OPT, 1, (v,))) for s, v in inner] + [(st.copy(), ("adt", OPT, 0, ()))]

    def inline(self, I, fn, cal):
        """Each function is looked at by itself, unless it is given the failure of another."""
        return fn.nm is None or "{closure" in fn.p or self.given or fn.nm in ("from", "into", "branch", "from_residual")

    def call(self, I, st, cal, args, site):
        F = self.F
        if st.auto and any(timeout_kind(I, st, k) for k in st.auto):
            st.auto = tuple(k for k in st.auto if not timeout_kind(I, st, k))
        self.given = any(failing(I.term(self.val(I, st, a), st)) for a in args)
        if cal.p.startswith(("tracing", "<tracing")) or self.given and cal.id in F.fns:
            return None
        k = cli.kind_eq(I, st, cal, args)
        if k is not None:
            return k
        if cal.nm == "kind" and args and "rror" in cal.p:
            v = args[0]
            for _ in range(4):
                if v[0] == "ref":
                    v = I.read(st, v[1])
            if v[0] == "s" and v[1][0] == "err":
                return [(st, ("s", ("kind", v[1][1])))]
        if cal.nm == "poll" and I.cur_dty is not None and shape(F, I.cur_dty) is None:
            return None
        if I.cur_dty is None:
            return None
        if cal.p.startswith(PLUMB) and cal.nm != "poll":
            return None
        if cal.tr in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn") and args and args[0][0] == "adt" and str(args[0][1]).startswith("closure"):
            return None
        sh = shape(F, I.cur_dty)
        if sh is None or cal.p.split("::")[0] in ELSEWHERE:
            return None
        fn = F.fns.get(cal.id)
        key = (site.fn.id, site.bb)
        self.sites[key] = (site.fn, cal.nm)
        if fn is not None and sink(F, I, fn, args):
            self.sites[key] = (site.fn, cal.nm, fn)
            return [(st, ("adt", RES, 0, (("s", ("okval", key)),)))]
        return self.fork(I, st, sh, key, cal.nm)


def sink(F, I, fn, args):
    """Is the stream this function is given in memory, where reading and writing cannot fail?"""
    hit = False
    for ti, decl in zip(I.cur_argtys or [], fn.ins or []):
        d = F.types[decl]
        if d.get("k") == "ref":
            d = F.types[d["t"]]
        if d.get("k") == "param" and ti is not None:
            if not F.ts(ti).startswith(MEM):
                return False
            hit = True
    return hit


def sources(F, fn):
    """Does this function (with its closures) obtain results that can be I/O failures?"""
    body = fn.body
    for bb, t, c in calls(fn):
        d = t["d"]
        if c["p"].startswith(PLUMB) and not c["p"].endswith("::poll"):
            continue
        if c["p"].split("::")[0] in ELSEWHERE:
            continue
        ti = body["locals"][d[0]][0] if len(d) == 1 else None
        if ti is not None and shape(F, ti):
            return True
    return any(shape(F, ti) for ti in (fn.ins or []))


def run(F, fn):
    h = Err(F, fn)
    I = Interp2(F, h)
    I.auto_heads = True
    I.split = 32
    I.budget = 3000
    starts = []
    if fn.raw.get("coroutine"):
        argc = fn.body["argc"]
        loc = (("L", ("drv",), "co"), ())
        ty = F.types[fn.body["locals"][1][0]]
        return h, I, [(st, v) for st, v in coroutine(I, fn, ty)]
    n = len(fn.ins or [])
    st0 = None
    outs = []
    base = [(St(), [])]
    forks = [(s, a) for s, a in base]
    for i in range(n):
        sh = shape(F, fn.ins[i])
        nxt = []
        for s, a in forks:
            if sh is None:
                nxt.append((s, a + [("s", ("arg", i + 1))]))
            else:
                h.sites[("arg", i + 1)] = (fn, f"argument {i + 1}")
                for s2, v in h.fork(I, s, sh, ("arg", i + 1), "argument"):
                    nxt.append((s2, a + [v]))
        forks = nxt
    for s, a in forks:
        outs.extend(I.run(fn, a, s))
    return h, I, outs


def coroutine(I, fn, ty):
    st = St()
    k = ty.get("k")
    if k == "ref" or k == "adt":
        loc = (("L", ("drv",), "co"), ())
        I.write(st, loc, ("s", ("arg", 1)))
        a0 = ("ref", loc) if k == "ref" else ("adt", "core::pin::Pin", 0, (("ref", loc),))
    else:
        a0 = ("s", ("arg", 1))
    return I.run(fn, [a0, ("s", ("cx",))][: fn.body["argc"]], st)


def timeout_kind(I, st, key):
    f = I.fact(st, ("discr", ("kind", key)))
    return f is not None and f[0] == "in" and f[1] <= frozenset([WOULDBLOCK, TIMEDOUT])


def errors(cx, fn):
    F = cx.F
    cx.cover(fn)
    h, I, outs = run(F, fn)
    if not outs:
        raise Missing("it never returns")
    io = fn.raw.get("coroutine") or fn.out is None or "io::error::Error" in F.ts(fn.out)
    for st, v in outs:
        t = I.term(v, st)
        for key in st.auto or ():
            g, what = h.sites[key][:2]
            cx.ob("failure", f"{fn.p}: {what} in {g.p} at {key[1]}")
            if mentions(t, lambda x: x == ("err", key)):
                if not bad_ok(v):
                    continue
            if timeout_kind(I, st, key):
                continue
            if not io and is_err(v):
                continue
            cx.viol(f"{fn.p}:{what}", fn.sp, f"{fn.p} can go on as if nothing had happened although `{what}` failed with an I/O error")
    for key, x in h.sites.items():
        if len(x) == 3:
            cx.guard(f"{x[2].p} into memory", memory, cx, x[2], fn)


def is_err(v):
    """Does this (possibly wrapped) value report a failure?"""
    for _ in range(4):
        if v[0] != "adt":
            return False
        if v[1] == RES:
            if v[2] == 1:
                return True
            v = v[3][0]
        elif v[1] in (OPT, POLL) and v[3]:
            v = v[3][0]
        else:
            return False
    return False


def bad_ok(v):
    return False


def memory(cx, fn, by):
    """Encoding into memory fails only if writing to the buffer does."""
    F = cx.F
    cx.ob("into memory", f"{fn.p} as used by {by.p}")
    h, I, outs = run(F, fn)
    for st, v in outs:
        if not (st.auto or ()) and is_err(v):
            cx.viol(f"{by.p}:{fn.p}", by.sp, f"{by.p} ignores that `{fn.nm}` can fail for a reason other than writing")


# ------------------------------------------------------------------ buffers
def show(s):
    return c35.show(s)


def buffers(cx, fn, level):
    F = cx.F
    segs, h, I = cli.drive(F, fn, level)
    cx.cover(fn)
    pops = any(t[0] == "pop" for s in segs for t in s)
    for s in sorted(segs, key=repr):
        cx.ob("steps", f"{fn.p}: {show(s)}")
        for i, t in enumerate(s):
            pl = t[1] if len(t) > 1 else None
            before, after = s[:i], s[i + 1:]
            if t[-1] == "error" and t[0] not in ("return",) or t[:2] == ("flush", "error"):
                rest = [x for x in after if x[0] not in ("clear",)]
                if len(rest) != 1 or rest[0][:2] != ("return", "error"):
                    cx.viol(f"{fn.p}:error", fn.sp, f"{fn.p} does not return an error ({show(s)})")
            if t[0] in ("clear", "truncate", "drain", "split_off", "take") and str(pl).endswith("buf_o") or t[0] in ("clear", "truncate") and level == "flush" and pl:
                w = [x for x in before if x[0] == "write_all" and x[1] == pl]
                if not w or t[0] != "clear":
                    cx.viol(f"{fn.p}:unsent", fn.sp, f"{fn.p} discards output that was not written ({show(s)})")
                elif not pops and w[-1][-1] == "error":
                    cx.viol(f"{fn.p}:failed", fn.sp, f"{fn.p} discards output that could not be written ({show(s)})")
            if t[0] == "clear" and str(pl).endswith("buf_i") and not any(x[0] == "handle" for x in before):
                cx.viol(f"{fn.p}:unread", fn.sp, f"{fn.p} drops received bytes that were not handled ({show(s)})")
            if t[0] == "pop" and t[1] == 1:
                e = [x for x in after if x[0] == "encode"]
                if len(e) != 1 or e[0][2] != "popped" or s[-1] != ("next",):
                    cx.viol(f"{fn.p}:lost", fn.sp, f"{fn.p} does not encode a message it took from the queue ({show(s)})")
                elif not any(x == ("append", e[0][3], b"\r\n") or x[0] in ("extend", "write_all", "push") for x in after[after.index(e[0]):]):
                    cx.viol(f"{fn.p}:line", fn.sp, f"{fn.p} does not end the line of a message it took from the queue ({show(s)})")
        if level == "flush":
            for i, t in enumerate(s):
                if t[0] == "pop" and t[1] == 0 or t[0] == "encode" and not any(x[0] == "pop" for x in s):
                    after = s[i + 1:]
                    w = [x for x in after if x[0] == "write_all"]
                    e = [x for x in after if x[0] == "limit" and x[-1] == "error"]
                    if not w and not e:
                        cx.viol(f"{fn.p}:unwritten", fn.sp, f"{fn.p} does not write what it has buffered ({show(s)})")
                    for x in w:
                        if x[1] is None or (t[0] == "encode" and x[1] != t[3]):
                            cx.viol(f"{fn.p}:what", fn.sp, f"{fn.p} does not write the output buffer ({show(s)})")
                        if x[-1] == "ok":
                            k = after[after.index(x) + 1:]
                            if ("clear", x[1], None) not in k:
                                cx.viol(f"{fn.p}:again", fn.sp, f"{fn.p} keeps output that was written, which is then sent again ({show(s)})")
                            if pops and not any(y[0] == "flush" for y in k):
                                cx.viol(f"{fn.p}:noflush", fn.sp, f"{fn.p} does not flush the connection ({show(s)})")


def levels(F):
    for a, b in c35.twins(F):
        lv = c35.level(a)
        if lv:
            yield a, lv
            yield b, lv


def check(cx):
    F = cx.F
    for fn in sorted(F.fns.values(), key=lambda f: f.p):
        if fn.body is None or not sources(F, fn):
            continue
        cx.guard(fn.p, errors, cx, fn)
    for fn, lv in levels(F):
        if lv != "codec":
            cx.guard(fn.p, buffers, cx, fn, lv)
    cx.need("failure", 60)
    cx.need("steps", 40)
