"""C14: reading a message from a stream is bounded, and a line is accepted only with its terminator."""
from facts import Missing, calls
from interp import Interp, subterms
from rules.strs import StrHook
from rules.c12 import body_of, deref
from seqs import lin

EXPLAIN = (
    "Every function that reads messages from a byte stream into a buffer is interpreted over all its paths. Each read must go "
    "through a length-limited adapter whose limit, at that point, is the documented maximum minus the buffer's current length "
    "(known not to wrap), every failed or empty read must end in an error, and the message parser may only be reached on paths "
    "that saw a line feed at the end of what was read. For the framed codec, the scanner may report a frame only at the limit, a "
    "line feed or a NUL, and a frame is only parsed if it ends in a line feed.")
MAX = {"ircmsg::server::ServerMsg": 8703, "ircmsg::client::ClientMsg": 4608}
READS = ("read_until", "read_line", "read", "read_to_end", "read_exact", "read_to_string", "read_buf", "fill_buf", "lines", "split",
         "bytes", "chain", "read_u8", "poll_read", "poll_fill_buf", "consume", "skip_until", "read_vectored", "take_until")
TAKE = "#take"


def parsers(F):
    return {f"{m}::parse": m for m in MAX}


class Reader(StrHook):
    max_depth = 14

    def __init__(self, F, limit):
        super().__init__(F)
        self.P = parsers(F)
        self.limit = limit
        self.bad = {}
        self.futs = {}
        self.reads = set()
        self.accepts = set()
        self.buf = None

    def inline(self, I, fn, cal):
        return fn.p not in self.P

    def snapshot(self):
        return dict(self.bad)

    def restore(self, s):
        self.bad = dict(s)

    def fail(self, key, site, msg):
        self.bad.setdefault((key, site.where), msg)

    def seen_nl(self, I, st):
        """Is the last byte of the buffer known to be a line feed?"""
        if self.buf is None:
            return False
        v = I.read(st, self.buf)
        t = I.term(v)
        d = ("deref", t)
        for e in (("elem", ("mem", d), ("c", -1)), ("elem", d, ("c", -1))):
            f = I.byteset(st, e)
            if f is not None and set(f) == {10}:
                return True
        return False

    def mark(self, I, st):
        if not st.auto and self.seen_nl(I, st):
            st.auto = True
        return st

    def stmt(self, I, st, s, site):
        self.mark(I, st)
        return super().stmt(I, st, s, site)

    def loc(self, I, st, a):
        for _ in range(6):
            if a[0] == "ref":
                v = I.read(st, a[1])
                if v[0] == "ref":
                    a = v
                    continue
                return a[1]
            if a[0] == "s":
                return (("M", a[1]), ())
            if a[0] == "adt" and a[1].startswith("core::pin") and a[3]:
                a = a[3][0]
                continue
            return None

    def take(self, I, st, a):
        """The length-limited adapter a value denotes, and where its limit is kept."""
        for _ in range(6):
            if a[0] == "s" and a[1][0] == TAKE:
                return a, (("M", ("limit", a[1])), ())
            if a[0] == "ref":
                a = I.read(st, a[1])
            elif a[0] == "adt" and a[1].startswith("core::pin") and a[3]:
                a = a[3][0]
            else:
                break
        return None, None

    def call(self, I, st, cal, args, site):
        nm = cal.nm
        F = self.F
        self.mark(I, st)
        if cal.p in self.P:
            self.accepts.add(site.where)
            if MAX[self.P[cal.p]] != self.limit:
                self.fail("dir", site, "the message parsed here is not of the direction whose length limit was applied")
            if not st.auto:
                self.fail("accept", site, "a line can be parsed as a message here on a path that has not seen its line feed")
            return None
        if cal.id not in F.fns and args:
            if nm == "take" and len(args) == 2 and I.cur_dty is not None and "Take" in F.ts(I.cur_dty):
                s2 = st.copy()
                t = (TAKE, site.fn.id, site.bb)
                I.write(s2, (("M", ("limit", t)), ()), args[1])
                return [(s2, ("s", t))]
            tk, loc = self.take(I, st, args[0])
            if nm == "set_limit" and tk is not None:
                s2 = st.copy()
                I.write(s2, loc, args[1])
                return [(s2, ("adt", "tuple", 0, ()))]
            if nm == "limit" and tk is not None:
                return [(st, I.read(st, loc))]
            if nm == "by_ref" and tk is not None:
                return [(st, args[0])]
            if nm in READS and (tk is not None or self.is_reader(I, args[0])):
                return self.read(I, st, cal, args, site, loc)
            if nm == "poll":
                v = args[0]
                for _ in range(6):
                    if v[0] == "adt" and v[1].startswith("core::pin") and v[3]:
                        v = v[3][0]
                    elif v[0] == "ref":
                        v = I.read(st, v[1])
                    else:
                        break
                if v[0] == "s" and v[1] in self.futs:
                    return [(s, ("adt", "core::task::poll::Poll", 0, (x,))) for s, x in self.apply(I, st, *self.futs[v[1]])]
        return super().call(I, st, cal, args, site)

    def is_reader(self, I, a):
        ti = I.cur_argtys[0] if I.cur_argtys else None
        for _ in range(4):
            if ti is None:
                return False
            t = self.F.types[ti]
            if t.get("k") == "ref":
                ti = t["t"]
            elif t.get("k") == "adt" and "Pin" in self.F.ts(ti) and t.get("a"):
                ti = t["a"][0]
            else:
                break
        return self.F.types[ti].get("k") in ("param", "alias", "opaque", "dyn") or "Take" in self.F.ts(ti)

    def read(self, I, st, cal, args, site, tk):
        nm = cal.nm
        self.reads.add(site.where)
        if nm not in ("read_until", "read_to_end", "read_buf", "read") or (nm == "read" and tk is None):
            self.fail("op", site, f"the stream is read with `{nm}`, which is not bounded by the message length limit")
            return None
        if tk is None:
            self.fail("take", site, f"`{nm}` reads the stream without a length limit: a line that never ends is buffered until memory runs out")
            return None
        buf = self.loc(I, st, args[-1])
        limit = I.read(st, tk)
        key = (nm, limit, buf, site)
        if buf is None:
            raise Missing("the buffer read into")
        if nm == "read_until" and I.known(st, args[1]) != 10:
            self.fail("delim", site, "lines are read up to a byte other than the line feed")
        if I.cur_dty is not None and self.F.adt_of(I.cur_dty) != "core::result::Result":
            f = ("iofut", site.fn.id, site.bb, nm, I.term(limit, st), buf)
            self.futs[f] = key
            return [(st, ("s", f))]
        return self.apply(I, st, *key)

    def apply(self, I, st, nm, limit, buf, site):
        v = I.term(I.read(st, buf))
        le = ("len", ("deref", v))
        t = I.term(limit, st)
        ok = self.bounded(I, st, t, le)
        if ok is not None:
            self.fail("limit", site, f"the stream is read with a limit that {ok} (the maximum is {self.limit} bytes for one message)")
        self.buf = buf
        outs = []
        s2 = st.copy()
        n = ("readn", site.fn.id, site.bb)
        I.write(s2, buf, ("s", ("hv", nm, site.fn.id, site.bb, 0)))
        s2.auto = False
        I.assume_not(s2, n, [0])
        outs.append((s2, ("adt", "core::result::Result", 0, (("s", n),))))
        s0 = st.copy()
        s0.auto = "eof"
        outs.append((s0, ("adt", "core::result::Result", 0, (("c", 0),))))
        s3 = st.copy()
        s3.auto = "err"
        outs.append((s3, ("adt", "core::result::Result", 1, (("s", ("ioerr",)),))))
        return outs

    def bounded(self, I, st, t, le):
        K = self.limit
        t, le = strip_mem(t), strip_mem(le)
        if t[0] == "call" and t[1].split("::")[-1] == "saturating_sub":
            t, safe = ("op", "Sub", t[2][0], t[2][1]), True
        elif t[0] == "fld" and t[1][0] == "call" and t[1][1].split("::")[-1] == "checked_sub":
            t, safe = ("op", "Sub", t[1][2][0], t[1][2][1]), True
        else:
            safe = False
        c, d = lin(t)
        if not d:
            f = I.fact(st, le) or I.fact(st, ("len", ("deref", ("mem", le[1][1]))))
            return None if f is not None and f[0] == "in" and f[1] <= {0} and 0 <= c <= K else f"is {c} whatever the buffer already holds"
        if d != {le: -1}:
            return "does not account for what the buffer already holds"
        if c != K:
            return f"allows {c} bytes in all, not the documented {K}"
        if safe or self.upper(st, le) <= c:
            return None
        return "wraps around when the buffer already holds more than the maximum"

    def upper(self, st, le):
        m = 1 << 64
        for t, f in st.facts.items():
            if t[0] == "cmp" and f[0] == "in" and len(f[1]) == 1:
                v, = f[1]
                op, a, b = t[1], strip_mem(t[2]), strip_mem(t[3])
                if b == le:
                    a, b, op = b, a, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
                if a != le or b[0] != "c":
                    continue
                if not v:
                    op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}.get(op)
                if op == "Lt":
                    m = min(m, b[1] - 1)
                elif op == "Le":
                    m = min(m, b[1])
        return m


def strip_mem(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "mem":
        return strip_mem(t[1])
    return tuple(strip_mem(x) for x in t)


def readers(F):
    out = []
    for fn in F.fns.values():
        if fn.body is None or not fn.reach or not fn.ins:
            continue
        if not any(F.ts(deref(F, t)) == "alloc::vec::Vec<u8>" and F.types[t].get("m") for t in fn.ins):
            continue
        b = body_of(F, fn)
        m = parsed(F, b)
        if m and any(F.types[deref(F, t)].get("k") == "param" for t in fn.ins):
            out.append((fn, b, m))
    return out


def parsed(F, fn, d=0):
    P = parsers(F)
    s = set()
    for _, _, c in calls(fn):
        g = F.fns.get(c.get("id"))
        if g is not None and g.p in P:
            s.add(P[g.p])
        if g is not None and g.body is not None and d < 3 and not g.reach:
            s |= parsed(F, body_of(F, g), d + 1)
    return s


def reader(cx, fn, b, m):
    F = cx.F
    cx.cover(b)
    if len(m) != 1:
        raise Missing(f"{fn.p}: one message type")
    m, = m
    H = Reader(F, MAX[m])
    I = Interp(F, H)
    I.auto_heads = True
    I.split = 64
    n = 0
    for st, v in I.run(b):
        n += 1
        cx.ob("reader path", f"{fn.p} path {n}")
        if v[0] == "adt" and v[1] == "core::task::poll::Poll" and v[3]:
            v = v[3][0]
        if not (v[0] == "adt" and v[2] == 1) and st.auto in ("eof", "err"):
            cx.viol(f"{fn.p}:{st.auto}", fn.sp, f"{fn.p} may return a message after a read that {'found the stream at its end' if st.auto == 'eof' else 'failed'}")
    for (k, w), msg in H.bad.items():
        cx.viol(f"{fn.p}:{k}:{w}", w, f"{msg} (in {fn.p})")
    for r in H.reads:
        cx.ob("read site", f"{fn.p} {r}")
    for r in H.accepts:
        cx.ob("accept site", f"{fn.p} {r}")
    if not H.reads or not H.accepts:
        raise Missing(f"{fn.p}: a read and a parse")


class Framed(StrHook):
    max_depth = 14

    def __init__(self, F, limit):
        super().__init__(F)
        self.P = parsers(F)
        self.limit = limit
        self.bad = {}
        self.loops = {}
        self.accepts = set()
        self.splits = set()

    def inline(self, I, fn, cal):
        return fn.p not in self.P

    def snapshot(self):
        return dict(self.bad)

    def restore(self, s):
        self.bad = dict(s)

    def fail(self, key, where, msg):
        self.bad.setdefault((key, where), msg)

    def ends_nl(self, I, st, S):
        """Is this slice known to end in a line feed?"""
        f = I.byteset(st, ("elem", ("mem", S), ("c", -1)))
        if f is not None and set(f) == {10}:
            return True
        for t, f in st.facts.items():
            if f != ("in", frozenset([1])):
                continue
            c = t[1] if t[0] == "discr" else t
            if c[0] == "call" and c[1].split("::")[-1] in ("strip_suffix", "ends_with") and len(c[2]) == 2:
                if strip_mem(c[2][0]) == strip_mem(S) and c[2][1][0] == "b" and c[2][1][1].endswith(b"\n"):
                    return True
        return False

    def call(self, I, st, cal, args, site):
        if cal.nm == "split_to" and cal.id not in self.F.fns and len(args) == 2:
            self.splits.add(site.where)
        if cal.p in self.P:
            self.accepts.add(site.where)
            if MAX[self.P[cal.p]] != self.limit:
                self.fail("dir", site.where, "the message parsed here is not the one this codec decodes")
            fr = {x for v in list(st.store.values()) + list(st.facts) for x in subterms(I.term(v, st) if v and v[0] == "adt" else v)
                  if isinstance(x, tuple) and x and x[0] == "call" and x[1].split("::")[-1] in ("split_to", "split_off", "split", "copy_to_bytes")}
            if not any(self.ends_nl(I, st, ("deref", x)) for x in fr):
                self.fail("accept", site.where, "a frame can be parsed as a message here without being known to end in a line feed")
            return None
        return super().call(I, st, cal, args, site)

    def loop(self, I, fn, frame, head, states, backs, exits, rets, havoced):
        its = [v for s in states for v in s.store.values() if v[0] == "s" and v[1][0] == "it" and "arg" in repr(v[1][1])]
        if not its or not backs:
            return
        where = f"{fn.file}:{fn.sp.split(':')[1]} in {fn.p}" if ":" in fn.sp else fn.sp
        for b in backs:
            grown = {}
            for loc, v in b.store.items():
                t = ("loop", frame, head, loc)
                if v[0] == "s" and v[1] != t:
                    c, d = lin(v[1])
                    if d == {t: 1}:
                        grown[loc] = c
            ints = {k: c for k, c in grown.items() if c}
            up = [self.upper(b, ("loop", frame, head, k), c) for k, c in ints.items()]
            if not ints:
                # counters that are computed rather than incremented
                v = ("?", 1, self.limit - 1 if self.some_limit(b) else 1 << 64)
                if v[2] < 1 << 64 or self.blank(I, b, its):
                    ints = None
            if ints is None:
                self.loops.setdefault((fn.p, head), []).append((where, (v,)))
                continue
            self.loops.setdefault((fn.p, head), []).append((where, tuple(sorted(((repr(k), c, u) for (k, c), u in zip(ints.items(), up)), key=repr))))

    def some_limit(self, st):
        for t, f in st.facts.items():
            if t[0] == "cmp" and f[0] == "in" and len(f[1]) == 1:
                op, a, b = t[1:4]
                v, = f[1]
                if a[0] == "c":
                    a, b, op = b, a, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
                if b[0] != "c" or a[0] == "c":
                    continue
                if not v:
                    op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}.get(op)
                if (op, b[1]) in (("Lt", self.limit), ("Le", self.limit - 1)):
                    return True
        return False

    def blank(self, I, st, its):
        """Is the byte at hand known to be leading whitespace?"""
        for t, f in st.facts.items():
            if t[0] == "elem" and f[0] == "in" and f[1] <= frozenset(b" \t\r\n\x0c"):
                return True
        return False

    def upper(self, st, le, k):
        """Upper bound known for le + k."""
        m = 1 << 64
        for t, f in st.facts.items():
            if t[0] == "cmp" and f[0] == "in" and len(f[1]) == 1:
                v, = f[1]
                op = t[1]
                (ca, da), (cb, db) = lin(t[2]), lin(t[3])
                if db == {le: 1} and not da:
                    ca, da, cb, db, op = cb, db, ca, da, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
                if da != {le: 1} or db:
                    continue
                if not v:
                    op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}.get(op)
                if op in ("Lt", "Le"):
                    m = min(m, cb - ca + k - (op == "Lt"))
        return m


def framed(cx, fn, m):
    F = cx.F
    cx.cover(fn)
    H = Framed(F, MAX[m])
    I = Interp(F, H)
    I.split = 64
    n = 0
    for st, v in I.run(fn):
        n += 1
        cx.ob("frame path", f"{fn.p} path {n}")
    if not H.accepts or not H.splits:
        raise Missing(f"{fn.p}: a frame and a parse")
    for s in H.accepts:
        cx.ob("accept site", f"{fn.p} {s}")
    for (p, head), bs in H.loops.items():
        # A scan that keeps going must count every byte: as leading whitespace (which is discarded), or towards the frame,
        # and then only below the limit.
        grown = {k for _, g in bs for k, _, _ in g}
        lim = {k for _, g in bs for k, c, u in g if u < 1 << 64}
        if not lim:
            cx.viol(f"{fn.p}:scan:{p}", bs[0][0], f"the scan for a line's end in {p} goes on whatever the length of the line: more than {H.limit} bytes can be buffered for one message")
            continue
        for where, g in bs:
            cx.ob("scan step", f"{fn.p} {p} {g}")
            if len(g) != 1 or g[0][1] != 1:
                cx.viol(f"{fn.p}:scan:{p}:count", where, f"the scan for a line's end in {p} can go on past a byte that it does not count exactly once")
            elif g[0][0] in lim and g[0][0] != "?" and g[0][2] != H.limit - 1:
                u = g[0][2]
                cx.viol(f"{fn.p}:scan:{p}:limit", where, f"the scan for a line's end in {p} goes on " + (f"after {u} bytes" if u < 1 << 64 else "without a limit") + f"; the maximum is {H.limit} bytes for one message")
    for (k, w), msg in H.bad.items():
        cx.viol(f"{fn.p}:{k}:{w}", w, f"{msg} (in {fn.p})")


def check(cx):
    F = cx.F
    for fn, b, m in readers(F):
        cx.ob("reader", fn.p)
        cx.guard(fn.p, lambda fn=fn, b=b, m=m: reader(cx, fn, b, m))
    for fn in F.fns.values():
        if fn.nm == "decode" and fn.impl and fn.impl.get("tr") and "Decoder" in str(fn.impl["tr"]) and fn.body is not None:
            m = parsed(F, fn)
            if len(m) == 1:
                cx.ob("decoder", fn.p)
                cx.guard(fn.p, lambda fn=fn, m=m: framed(cx, fn, *m))
    cx.need("reader", 8)
    cx.need("decoder", 2)
