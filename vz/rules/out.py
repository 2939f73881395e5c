"""What a path writes to an output: every byte sink is followed through a grammar automaton.

The automaton state of a path is a tuple of (sink, states of the grammar); a piece of output is either a constant,
fed byte by byte, or the content of a string, which must be of a type (or have bytes) the grammar allows there."""
from seqs import content, slice_bytes, tcontent, base_of, seg_bytes, ALLB
from rules.strs import StrHook, slice_verdict
from interp import subterms

ESC = "string::tf::escape::escape"
RESULT = "core::result::Result"
NUM = "ircmsg::numeric::Numeric"
UNIT = ("adt", "tuple", 0, ())
TAGVAL = ALLB - frozenset(b"; \r\n\0")
APPEND = ("write_all", "extend_from_slice", "put_slice", "extend", "push", "put_u8", "write_fmt", "append", "push_str")
OTHER = ("write", "truncate", "insert", "remove", "drain", "splice", "resize", "set_len", "swap_remove", "pop", "retain", "split_off", "write_vectored", "dedup")


def _t(s):
    return {k: v for k, v in s.items()}


# state -> ({byte: state}, [(piece kind, state)])
GRAMMAR = {
    "S0": ({"@": "T0", ":": "N0"}, [("kind", "K")]),
    "T0": ({}, [("Key", "T1")]),
    "T1": ({"=": "T2", ";": "T0", " ": "S1"}, []),
    "T2": ({}, [("tagval", "T3")]),
    "T3": ({";": "T0", " ": "S1"}, []),
    "S1": ({":": "N0"}, [("kind", "K")]),
    "N0": ({}, [("Nick", "N1")]),
    "N1": ({"!": "U0", "@": "H0", " ": "S2"}, []),
    "U0": ({}, [("User", "U1")]),
    "U1": ({"@": "H0"}, []),
    "UH": ({}, [("User", "U1"), ("Word", "H1")]),
    "H0": ({}, [("Word", "H1")]),
    "H1": ({" ": "S2"}, []),
    "S2": ({}, [("kind", "K")]),
    "K": ({" ": "A0", "\r": "CR"}, []),
    "A0": ({":": "L0"}, [("Arg", "K")]),
    "L0": ({}, [("Line", "END")]),
    "END": ({"\r": "CR"}, []),
    "CR": ({"\n": "L"}, []),
}
GRAMMAR["L"] = GRAMMAR["S0"]      # one or more whole lines
NAMES = {"S0": "at the start of a message", "T0": "where a tag key belongs", "T1": "after a tag key", "T2": "where a tag value belongs",
         "T3": "after a tag value", "S1": "after the tags", "N0": "where a nickname belongs", "N1": "after the nickname", "U0": "where a username belongs",
         "U1": "after the username", "UH": "at the start of a userhost", "H0": "where a host belongs", "H1": "after the host", "S2": "after the source", "K": "after the command or a word argument",
         "A0": "where an argument belongs", "L0": "where the trailing argument belongs", "END": "after the trailing argument", "CR": "inside the line terminator",
         "L": "after a complete line", "ERR": "after a failed write", "SENT": "after the buffer was sent"}


class Out(StrHook):
    max_depth = 16

    def __init__(self, F, sink, opaque=()):
        """sink(I, st, term, ti) -> initial states (a tuple of state names) if the receiver is one to follow, else None."""
        super().__init__(F)
        self.sink = sink
        self.opq = tuple(opaque)
        self.bad = {}
        self.n = 0
        self.sites = set()
        self.futs = {}

    def inline(self, I, fn, cal):
        return fn.p != ESC and fn.p not in self.opq

    def snapshot(self):
        return dict(self.bad)

    def restore(self, s):
        self.bad = dict(s)

    # -------------------------------------------------------------- receivers
    def recv(self, I, st, a):
        for _ in range(8):
            if a[0] == "ref":
                v = I.read(st, a[1])
                if v[0] == "ref":
                    a = v
                    continue
                if v[0] == "s" and v[1][0] == "call" and v[1][1].split("::")[-1] in ("writer", "by_ref", "get_mut"):
                    x = v[1][2][0]
                    a = x if x[0] == "ref" else ("s", x)
                    continue
                if v[0] == "s":
                    ti = I.ttype(v[1])
                    if ti is not None and self.F.types[ti].get("k") == "ref":
                        a = v
                        continue
                base, proj = a[1]
                if base[0] == "L" and v[0] == "adt" and v[3] and v[1].startswith("client::"):
                    x = [y for y in v[3] if y[0] == "ref"]   # a wrapper around the connection
                    if x:
                        a = x[0]
                        continue
                if base[0] != "M":
                    return None
                return a[1]
            if a[0] == "s":
                t = a[1]
                if t[0] == "call" and t[1].split("::")[-1] in ("as_write", "get_mut", "by_ref", "writer", "deref_mut", "as_mut", "borrow_mut") and t[2]:
                    x = t[2][0]
                    a = x if x[0] == "ref" else ("s", x)
                    continue
                return (("M", t), ())
            if a[0] == "adt" and a[1].startswith(("core::pin::Pin",)) and a[3]:
                a = a[3][0]
                continue
            return None
        return None

    def get(self, I, st, r):
        d = dict(st.auto or ())
        if r in d:
            return d[r]
        return self.sink(I, st, r)

    def put(self, st, r, ss):
        d = dict(st.auto or ())
        d[r] = ss
        st.auto = tuple(sorted(d.items(), key=repr))

    # -------------------------------------------------------------- pieces
    def fits(self, I, st, seg, kind):
        if kind == "tagval":
            if seg[0] == "sl":
                b = base_of(seg[1])[0]
                if seg[1] is b or seg[1] == b:
                    for x in subterms(b):
                        if isinstance(x, tuple) and x and x[0] == "call" and x[1] == ESC:
                            return True
                        if isinstance(x, tuple) and x and x[0] == "call":
                            break
            return seg_bytes(I, st, seg) <= TAGVAL
        if kind == "kind":
            if seg[0] == "sl" and seg[1][0] == "fld":
                ti = I.ttype(seg[1][1])
                if ti is not None and self.F.adt_of(ti) == NUM:      # C18: three decimal digits
                    return True
            kind = "Cmd"
        if seg[0] == "sl":
            return slice_verdict(I, st, ("s", seg[1]), kind) is None
        if seg[0] == "ty":
            return slice_verdict(I, st, ("s", ("deref", ("vec", (seg,)))), kind) is None
        return slice_verdict(I, st, ("s", ("deref", ("vec", (seg,)))), kind) is None

    def feed(self, I, st, ss, segs, what):
        """Advance a set of grammar states over a content; returns (states, reason)."""
        i = 0
        segs = list(segs)
        while i < len(segs):
            seg = segs[i]
            b = None
            if seg[0] == "one":
                b = I.known(st, seg[1])
            elif seg[0] == "sl" and seg[1][0] == "b":
                segs[i:i + 1] = [("one", ("c", x)) for x in seg[1][1]]
                continue
            nxt = set()
            for s in ss:
                tb, tp = GRAMMAR.get(s, ({}, []))
                if b is not None:
                    if chr(b) in tb:
                        nxt.add((tb[chr(b)], i + 1))
                        continue
                    # a constant where a string belongs: all constants up to the next non-constant or separator
                    j = i
                    bs = b""
                    while j < len(segs) and segs[j][0] == "one" and isinstance(I.known(st, segs[j][1]), int):
                        bs += bytes([I.known(st, segs[j][1])])
                        j += 1
                    for kind, to in tp:
                        if kind != "tagval" and slice_verdict(I, st, ("b", bs), "Cmd" if kind == "kind" else kind) is None:
                            nxt.add((to, j))
                else:
                    for kind, to in tp:
                        if self.fits(I, st, seg, kind):
                            nxt.add((to, i + 1))
            js = {j for _, j in nxt}
            if not nxt or len(js) > 1:
                return None, f"{self.show(I, st, seg)} is written {' or '.join(NAMES.get(s, s) for s in sorted(ss))}"
            ss = tuple(sorted({s for s, _ in nxt}))
            i = js.pop()
        return ss, None

    def show(self, I, st, seg):
        if seg[0] == "one" and I.known(st, seg[1]) is not None:
            return repr(chr(I.known(st, seg[1])))
        if seg[0] == "sl":
            nt = I.term_type(st, base_of(seg[1])[0])
            if nt:
                return f"a {nt}"
        bs = seg_bytes(I, st, seg)
        bad = sorted(bs & frozenset(b"\r\n\0; "))
        return f"a string that may contain {', '.join(repr(chr(x)) for x in bad)}" if bad else "a string"

    def pieces(self, I, st, nm, args):
        """Segments appended by a call, or None when unknown."""
        a = args[1] if len(args) > 1 else None
        if nm in ("push", "put_u8"):
            return (("one", a),)
        if nm == "write_fmt":
            if a[0] == "adt" and a[1] == "#fmtargs":
                return a[3][0][1]
            return None
        if a[0] == "vec":
            return a[1]
        if a[0] == "b":
            return content(I, st, a)
        t = I.slice_term(st, a)
        if t is None:
            if a[0] == "ref":
                # a reference to a tracked buffer
                r = self.recv(I, st, a)
                if r is not None and self.get(I, st, r) is not None:
                    return (("buf", r),)
                v = I.read(st, a[1])
                if v[0] == "adt" and v[1] in ("array", "tuple"):
                    return tuple(("one", x) for x in v[3])
                if v[0] == "s":
                    return (("sl", v[1]),)
            return None
        if t[0] == "b":
            return content(I, st, t)
        b, lo, hi = base_of(t)
        for r in [k for k, _ in (st.auto or ())]:
            base, proj = r
            v = I.term(I.read(st, r))
            if b in (("deref", v), v) or b == ("deref", ("vec", (("sl", ("deref", v)),))):
                return (("buf", r if t == b else None),)
        r = (("M", b), ())
        if self.get(I, st, r) is not None:
            return (("buf", r if t == b else None),)
        if b[0] == "deref":
            x, proj = b[1], ()
            while x[0] == "fld" and len(x) == 3:
                x, proj = x[1], (("f", x[2]),) + proj
            if x[0] == "mem":
                r = (("M", x[1]), proj)
                if self.get(I, st, r) is not None:
                    return (("buf", r if t == b else None),)
        return tcontent(t)

    def is_vec(self, ti):
        s = self.F.ts(ti) if ti is not None else ""
        while s.startswith("&"):
            s = s.lstrip("&").removeprefix("mut ").strip()
        return s.startswith(("alloc::vec::Vec<u8", "bytes::bytes_mut::BytesMut", "bytes::buf::writer::Writer"))

    def fail(self, key, site, msg):
        self.bad.setdefault((key, site.where), msg)

    def call(self, I, st, cal, args, site):
        nm = cal.nm
        if nm == "poll" and args:
            v = args[0]
            for _ in range(6):
                if v[0] == "adt" and v[1].startswith("core::pin") and v[3]:
                    v = v[3][0]
                elif v[0] == "ref":
                    v = I.read(st, v[1])
                else:
                    break
            if v[0] == "s" and v[1] in self.futs:
                fnm, r, fargs, fsite, vec = self.futs[v[1]]
                outs = self.op(I, st, fnm, r, self.get(I, st, r), fargs, fsite, vec)
                return [(s, ("adt", "core::task::poll::Poll", 0, (x,))) for s, x in self.wrap(I, outs, None)]
        if args and (nm in APPEND or nm in OTHER or nm == "clear" or nm == "flush") and cal.id not in self.F.fns:
            r = self.recv(I, st, args[0])
            ss = self.get(I, st, r) if r is not None else None
            if ss is not None:
                dty = I.cur_dty
                vec = self.is_vec(I.cur_argtys[0]) if I.cur_argtys and I.cur_argtys[0] is not None else False
                self.n += 1
                self.sites.add(site.where)
                d = self.F.adt_of(dty) if dty is not None else None
                if d != RESULT and self.F.ts(dty) != "()":
                    # a future: the write happens when it is awaited
                    key = ("iofut", site.fn.id, site.bb, nm)
                    self.futs[key] = (nm, r, args, site, vec)
                    return [(st, ("s", key))]
                outs = self.op(I, st, nm, r, ss, args, site, vec)
                if outs is not None:
                    return self.wrap(I, outs, dty)
        return super().call(I, st, cal, args, site)

    def wrap(self, I, outs, dty):
        """Results in the shape the callee returns."""
        d = self.F.adt_of(dty) if dty is not None else None
        res = []
        for s, ok in outs:
            if d == RESULT or dty is None:
                res.append((s, ("adt", RESULT, 0, (UNIT,)) if ok else ("adt", RESULT, 1, (("s", ("ioerr",)),))))
            else:
                res.append((s, UNIT))
        return res

    def op(self, I, st, nm, r, ss, args, site, vec):
        s2 = st.copy()
        if nm == "flush":
            return [(s2, True), (st.copy(), False)]
        if nm == "clear":
            self.put(s2, r, self.cleared(I, s2, r, ss, site))
            return [(s2, True)]
        if nm in OTHER:
            self.fail("op", site, f"an output is changed by `{nm}`, which this analysis does not follow")
            return [(s2, True)]
        p = self.pieces(I, st, nm, args)
        if p is None:
            self.fail("content", site, "what is written here cannot be determined")
            self.put(s2, r, ("ERR",))
            return [(s2, True)]
        outs = []
        if ss == ("BAD",):
            return [(s2, True)]
        if len(p) == 1 and p[0][0] == "buf":
            outs = self.send(I, s2, r, ss, p[0][1], site)
        else:
            n2, why = self.feed(I, st, ss, p, site)
            if why:
                self.fail("grammar", site, why)
                n2 = ("BAD",)
            self.put(s2, r, n2)
            outs.append((s2, True))
        if not vec:
            s3 = st.copy()
            self.put(s3, r, ("ERR",))
            outs.append((s3, False))
        return outs

    def cleared(self, I, st, r, ss, site):
        return ("S0",)

    def send(self, I, st, r, ss, buf, site):
        """A buffer is written to another output: what the buffer holds is now there."""
        bs = self.get(I, st, buf) if buf is not None else ("BAD",)
        if buf is None:
            self.fail("send", site, "only a part of a buffer is sent here")
        elif "SENT" in bs:
            self.fail("send", site, "a buffer that was already sent is sent again")
        elif ss not in (("S0",), ("L",)) and bs != ("S0",) and bs != ("BAD",):
            self.fail("send", site, f"a buffer is sent {' or '.join(NAMES.get(s, s) for s in ss)}")
        self.put(st, r, bs if bs != ("S0",) else ss)
        if buf is not None:
            self.put(st, buf, ("SENT",))
        return [(st, True)]
