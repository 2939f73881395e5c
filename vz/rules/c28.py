"""C28: automatic replies answer only direct requests."""
from facts import Missing, strip_lt
from interp import Interp
from rules.disp import Disp, handlers, runs, sends, bare, show, msg_arg, tobytes, MSG

EXPLAIN = ("Every built-in handler is interpreted on all paths for each kind of message its code tells apart and for one it does not "
           "know, recording the messages it queues. A notice may only be queued while handling a private message whose source is "
           "known, at most once, with that source's nickname as its target and the request's own command in a reply marked as "
           "such; a private message is never queued; and text counts as a request only if it begins with the request marker.")
CTCP = "ircmsg::ctcp::MaybeCtcp"


class H(Disp):
    def cut(self, fn):
        return fn.p.lstrip("<").startswith("ircmsg::ctcp::") and fn.out is not None and self.F.adt_of(fn.out) == CTCP and len(fn.ins) == 1 \
            and self.F.adt_of(fn.ins[0]) != CTCP


def check(cx):
    F = cx.F
    fs = F.adts[MSG]["vs"][0]["f"]
    si = [i for i, f in enumerate(fs) if "Source" in F.ts(f["t"])][0]
    n = 0
    for ty, fn in handlers(F):
        cx.cover(fn)
        rs = cx.guard(ty, runs, F, fn, H, None, ("PRIVMSG", "NOTICE"))
        if rs is None:
            continue
        m = msg_arg(F, fn) + 1
        src = ("fld", ("mem", ("arg", m)), si)
        for k, (I, h, outs) in sorted(rs.items()):
            cx.ob("handler and kind", f"{ty} {k!r}")
            for st, v in outs:
                ss = [e for e in sends(st) if e[1] in ("NOTICE", "PRIVMSG", "?", None)]
                for e in ss:
                    n += 1
                    cx.ob("reply", f"{ty} {k!r} {e!r}"[:500])
                    if e[1] in ("?", None):
                        raise Missing(f"what {ty} sends")
                    if e[1] == "PRIVMSG":
                        cx.viol(f"{ty}:privmsg", fn.sp, f"{fn.p} answers with a private message, which the other side may answer again")
                        continue
                    if k != "PRIVMSG":
                        cx.viol(f"{ty}:kind", fn.sp, f"{fn.p} answers a message {show(k)}: only private messages may be answered")
                        continue
                    if I.fact(st, ("discr", src)) != ("in", frozenset([1])):
                        cx.viol(f"{ty}:source", fn.sp, f"{fn.p} can answer a message whose sender is not known")
                    a = e[2]
                    if len(a) != 2:
                        cx.viol(f"{ty}:args", fn.sp, f"{fn.p} queues a notice with {len(a)} arguments")
                        continue
                    if not nick(F, a[0], src):
                        cx.viol(f"{ty}:target", fn.sp, f"{fn.p} addresses its answer to something other than the nickname of the sender")
                    c = a[1]
                    if not (c[0] == "adt" and c[1] == CTCP):
                        cx.viol(f"{ty}:ctcp", fn.sp, f"{fn.p} does not mark its answer as one to a request")
                        continue
                    cmd = tobytes(bare(c[3][0]))
                    asked = matched(F, I, st)
                    if cmd is None:
                        if not any(bare(c[3][0]) == bare(t) for t in asked):
                            raise Missing("the command of the answer")
                        continue
                    if not cmd:
                        cx.viol(f"{ty}:empty", fn.sp, f"{fn.p} answers messages that are not requests")
                    elif cmd not in asked.values():
                        cx.viol(f"{ty}:cmd", fn.sp, f"{fn.p} can answer {cmd.decode()} when that was not asked")
                if len(ss) > 1:
                    cx.viol(f"{ty}:once", fn.sp, f"{fn.p} answers one message more than once")
    parse(cx, F)
    cx.need("reply", 2)
    cx.need("request marker", 2)


def nick(F, t, src):
    t = bare(t)
    return t[0] == "fld" and t[2] == 0 and len(t) == 3 and source(bare(t[1]), src)


def source(t, src):
    """Is this the message's source, with the Option around it known to be present?"""
    return t[0] == "fld" and t[2:] == (1, 0) and bare(t[1]) == bare(src)


def matched(F, I, st):
    """{string term: text it is known to equal} for commands of parsed messages on this path."""
    lens, els = {}, {}
    out = {}
    for t, f in st.facts.items():
        if f[0] != "in" or len(f[1]) != 1:
            continue
        x = next(iter(f[1]))
        if t[0] == "len":
            lens[bare(t[1])] = x
        elif t[0] == "elem" and t[2][0] == "c":
            els.setdefault(bare(t[1]), {})[t[2][1]] = x
        elif t[0] == "call" and t[1].split("::")[-1] == "eq" and x == 1:
            for a, b in ((t[2][0], t[2][1]), (t[2][1], t[2][0])):
                bb = tobytes(bare(b))
                if bb is not None:
                    out[bare(a)] = bb
    for s, n in lens.items():
        e = els.get(s, {})
        if all(i in e or i - n in e for i in range(n)):
            out[s] = bytes(e.get(i, e.get(i - n)) for i in range(n))
    return {s: b for s, b in out.items() if command(s)}


def command(t):
    """The command field of what a text was parsed into."""
    t = bare(t)
    return t[0] == "fld" and t[2] == 0 and len(t) == 3 and bare_call(t[1])


def bare_call(t):
    while t[0] in ("mem", "deref", "s"):
        t = t[1]
    return t[0] == "call" and (t[1].split("::")[-1] in ("from", "parse", "into"))


def parse(cx, F):
    """Text counts as a request only if it starts with the marker."""
    n = 0
    for fn in F.fns.values():
        if fn.body is None or "{closure" in fn.p or not fn.p.lstrip("<").startswith("ircmsg::ctcp::") or fn.out is None or F.adt_of(fn.out) != CTCP:
            continue
        if len(fn.ins) != 1 or F.adt_of(fn.ins[0]) == CTCP:
            continue
        cx.cover(fn)
        I = Interp(F, Disp(F, ""))
        for st, v in I.run(fn):
            cx.ob("request marker", f"{fn.p} {sorted(map(repr, st.facts))}"[:300])
            n += 1
            if v[0] != "adt":
                raise Missing("what a text is parsed into")
            c = bare(v[3][0])
            if tobytes(c) == b"" or c[0] == "call" and c[1].endswith("::default"):
                continue
            if not marked(st):
                cx.viol(f"{fn.p}:marker", fn.sp, f"{fn.p} takes text for a request although it does not begin with the request marker")
    return n


def marked(st):
    for t, f in st.facts.items():
        if f[0] != "in" or len(f[1]) != 1:
            continue
        x = next(iter(f[1]))
        if t[0] == "call" and t[1].split("::")[-1] in ("eq", "ne") and x == (1 if t[1].endswith("eq") else 0):
            for a, b in ((t[2][0], t[2][1]), (t[2][1], t[2][0])):
                if first(a) and b[0] == "adt" and b[1].endswith("Option") and b[2] == 1 and b[3][0] == ("c", 1):
                    return True
        if x == 1 and (t[0] == "elem" and t[2] == ("c", 0) or t[0] == "fld" and t[2:] == (1, 0) and first(t[1])):
            return True
        if t[0] == "call" and t[1].split("::")[-1] == "starts_with" and x == 1:
            b = tobytes(t[2][1])
            if b is not None and b.startswith(b"\x01"):
                return True
    return False


def first(t):
    """The first byte of the text (an Option)."""
    if t[0] == "call" and t[1].split("::")[-1] in ("next_byte", "peek", "peek_byte", "first", "next"):
        return t[1].split("::")[-1] != "next_byte" or t[2][0][0] == "call" and t[2][0][1].split("::")[-1] == "new"
    return False
