"""C27: every server ping is answered with its own token."""
from facts import Missing
from rules.disp import handlers, runs, sends, bare, show, msg_arg, MSG

EXPLAIN = ("Every built-in handler is interpreted on all paths for each kind of message its code tells apart and for one it does not "
           "know, recording the messages it queues. For a ping, the responder and the registration handler must queue exactly one "
           "message, a pong whose only argument is the ping's last one, or none if it has none, and keep running; no handler may "
           "queue a pong for anything else.")
ASSUME = ["comparing a message's kind with a named constant compares their texts (C11, C37)"]
MUST = ("client::handlers::ping::AutoPong", "client::register::handler::Handler")


def token(F, fn, t):
    """Is this the ping's last argument?"""
    k = msg_arg(F, fn)
    ai = [i for i, f in enumerate(F.adts[MSG]["vs"][0]["f"]) if F.adt_of(f["t"]) == "ircmsg::args::Args"][0]
    args = ("fld", ("mem", ("arg", k + 1)), ai)
    t = bare(t)
    if t[0] == "fld" and len(t) == 4 and t[2:] == (1, 0):
        return last(bare(t[1]), args)
    if t[0] == "call" and t[1].split("::")[-1] in ("unwrap", "unwrap_or_default", "expect", "unwrap_unchecked"):
        return last(bare(t[2][0]), args)
    return False


def last(t, args):
    """Is this the option of the last argument?"""
    if t[0] == "fld" and t[2] == 1 and t[1][0] == "call" and t[1][1].split("::")[-1] == "split_last" and bare(t[1][2][0]) == bare(args):
        return True
    return False


def check(cx):
    F = cx.F
    found = set()
    for ty, fn in handlers(F):
        cx.cover(fn)
        must = ty in MUST
        found.add(ty)
        rs = cx.guard(ty, lambda fn=fn: runs(F, fn, base=("PING",)))
        if rs is None:
            continue
        for k, (I, h, outs) in sorted(rs.items()):
            cx.ob("handler and kind", f"{ty} {k!r}")
            for st, v in outs:
                ss = sends(st)
                po = [e for e in ss if e[1] == "PONG"]
                if any(e[1] == "?" for e in ss):
                    raise Missing(f"what {ty} sends")
                if k != "PING":
                    if po:
                        cx.viol(f"{ty}:extra", fn.sp, f"{fn.p} queues a pong for a message {show(k)}")
                    continue
                if not must:
                    if po:
                        cx.viol(f"{ty}:double", fn.sp, f"{fn.p} also answers pings: a ping is answered twice")
                    continue
                cx.ob("ping path", f"{ty} {len(ss)} {sorted(map(repr, st.facts))}"[:400])
                if len(po) != 1:
                    cx.viol(f"{ty}:count", fn.sp, f"{fn.p} queues {len(po) if len(po) < 2 else 'several'} pongs for a ping")
                    continue
                if len(ss) != 1:
                    cx.viol(f"{ty}:more", fn.sp, f"{fn.p} queues more than the pong for a ping")
                a = po[0][2]
                if len(a) == 0:
                    if not none(F, fn, I, st):
                        cx.viol(f"{ty}:token", fn.sp, f"{fn.p} can answer a ping without its token")
                elif len(a) != 1 or not token(F, fn, a[0]):
                    cx.viol(f"{ty}:token2", fn.sp, f"{fn.p} answers a ping with something other than its token")
                if v[0] != "adt" or v[2] != 0:
                    cx.viol(f"{ty}:ends", fn.sp, f"{fn.p} stops on a ping: later pings are not answered")
    for m in MUST:
        if m not in found:
            raise Missing(m)
    cx.need("ping path", 2)


def none(F, fn, I, st):
    """Does this path know that the ping has no arguments?"""
    k = msg_arg(F, fn)
    ai = [i for i, f in enumerate(F.adts[MSG]["vs"][0]["f"]) if F.adt_of(f["t"]) == "ircmsg::args::Args"][0]
    args = ("fld", ("mem", ("arg", k + 1)), ai)
    for t, f in st.facts.items():
        if t[0] == "discr" and last(bare(t[1]), args) and f == ("in", frozenset([0])):
            return True
        if t[0] == "call" and t[1].split("::")[-1] == "is_empty" and bare(t[2][0]) == bare(args) and f == ("in", frozenset([1])):
            return True
        if t[0] == "call" and t[1].split("::")[-1] == "is_some" and last(bare(t[2][0]), args) and f == ("in", frozenset([0])):
            return True
    return False
