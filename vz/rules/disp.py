"""What a message handler does for one kind of message: the messages it sends, and how it leaves its state.

The kind of the incoming message is fixed to one name at a time: every name the code compares kinds with, and one that is none of
them. Strings are opaque terms; conversions that keep the text (clone, owning, into, ...) are looked through when two are compared."""
from facts import Missing, calls, strip_lt
from interp import Interp, St
from rules.strs import StrHook
from rules.c37 import R

HANDLER = "client::handler::Handler"
MSG = "ircmsg::server::ServerMsg"
CMSG = "ircmsg::client::ClientMsg"
KIND = "ircmsg::servermsgkind::ServerMsgKindRaw"
OTHER = "\0other"
UNIT = ("adt", "tuple", 0, ())
OPT = "core::option::Option"
RES = "core::result::Result"
SAME = {"clone", "owning", "into", "cloned", "to_owned", "as_ref", "deref", "borrow", "into_super", "into_owned", "as_bytes", "as_str", "to_vec",
        "from", "copied", "as_deref", "borrowed", "to_bytes", "secret", "into_bytes"}


def bare(t):
    """A string's term without what does not change its text."""
    while isinstance(t, tuple) and t:
        if t[0] == "s":
            t = t[1]
        elif t[0] in ("mem", "deref"):
            t = t[1]
        elif t[0] == "call" and t[1].split("::")[-1] in SAME and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "call" and t[1].split("::")[-1] in ("from_super_unchecked", "from_unchecked", "from_super", "from_bytes", "from_str") and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "adt" and t[1].startswith("string::") and len(t[3]) == 1:
            t = t[3][0]
        else:
            break
    return t


def tobytes(t):
    while isinstance(t, tuple) and t and t[0] in ("s", "mem", "deref"):
        t = t[1]
    if isinstance(t, tuple) and t and t[0] in ("b", "str") and isinstance(t[1], (bytes, str)):
        return t[1] if isinstance(t[1], bytes) else t[1].encode()
    return None


class Disp(StrHook):
    max_depth = 14
    MODS = ("client::", "ircmsg::server::", "ircmsg::ctcp::", "ircmsg::targeted::")
    CUT = ("client::queue", "client::state", "client::conn", "client::channel", "client::logic", "client::nick")

    def __init__(self, F, kind):
        super().__init__(F)
        self.kind = kind
        self.kinds = set()
        self.R = R(F)
        fs = F.adts[CMSG]["vs"][0]["f"]
        self.ma = [i for i, f in enumerate(fs) if F.adt_of(f["t"]) == "ircmsg::args::Args"][0]
        self.mk = [i for i, f in enumerate(fs) if F.adt_of(f["t"]) not in ("ircmsg::args::Args", "ircmsg::tags::Tags")][0]

    # -------------------------------------------------------------- names
    def text(self, I, st, v):
        """The constant text of a value, if it has one."""
        for _ in range(6):
            if v[0] == "ref":
                w = I.read(st, v[1])
                if w == v:
                    break
                v = w
            else:
                break
        b = tobytes(I.term(v, st))
        if b is not None:
            return b.decode("latin-1")
        t = bare(I.term(v, st))
        b = tobytes(t)
        if b is not None:
            return b.decode("latin-1")
        if t[0] == "adt" and t[1].startswith("names::") and not t[3]:
            return self.name(t[1])
        try:
            x = self.R.text(t)
        except Missing:
            x = None
        return x.decode("latin-1") if isinstance(x, bytes) else x

    def name(self, path):
        for suf in ("::as_kind::VALUE", "::as_cmd::VALUE", "::as_raw::VALUE"):
            try:
                x = self.R.text(("static", path + suf))
            except Missing:
                continue
            if x is not None:
                return x.decode("latin-1") if isinstance(x, bytes) else x
        raise Missing(f"the text of {path}")

    def is_kind(self, I, st, v):
        for _ in range(6):
            if v[0] == "ref":
                w = I.read(st, v[1])
                if w == v:
                    break
                v = w
            else:
                break
        t = bare(I.term(v, st))
        return t == ("kind",)

    def inline(self, I, fn, cal):
        if fn.id not in self.F.fns:
            return super().inline(I, fn, cal)
        return (fn.p.lstrip("<").startswith(self.MODS) or fn.nm == "from_union") and not fn.p.lstrip("<").startswith(self.CUT) and not self.cut(fn)

    def cut(self, fn):
        return False

    # -------------------------------------------------------------- calls
    def call(self, I, st, cal, args, site):
        nm = cal.nm
        F = self.F
        if nm in ("eq", "ne") and len(args) == 2:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                if self.is_kind(I, st, a):
                    x = self.text(I, st, b)
                    if x is None:
                        raise Missing("what a message's kind is compared with")
                    self.kinds.add(x)
                    return [(st, ("c", int((x == self.kind) == (nm == "eq"))))]
        if args and self.is_kind(I, st, args[0]):
            if nm in ("as_str", "as_bytes", "as_ref", "deref", "borrow", "clone", "owning", "into", "as_arg", "to_owned"):
                return [(st, ("s", ("kind",)))]
            if nm == "is_error":
                outs = []
                for v in (("adt", OPT, 0, ()), ("adt", OPT, 1, (("c", 0),)), ("adt", OPT, 1, (("c", 1),))):
                    outs.append((st.copy(), v))
                return outs
        m = self.message(I, st, cal, args, site)
        if m is not None:
            return m
        return super().call(I, st, cal, args, site)

    def message(self, I, st, cal, args, site):
        nm = cal.nm
        p = cal.p
        d0 = self.argadt(I, 0)
        if nm == "new" and I.cur_dty is not None and self.F.adt_of(I.cur_dty) == CMSG and args:
            v = [("s", ("none",))] * 3
            v[self.mk], v[self.ma] = ("s", ("name", self.text(I, st, args[0]))), ("s", ("margs", ()))
            return [(st, ("adt", CMSG, 0, tuple(v)))]
        if d0 is not None and d0.startswith("ircmsg::args::"):
            if nm == "edit":
                return [(st, args[0])]
            if nm in ("add", "add_word", "add_literal", "try_add", "add_last", "insert", "clear", "add_arg"):
                loc = self.argloc(I, st, args[0])
                if loc is not None:
                    v = I.read(st, loc)
                    if v[0] == "s" and v[1][0] == "margs":
                        s2 = st.copy()
                        lit = self.text(I, st, args[1]) if len(args) > 1 else None
                        x = ("lit", lit) if lit is not None else I.term(args[1], st) if len(args) > 1 else ()
                        if nm not in ("add", "add_word", "add_literal"):
                            x = ("odd", nm)
                        I.write(s2, loc, ("s", ("margs", v[1][1] + (x,))))
                        return [(s2, UNIT if nm != "try_add" else ("adt", RES, 0, (UNIT,)))]
        snd = nm == "send" and ("ClientMsgSink" in p or "ClientMsgSink" in (cal.tr or "")) or nm == "push" and d0 is not None and d0.startswith("client::queue::")
        if snd and len(args) == 2:
            s2 = st.copy()
            self.sent(I, s2, args[1], site)
            return [(s2, UNIT)]
        if nm == "borrow_mut" and "ClientMsgSink" in (cal.tr or p):
            return [(st, args[0])]
        return None

    def sent(self, I, st, v, site):
        while v[0] == "ref":
            v = I.read(st, v[1])
        k, a = I.project(v, (("f", self.mk),)), I.project(v, (("f", self.ma),))
        if k[0] == "s" and k[1][0] == "name" and a[0] == "s" and a[1][0] == "margs":
            m = (k[1][1], a[1][1])
        else:
            m = ("?", I.term(v, st))
        self.emit(I, st, ("send",) + m, site)

    def emit(self, I, st, e, site):
        tr = st.auto or ()
        if tr.count(e) < 2:         # enough to tell one from more than one, and loops converge
            st.auto = tr + (e,)

    def argadt(self, I, i):
        ti = I.cur_argtys[i] if I.cur_argtys and i < len(I.cur_argtys) else None
        return self.F.adt_of(ti) if ti is not None else None

    def argloc(self, I, st, a):
        loc = None
        for _ in range(6):
            if a[0] != "ref":
                break
            loc = a[1]
            a = I.read(st, loc)
        return loc


def handlers(F):
    """(type, handle function) of every message handler."""
    out = []
    for i in F.impls:
        if strip_lt(str(i.get("tr") or "")) == HANDLER:
            for nm, fid, k in i["items"]:
                if nm == "handle" and fid in F.fns and F.fns[fid].body is not None:
                    out.append((F.adt_of(i["self"]) or F.ts(i["self"]), F.fns[fid]))
    if not out:
        raise Missing("message handlers")
    return out


def msg_arg(F, fn):
    for k, t in enumerate(fn.ins):
        if F.adt_of(t) == MSG:
            return k
    raise Missing(f"the message {fn.p} handles")


def kind_field(F):
    for k, f in enumerate(F.adts[MSG]["vs"][0]["f"]):
        if F.adt_of(f["t"]) == KIND:
            return k
    raise Missing("the kind of a server message")


def prepare(F, fn, st):
    """Fixes the kind of the message."""
    k = msg_arg(F, fn)
    st.store[(("M", ("arg", k + 1)), (("f", kind_field(F)),))] = ("s", ("kind",))
    return st


def runs(F, fn, make=Disp, prep=None, base=(), budget=None):
    """Runs fn once for every kind its code tells apart: {kind: (interp, hook, [(state, result)])}."""
    out = {}
    todo = [OTHER] + sorted(base)
    while todo:
        k = todo.pop(0)
        if k in out:
            continue
        h = make(F, k)
        I = Interp(F, h)
        I.split = 100000
        I.budget = 20000
        st = prepare(F, fn, St())
        if prep is not None:
            prep(I, st)
        out[k] = (I, h, I.run(fn, st=st))
        todo += sorted(h.kinds - set(out))
    return out


def sends(st):
    return [e for e in (st.auto or ()) if e[0] == "send"]


def show(k):
    return "of any other kind" if k == OTHER else k
