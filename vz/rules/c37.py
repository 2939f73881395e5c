"""C37: named constants carry their protocol names."""
from facts import strip_lt, Missing
from interp import Interp
from rules.strs import SPEC, MOD, BYTES, StrHook
from rules.c05 import fidx

EXPLAIN = ("For every type that implements Name, the static it stands for is evaluated from the source and its text compared with "
           "the protocol name derived from the type's own name (capabilities in their lower-case hyphenated form). Every "
           "associated constant, conversion, borrowed form, comparison, hash and Display of these types is interpreted on all "
           "paths and must yield, compare with or hash that same text. Texts must be distinct within their class and valid for "
           "their string type. The tag accessors of each name class must lend out the tag field of the union.")
KIND = "ircmsg::servermsgkind::ServerMsgKindRaw"
CAPS = ("ACCOUNT_NOTIFY ACCOUNT_TAG BATCH CHGHOST ECHO_MESSAGE EXTENDED_JOIN EXTENDED_MONITOR INVITE_NOTIFY LABELED_RESPONSE "
        "MESSAGE_TAGS MSGID MULTI_PREFIX SASL SERVER_TIME SETNAME STANDARD_REPLIES STS USERHOST_IN_NAMES CAP_NOTIFY AWAY_NOTIFY "
        "ACCOUNT_REGISTRATION BOT MONITOR TLS").split()


class H(StrHook):
    max_depth = 14

    def call(self, I, st, cal, args, site):
        F = self.F
        a0 = F.ts(cal.args[0]) if cal.args and isinstance(cal.args[0], int) else "?"
        if cal.nm == "hash" and cal.tr == "core::hash::Hash" and cal.id not in F.fns and len(args) == 2:
            s2 = st.copy()
            s2.auto = (s2.auto or ()) + (("hash", I.term(args[0], st), a0),)
            return [(s2, ("adt", "tuple", 0, ()))]
        if cal.nm == "fmt" and (cal.tr or "").startswith("core::fmt::") and a0 in ("str", "&str") or cal.p.endswith(("Formatter::write_str", "Formatter::pad", "Write::write_str")):
            x = args[1] if cal.p.endswith(("write_str", "pad")) else args[0]
            while x[0] == "ref":
                x = I.read(st, x[1])
            s2 = st.copy()
            s2.auto = (s2.auto or ()) + (("fmt", I.term(x, s2)),)
            return [(s2, ("s", ("fmtres", site.bb)))]
        if cal.nm in ("from_str", "from_str_nonconst") and "fmt::Arguments" in cal.p:
            s2 = st.copy()
            s2.auto = (s2.auto or ()) + (("fmt", I.term(args[0], s2)),)
            return [(s2, ("s", ("fmtargs", site.bb)))]
        return super().call(I, st, cal, args, site)


class R:
    """Resolves terms rooted at statics and constants to their text."""

    def __init__(self, F):
        self.F, self.memo = F, {}
        self.vi = fidx(F, BYTES, "value")

    def item(self, path):
        if path not in self.memo:
            fs = [f for f in self.F.fns.values() if f.p == path]
            if len(fs) != 1:
                raise Missing(f"no single definition of {path}")
            outs = Interp(self.F, H(self.F)).run(fs[0])
            self.memo[path] = outs[0][1] if len(outs) == 1 else None
        return self.memo[path]

    def value(self, t):
        """The known value of a term or value, or None."""
        if t is None or not isinstance(t, tuple) or not t:
            return None
        k = t[0]
        if k == "s":
            return self.value(t[1])
        if k in ("adt", "b", "c"):
            return t
        if k in ("static", "const") and isinstance(t[1], str):
            v = self.item(t[1])
            return self.value(v) if v is not None else None
        if k in ("mem", "deref"):
            return self.value(t[1])
        if k == "ref":
            base, proj = t[1]
            v = self.value(base[1]) if base[0] == "M" else None
            for p in proj:
                if p[0] == "f":
                    v = v[3][p[1]] if v and v[0] == "adt" and p[1] < len(v[3]) else None
                    v = self.value(v)
            return v
        if k == "fld":
            v = self.value(t[1])
            if not v or v[0] != "adt":
                return None
            if len(t) == 4:
                if v[2] != t[2] or t[3] >= len(v[3]):
                    return None
                return self.value(v[3][t[3]])
            return self.value(v[3][t[2]]) if t[2] < len(v[3]) else None
        if k == "call" and t[1].split("::")[-1] in ("as_bytes", "as_str", "as_ref", "deref", "borrow", "as_slice", "clone"):
            a = [x for x in t[2:] if isinstance(x, tuple)]
            while a and isinstance(a[0], tuple) and a[0] and isinstance(a[0][0], tuple):
                a = list(a[0])
            return self.value(a[0]) if a else None
        return None

    def text(self, t):
        v = self.value(t)
        for _ in range(4):
            if v is None:
                return None
            if v[0] == "b":
                return v[1]
            if v[0] != "adt" or not v[3]:
                return None
            v = self.value(v[3][self.vi if v[1] == BYTES else 0])
        return None

    def feasible(self, st):
        for t, x in st.facts.items():
            if t[0] == "discr":
                v = self.value(t[1])
                if v and v[0] == "adt":
                    if (x[0] == "in") != (v[2] in x[1]):
                        return False
        return True


def want(name, cls, got):
    if cls.endswith("Cap"):
        e = name.lower().replace("_", "-")
        if name not in CAPS and got is not None:
            n = "".join(ch if ch.isalnum() else "_" for ch in got.decode("latin1")).upper()
            return got if n == name and "_" not in got.decode("latin1") else e.encode()
        return e.encode()
    return name.encode()


def lens(R_, a, b, text):
    for x, y in ((a, b), (b, a)):
        n = ("c", len(text))
        if (x == n or x[0] == "len" and R_.text(x[1]) == text) and y[0] == "len" and R_.text(y[1]) is None:
            return True
    return False


def one(cx, R_, fn, text, name, wants):
    F = cx.F
    I = Interp(F, H(F))
    cx.cover(fn)
    outs = [(st, v) for st, v in I.run(fn, auto=()) if R_.feasible(st)]
    if not outs:
        raise Missing("no result")
    for st, v in outs:
        cx.ob(wants, fn.p)
        if wants == "yields the name":
            t = v
            if R_.text(t) != text:
                cx.viol(f"{fn.p}", fn.sp, f"{fn.p} yields {R_.text(t)!r} instead of {text!r}")
        elif wants == "compares with the name":
            ok = False
            for t, k in [(v[1], None)] if v[0] == "s" else [(t, x) for t, x in st.facts.items()]:
                if t[0] == "cmp" and t[1] == "Eq":
                    a, b = t[2], t[3]
                    sides = [x for x in (a, b) if R_.text(x) == text]
                    other = [x for x in (a, b) if R_.text(x) is None]
                    if len(sides) == 1 and len(other) == 1:
                        ok = ok or k is None or (k[0] == "in" and I.known(st, v) is not None and set(k[1]) == {I.known(st, v)})
                    if I.known(st, v) == 0 and k == ("in", frozenset({0})) and a[0] == "discr" and b[0] in ("discr", "c"):
                        ok = True
                # texts of different lengths differ
                if t[0] == "cmp" and t[1] == "Eq" and k == ("in", frozenset({0})) and I.known(st, v) == 0 and lens(R_, t[2], t[3], text):
                    ok = True
                if t[0] == "discr" and I.known(st, v) == 0 and R_.value(t[1]) is None:
                    own = [x for x in F.adts[KIND]["vs"]]
                    ci = [i for i, x in enumerate(own) if "Num" not in x["n"]][0]
                    ok = ok or (k[0] == "in") != (ci in k[1])
            if not ok:
                cx.viol(f"{fn.p}", fn.sp, f"{fn.p} does not compare the other side with {text!r}")
        elif wants == "hashes the name":
            ev = st.auto or ()
            if len(ev) != 1 or ev[0][0] != "hash" or ev[0][2] not in ("[u8]", "&[u8]") or R_.text(ev[0][1]) != text:
                cx.viol(f"{fn.p}", fn.sp, f"{fn.p} does not hash exactly {text!r}")
        elif wants == "displays the name":
            ev = [e for e in st.auto or () if e[0] == "fmt"]
            if len(ev) != 1 or R_.text(ev[0][1]) not in (text, name.encode()):
                cx.viol(f"{fn.p}", fn.sp, f"{fn.p} does not print {name}")


def check(cx):
    F = cx.F
    R_ = R(F)
    seen, types = {}, {}
    for i in F.impls_of.get("names::types::Name", []):
        s = i["self"]
        if F.types[s].get("k") != "adt":
            continue
        adt = strip_lt(F.types[s]["d"])
        cls = F.ts(i["ta"][1]) if isinstance(i["ta"][1], int) else str(i["ta"][1])
        name = adt.split("::")[-1]
        fs = [f for f in F.fns.values() if f.nm == "as_raw" and f.impl and f.impl.get("tr") == "names::types::Name" and f.impl["self"] == s and f.impl.get("ta") == i.get("ta")]
        if len(fs) != 1:
            cx.viol(f"as_raw:{adt}", i.get("sp", ""), f"no single as_raw of {adt} for {cls}")
            continue
        fn = fs[0]
        outs = Interp(F, H(F)).run(fn)
        cx.cover(fn)
        t = R_.text(outs[0][1]) if len(outs) == 1 else None
        cx.ob("standing for its protocol name", f"{adt} in {cls}")
        w = want(name, cls, t)
        if t != w:
            cx.viol(f"name:{adt}:{cls}", fn.sp, f"{adt} stands for {t!r} instead of {w!r} in {cls}")
        cx.ob("distinct in its class", f"{adt} in {cls}")
        if (cls, t) in seen and t is not None:
            cx.viol(f"dup:{adt}:{cls}", fn.sp, f"{adt} and {seen[(cls, t)]} stand for the same text {t!r} in {cls}")
        seen[(cls, t)] = adt
        types[adt] = (w, name)
    for adt, (text, name) in sorted(types.items()):
        for fn in F.fns.values():
            if fn.body is None or "{closure" in fn.p:
                continue
            im = fn.impl
            if fn.p.startswith(adt + "::"):
                nm = fn.p[len(adt) + 2:]
                if nm in ("NAME", "CMD", "KIND") or "::" not in nm and nm.startswith("as_"):
                    cx.guard(fn.p, one, cx, R_, fn, text, name, "yields the name")
                continue
            if not im or im.get("derived"):
                continue
            s = im.get("self")
            sd = strip_lt(F.types[s]["d"]) if isinstance(s, int) and F.types[s].get("k") == "adt" else None
            tas = [strip_lt(F.types[x]["d"]) for x in (im.get("ta") or [])[1:] if isinstance(x, int) and F.types[x].get("k") == "adt"]
            tr = im.get("tr") or ""
            if sd != adt and adt not in tas:
                continue
            if tr == "core::convert::From" and sd != adt or tr in ("core::borrow::Borrow", "core::convert::AsRef", "core::ops::deref::Deref"):
                cx.guard(fn.p, one, cx, R_, fn, text, name, "yields the name")
            elif tr == "core::cmp::PartialEq" and fn.nm == "eq":
                cx.guard(fn.p, one, cx, R_, fn, text, name, "compares with the name")
            elif tr == "core::cmp::PartialEq":
                cx.viol(fn.p, fn.sp, f"{fn.p} overrides the default inequality")
            elif tr == "core::hash::Hash":
                cx.guard(fn.p, one, cx, R_, fn, text, name, "hashes the name")
            elif tr == "core::fmt::Display":
                cx.guard(fn.p, one, cx, R_, fn, text, name, "displays the name")
    # the fixed words
    for p, w in (("names::STAR", b"*"), ("names::PLUS", b"+")):
        if any(f.p == p for f in F.fns.values()):
            cx.ob("fixed word", p)
            if R_.text(("const", p)) != w:
                cx.viol(p, "src/names.rs", f"{p} is {R_.text(('const', p))!r} instead of {w!r}")
    # tag accessors
    for fn in F.fns.values():
        if fn.nm not in ("get_tag", "get_tag_mut") or fn.body is None or not fn.impl or fn.impl.get("tr") != "names::types::NameClass":
            continue
        me = strip_lt(F.types[fn.impl["self"]]["d"])
        want_i = {"names::ClientMsgKind": lambda: fidx(F, "ircmsg::client::ClientMsg", "cmd"),
                  "names::ServerMsgKind": lambda: fidx(F, "ircmsg::server::ServerMsg", "kind")}.get(me, lambda: 0)()
        for st, v in Interp(F, H(F)).run(fn):
            cx.ob("tag accessor", fn.p)
            cx.cover(fn)
            if not (v[0] == "ref" and v[1][0] == ("M", ("arg", 1)) and [p[1] for p in v[1][1] if p[0] == "f"] == [want_i]):
                cx.viol(f"tag:{fn.p}", fn.sp, f"{fn.p} does not return the tag field of the union")
    cx.need("standing for its protocol name", 100)
    cx.need("compares with the name", 100)
    cx.need("tag accessor", 8)
