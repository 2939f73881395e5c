"""C05: strings derived from a secret string are secret."""
from facts import strip_lt, Missing
from interp import Interp, subterms
from rules.strs import SPEC, MOD, BYTES, BUILDER, StrHook, newtype_of, newtype_ti, bytes_ti
from rules.c02 import subs as c02_subs, params_of

EXPLAIN = ("Every function that takes a string is interpreted abstractly assuming its string inputs are secret (all of them, "
           "and each one alone); wherever a string value is built (or its secret flag written) from bytes that came out of a "
           "secret input, the new flag must be set on every path, and every string a string's own methods return must be secret.")
SPLITTER = "string::splitter::Splitter"
SECRETBUF = "string::secretbuf::SecretBuf"


def fidx(F, path, name):
    for i, f in enumerate(F.adts[path]["vs"][0]["f"]):
        if f["n"] == name:
            return i
    raise Missing(f"field {name} of {path}")


def is_str(F, ti):
    return newtype_of(F, ti) is not None or (F.types[ti].get("k") == "adt" and strip_lt(F.types[ti]["d"]) == BYTES)


class H(StrHook):
    max_depth = 10

    def __init__(self, F, only=None, deep=True):
        super().__init__(F)
        self.deep = deep
        self.only = only          # index of the one secret argument, or None for all
        self.vi, self.si = fidx(F, BYTES, "value"), fidx(F, BYTES, "secret")
        self.bsi = fidx(F, BUILDER, "secret")
        self.bvi = fidx(F, BUILDER, "bytes")
        self.events = {}
        self.n = 0

    def inline(self, I, fn, cal):
        # compositional: operations on a string, splitter or builder are roots of their own; inside the string
        # module everything is followed, elsewhere their results are taken to be secret as checked there
        if self.deep or not fn.ins:
            return True
        t = self.F.types[fn.ins[0]]
        t0 = t["t"] if t.get("k") == "ref" else fn.ins[0]
        if fn.p.startswith(("string::", "<string::")) and isinstance(t0, int) and (is_str(self.F, t0) or self.F.adt_of(t0) in (BUILDER, SPLITTER) or self.F.types[t0].get("k") == "param"):
            return False
        return True

    def flag_of(self, I, t):
        """Is t the secret flag of a string (or builder) the function was given?"""
        if t[0] != "fld" or len(t) != 3:
            return None
        if t[2] == self.si or t[2] == self.bsi:
            ti = I.ttype(t[1])
            if ti is None:
                return None
            if is_str(self.F, ti) and t[2] == self.si:
                return t[1]
            if self.F.adt_of(ti) == BUILDER and self.F.types[ti].get("k") == "adt" and t[2] == self.bsi:
                return t[1]
        return None

    def secret_src(self, S):
        """Is the string S one of the inputs assumed secret?"""
        # the command of a server message kind is a protocol keyword
        if S[0] == "fld" and len(S) == 4 and S[2] == 1 and self.kind(S):
            return False
        rs = {x for x in subterms(S) if x and x[0] == "arg" and len(x) == 2}
        if any(x and x[0] in ("const", "static", "default") for x in subterms(S)) and not rs:
            return False
        if self.only is None:
            return True
        return rs == {("arg", self.only)} or (bool(rs) and ("arg", self.only) in rs and len(rs) == 1)

    def kind(self, S):
        ti = self.I.ttype(S[1])
        return ti is not None and self.F.adt_of(ti) == "ircmsg::servermsgkind::ServerMsgKindRaw"

    def tfact(self, I, st, t):
        S = self.flag_of(I, t)
        if S is None:
            return None
        return ("in", frozenset([1 if self.secret_src(S) else 0]))

    def tainted(self, I, st, v):
        """A secret input whose bytes the value contains, if any."""
        t = v[1] if v[0] in ("s",) else (I.term(v) if v[0] != "c" else None)
        if t is None or v[0] == "b":
            return None
        if t[0] == "sub" and t[2:] == (("c", 0), ("c", 0)):
            return None
        for x in content_terms(t):
            if x[0] == "fld" and len(x) == 3:
                ti = I.ttype(x[1])
                if ti is None:
                    continue
                if x[2] == self.vi and is_str(self.F, ti) and self.secret_src(x[1]):
                    return x[1]
                if x[2] == self.bvi and self.F.types[ti].get("k") == "adt" and self.F.adt_of(ti) == BUILDER and self.secret_src(x[1]):
                    return x[1]
        return None

    def check(self, I, st, val, flag, what, site):
        S = self.tainted(I, st, val)
        if S is None:
            return
        self.n += 1
        ok = I.known(st, flag) == 1
        k = (site.fn.p, what)
        self.events[k] = self.events.get(k, True) and ok
        if not ok:
            self.bad = (site.where, S)

    def agg(self, I, st, kk, vals, site):
        if kk[1] == BYTES:
            self.check(I, st, vals[self.vi], vals[self.si], "Bytes", site)
        elif kk[1] == BUILDER:
            self.check(I, st, vals[self.bvi], vals[self.bsi], "Builder", site)

    def write(self, I, st, loc, val, site):
        base, proj = loc
        if proj and proj[-1] == ("f", self.si):
            # a direct write to a string's flag
            own = (base, proj[:-1])
            v = I.read(st, own)
            try:
                S = I.project(v, (("f", self.vi),))
            except Exception:
                return
            if S[0] == "s" and self.tainted(I, st, S) is not None and st_is_str(self, I, own, v):
                self.check(I, st, S, val, "flag write", site)


def st_is_str(h, I, loc, v):
    if v[0] == "adt":
        return v[1] == BYTES
    if v[0] in ("s", "st"):
        t = v[1] if v[0] == "s" else None
        ti = I.ttype(t) if t is not None else None
        if v[0] == "st" and v[1][0] == "s":
            ti = I.ttype(v[1][1])
        return ti is not None and is_str(h.F, ti)
    return False


def content_terms(t, d=0):
    """Sub-terms whose bytes can end up in the slice t (not lengths or positions)."""
    if not isinstance(t, tuple) or not t or d > 40:
        return
    if isinstance(t[0], str):
        if t[0] in ("len", "cmp", "pos", "any", "itpos", "lin", "discr"):
            return
        yield t
        if t[0] == "sub":
            yield from content_terms(t[1], d + 1)
            return
        if t[0] == "loop":
            return
    for x in t:
        if isinstance(x, tuple):
            yield from content_terms(x, d + 1)


def strings_in(F, ti, d=0):
    if d > 5 or ti is None:
        return False
    if is_str(F, ti):
        return True
    t = F.types[ti]
    if t.get("k") == "adt" and strip_lt(t["d"]) in (BUILDER, SPLITTER):
        return True
    for x in list(t.get("a", [])) + ([t["t"]] if isinstance(t.get("t"), int) else []):
        if isinstance(x, int) and strings_in(F, x, d + 1):
            return True
    if t.get("k") == "adt" and strip_lt(t["d"]) in F.adts and d < 4:
        for v in F.adts[strip_lt(t["d"])]["vs"]:
            for f in v["f"]:
                if strings_in(F, f["t"], d + 2):
                    return True
    return False


def reduced_subs(F, fn):
    """Instantiations over two representative string types."""
    out = []
    for lab, sub in c02_subs(F, fn):
        if all(x in ("", "NoNul", "Bytes") for x in lab.split(",")):
            out.append((lab, sub))
    return out or c02_subs(F, fn)[:1]


def out_strings(F, I, st, v, ti, d=0):
    """String values inside a returned value."""
    if d > 3 or ti is None:
        return
    if is_str(F, ti):
        yield v
        return
    t = F.types[ti]
    if t.get("k") == "tuple" and v[0] == "adt":
        for x, y in zip(v[3], t["a"]):
            yield from out_strings(F, I, st, x, y, d + 1)
    elif t.get("k") == "adt" and v[0] == "adt" and strip_lt(t["d"]) in ("core::option::Option", "core::result::Result") and v[3]:
        a = [x for x in t["a"] if isinstance(x, int)]
        yield from out_strings(F, I, st, v[3][0], a[v[2] if t["d"].endswith("Result") else 0], d + 1)


def one(cx, fn):
    F = cx.F
    nargs = [i for i, t in enumerate(fn.ins) if strings_in(F, t) or "impl " in F.ts(t) or F.types[t].get("k") == "param"]
    for lab, sub in reduced_subs(F, fn):
        modes = [None] + ([i + 1 for i in nargs] if len(nargs) > 1 and fn.p.startswith(("string::", "<string::")) else [])
        for only in modes:
            deep = fn.p.startswith(("string::", "<string::"))
            h = H(F, only, deep)
            h.bad = None
            h.I = I = Interp(F, h)
            outs = I.run(fn, sub=sub)
            cx.cover(fn)
            for (where, what), ok in h.events.items():
                cx.ob("secret construction", f"{fn.p} {what} in {where} secret={'all' if only is None else only}")
                if not ok:
                    cx.viol(f"lost:{where}:{what}", h.bad[0] if h.bad else fn.sp,
                            f"{fn.p}: a {what} is built in {where} from the bytes of a secret string without being marked secret")
            # a string's own methods
            if fn.impl and only in (None, 1) and fn.ins:
                s0 = F.types[fn.ins[0]]
                st0 = s0["t"] if s0.get("k") == "ref" else fn.ins[0]
                src_str = is_str(F, I.subst(st0, sub)) if isinstance(st0, int) else False
                src_buf = F.adt_of(st0) == SECRETBUF
                ot = I.subst(fn.out, sub) if fn.out is not None else None
                if (src_str or src_buf) and ot is not None:
                    for st, v in outs:
                        for sv in out_strings(F, I, st, v, ot):
                            flag = I.project(sv, (("f", h.si),))
                            cx.ob("string method result", fn.p)
                            if I.known(st, flag) != 1 and not is_const(sv):
                                cx.viol(f"result:{fn.p}", fn.sp, f"{fn.p} can return a string that is not secret for a secret input")
                if src_str and s0.get("k") == "ref" and s0.get("m"):
                    for st, v in outs:
                        cur = I.read(st, (("M", ("arg", 1)), ()))
                        flag = I.project(cur, (("f", h.si),))
                        cx.ob("string edited in place", fn.p)
                        if I.known(st, flag) != 1:
                            cx.viol(f"inplace:{fn.p}", fn.sp, f"{fn.p} can leave a secret string no longer secret")


            if fn.ins and F.types[fn.ins[0]].get("k") == "ref" and F.types[fn.ins[0]].get("m") and F.adt_of(F.types[fn.ins[0]]["t"]) == BUILDER:
                for st, v in outs:
                    b = I.read(st, (("M", ("arg", 1)), ()))
                    buf, flag = I.project(b, (("f", h.bvi),)), I.project(b, (("f", h.bsi),))
                    S = h.tainted(I, st, buf)
                    if S is not None:
                        cx.ob("builder holding secret text", f"{fn.p} secret={'all' if only is None else only}")
                        if I.known(st, flag) != 1:
                            cx.viol(f"builder:{fn.p}", fn.sp, f"{fn.p} can leave a builder that holds the bytes of a secret string but is not secret")


def is_const(v):
    return False


def strings_of(F, I, v, d=0):
    """String values anywhere inside a known value."""
    if d > 6:
        return
    if v[0] == "adt":
        if v[1] == BYTES:
            yield v
        else:
            for x in v[3]:
                yield from strings_of(F, I, x, d + 1)
    elif v[0] in ("s", "st"):
        t = v[1] if v[0] == "s" else v[1][1] if v[1][0] == "s" else None
        ti = I.ttype(t) if t is not None else None
        if ti is not None and is_str(F, ti):
            yield v


def flagged(cx, fn, bi):
    """A constructor told by a flag that its input is secret."""
    F = cx.F

    class HB(H):
        def tfact(self, I, st, t):
            if t == ("arg", bi + 1):
                return ("in", frozenset([1]))
            return None
    h = HB(F)
    h.I = I = Interp(F, h)
    n = 0
    for st, v in I.run(fn):
        for sv in strings_of(F, I, v):
            n += 1
            cx.ob("string built under a secret flag", fn.p)
            if I.known(st, I.project(sv, (("f", h.si),))) != 1:
                cx.viol(f"flag:{fn.p}", fn.sp, f"{fn.p} ignores being told that its input is secret: a string it builds is not secret")
    if not n:
        raise Missing(f"no string found in the result of {fn.p}")


def check(cx):
    F = cx.F
    fidx(F, BYTES, "secret")
    roots = []
    for fn in F.fns.values():
        if fn.body is None or "{closure" in fn.p or (fn.impl or {}).get("derived"):
            continue
        if any(strings_in(F, t) or F.adt_of(t) == SECRETBUF for t in fn.ins) or any("BytesNewtype" in p or "Into<string::" in p for p in (fn.raw.get("preds") or [])):
            if fn.p.split("::")[0] in ("client",) or fn.p.startswith("<client"):
                continue
            if not fn.reach and not (fn.impl and "tr" in fn.impl):
                continue   # private helpers are followed from the functions that call them
            roots.append(fn)
    for fn in roots:
        cx.guard(f"fn:{fn.p}", one, cx, fn)
    for fn in F.fns.values():
        if fn.reach and fn.impl and fn.p.startswith("string::base64::") and fn.out is not None and "tr" not in fn.impl:
            b = [i for i, t in enumerate(fn.ins) if F.ts(t) == "bool"]
            if b and F.adt_of(fn.out) == F.adt_of(fn.impl["self"]):
                cx.guard(f"fn:{fn.p}", flagged, cx, fn, b[-1])
    cx.need("secret construction", 10)
    cx.need("string built under a secret flag", 1)
    cx.need("string method result", 10)
