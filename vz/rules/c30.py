"""C30: TLS certificate checks are only skipped when asked to."""
from facts import calls, strip_lt, Missing
from interp import Interp, St
from rules.c05 import fidx
from rules.trace import Trace, events, deep

EXPLAIN = ("The TLS configuration builder is interpreted once per trust setting on all paths, with every call into the TLS library "
           "recorded. Only the setting that disables verification may reach a call that replaces the certificate verifier; every "
           "other successful path must install root certificates, taken from exactly the sources that setting names (system "
           "roots, configured files). Every call site in the crate that can weaken verification must be one of those analysed. "
           "Each verifier type in the crate must check handshake signatures with the library procedure of the same protocol "
           "version, on the data it was given. Both connect functions are interpreted on all paths: with TLS requested, a "
           "successful result wraps a TLS session made with the caller's configuration and the caller's address as server name.")
ASSUME = ["the TLS library verifies certificates against the roots and the name it is given"]
TRUST = "client::tls::Trust"
OPTS = "client::tls::TlsConfigOptions"
DANGER = ("dangerous", "with_custom_certificate_verifier", "set_certificate_verifier", "with_dangerous_verifier")
VER = "rustls::verify::ServerCertVerifier"


def dangerous(c):
    return c.nm in DANGER or ("danger" in c.p and "rustls" in c.p and c.nm not in ("assertion",))


def name_of(p):
    return strip_lt(p)


def check(cx):
    F = cx.F
    if TRUST not in F.adts or OPTS not in F.adts:
        raise Missing("the trust configuration types")
    vs = [v["n"] for v in F.adts[TRUST]["vs"]]
    for v in ("Only", "Default", "Also", "NoVerify"):
        if v not in vs:
            raise Missing(f"trust setting {v}")
    ti = fidx(F, OPTS, "trust")
    seen = set()
    builders = [f for f in F.fns.values() if f.body and f.reach and f.out is not None and "ClientConfig" in F.ts(f.out) and f.ins
                and OPTS in F.ts(f.ins[0])]
    if not builders:
        raise Missing("the function that builds the TLS configuration")
    for fn in builders:
        for k, v in enumerate(vs):
            cx.guard(f"C30:{fn.p}:{v}", build, cx, fn, k, v, ti, seen)
    # No other way to weaken verification.
    n = 0
    for fn in F.fns.values():
        if not fn.body:
            continue
        for bb, t, c in calls(fn):
            nm = (c.get("nm") or c["p"].rsplit("::", 1)[-1])

            class C:
                p = strip_lt(c["p"])
            C.nm = nm
            if dangerous(C):
                n += 1
                cx.ob("weakening site", f"{fn.p} bb{bb}: {C.p} only for NoVerify")
                if (fn.id, bb) not in seen:
                    cx.viol(f"C30:site:{fn.p}:{nm}", f"{fn.file}:{t['ln']}", f"{fn.p} calls {C.p} outside the analysed configuration builder: certificate verification could be replaced there")
    verifiers(cx)
    defaults(cx)
    connects(cx)
    cx.need("build", 4)
    cx.need("signature", 2)
    cx.need("connect", 2)


def build(cx, fn, k, vname, ti, seen):
    F = cx.F

    def want(c, I):
        if c.id in F.fns:
            return None
        if dangerous(c):
            return "danger"
        if c.nm in ("with_root_certificates", "with_webpki_verifier"):
            return "roots"
        if c.nm in ("load_native_certs",):
            return "native"
        at = I.cur_argtys
        if at and at[0] is not None and F.types[at[0]].get("k") == "ref" and F.types[at[0]].get("m") and "RootCertStore" in F.ts(at[0]):
            return "store:" + c.nm
        if c.nm == "open" and "File" in c.p:
            return "open"
        return None
    class Build(Trace):
        def event(self, I, st, e, site):
            # only where the data comes from matters here
            nat = deep(e[1], lambda t: t[:1] == ("call",) and len(t) > 1 and "load_native_certs" in str(t[1]))
            if e[0].startswith("store:"):
                nat = deep(e[1][1:], lambda t: t[:1] == ("call",) and len(t) > 1 and "load_native_certs" in str(t[1]))
            conf = deep(e[1], lambda t: t == ("trust", 0))
            e = (e[0], nat, conf)
            st.auto = tuple(sorted(set(st.auto or ()) | {e}))
    h = Build(F, want)
    I = Interp(F, h)
    st = St()
    nf = len(F.adts[TRUST]["vs"][k]["f"])
    st_loc = (("M", ("arg", 1)), (("f", ti),))
    I.write(st, st_loc, ("adt", TRUST, k, tuple(("s", ("trust", j)) for j in range(nf))))
    for j in range(nf):
        I.tty[("trust", j)] = F.adts[TRUST]["vs"][k]["f"][j]["t"]
    outs = I.run(fn, st=st)
    cx.cover(fn)
    for key, (tag, where) in h.sites.items():
        if tag == "danger":
            if vname == "NoVerify":
                seen.add(key)
            else:
                seen.add(key)
                cx.viol(f"C30:{fn.p}:danger:{vname}", where, f"with trust setting {vname}, {fn.p} can replace the certificate verifier")
    oks = [(s, v) for s, v in outs if v[0] == "adt" and v[2] == 0]
    other = [(s, v) for s, v in outs if v[0] != "adt"]
    if other:
        raise Missing(f"{fn.p}: a result that is neither Ok nor Err is visible for {vname}")
    if not oks:
        raise Missing(f"{fn.p}: no successful path for {vname}")
    cx.ob("build", f"{fn.p} with {vname}: {len(oks)} successful paths")
    if vname == "NoVerify":
        return
    natives = files = 0
    for s, v in oks:
        tags = [e[0] for e in events(s)]
        if "roots" not in tags:
            cx.viol(f"C30:{fn.p}:noroots:{vname}", fn.sp, f"with trust setting {vname}, {fn.p} can succeed without installing root certificates")
        opens = events(s, "open")
        src = [e for e in events(s) if e[0].startswith("store:")]
        nat = [e for e in src if e[1]]
        natives += bool(nat)
        fil = [e for e in src if e not in nat and any(o[2] for o in opens) and e[0] in ("store:add", "store:add_parsable_certificates")]
        files += bool(fil)
        if vname == "Only" and nat:
            cx.viol(f"C30:{fn.p}:native:{vname}", fn.sp, f"with trust setting {vname}, {fn.p} also trusts the system roots")
        if vname in ("Default", "Also") and not nat:
            cx.viol(f"C30:{fn.p}:nonative:{vname}", fn.sp, f"with trust setting {vname}, {fn.p} can succeed without the system roots")
        for e in src:
            if e not in nat and e not in fil and e[0] not in ("store:len", "store:is_empty"):
                cx.viol(f"C30:{fn.p}:source:{vname}:{e[0]}", fn.sp, f"with trust setting {vname}, {fn.p} adds root certificates ({e[0][6:]}) from a source the setting does not name")
    if vname in ("Only", "Also") and not files:
        cx.viol(f"C30:{fn.p}:files:{vname}", fn.sp, f"with trust setting {vname}, {fn.p} never adds the configured certificates")


def verifiers(cx):
    F = cx.F
    n = 0
    for tr, ims in F.impls_of.items():
        if tr.rsplit("::", 1)[-1] != "ServerCertVerifier":
            continue
        for im in ims:
            n += 1
            fns = {f.nm: f for f in F.fns.values() if f.impl is im or (f.impl and f.impl["id"] == im["id"])}
            for ver in ("12", "13"):
                nm = f"verify_tls{ver}_signature"
                f = fns.get(nm)
                if f is None:
                    raise Missing(f"{nm} of {F.ts(im['self'])}")
                cx.guard(f"C30:{nm}", signature, cx, f, ver)
    if n == 0:
        cx.ob("signature", "no verifier type in the crate")
        cx.ob("signature", "(none)")


def signature(cx, fn, ver):
    F = cx.F

    def want(c, I):
        return c.nm if c.id not in F.fns and c.nm.startswith("verify_tls") else None
    I = Interp(F, Trace(F, want))
    outs = I.run(fn)
    cx.cover(fn)
    cx.ob("signature", f"{fn.p} defers to the library's TLS 1.{int(ver) - 10} signature check with its own arguments")
    for s, v in outs:
        if v[0] == "adt" and v[2] == 1:
            continue
        ok = [e for e in events(s, f"verify_tls{ver}_signature") if e[1][:3] == tuple(("arg", i) for i in (2, 3, 4)) or strip_m(e[1][:3]) == tuple(("arg", i) for i in (2, 3, 4))]
        t = I.term(v, s)
        if not ok or not any(deep(t, lambda x: x == e[2]) or t == e[2] or passed(s, e[2]) for e in ok):
            cx.viol(f"C30:{fn.nm}", fn.sp, f"{fn.p} can accept a handshake signature the library's TLS 1.{int(ver) - 10} check has not accepted for the same message, certificate and signature")


def passed(s, t):
    f = s.facts.get(("discr", t))
    return f is not None and f[0] == "in" and set(f[1]) == {0}


def strip_m(ts):
    return tuple(t[1] if t[:1] in (("mem",), ("refof",)) else t for t in ts)


def defaults(cx):
    F = cx.F
    vs = [v["n"] for v in F.adts[TRUST]["vs"]]
    for path in (TRUST, OPTS):
        fs = [f for f in F.fns.values() if f.nm == "default" and f.impl and f.impl.get("tr") == "core::default::Default" and F.adt_of(f.impl["self"]) == path]
        for f in fs:
            I = Interp(F, Trace(F, lambda c, I: None))
            for s, v in I.run(f):
                t = v if path == TRUST else v[3][fidx(F, OPTS, "trust")] if v[0] == "adt" else v
                cx.ob("default", f"{f.p} verifies certificates")
                cx.cover(f)
                if t[0] == "c":
                    k = t[1]
                elif t[0] == "adt":
                    k = t[2]
                else:
                    raise Missing(f"the value of {f.p}")
                if vs[k] == "NoVerify":
                    cx.viol(f"C30:{f.p}", f.sp, f"{f.p} disables certificate verification")


def connects(cx):
    F = cx.F
    ADDR = "client::conn::ServerAddr"
    tls, addr = fidx(F, ADDR, "tls"), fidx(F, ADDR, "address")
    n = 0
    for fn in list(F.fns.values()):
        if not fn.body or ADDR.rsplit("::", 1)[-1] not in fn.p:
            continue
        own = fn.raw.get("coroutine")
        host = fn
        if own:
            host = F.fns.get(fn.raw.get("parent"))
            if host is None or host.ins is None:
                continue
        elif fn.ins is None or fn.raw.get("async"):
            continue
        if not host.reach or not host.ins or ADDR not in F.ts(host.ins[0]):
            continue
        if not any("ClientConfig" in x for x in host.raw.get("preds", []) + (host.impl or {}).get("preds", [])):
            continue
        n += 1
        cx.guard(f"C30:{fn.p}", connect, cx, fn, own, tls, addr)
    cx.ob("connect", f"{n} connect functions that take a TLS configuration")


def connect(cx, fn, co, tls, addr):
    F = cx.F

    def want(c, I):
        if c.id in F.fns:
            return None
        if c.nm == "call_once" and c.tr and c.tr.endswith("FnOnce"):
            return None
        if c.nm in ("new", "connect", "connect_with", "new_with_alpn") and "rustls" in c.p and ("ClientConnection" in c.p or "TlsConnector" in c.p):
            at = I.cur_argtys
            ix = [i for i, x in enumerate(at) if x is not None and "ServerName" in F.ts(x)]
            if len(ix) != 1:
                raise Missing(f"the server name argument of {c.p}")
            return f"session:{ix[0]}"
        return None
    h = Trace(F, want)
    I = Interp(F, h)
    I.split = 16
    outs = I.run(fn)
    cx.cover(fn)
    base = ("fld", ("arg", 1), 0) if co else ("arg", 1)
    SELF = ("mem", base)
    flag = ("fld", SELF, tls)
    A = ("fld", SELF, addr)
    cfg = ("fld", ("arg", 1), 1) if co else ("arg", 2)
    inner = [a for a in F.adts if a.rsplit("::", 1)[-1] == "StreamInner"]
    tlsv = {}
    for a in inner:
        for i, v in enumerate(F.adts[a]["vs"]):
            tlsv[(a, i)] = any("rustls" in F.ts(f["t"]) for f in v["f"])
    seen = 0
    for s, v in outs:
        if v[0] == "adt" and v[1] == "core::result::Result" and v[2] == 1:
            continue
        t = I.term(v, s)
        fl = s.facts.get(flag)
        on = fl is None or not (fl[0] == "in" and set(fl[1]) == {0}) and not (fl[0] == "not" and 1 in fl[1])
        if not on:
            continue
        seen += 1
        cx.ob("connect", f"{fn.p}: successful path {seen} with TLS requested")
        kinds = set()

        def grab(x):
            if x[:1] == ("adt",) and len(x) > 2 and (x[1], x[2]) in tlsv:
                kinds.add(tlsv[(x[1], x[2])])
            return False
        deep(t, grab)
        if kinds != {True}:
            cx.viol(f"C30:{fn.p}:plain", fn.sp, f"{fn.p} can return a connection that is not a TLS session although TLS was requested")
            continue
        ses = [e for e in events(s) if e[0].startswith("session")]
        if not ses:
            cx.viol(f"C30:{fn.p}:session", fn.sp, f"{fn.p} can return a TLS stream that no client session was made for")
        for e in ses:
            if not deep(e[1], lambda x: x[:1] == ("call",) and len(x) > 2 and "call_once" in str(x[1]) and deep(x[2], lambda y: y == cfg)):
                cx.viol(f"C30:{fn.p}:config", fn.sp, f"{fn.p} makes a TLS session with a configuration other than the caller's")
            nm = [e[1][int(e[0][8:])]]
            if not nm or not all(deep(x, lambda y: y == A) for x in nm):
                cx.viol(f"C30:{fn.p}:name", fn.sp, f"{fn.p} verifies a server name that is not the address it was asked to connect to")
            for x in nm:
                for ev in sub_of_self(x, SELF):
                    if ev != A:
                        cx.viol(f"C30:{fn.p}:name", fn.sp, f"{fn.p} verifies a server name not only made of the address")
                if deep(x, lambda y: y[:1] == ("b",) and len(y) == 2 and len(y[1]) > 0) or altered(x):
                    cx.viol(f"C30:{fn.p}:name", fn.sp, f"{fn.p} verifies a server name that differs from the address it was asked to connect to ({altered(x) or 'a constant'})")
    if not seen:
        raise Missing(f"{fn.p}: no successful path with TLS requested")


KEEP = ("to_owned", "try_from", "try_into", "into", "from", "from_utf8", "from_utf8_unchecked", "as_ref", "as_str", "to_utf8", "borrow", "clone",
        "deref", "as_bytes", "unwrap", "load", "call_once", "to_string", "new", "connect", "as_deref", "ok_or_else", "ok_or", "from_utf8_lossy")


def altered(t):
    """A call in the term that does not keep the text it is given."""
    bad = []

    def f(x):
        if x[:1] == ("call",) and len(x) > 2 and isinstance(x[1], str):
            nm = x[1].rsplit("::", 1)[-1]
            if nm not in KEEP:
                bad.append(nm)
        if x[:1] in (("sub",), ("suf",), ("pre",)):
            bad.append("part of it")
        return False
    deep(t, f)
    return bad[0] if bad else None


def sub_of_self(t, SELF):
    out = set()

    def f(x):
        if x[:1] == ("fld",) and len(x) == 3 and x[1] == SELF:
            out.add(x)
        return False
    deep(t, f)
    return out
