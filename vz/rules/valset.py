"""Value-set evaluation of terms over small finite domains."""
from interp import _arith, _wrap


class Unknown(Exception):
    pass


def ev(t, env):
    """The integer a term denotes when the atoms in env have the given values."""
    if t in env:
        return env[t]
    k = t[0]
    if k == "c":
        return t[1]
    if k == "s":
        return ev(t[1], env)
    if k == "bf":
        return t[2][ev(t[1], env) & 255]
    if k == "un" and t[1] == "Not":
        return ev(t[2], env) ^ ((1 << 64) - 1)
    if k == "cast":
        return _wrap(ev(t[2], env), t[1])
    if k == "op" and len(t) == 4:
        try:
            r = _arith(t[1], ev(t[2], env), ev(t[3], env))
        except ZeroDivisionError:
            raise Unknown(t)
        if r is None:
            raise Unknown(t)
        return r
    if k == "cmp":
        r = _arith(t[1], ev(t[2], env), ev(t[3], env))
        if r is None:
            raise Unknown(t)
        return int(r)
    if k == "not":
        return 1 - ev(t[1], env)
    if k in ("and", "or"):
        xs = [ev(x, env) for x in t[1:]]
        return int(all(xs)) if k == "and" else int(any(xs))
    raise Unknown(t)


def atoms(t, out=None):
    """The leaf terms a term is computed from."""
    out = set() if out is None else out
    k = t[0]
    if k == "c":
        pass
    elif k in ("s", "not"):
        atoms(t[1], out)
    elif k == "bf":
        atoms(t[1], out)
    elif k in ("cast", "un"):
        atoms(t[2], out)
    elif k in ("op", "cmp"):
        for x in t[2:]:
            atoms(x, out)
    elif k in ("and", "or"):
        for x in t[1:]:
            atoms(x, out)
    else:
        out.add(t)
    return out


def holds(st, env):
    """Do all facts of the state hold under env?  Facts about other terms are ignored (they only narrow the path)."""
    for t, f in st.facts.items():
        if t[0] in ("prefix", "suffix", "allof"):
            continue
        try:
            v = ev(t, env)
        except Unknown:
            continue
        if (f[0] == "in") != (v in f[1]):
            return False
    return True


M64 = (1 << 64) - 1


def pointwise(t, letter=None):
    """Is the term built from bitwise operations only (so that it acts on each bit separately)?"""
    k = t[0]
    if k == "c":
        return True
    if k == "s":
        return pointwise(t[1], letter)
    if k == "bf":
        return letter is not None and t[1] == letter
    if k == "un":
        return t[1] == "Not" and pointwise(t[2], letter)
    if k == "op":
        return t[1] in ("BitAnd", "BitOr", "BitXor") and all(pointwise(x, letter) for x in t[2:])
    return k in ("fld", "loop", "arg", "mem", "elem", "st")
