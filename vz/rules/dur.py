"""Times and durations: evaluates the terms of a path summary on a point of a small grid of times."""


from fractions import Fraction

UNITS = {"from_secs": 1, "from_millis": 10 ** 3, "from_micros": 10 ** 6, "from_nanos": 10 ** 9}


class Unknown(Exception):
    pass


MAXD = 1 << 70
CMP = {"Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b,
       "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b}


def ev(t, env):
    """Value of a term: an int (instants and durations as counts), a bool, or ("some", v) / "none"."""
    if t in env:
        return env[t]
    k = t[0]
    if k == "c":
        return t[1]
    if k in ("s", "deref", "mem") and len(t) == 2:
        return ev(t[1], env)
    if k == "adt" and t[1] == "core::option::Option":
        return ("some", ev(t[3][0], env)) if t[2] == 1 else "none"
    if k == "adt" and t[1].startswith("core::time::Duration") and len(t[3]) == 2:
        return ev(t[3][0], env)
    if k == "default" and t[1].endswith("time::Duration") or k == "const" and t[1].endswith("Duration::ZERO"):
        return 0
    if k == "const" and t[1].endswith("Duration::MAX"):
        return MAXD
    if k == "cmp":
        return CMP[t[1]](ev(t[2], env), ev(t[3], env))
    if k == "not":
        return not ev(t[1], env)
    if k == "op" and t[1] in ("Add", "Sub", "Mul"):
        a, b = ev(t[2], env), ev(t[3], env)
        return a + b if t[1] == "Add" else a - b if t[1] == "Sub" else a * b
    if k == "lin":
        return t[1] + sum(c * ev(x, env) for x, c in t[2])
    if k == "discr":
        v = ev(t[1], env)
        if v == "none":
            return 0
        if isinstance(v, tuple) and v[0] == "some":
            return 1
        if isinstance(v, tuple) and v[0] == "ord":
            return v[1]
        raise Unknown(t)
    if k == "fld":
        if len(t) == 4:
            v = ev(t[1], env)
            if isinstance(v, tuple) and v[0] == "some":
                return v[1]
        raise Unknown(t)
    if k == "call":
        n = t[1].split("::")[-1]
        if n == "now" and ("now",) in env:
            return env[("now",)]
        if n == "elapsed" and ("now",) in env:
            return max(0, env[("now",)] - ev(t[2][0], env))
        if n in UNITS:
            return Fraction(ev(t[2][0], env), UNITS[n])
        a = [ev(x, env) for x in t[2]]
        if n in ("saturating_duration_since", "duration_since"):
            return max(0, a[0] - a[1])
        if n == "checked_duration_since":
            return ("some", a[0] - a[1]) if a[0] >= a[1] else "none"
        if n in ("saturating_sub",):
            return max(0, a[0] - a[1])
        if n == "checked_sub":
            return ("some", a[0] - a[1]) if a[0] >= a[1] else "none"
        if n in ("sub", "add", "mul", "saturating_add", "saturating_mul"):
            return a[0] - a[1] if n == "sub" else a[0] * a[1] if n.endswith("mul") else a[0] + a[1]
        if n in ("checked_add", "checked_mul"):
            return ("some", a[0] + a[1] if n == "checked_add" else a[0] * a[1])
        if n in ("max", "min"):
            return max(a) if n == "max" else min(a)
        if n == "is_zero":
            return a[0] == 0
        if n in ("lt", "le", "gt", "ge", "eq", "ne"):
            return CMP[n.capitalize()](*a)
        if n in ("clone", "from", "into", "deref"):
            return a[0]
        if n == "cmp":
            return ("ord", -1 if a[0] < a[1] else int(a[0] > a[1]))
        if n == "partial_cmp":
            return ("some", ("ord", -1 if a[0] < a[1] else int(a[0] > a[1])))
        if n == "is_some":
            return a[0] != "none"
        if n == "is_none":
            return a[0] == "none"
    raise Unknown(t)


def holds(st, env, skip=()):
    """Can this path be taken at this point?  (facts about anything else are assumed to hold)"""
    for t, f in st.facts.items():
        try:
            v = ev(t, env)
        except Unknown:
            continue
        except (TypeError, KeyError):
            continue
        if v is True or v is False:
            v = int(v)
        if not isinstance(v, int):
            continue
        if (v in f[1]) != (f[0] == "in"):
            return False
    return True
