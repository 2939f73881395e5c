"""A small domain of linear inequalities over lengths and capacities."""
from math import gcd
from seqs import lin, lin_sub
from interp import subterms

MAX = 2 ** 64 - 1
SMAX = 2 ** 63 - 1


def ge(a, b):
    """The inequality a - b >= 0 as (constant, {atom: coefficient})."""
    return lin_sub(lin(a), lin(b))


def norm(i):
    c, d = i
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        return (c // g, tuple(sorted(((k, v // g) for k, v in d.items()), key=repr)))
    return (c, tuple(sorted(d.items(), key=repr)))


def unsat(ineqs, limit=4000):
    """Do the inequalities (each >= 0) have no solution in the rationals?"""
    cs = set()
    for i in ineqs:
        n = norm(i)
        if not n[1]:
            if n[0] < 0:
                return True
            continue
        cs.add(n)
    while True:
        occ = {}
        for c, d in cs:
            for k, v in d:
                p = occ.setdefault(k, [0, 0])
                p[v < 0] += 1
        if not occ:
            return False
        x = min(occ, key=lambda k: (occ[k][0] * occ[k][1], repr(k)))
        pos, neg, rest = [], [], set()
        for n in cs:
            v = dict(n[1]).get(x, 0)
            (pos if v > 0 else neg).append((v, n)) if v else rest.add(n)
        for a, p in pos:
            for b, q in neg:
                c = p[0] * -b + q[0] * a
                d = {}
                for k, v in p[1]:
                    d[k] = d.get(k, 0) + v * -b
                for k, v in q[1]:
                    d[k] = d.get(k, 0) + v * a
                n = norm((c, {k: v for k, v in d.items() if v}))
                if not n[1]:
                    if n[0] < 0:
                        return True
                    continue
                rest.add(n)
        cs = rest
        if len(cs) > limit:
            return False


def hyps(facts, resolve=lambda t: t):
    """Inequalities of a state's facts."""
    out = []
    for f, v in facts.items():
        if f[0] == "cmp" and v[0] == "in" and len(v[1]) == 1:
            k = next(iter(v[1]))
            a, b = resolve(f[2]), resolve(f[3])
            if a is None or b is None:
                continue
            if f[1] == "Lt":
                out.append(lin_sub(ge(b, a), (1, {})) if k else ge(a, b))
            elif f[1] == "Eq" and k:
                out += [ge(a, b), ge(b, a)]
        elif f[0] in ("len", "arg", "fld", "op", "lin", "vlen", "vcap", "loop", "call"):
            if v[0] == "in" and v[1] and all(isinstance(x, int) for x in v[1]):
                out.append(lin_sub(lin(f), (min(v[1]), {})))
                out.append(lin_sub((max(v[1]), {}), lin(f)))
            elif v[0] == "not" and 0 in v[1]:
                out.append(lin_sub(lin(f), (1, {})))
    return out


def bounds(t):
    """What holds of an atom by its kind."""
    out = [(0, {t: 1})]
    if t[0] in ("len", "vlen", "vcap"):
        out.append((SMAX, {t: -1}))
    else:
        out.append((MAX, {t: -1}))
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] == "sub" and len(s) == 4:
            out += [ge(s[2], ("c", 0)), ge(s[3], s[2]), ge(("len", s[1]), s[3])]
    return out


def diseqs(facts, resolve=lambda t: t):
    """Pairs of different numbers."""
    return [ge(f[2], f[3]) for f, v in facts.items() if f[0] == "cmp" and f[1] == "Eq" and v == ("in", frozenset([0]))]


def implies(goal, hs, extra=lambda atom: (), ne=(), depth=2):
    """Do the hypotheses imply goal >= 0? Only hypotheses connected to the goal are used."""
    if implies1(goal, hs, extra):
        return True
    if depth:
        for i, d in enumerate(ne):
            lo, hi = (d[0] - 1, d[1]), (-d[0] - 1, {k: -v for k, v in d[1].items()})
            a, b = implies1(goal, hs + [lo], extra), implies1(goal, hs + [hi], extra)
            rest = ne[i + 1:]
            if a or b:
                if a and b or implies(goal, hs + [hi if a else lo], extra, rest, depth - 1):
                    return True
    return False


def implies1(goal, hs, extra):
    neg = (-goal[0] - 1, {k: -v for k, v in goal[1].items()})
    seen, use = set(), [neg]
    todo = list(neg[1]) or [k for h in hs for k in h[1]]
    pool = list(hs)
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        pool += list(bounds(a)) + list(extra(a))
        keep = []
        for h in pool:
            if any(k in seen for k in h[1]):
                use.append(h)
                todo += [k for k in h[1] if k not in seen]
            else:
                keep.append(h)
        pool = keep
    return unsat(use + [h for h in hs if not h[1]])
