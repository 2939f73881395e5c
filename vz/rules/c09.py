"""C09: shared string buffers are released once, after the last use."""
from facts import Missing
from rules import conc, c38

EXPLAIN = (
    "Every function that can reach the inside of a reference-counted handle is interpreted over all paths, recording in order every change "
    "of the count with its memory ordering, every access to the contents, every release of the memory and what becomes of each handle. "
    "On each path: a handle is made with exactly one raise of the count (or a fresh allocation whose count equals the handles made); a "
    "handle that goes away lowers it exactly once, with Release ordering; the memory is freed, and the contents taken or destroyed once, "
    "exactly when the count showed a single holder and after an Acquire; nothing touches it after a share is given up or after it is "
    "freed. The strings' slices must be backed by the share stored beside them (as in C38).")
ASSUME = ["the memory model's guarantees for Release/Acquire pairs on one counter", "the count does not overflow",
          "code outside a handle's module cannot reach its private fields"]


def check(cx):
    F = cx.F
    hs = conc.handles(F)
    mine = {h: x for h, x in hs.items() if not conc.has_once(F, h)}
    if not mine:
        raise Missing("the reference-counted buffer")
    for h in sorted(mine):
        mod = {k: v for k, v in mine.items() if k.rsplit("::", 1)[0] == h.rsplit("::", 1)[0]}
        cx.guard("count:" + h, counted, cx, F, mod)
    cx.guard("copies", conc.check_copies, cx, F, mine)
    for nm, f in (("build", c38.check_builds), ("write", c38.check_writes), ("views", c38.check_views), ("extend", c38.check_extending)):
        cx.guard(nm, f, cx)
    cx.need("counted", 4)


def counted(cx, F, hs):
    res = conc.check_paths(cx, F, hs, False)
    drops = {fn.id for i, fn in hs.values()}
    freed = 0
    for fn, I, st, v in res:
        ev = st.auto or ()
        fr = [i for i, e in enumerate(ev) if e[0] == "free"]
        ends = [(i, e) for i, e in enumerate(ev) if e[0] in ("read", "drop")]
        if fr:
            freed += 1
            if len(ends) != 1 or ends[0][0] > fr[0]:
                cx.viol(f"contents:{fn.p}", fn.sp, f"frees the shared memory with its contents taken or destroyed {len(ends)} time(s) before, not once")
            if fn.id in drops and ends and ends[0][1][0] == "read":
                cx.viol(f"contents:{fn.p}", fn.sp, "the destructor copies the contents out instead of destroying them")
            if ends and ends[0][1][0] == "read" and not returned(v):
                cx.viol(f"contents:{fn.p}", fn.sp, "takes the contents out without returning them")
        elif ends:
            cx.viol(f"contents:{fn.p}", fn.sp, f"takes or destroys the shared contents ({ends[0][1][0]}) while the memory stays in use by others")
        for e in ev:
            if e[0] == "view" and e[2] in ("make_ref_mut", "assume_init_mut") and not fr and not any(x[0] == "load" and x[2] for x in ev):
                cx.viol(f"mutable:{fn.p}", fn.sp, "hands out the shared contents mutably without knowing that there is no other holder")
    if freed < 2:
        raise Missing("the function that releases the shared memory")


def returned(v):
    if v[0] == "s":
        v = v[1]
    if v[0] == "taken":
        return True
    return v[0] == "adt" and any(returned(x) for x in v[3])
