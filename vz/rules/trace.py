"""Event traces: which library calls a path makes, with what, in what order."""
from rules.strs import StrHook


class Trace(StrHook):
    """Records the calls `want(cal, I)` names (a tag, or None) on every path, in order, in st.auto.

    Each event is (tag, argument terms, result term); an event already on the path is not repeated, so loops converge."""
    max_depth = 16

    def __init__(self, F, want):
        super().__init__(F)
        self.want = want
        self.sites = {}

    def call(self, I, st, cal, args, site):
        tag = self.want(cal, I)
        if tag is None:
            return super().call(I, st, cal, args, site)
        dty = I.cur_dty
        ta = tuple(I.term(a, st) for a in args)
        self.sites.setdefault((site.fn.id, site.bb), (tag, site.where))
        I.cur_dty = dty
        outs = self.result(I, st, cal, args, site, tag)
        for s, v in outs:
            self.event(I, s, (tag, ta, I.term(v, s)), site)
        return outs

    def result(self, I, st, cal, args, site, tag):
        return I.opaque(st, cal, args, I.cur_argtys, site)

    def event(self, I, st, e, site):
        tr = st.auto or ()
        if e not in tr:
            st.auto = tr + (e,)


def events(st, tag=None):
    return [e for e in (st.auto or ()) if tag is None or e[0] == tag]


def deep(t, pred, seen=None):
    """Does a term contain a subterm satisfying pred?"""
    if isinstance(t, tuple):
        if pred(t):
            return True
        return any(deep(x, pred) for x in t)
    return False
