"""Loop hooks: inductive descriptions offered by a contract for the loops it meets."""
import z3
from . import core
from .core import cur, to_real
from .values import Sc, lift, cast, mkscalar
from .loops import Closed, Free


class Hook:
    def claims(self, cut):
        return True

    def define(self, cut):
        pass

    def state(self, cut, k):
        pass

    def assume(self, cut, k):
        pass

    def arrival(self, cut, k, now):
        pass

    def check_rel(self, cut, k, k1, now):
        return []

    def dropped(self, cut, fails):
        pass

    def check_entry(self, cut):
        pass

    def report(self, cut):
        pass

    def final(self, cut, k, now):
        pass

    def left(self, cut, N):
        pass


class Candidates(Hook):
    """real-valued locals: candidate closed forms cand(k), pruned to an inductive set"""

    def __init__(self, cands):
        self.cands = cands

    def define(self, cut):
        cut.cand_todo = {}
        for loc in list(cut.defs):
            if loc.kind in "LA" and isinstance(cut.defs[loc], Free):
                cut.cand_todo[loc] = list(self.cands)
                self.next(cut, loc)

    def next(self, cut, loc):
        p = cur()
        e = cut._entry_val(loc)
        le = lift(e) if not isinstance(e, (str, type(None))) else None
        if le is None or le.kind not in "if":
            return
        a = cast(le.e, le.kind, "f")[0]
        todo = cut.cand_todo[loc]
        while todo:
            c = todo.pop(0)
            if p.check_valid(a == c(z3.IntVal(0)), 2000)[0] != "proved":
                continue
            # the value after one iteration from the entry state
            ok = True
            for s in cut.samples.get(loc, [])[:1]:
                ls = lift(s)
                if ls is None or ls.kind not in "if":
                    ok = False
                elif not any(p.check_valid(cast(ls.e, ls.kind, "f")[0] == c(z3.IntVal(j)), 2000)[0] == "proved" for j in (1, 2)):
                    ok = False
            if ok:
                cut.defs[loc] = Closed(loc, lambda k, c=c: Sc("f", (c(k),), le.np), e, "contract family")
                return

    def dropped(self, cut, fails):
        for loc in fails:
            if loc in cut.cand_todo:
                self.next(cut, loc)
