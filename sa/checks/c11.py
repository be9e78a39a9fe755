"""C11 distribution parameters are addressed by index, totally and exclusively."""
import itertools

from ..dists import *
from ..interp import Interp

ID = "C11"
RULES = {
    "I1": "an index outside 0..n-1 (above or negative) is rejected with an error on every path, for first and second derivatives",
    "I2": "cross derivatives reject equal indices and any index outside 0..n-1",
    "I3": "every index 0..n-1 (every ordered pair of distinct indices) yields one finite value per observation",
    "I4": "cross derivatives do not depend on the order of the pair",
}
EXPL = ("Each derivative method is abstractly interpreted per distribution with the index constant-propagated: for a bad index no path may reach a "
        "return, for a good one every path must return a value per observation.")


def run(rep):
    for name in names():
        rep.guard("I1", name, lambda name=name: one(rep, name))


def one(rep, name):
    D = Dist(name)
    k = D.k
    y, th = D.sample(6)

    def rejects(m, rule, con, **a):
        def f():
            e = D.m(m, **a)
            seen(rep, e)
            if e.value is None:
                rep.ob(rule, con, PROVED, e.where(), "no path returns")
                return
            t = e.term
            # a returning path exists: is it feasible for this constant index?
            rc = e.raise_cond()
            try:
                r = np.all(np.asarray(Eval({Y: y, TH: th}, e.loops)(rc)))
            except (Unknown, Fault):
                raise Unknown("rejection depends on data")
            if r:
                rep.ob(rule, con, HOLDS, e.where())
                return
            rep.ob(rule, con, REFUTED, e.where(), f"returns {tm.show(t, 4)} instead of rejecting")
        rep.guard(rule, con, f)
    for m in ("dl1_dp1", "dl2_dp2"):
        for j in (k, k + 1, k + 7, -1, -2, -k):
            rejects(m, "I1", f"{name}.{m} index {j}", param=const(j))
        for j in range(k):
            rep.guard("I3", f"{name}.{m} index {j}", lambda m=m, j=j: value(rep, D, m, f"{name}.{m} index {j}", y, th, param=const(j)))
    for a, b in [(j, j) for j in range(k)] + [(0, k), (k, 0), (k, k + 1), (0, -1), (-1, 0), (-1, -2)]:
        rejects("dl2_dpp", "I2", f"{name}.dl2_dpp indices {a},{b}", params=mk("tuple", const(a), const(b)))
    for a, b in itertools.permutations(range(k), 2):
        def v(a=a, b=b):
            g = value(rep, D, "dl2_dpp", f"{name}.dl2_dpp indices {a},{b}", y, th, params=mk("tuple", const(a), const(b)))
            if g is None or a > b:
                return
            e = D.m("dl2_dpp", params=mk("tuple", const(b), const(a)))
            h = D.ev(e, e.term, y, th) if e.term is not None else None
            if h is not None and not close(g, h):
                rep.ob("I4", f"{name}.dl2_dpp indices {a},{b}", REFUTED, e.where(), "the value differs between the two orders of the pair")
            else:
                rep.ob("I4", f"{name}.dl2_dpp indices {a},{b}", HOLDS, e.where())
        rep.guard("I3", f"{name}.dl2_dpp indices {a},{b}", v)


def value(rep, D, m, con, y, th, **a):
    e = D.m(m, **a)
    seen(rep, e)
    if e.term is None or e.term is NONE:
        rep.ob("I3", con, REFUTED, e.where(), "no value on any path")
        return None
    got = Eval({Y: y, TH: th}, e.loops)(e.term)
    if got is None:
        rep.ob("I3", con, REFUTED, e.where(), "returns nothing")
        return None
    got = np.asarray(got, float)
    if got.shape not in ((len(y),),) or not np.isfinite(got).all():
        rep.ob("I3", con, REFUTED, e.where(), f"for {len(y)} observations the result has shape {got.shape}" + ("" if np.isfinite(got).all() else " and non-finite entries"))
        return None
    rep.ob("I3", con, HOLDS, e.where())
    return got
