"""C02 Inverse Gramian recursion."""
import numpy as np

from .c01 import SRC, G, H, forgets, fv, stores_inverse, untouched
from .. import mine
from ..evalt import Eval, close
from ..model import *

ID = "C02"
RULES = {
    "I1": "initialisation = (X' diag(w * discount) X)^-1",
    "I2": "rank-deficient initial designs are rejected by an error instead of returning a matrix",
    "I3": "update = ((1-forget)^n * G + X' diag(w * discount) X)^-1 given the inverse of G, one row or n rows",
    "I5": "no step writes into the arrays it is given",
    "I4": "recursive least squares routes its Gramian hooks to these recursions and its coefficients are (inverse Gramian) @ (y Gramian)",
}
EXPL = ("Value-graph extraction of the inverse-Gramian kernels (Sherman-Morrison recurrence kept as a mu node and peeled "
        "for the identity test), compared with the matrix inverse of the batch recursion; rejection rule from raise path conditions.")


def spd(r, J):
    A = arr(r, J, J)
    return A @ A.T + 0.5 * np.eye(J)


def run(rep):
    r = rng(5)
    pts = []
    big = rep.tier != "quick"
    for J in (1, 2, 3) if not big else (1, 2, 3, 5):
        for n in (1, 2, 4) if not big else (1, 2, 3, 4, 7, 10):
            for f in (0.0, 0.2) if not big else (0.0, 0.01, 0.2, 0.7):
                A = spd(r, J)
                pts.append(dict(X=arr(r, n, J), w=arr(r, n, lo=.3, hi=2), forget=f, A=A, gram=np.linalg.inv(A), y=arr(r, n), yg=arr(r, J, 1)))
    def pt(n, J, f, m=1.0, s=1.0):
        A = spd(r, J)
        pts.append(dict(X=s * arr(r, n, J), w=m * arr(r, n, lo=.3, hi=2), forget=f, A=A, gram=np.linalg.inv(A), y=arr(r, n), yg=arr(r, J, 1)))
    for f in forgets():
        if (1 - f) > 0.03:
            pt(1, 2, f)
            pt(3, 2, f)
    for n in sorted({37, 150, *mine.sizes(SRC, 4, 500)}):
        for f in (0.0, 0.01):
            pt(n, 2, f)
    for J in (9, 15):
        pt(J + 3, J, 0.02)
    for m in (1e-2, 50.0, 1e3):
        pt(1, 2, .1, m)
        pt(4, 2, .1, m)
        pt(1, 2, .1, 1.0, m ** .5)
    full = [p for p in pts if p["X"].shape[0] > p["X"].shape[1]]

    def upd(p):
        return np.linalg.inv((1 - p["forget"]) ** len(p["X"]) * p["A"] + G(p["X"], p["w"], p["forget"]))

    def clean(p, keys, **ren):
        return {k: p[k] for k in keys} | {k: p[v] for k, v in ren.items()}

    def kern(rule, name, ps, spec, keys):
        def go():
            e = ext(func("gram", name))
            seen(rep, e)
            ident(rep, rule, name, e, e.term, [clean(p, keys) | {sym("A"): p["A"]} for p in ps], lambda q: spec(dict(q, A=q[sym("A")])), rtol=1e-6)
            untouched(rep, "I5", name, e)
        rep.guard(rule, name, go)
    kern("I1", "init_inverted_gram", full, lambda p: np.linalg.inv(G(p["X"], p["w"], p["forget"])), ("X", "w", "forget"))
    kern("I3", "update_inverted_gram", pts, upd, ("X", "w", "forget", "gram"))

    def reject():
        f = func("gram", "init_inverted_gram")
        e = ext(f)
        cond = e.raise_cond()
        bad = [dict(X=np.c_[x, 2 * x], w=np.ones(4), forget=f0) for x in (arr(r, 4),) for f0 in (0.0, 0.1)]
        bad.append(dict(X=arr(r, 2, 3), w=np.ones(2), forget=0.0))
        bad.append(dict(X=arr(r, 5, 3), w=np.array([0.0, 1.0, 0.0, 1.0, 0.0]), forget=0.0))  # weights leave only two rows
        bad.append(dict(X=np.c_[arr(r, 6, 2), np.zeros(6)], w=np.ones(6), forget=0.0))
        bad.append(dict(X=(lambda a: np.c_[a, a.sum(1)])(np.round(arr(r, 40, 7), 1)), w=np.ones(40), forget=0.0))
        for p in bad:
            env = {sym(k): v for k, v in p.items()}
            if not bool(np.all(Eval(env, e.loops)(cond))):
                rep.ob("I2", "init_inverted_gram", REFUTED, e.where(), f"singular design {short(p)} reaches a return: raise condition {tm.show(cond, 6)} is false")
                return
        for p in full:
            env = {sym(k): p[k] for k in ("X", "w", "forget")}
            if bool(np.all(Eval(env, e.loops)(cond))):
                rep.ob("I2", "init_inverted_gram", REFUTED, e.where(), f"regular design rejected at {short(p)}")
                return
        rep.ob("I2", "init_inverted_gram", HOLDS, e.where(), f"raise condition {tm.show(cond, 6)}")
    rep.guard("I2", "init_inverted_gram", reject)

    for c in prog().subclasses("EstimationMethod"):
        if not (c.name == "OrdinaryLeastSquares" or stores_inverse(c)):
            continue

        def hook(h, ps, spec, keys):
            def go():
                e = ext(method(c, h), None, c)
                seen(rep, e)
                q = [{k: p[v] for k, v in keys.items()} | {sym("A"): p["A"]} for p in ps]
                ident(rep, "I4", f"{c.name}.{h}", e, e.term, q, lambda z: spec(dict(z, A=z[sym("A")], w=z.get("weights"))), rtol=1e-6)
                untouched(rep, "I5", f"{c.name}.{h}", e)
            rep.guard("I4", f"{c.name}.{h}", go)
        k0 = dict(X="X", weights="w", forget="forget")
        hook("init_x_gram", full, lambda p: np.linalg.inv(G(p["X"], p["w"], p["forget"])), k0)
        hook("update_x_gram", pts, upd, dict(k0, gram="gram"))
        hook("init_y_gram", pts, lambda p: H(p["X"], p["y"], p["w"], p["forget"]), dict(k0, y="y"))
        hook("update_y_gram", pts, lambda p: (1 - p["forget"]) ** len(p["X"]) * p["gram"] + H(p["X"], p["y"], p["w"], p["forget"]), dict(k0, y="y", gram="yg"))

        def coef(h, extra):
            def go():
                e = ext(method(c, h), None, c)
                seen(rep, e)
                ps = [dict(x_gram=p["gram"], y_gram=p["yg"], is_regularized=np.zeros(len(p["gram"]), bool), **extra(p)) for p in pts]
                ident(rep, "I4", f"{c.name}.{h}", e, e.term, ps, lambda p: (p["x_gram"] @ p["y_gram"])[:, 0])
            rep.guard("I4", f"{c.name}.{h}", go)
        coef("fit_beta", lambda p: {})
        coef("update_beta", lambda p: {"beta": p["yg"][:, 0] * 3})
