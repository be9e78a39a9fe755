"""C01 Gramian recursions equal the batch Gramian of the discounted, weighted history."""
import numpy as np

from .. import mine
from ..evalt import Eval, Fault, close
from ..model import *

ID = "C01"
RULES = {
    "G1": "initialisation = X' diag(w * discount) X  (resp. X' diag(w * discount) y as a column)",
    "G2": "update = (1-forget)^n * G + X' diag(w * discount) X  (resp. y), for 1 row and for n rows",
    "G3": "updating with a chunk after initialising with a prefix = initialising with the whole history (any chunking)",
    "G5": "no Gramian step writes into the arrays it is given",
    "G4": "every estimation method routes its Gramian steps to these recursions with its own arguments",
}
EXPL = ("Value-graph extraction of the Gramian kernels and of every estimation method's init/update hooks; the extracted "
        "closed forms/recurrences are compared with the prescribed matrix expressions by identity testing of the expressions.")
METHODS_FULL = ("LassoPath", "ElasticNetPath", "Ridge")


def fv(n, f):
    return (1 - f) ** np.arange(n - 1, -1, -1.0)


def G(X, w, f):
    return X.T @ (X * (w * fv(len(X), f))[:, None])


def H(X, y, w, f):
    return (X.T @ (y * w * fv(len(X), f)))[:, None]


def points(tier):
    r = rng(1)
    out = []
    ns = (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 7, 11)
    for n in ns:
        for J in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 6):
            for f in (0.0, 0.125, 0.4) if tier == "quick" else (0.0, 1e-3, 0.125, 0.4, 0.9):
                out.append(dict(X=arr(r, n, J), y=arr(r, n), w=arr(r, n, lo=0.3, hi=2), forget=f, gram=arr(r, J, J)))
    return out + wide(r)


SRC = ("gram", "methods")


def forgets():
    return sorted({1e-5, 0.01, 0.6, 0.95, *mine.fracs(SRC)})


def wide(r):
    """large batches, many columns, extreme forgetting factors and weights; both sides of every constant in the code"""
    out = []

    def pt(n, J, f, lo=.3, hi=2.0, s=1.0):
        w = np.exp(r.uniform(np.log(lo), np.log(hi), n))
        out.append(dict(X=s * arr(r, n, J), y=s * arr(r, n), w=w, forget=f, gram=arr(r, J, J)))
    for f in forgets():
        for n in (1, 3):
            pt(n, 2, f)
    for n in sorted({37, 150, 1100, *mine.sizes(SRC)}):
        for f in (0.0, 0.002, 0.3):
            pt(n, 2, f)
    for J in sorted({9, 25, *mine.sizes(SRC, 4, 60)}):
        pt(3, J, 0.1)
    for m in sorted({1e-3, 1e3, 1e6, *mine.mags(SRC, 1e-6, 1e8)}):
        for n in (1, 3):
            pt(n, 2, .1, m / 2, m * 2)
            pt(n, 2, .1, s=m)
    return out


def run(rep):
    pts = points(rep.tier)
    for p in pts:
        p["gram"] = p["gram"] @ p["gram"].T

    def k(rule, name, spec, mod="gram", ygram=False):
        def go():
            f = func(mod, name)
            e = ext(f)
            seen(rep, e)
            ps = [dict(p, gram=p["gram"][:, :1]) for p in pts] if ygram else pts
            ident(rep, rule, name, e, e.term, ps, spec)
            untouched(rep, "G5", name, e)
        rep.guard(rule, name, go)

    k("G1", "init_gram", lambda p: G(p["X"], p["w"], p["forget"]))
    k("G1", "init_y_gram", lambda p: H(p["X"], p["y"], p["w"], p["forget"]))
    k("G2", "update_gram", lambda p: (1 - p["forget"]) ** len(p["X"]) * p["gram"] + G(p["X"], p["w"], p["forget"]))
    k("G2", "update_y_gram", lambda p: (1 - p["forget"]) ** len(p["X"]) * p["gram"] + H(p["X"], p["y"], p["w"], p["forget"]), ygram=True)

    # G3: composition of the extracted terms (chunk law)
    def chunk():
        ok = 0
        r = rng(2)
        fi, fu = func("gram", "init_gram"), func("gram", "update_gram")
        yi, yu = func("gram", "init_y_gram"), func("gram", "update_y_gram")
        E = {n: ext(f) for n, f in (("xi", fi), ("xu", fu), ("yi", yi), ("yu", yu))}

        def val(n, **kw):
            e = E[n]
            return Eval({sym(a): b for a, b in kw.items()}, e.loops)(e.term)
        for J in (1, 3):
            for f in (0.0, 0.2):
                for split in ((2, 3), (3, 1), (4, 1, 2), (1, 1, 1), (40, 30), (3, 120, 1)):
                    N = sum(split)
                    X, y, w = arr(r, N, J), arr(r, N), arr(r, N, lo=.2, hi=2)
                    a = split[0]
                    g = val("xi", X=X[:a], w=w[:a], forget=f)
                    h = val("yi", X=X[:a], y=y[:a], w=w[:a], forget=f)
                    for s in split[1:]:
                        sl = slice(a, a + s)
                        g = val("xu", gram=g, X=X[sl], w=w[sl], forget=f)
                        h = val("yu", gram=h, X=X[sl], y=y[sl], w=w[sl], forget=f)
                        a += s
                    if not (close(g, val("xi", X=X, w=w, forget=f)) and close(h, val("yi", X=X, y=y, w=w, forget=f))):
                        rep.ob("G3", "chunk composition", REFUTED, E["xu"].where(), f"split {split}, forget {f}, J {J}")
                        return
                    ok += 1
        rep.ob("G3", "chunk composition", HOLDS, E["xu"].where(), f"{ok} compositions of the extracted recurrences")
    rep.guard("G3", "chunk composition", chunk)

    # G4: methods
    hooks = {
        "init_x_gram": lambda p: G(p["X"], p["weights"], p["forget"]),
        "init_y_gram": lambda p: H(p["X"], p["y"], p["weights"], p["forget"]),
        "update_x_gram": lambda p: (1 - p["forget"]) ** len(p["X"]) * p["gram"] + G(p["X"], p["weights"], p["forget"]),
        "update_y_gram": lambda p: (1 - p["forget"]) ** len(p["X"]) * p["gram"] + H(p["X"], p["y"], p["weights"], p["forget"]),
    }
    for c in prog().subclasses("EstimationMethod"):
        for h, spec in hooks.items():
            if h.endswith("_x_gram") and stores_inverse(c):
                continue  # recursive least squares keeps the inverse: C02

            def go(c=c, h=h, spec=spec):
                e = ext(method(c, h), None, c)
                seen(rep, e)
                ps = [dict(X=p["X"], y=p["y"], weights=p["w"], forget=p["forget"], gram=p["gram"] if "_x_" in h else p["gram"][:, :1]) for p in pts]
                ident(rep, "G4", f"{c.name}.{h}", e, e.term, ps, spec)
                untouched(rep, "G5", f"{c.name}.{h}", e)
            rep.guard("G4", f"{c.name}.{h}", go)


def untouched(rep, rule, name, e):
    ws = param_writes(e)
    if ws:
        rep.ob(rule, name, REFUTED, ws[0].where(), "writes into an array of the caller")
    else:
        rep.ob(rule, name, PROVED, e.where(), "no store reaches an argument")


def stores_inverse(c):
    """does this method keep the inverse Gramian? decided from how it turns Grams into coefficients"""
    e = ext(method(c, "fit_beta"), None, c)
    try:
        r = rng(3)
        A = arr(r, 3, 3)
        A = A @ A.T + np.eye(3)
        b = arr(r, 3, 1)
        v = Eval({sym("x_gram"): A, sym("y_gram"): b, sym("is_regularized"): np.array([False, True, True])}, e.loops)(e.term)
        return close(np.ravel(v), (A @ b)[:, 0])
    except Exception:
        return False
