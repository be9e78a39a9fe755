"""C13 coefficient path: lambda grid, warm starts, early stop, bounds; single-lambda and least-squares methods."""
from .. import mine
from ..model import *

ID = "C13"
RULES = {
    "T1": "row i of the path is the solver's result for the i-th lambda from the documented start vector (previous lambda / previous fit / their average)",
    "T2": "early stop: once the start vector has at least `early_stop` non-zeros it is carried over, with zero iterations",
    "T3": "the lambda grid is the decreasing geometric grid from the largest lambda to eps times it, with the configured length",
    "T4": "the largest lambda is the absolute gradient of the null model (every penalised coefficient is zero there)",
    "T5": "fit and update pass the configured settings (alpha, bounds, selection, tolerance, iterations, early stop, their own start rule) and the right Gramians to the path solver",
    "T6": "missing bounds mean unbounded, bounds of the wrong length are rejected",
    "T7": "least squares returns inverse Gramian times y-Gramian; ridge minimises with the configured or default lambda",
    "T9": "the announced length of the path is its length",
    "T8": "arguments (Gramians, previous path) are not modified",
}
EXPL = ("The single-lambda solver (for the methods: the path solver) is kept as an uninterpreted generic function of all its arguments, so the path "
        "recurrence and the wiring of every setting are decided by identity of the extracted terms with the prescribed recurrence.")
SOLVER = "online_coordinate_descent"
SRC = ("coordinate_descent", "methods")


def run(rep):
    path(rep)
    for c in prog().subclasses("EstimationMethod"):
        if c.name in ("ElasticNetPath", "LassoPath"):
            methods(rep, c)
        elif c.name == "OrdinaryLeastSquares":
            ols(rep, c)
        elif c.name == "Ridge":
            ridge(rep, c)


def path(rep):
    f = func("coordinate_descent", SOLVER + "_path")
    e = ext(f, it=Interp(prog(), opaque_funcs={SOLVER}))
    seen(rep, e)
    w, con = e.where(), f.name
    def solver(kw):
        b = smooth(SOLVER, kw, (len(kw["y_gram"]),))
        b[np.abs(b) < .35] = 0.0
        return b, int(3 + 4 * abs(smooth("it", kw, ())))

    def call(ev, t):
        n, kw = fargs(ev, t)
        return solver(norm(kw)) if n == SOLVER else NotImplemented

    def norm(kw):
        kw = dict(kw)
        kw["regularization"] = float(kw["regularization"])
        return kw
    r = rng(130)
    for mode in ("previous_lambda", "previous_fit", "average"):
        for es in (0, 2):
            def one(mode=mode, es=es):
                for k, (J, L, it) in enumerate([(4, 5, 17)] * 3 + [(4, 130, 17), (30, 4, 17), (3, 4, 2500)] + [(3, n, 17) for n in mine.sizes(SRC, 4, 300)]):
                    p = dict(x_gram=arr(r, J, J), y_gram=arr(r, J), beta_path=arr(r, L, J) * (r.uniform(size=(L, J)) > .5), lambda_path=np.sort(r.uniform(.1, 3, L))[::-1].copy(),
                             is_regularized=np.arange(J) > 0, alpha=.4, early_stop=es, beta_lower_bound=arr(r, J) - 3, beta_upper_bound=arr(r, J) + 3,
                             which_start_value=mode, selection="cyclic", tolerance=(1e-3, 1e-9, 0.3)[k % 3], max_iterations=it)
                    v = Eval({sym(a): b for a, b in p.items()}, e.loops, {"fcall": call})(e.term)
                    B, I = np.zeros((L, J)), np.zeros(L)
                    for i in range(L):
                        prev = B[max(i - 1, 0)]
                        s = {"previous_lambda": prev, "previous_fit": p["beta_path"][i], "average": (prev + p["beta_path"][i]) / 2}[mode]
                        if es > 0 and np.count_nonzero(s) >= es:
                            B[i], I[i] = s, 0
                        else:
                            kw = {a: p[a] for a in ("x_gram", "y_gram", "is_regularized", "alpha", "beta_lower_bound", "beta_upper_bound", "selection", "tolerance", "max_iterations")}
                            kw.update(beta=s.copy(), regularization=float(p["lambda_path"][i]))
                            B[i], I[i] = solver(kw)
                    rep.count("identity_points")
                    if not close(v[0], B):
                        rep.ob("T2" if es else "T1", f"{con} start={mode} early_stop={es}", REFUTED, w, f"path rows {short(v[0])}, prescribed {short(B)}")
                        return
                    if not close(v[1], I):
                        rep.ob("T2" if es else "T1", f"{con} start={mode} early_stop={es}", REFUTED, w, f"iteration counts {short(v[1])}, prescribed {short(I)}")
                        return
                rep.ob("T2" if es else "T1", f"{con} start={mode} early_stop={es}", HOLDS, w)
            rep.guard("T1", f"{con} start={mode} early_stop={es}", one)
    nowrites(rep, e, con)


def nowrites(rep, e, con, allow=()):
    def f():
        ws = param_writes(e, allow)
        if ws:
            v = ws[0]
            rep.ob("T8", con, REFUTED, f"{v.file}:{v.line}", f"writes into argument {v.data[1] if v.kind == 'write' else tm.show(v.data[0], 3)}")
        else:
            rep.ob("T8", con, PROVED, e.where(), "no store reaches an argument")
    rep.guard("T8", con, f)


def lam_max(G, y, reg):
    y = np.ravel(y)
    if reg.all():
        return np.max(np.abs(y))
    j = np.flatnonzero(~reg)
    b = np.linalg.solve(G[np.ix_(j, j)], y[j])
    return np.max(np.abs(y - G[:, j] @ b)[reg]) if reg.any() else 0.0


SET = dict(lambda_n=6, lambda_eps=2e-3, early_stop=3, start_value_initial="SVI", start_value_update="SVU", selection="SEL", tolerance=3e-5, max_iterations=77)


def methods(rep, c):
    J = 4
    for m in ("fit_beta_path", "update_beta_path"):
        f = method(c, m)
        con = f"{c.name}.{m}"

        def one(m=m, f=f, con=con):
            it, st, ref = new_obj(c, {k: sym("set:" + k) for k in c.lookup("__init__").params()[1:] if not k.startswith("beta_")} | {"beta_lower_bound": sym("set:lo"), "beta_upper_bound": sym("set:hi")},
                                  it=Interp(prog(), opaque_funcs={SOLVER + "_path", SOLVER}))
            e = ext(f, None, c, it=it, st=st, self_ref=ref)
            seen(rep, e)
            if e.term is None:
                rep.ob("T5", con, REFUTED, e.where(), "no path returns")
                return
            r = rng(131)
            told = []
            base = [dict(SET, J=4)] * 6
            more = [dict(lambda_n=130), dict(lambda_n=2), dict(lambda_eps=1e-7), dict(lambda_eps=0.3), dict(early_stop=0), dict(early_stop=40), dict(tolerance=1e-12), dict(tolerance=0.5),
                    dict(max_iterations=1), dict(max_iterations=5000), dict(J=25), dict(J=2)]
            more += [dict(lambda_n=n) for n in mine.sizes(SRC, 4, 300)]
            more += [dict(unit=u) for u in sorted({1e-11, 1e-7, 1e-3, 1e4, 1e8, *(f * v for v in mine.mags(SRC, 1e-12, 1e10) for f in (0.02, 1.0, 50.0))}) for _ in (0, 1)]
            for k, S in enumerate(base + [dict(SET, **({"J": 4} | x)) for x in more]):
                SETk, J = {a: b for a, b in S.items() if a not in ("J", "unit")}, S["J"]
                A = arr(r, 3 * J + 8, J)
                u = S.get("unit", 1.0)  # the response in other units
                G, y = A.T @ A, (A.T @ arr(r, 3 * J + 8))[:, None] * u
                if k % 2:
                    y = -np.abs(y)  # all gradients negative
                reg = np.ones(J, bool)
                if k >= 2:
                    reg[k % J] = False
                alpha = 1.0 if c.name == "LassoPath" else (1.0, .5, .25)[k % 3]
                lo, hi = arr(r, J) - 3, arr(r, J) + 3
                bp = arr(r, SETk["lambda_n"], J) * u
                env = {sym("x_gram"): G, sym("y_gram"): y, sym("is_regularized"): reg, sym("beta_path"): bp, sym("set:alpha"): alpha, sym("set:lo"): lo, sym("set:hi"): hi}
                env.update({sym("set:" + a): b for a, b in SETk.items()})
                got = {}

                def call(ev, t):
                    n, kw = fargs(ev, t)
                    if n != SOLVER + "_path":
                        return NotImplemented
                    got.update(kw)
                    return smooth(n, {k: v for k, v in kw.items()}, (SETk["lambda_n"], J)), np.zeros(SETk["lambda_n"])
                v = Eval(env, e.loops, {"fcall": call})(e.term)
                if not got:
                    raise Unknown("path solver not called")
                rep.count("identity_points")
                lp = np.asarray(got["lambda_path"], float)
                g = lam_max(G, y, reg)
                if lp.shape != (SETk["lambda_n"],) or not close(lp / u, np.geomspace(lp[0], lp[0] * SETk["lambda_eps"], SETk["lambda_n"]) / u):
                    rep.ob("T3", con, REFUTED, e.where(), f"lambda grid {short(lp)} is not geometric from lambda_max to lambda_max*{SETk['lambda_eps']} with {SETk['lambda_n']} values")
                    return
                ok = [g, g / alpha]
                if not any(close(lp[0] / u, x / u) for x in ok):
                    rep.ob("T4", con, REFUTED, e.where(), f"largest lambda {lp[0]:.9g}, gradient of the null model {g:.9g} (y-Gramian {short(y.ravel())}, regularised {reg.tolist()})")
                    return
                if alpha * lp[0] < g * (1 - 1e-9) and not told:
                    told.append(1)
                    rep.ob("T4", f"{con} alpha<1", REFUTED, e.where(), f"with alpha={alpha} the largest lambda {lp[0]:.6g} does not zero the penalised coefficients (needs {g / alpha:.6g})")
                want = dict(x_gram=G, y_gram=y[:, 0], alpha=alpha, is_regularized=reg, early_stop=SETk["early_stop"], beta_lower_bound=lo, beta_upper_bound=hi, selection="SEL",
                            tolerance=SETk["tolerance"], max_iterations=SETk["max_iterations"], which_start_value="SVI" if m.startswith("fit") else "SVU",
                            beta_path=np.zeros((SETk["lambda_n"], J)) if m.startswith("fit") else bp)
                for a, b in want.items():
                    if a not in got:
                        raise Unknown(f"path solver has no argument {a}")
                    if not close(got[a], b, 1e-7, 1e-9 * min(1.0, u)) if not isinstance(b, str) else got[a] != b:
                        rep.ob("T5", f"{con} argument {a}", REFUTED, e.where(), f"passes {short(got[a])}, prescribed {short(b)}")
                        return
                want["lambda_path"] = lp
                if not close(v, smooth(SOLVER + "_path", {k: got[k] for k in got}, (SETk["lambda_n"], J))):
                    rep.ob("T5", con, REFUTED, e.where(), "does not return the path solver's coefficient path")
                    return
            rep.ob("T3", con, HOLDS, e.where())
            rep.ob("T4", con, HOLDS, e.where())
            rep.ob("T5", con, HOLDS, e.where(), f"{len(want)} arguments")
            nowrites(rep, e, con)
        rep.guard("T5", con, one)

    def length():
        for n in (1, 3, 40, 130):
            it, st, ref = new_obj(c, ({"alpha": const(.5)} if "alpha" in c.lookup("__init__").params() else {}) | {"lambda_n": const(n)})
            v = Eval({}, it.loops)(it.to_term(st, it.get_attr(st, ref, "_path_length")))
            if v != n:
                rep.ob("T9", c.name, REFUTED, f"{c.module.path} {c.name}", f"announces {v} path entries for lambda_n={n}")
                return
        rep.ob("T9", c.name, HOLDS, f"{c.module.path} {c.name}")
    if c.lookup("__init__") is not None:
        rep.guard("T9", c.name, length)

    def bounds():
        con = f"{c.name}.fit_beta_path bounds"
        for lo, hi in ((False, False), (True, False), (False, True), (True, True)):
            a = {"alpha": const(.5)} if "alpha" in c.lookup("__init__").params() else {}
            if lo:
                a["beta_lower_bound"] = sym("lo")
            if hi:
                a["beta_upper_bound"] = sym("hi")
            it, st, ref = new_obj(c, a, it=Interp(prog(), opaque_funcs={SOLVER + "_path", SOLVER}))
            e = ext(method(c, "fit_beta_path"), None, c, it=it, st=st, self_ref=ref)
            check_bounds(rep, con, e, lo, hi)
        rep.ob("T6", con, HOLDS, e.where())
    rep.guard("T6", f"{c.name} bounds", bounds)


class Stop(Exception):
    pass


def check_bounds(rep, con, e, lo, hi):
    J = 3
    r = rng(133)
    A = arr(r, 9, J)
    for nl, nh in ((J, J), (J + 1, J), (J, J - 1), (J - 1, J), (J, J + 1)):
        if (nl != J and not lo) or (nh != J and not hi):
            continue
        env = {sym("x_gram"): A.T @ A, sym("y_gram"): (A.T @ arr(r, 9))[:, None], sym("is_regularized"): np.array([False, True, True]), sym("lo"): -np.ones(nl), sym("hi"): np.ones(nh)}
        env[sym("start_beta")] = None
        raised = any(bool(np.all(Eval(env, e.loops)(pc_term(v.pc)))) for v in e.raises() if not v.loops)
        bad = nl != J or nh != J
        if bad != raised:
            rep.ob("T6", con, REFUTED, e.where(), f"bounds of length {nl}/{nh} for {J} coefficients are " + ("accepted" if bad else "rejected"))
            raise Unknown("see violation")
        if bad:
            continue
        got = {}

        def call(ev, t):
            n, kw = fargs(ev, t)
            got.update(kw)
            return (np.zeros((100, J)), np.zeros(100)) if n.endswith("_path") else (np.zeros(J), 1)
        Eval(env, e.loops, {"fcall": call})(e.term)
        wl, wh = (-np.ones(J) if lo else np.full(J, -np.inf)), (np.ones(J) if hi else np.full(J, np.inf))
        for a, b in (("beta_lower_bound", wl), ("beta_upper_bound", wh)):
            if not np.array_equal(np.broadcast_to(np.asarray(got[a], float), (J,)), b):
                rep.ob("T6", con, REFUTED, e.where(), f"{a} passed to the solver is {short(got[a])}, prescribed {short(b)}")
                raise Unknown("see violation")


def ols(rep, c):
    for m in ("fit_beta", "update_beta"):
        def one(m=m):
            e = ext(method(c, m), None, c)
            seen(rep, e)
            r = rng(132)
            pts = [dict(x_gram=arr(r, J, J), y_gram=arr(r, J, 1), beta=arr(r, J), is_regularized=np.ones(J, bool)) for J in (1, 2, 4)]
            ident(rep, "T7", f"{c.name}.{m}", e, e.term, pts, lambda p: (p["x_gram"] @ p["y_gram"])[:, 0])
            nowrites(rep, e, f"{c.name}.{m}")
        rep.guard("T7", f"{c.name}.{m}", one)


def ridge(rep, c):
    J = 3
    for m in ("fit_beta", "update_beta"):
        for lam, start, l0 in ((True, False, 1.7), (False, False, 1.7), (True, True, 1.7), (True, False, 0.0), (True, False, 1e-9)):
            if m == "update_beta" and not lam:
                continue

            def one(m=m, lam=lam, start=start, l0=l0):
                con = f"{c.name}.{m}" + ("" if lam else " default lambda") + (" start value" if start else "") + ("" if l0 == 1.7 else f" lambda {l0}")
                a = {k: sym("set:" + k) for k in ("selection", "tolerance", "max_iterations")} | {"beta_lower_bound": sym("lo"), "beta_upper_bound": sym("hi")}
                if start:
                    a["start_beta"] = sym("set:start")
                if lam:
                    a["lambda_reg"] = sym("set:lambda_reg", "scalar")
                it, st, ref = new_obj(c, a, it=Interp(prog(), opaque_funcs={SOLVER}))
                e = ext(method(c, m), None, c, it=it, st=st, self_ref=ref)
                seen(rep, e)
                r = rng(134)
                for k in range(3):
                    A = arr(r, 9, J)
                    p = dict(x_gram=A.T @ A, y_gram=(A.T @ arr(r, 9))[:, None], is_regularized=np.array([k != 1, True, True]), beta=arr(r, J), lo=arr(r, J) - 3, hi=arr(r, J) + 3)
                    env = {sym(x): v for x, v in p.items()} | {sym("set:" + x): SET[x] for x in ("selection", "tolerance", "max_iterations")} | {sym("set:lambda_reg", "scalar"): l0, sym("set:lambda_reg"): l0, sym("set:start"): 9 + arr(r, J)}
                    got = {}

                    def call(ev, t):
                        n, kw = fargs(ev, t)
                        got.update(kw)
                        return smooth(n, kw, (J,)), 1
                    v = Eval(env, e.loops, {"fcall": call})(e.term)
                    want = dict(x_gram=p["x_gram"], y_gram=p["y_gram"][:, 0], is_regularized=p["is_regularized"], alpha=0.0, regularization=l0 if lam else np.trace(p["x_gram"]) / J,
                                beta_lower_bound=p["lo"], beta_upper_bound=p["hi"], selection="SEL", tolerance=SET["tolerance"], max_iterations=77)
                    if m == "update_beta":
                        want["beta"] = p["beta"]
                    elif start:
                        want["beta"] = env[sym("set:start")]
                    for x, b in want.items():
                        if x not in got:
                            raise Unknown(f"solver has no argument {x}")
                        if (got[x] != b) if isinstance(b, str) else not close(got[x], b):
                            rep.ob("T7", f"{con} argument {x}", REFUTED, e.where(), f"passes {short(got[x])}, prescribed {short(b)}")
                            return
                    if not close(v, smooth(SOLVER, got, (J,))):
                        rep.ob("T7", con, REFUTED, e.where(), "does not return the solver's coefficients")
                        return
                rep.ob("T7", con, HOLDS, e.where())
                nowrites(rep, e, con)
            rep.guard("T7", f"{c.name}.{m} {lam} {start} {l0}", one)

    def bounds():
        con = f"{c.name}.fit_beta bounds"
        for lo, hi in ((False, False), (True, True)):
            a = {"lambda_reg": const(1.0)}
            if lo:
                a["beta_lower_bound"] = sym("lo")
            if hi:
                a["beta_upper_bound"] = sym("hi")
            it, st, ref = new_obj(c, a, it=Interp(prog(), opaque_funcs={SOLVER}))
            e = ext(method(c, "fit_beta"), None, c, it=it, st=st, self_ref=ref)
            check_bounds(rep, con, e, lo, hi)
        rep.ob("T6", con, HOLDS, e.where())
    rep.guard("T6", f"{c.name} bounds", bounds)
