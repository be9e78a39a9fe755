"""C07 fitted parameters stay admissible: link ranges, supports, starting values."""
from ..dists import *

ID = "C07"
R_, P_, U_, T2, P0 = (-np.inf, np.inf), (0.0, np.inf), (0.0, 1.0), (2.0, np.inf), (0.0, np.inf)
DOC = {  # documented parameter domains / observation domains (ends up to one representable number)
    "Normal": ([R_, P_], R_), "NormalMeanVariance": ([R_, P_], R_), "StudentT": ([R_, P_, P_], R_), "JSU": ([R_, P_, R_, P_], R_),
    "Gamma": ([P_, P_], P_), "Beta": ([U_, U_], U_), "LogNormal": ([R_, P_], P_), "LogNormalMedian": ([P_, P_], P_), "Logistic": ([R_, P_], R_),
    "Exponential": ([P_], P_), "Gumbel": ([R_, P_], R_), "ReverseGumbel": ([R_, P_], R_), "InverseGaussian": ([P_, P_], P_),
    "InverseGamma": ([P_, P_], P_), "BetaInflated": ([U_, U_, P_, P_], U_), "BetaInflatedZero": ([U_, U_, P_], U_), "ZeroAdjustedGamma": ([P_, P_, U_], P_),
}
RULES = {
    "S1": "the default inverse link maps every predictor into the declared support of its parameter",
    "S2": "declared parameter and observation supports are within the documented domains, and cover them",
    "S3": "the distribution's link, inverse-link and derivative functions are those of the link of the same parameter index",
    "S4": "a link whose range exceeds the parameter's support triggers a warning at construction, a compatible one does not",
    "S5": "starting values lie in the parameter's support, one row per observation",
}
EXPL = ("The per-parameter link terms are extracted through the distribution object; supports are constant-propagated; the warning condition at "
        "construction is extracted as a path condition over the supports of symbolic links.")
ASSUMPTIONS = ["predictors in [-30, 700]; observations for starting values are non-degenerate samples inside the support"]


def run(rep):
    for name in names():
        rep.guard("S1", name, lambda name=name: one(rep, name))


def etas():
    r = rng(70)
    return np.r_[r.uniform(-30, 30, 24), r.uniform(-3, 3, 16), -30.0, 0.0, 30.0, 41.0, 100.0, 699.0]


def one(rep, name):
    D = Dist(name)
    eta = etas()
    where = f"{D.c.module.path.split('/repo/')[-1]} {name}"

    def s2():
        if name not in DOC:
            raise Unknown("no documented domain on file")
        ps, ys = DOC[name]
        bad = []
        if len(ps) != D.k:
            bad.append(f"{D.k} parameters, documented {len(ps)}")
        else:
            for j in range(D.k):
                (lo, hi), (a, b) = D.psupport[j], ps[j]
                if lo < a or hi > b:
                    bad.append(f"parameter {j}: declared {lo, hi} exceeds {a, b}")
        lo, hi = D.support
        if lo < ys[0] or hi > ys[1] or (np.isfinite(ys[0]) and lo > ys[0] + 1e-9) or (np.isfinite(ys[1]) and hi < ys[1] - 1e-9) or np.isinf(ys[0]) != np.isinf(lo) or np.isinf(ys[1]) != np.isinf(hi):
            bad.append(f"observations: declared {lo, hi}, documented {ys}")
        for end in ys:
            if np.isfinite(end) and (lo <= end <= hi) != (end in MIXED.get(name, ())):
                bad.append(f"the point {end:g} " + ("has zero density but is declared admissible" if lo <= end <= hi else "carries mass but is declared inadmissible"))
        rep.ob("S2", name, REFUTED if bad else HOLDS, where, "; ".join(bad))
    rep.guard("S2", name, s2)

    for j in range(D.k):
        def s1(j=j):
            e = D.m("link_inverse", y=Y, param=const(j))
            seen(rep, e)
            v = np.asarray(Eval({Y: eta}, e.loops)(e.term), float)
            if v.shape != eta.shape:
                raise Unknown("shape")
            lo, hi = D.psupport[j]
            tol = 1e-9 * abs(lo) if np.isfinite(lo) else 0.0
            ok = np.isfinite(v) & (v >= lo - tol) & ((v <= hi) | ((hi < 2) & (v <= 1.0) & (eta > 16)))
            if lo > 0 and lo < 1e-9:
                ok &= v > 0
            rep.count("identity_points", len(eta))
            if ok.all():
                rep.ob("S1", f"{name} parameter {j}", HOLDS, e.where(), f"{len(eta)} predictors")
            else:
                i = int(np.flatnonzero(~ok)[0])
                rep.ob("S1", f"{name} parameter {j}", REFUTED, where, f"predictor {eta[i]:.6g} maps to {v[i]:.9g}, outside the support {lo, hi}")
        rep.guard("S1", f"{name} parameter {j}", s1)

        def s3(j=j):
            for m, lm in (("link_function", "link"), ("link_inverse", "inverse"), ("link_function_derivative", "link_derivative"), ("link_inverse_derivative", "inverse_derivative")):
                e = D.m(m, y=Y, param=const(j))
                L = link_of(D, j)
                if L is None:
                    raise Unknown("link object not resolved")
                want = L(lm)
                if e.term is want.term:
                    rep.ob("S3", f"{name}.{m} parameter {j}", PROVED, e.where())
                    continue
                x = core(D, j, lm)
                a, b = Eval({Y: x}, e.loops)(e.term), Eval({sym("x"): x, Y: x}, want.loops)(want.term)
                good = close(a, b)
                rep.ob("S3", f"{name}.{m} parameter {j}", HOLDS if good else REFUTED, e.where(), "" if good else "differs from the link registered for this parameter")
        rep.guard("S3", f"{name} parameter {j}", s3)

    def s4():
        f = D.c.lookup("__init__")
        ps = f.params()[1:]
        it, st, ref = new_obj(D.c, {p: sym(p) for p in ps if not p.startswith('use_')})
        lk = it.to_term(st, it.get_attr(st, ref, "links"))
        if lk.op != "dictdisp":
            raise Unknown("links container")
        mp = {tm.cval(lk.args[i]): lk.args[i + 1] for i in range(0, len(lk.args), 2)}
        if set(mp) != set(range(D.k)):
            rep.ob("S4", name, REFUTED, where, f"links registered for {sorted(mp)}")
            return
        cond = [pc_term(e.pc) for e in it.events if e.kind == "warn" and not e.loops]
        if any(e.kind == "warn" and e.loops for e in it.events):
            raise Unknown("warnings raised inside an abstract loop")
        base = {sym(p): False for p in ps}
        cond = tm.or_(*cond) if cond else FALSE
        base |= {mk("attr", mp[j], "link_support"): D.psupport[j] for j in range(D.k)}
        n = 0
        for j in range(D.k):
            lo, hi = D.psupport[j]
            for a, b, w in ((lo, hi, False), (np.nextafter(lo, -np.inf), hi, np.isfinite(lo)), (lo, np.nextafter(hi, np.inf), np.isfinite(hi)),
                            (-np.inf, hi, np.isfinite(lo)), (lo, np.inf, np.isfinite(hi)), (-np.inf, np.inf, np.isfinite(lo) or np.isfinite(hi)), (lo - 1 if np.isfinite(lo) else -1.0, hi if np.isfinite(hi) else 5.0, np.isfinite(lo)),
                            (lo if np.isfinite(lo) else 0.0, hi + 1 if np.isfinite(hi) else 7.0, np.isfinite(hi)),
                            (max(lo, 0.2), min(hi, 0.7), False)):
                env = dict(base)
                env[mk("attr", mp[j], "link_support")] = (a, b)
                got = bool(np.all(Eval(env, it.loops, {"isinstance": lambda ev, t: True})(cond)))
                n += 1
                if got != bool(w):
                    rep.ob("S4", f"{name} parameter {j}", REFUTED, where, f"link range {a, b} against support {lo, hi}: " + ("no warning" if w else "spurious warning"))
                    return
        rep.ob("S4", name, HOLDS, where, f"{n} support relations")
    rep.guard("S4", name, s4)

    def s5():
        e = D.m("initial_values")
        seen(rep, e)
        fit = name in ("JSU", "StudentT")  # the library's likelihood fit
        for k in range(6 if fit else 12):
            r = rng(700 + k)
            lo, hi = D.support
            k, big = k % 6, k >= 6
            y = r.normal(2 * k - 5, 0.3 + k, 23) if lo == -np.inf else (np.exp(r.normal(k - 2, 0.2 + 0.15 * k, 23)) if hi == np.inf else r.beta(1 + k, 6 - k, 23))
            if name in MIXED:
                y[::6] = 0.0
                if 1.0 in MIXED[name]:
                    y[1::7] = 1.0
            if big:  # few observations, other units, values close to the edges
                y = y[:(2, 3, 23)[k % 3]] * ((1e-5, 1e5)[k % 2] if hi == np.inf else 1.0)
                y = np.r_[y, 1e-4, 1 - 1e-4] if hi < 2 else y
            n = len(y)
            v = np.asarray(Eval({Y: y}, e.loops)(e.term), float)
            if v.shape != (n, D.k):
                rep.ob("S5", name, REFUTED, e.where(), f"{n} observations and {D.k} parameters give starting values of shape {v.shape}")
                return
            for j in range(D.k):
                lo, hi = D.psupport[j]
                if not (np.isfinite(v[:, j]).all() and (v[:, j] >= lo).all() and (v[:, j] <= hi).all() and (lo != 5e-324 or (v[:, j] > 0).all())):
                    rep.ob("S5", f"{name} parameter {j}", REFUTED, e.where(), f"starting value {v[0, j]:.6g} outside {lo, hi}")
                    return
        rep.ob("S5", name, HOLDS, e.where(), "6 samples" if fit else "12 samples")
    rep.guard("S5", name, s5)


def core(D, j, lm):
    r = rng(71)
    if lm in ("inverse", "inverse_derivative"):
        return r.uniform(0.1, 3, 9)
    lo, hi = D.psupport[j]
    return r.uniform(0.2, 0.8, 9) if hi < 2 else max(lo, 0) + r.uniform(0.3, 4, 9)


def link_of(D, j):
    def get():
        it, st, ref = new_obj(D.c)
        links = it.get_attr(st, ref, "links")
        o = st.heap[links.oid] if isinstance(links, Ref) else None
        v = o.get(const(j)) if isinstance(o, DictC) else None
        return (it, st, v) if isinstance(v, Ref) and isinstance(st.heap[v.oid], ObjC) else None
    if get() is None:
        return None

    def m(name):
        it, st, v = get()
        lc = st.heap[v.oid].cls
        f = method(lc, name)
        return ext(f, {f.params()[1]: Y}, lc, it=it, st=st, self_ref=v)
    return m
