"""C21 Information criteria select the documented model."""
from .. import mine
from ..evalt import Eval, Fault
from ..model import *
from ..ref import ic_rss, ic_value
from ..scen import *

RULES = {
    "I1": "from_ll is the documented criterion (aic, aicc, bic, hqc, max)",
    "I2": "from_rss is the criterion of the Gaussian log-likelihood of the residual sum of squares",
    "I3": "unknown criteria are rejected, and aicc with n-p-1=0 is rejected",
    "I4": "the selected coefficients are the path entry with the smallest criterion, computed from the (weighted, discounted) in-sample fit, the number of non-zero coefficients and the effective training length",
}
EXPL = ("Closed forms of the criterion class are compared with the documented formulas for scalar and array arguments; model selection is judged "
        "on the value graphs of whole histories against the prescribed recursion for every criterion and selection mode.")


def run(rep):
    r = rng(21)
    th = rep.tier == "thorough"
    C = cls("InformationCriterion")
    for crit in ("aic", "aicc", "bic", "hqc", "max"):
        for meth_, rule in (("from_ll", "I1"), ("from_rss", "I2")):
            def go(crit=crit, meth_=meth_, rule=rule):
                it, st, ref = new_obj(C, {"n_observations": sym("n", "scalar"), "n_parameters": sym("p"), "criterion": const(crit)})
                f = method(C, meth_)
                a = f.params()[1]
                e = ext(f, {a: sym("x")}, C, it=it, st=st, self_ref=ref)
                pts = []
                src = ('information_criteria',)
                for n in sorted({3.7, 25.0, 180.5, 2.5e3, 3e4, 1e7, *mine.mags(src, 2.5, 1e9)}):
                    for p in (2, np.array([0, 1, 5, 3]), np.array([1, 3, 40, 1500] + [x + .5 for x in mine.ints(src, 3, 10000)])):
                        pts.append({sym("n", "scalar"): n, sym("p"): p, sym("x"): r.uniform(.5, 4, len(p)) * (1, 1, 1e-3, 1e4)[len(pts) // 3 % 4] if np.ndim(p) else (1.7, 250.0, 1e-3, 1e5)[len(pts) // 3 % 4]})
                if meth_ == "from_ll":
                    for q in pts[::2]:
                        q[sym("x")] = -q[sym("x")]
                fn = ic_value if meth_ == "from_ll" else ic_rss
                ident(rep, rule, f"{crit} {meth_}", e, e.term, pts, lambda q: fn(crit, q[sym("n", "scalar")], q[sym("p")], q[sym("x")]))
                seen(rep, e)
            rep.guard(rule, f"{crit} {meth_}", go)

    def raised(crit, n, p):
        it, st = Interp(prog()), State()
        ns, ps = sym("n", "scalar"), sym("p")
        try:
            ref = it.construct(st, C, [], {"n_observations": ns, "n_parameters": ps, "criterion": const(crit)})
            e = ext(method(C, "from_ll"), {"log_likelihood": sym("x"), "*": True}, C, it=it, st=st, self_ref=ref)
            if e.value is None:
                return True
        except Exception as x:
            if type(x).__name__ != "_Dead":
                raise
            return True
        ev = Eval({ns: n, ps: p, sym("x"): np.ones(np.shape(p)), sym("log_likelihood"): np.ones(np.shape(p))}, it.loops)
        return any(bool(np.all(ev(pc_term(x.pc)))) for x in it.events if x.kind == "raise")

    for bad in ("AIC", "", "loo", None):
        def go(bad=bad):
            ok = raised(bad, 10.0, 2)
            rep.ob("I3", f"criterion {bad!r}", HOLDS if ok else REFUTED, "src/ondil/information_criteria.py InformationCriterion", "rejected" if ok else "accepted")
        rep.guard("I3", f"criterion {bad!r}", go)
    for n, p, want in ((6.0, 5, True), (6.0, np.array([1, 5, 2]), True), (6.0, np.array([1, 2]), False), (6.0, 4, False)):
        def go(n=n, p=p, want=want):
            ok = raised("aicc", n, p) == want
            rep.ob("I3", f"aicc n={n} p={p}", HOLDS if ok else REFUTED, "src/ondil/information_criteria.py InformationCriterion", f"{'rejects' if want == ok else 'accepts'}")
        rep.guard("I3", f"aicc n={n} p={p}", go)

    # aicc is not additive in the number of coefficients: the others must be counted, in fit and in update
    for k in range(3 if not th else 8):
        for ms in ("local_rss", "global_ll"):
            kw = dict(method=meths(2, True, 10), forget={0: 0.0, 1: (0.0, .02)[k % 2]}, ic="aicc", model_selection=ms, equation={0: "all", 1: "all"}, max_it_outer=2, max_it_inner=1)
            H = sensitive(GA, 2, kw, [dict(kw, ic="aic")], lambda: [("fit", data(r, 13)), ("update", data(r, 3)), ("update", data(r, 1))], 15)
            scenario(rep, "I4", f"distributional aicc {ms} #{k}", GA, kw, H, X=data(r, 2)["X"])
        kw = dict(method=record("M", True, 10), forget=(0.0, .02)[k % 2], ic="aicc")
        H = sensitive(LI, 1, kw, [dict(kw, ic="aic")], lambda: [("fit", data(r, 8)), ("update", data(r, 3)), ("update", data(r, 1))], 15)
        scenario(rep, "I4", f"linear aicc #{k}", LI, kw, H, X=data(r, 2)["X"])

    # history and new data are weighted consistently
    for k in range(4 if not th else 10):
        f = (0.1, 0.3, 0.02, 0.6)[k % 4]
        def wide(n):
            d = data(r, n)
            d["sample_weight"] = np.exp(r.uniform(-3, 3, n))
            return d
        H = [("fit", wide(9)), ("update", wide(4)), ("update", wide(1)), ("update", wide(2))]
        scenario(rep, "I4", f"linear forget {f}, unequal weights #{k}", LI, dict(method=record("M", True, 14), forget=f, ic="bic"), H, X=data(r, 2)["X"])
        for ms in ("local_rss", "global_ll"):
            for o, i in ((1, 1), (2, 2)):
                kw = dict(method=meths(2, True, 14), forget={0: f, 1: f / 3}, ic="bic", model_selection=ms, equation={0: "all", 1: "all"}, max_it_outer=o, max_it_inner=i)
                scenario(rep, "I4", f"distributional forget {f}, unequal weights {ms} {o}x{i} #{k}", GA, kw, H, X=data(r, 2)["X"])

    # small coefficients count
    with reading(tiny=True):
        for k in range(4 if not th else 12):
            ic = ("bic", "aic", "hqc", "bic")[k % 4]
            H = [("fit", data(r, 9)), ("update", data(r, 3)), ("update", data(r, 1))]
            scenario(rep, "I4", f"linear {ic} small coefficients #{k}", LI, dict(method=record("M", True, 10), forget=(0.0, .02)[k % 2], ic=ic), H, X=data(r, 2)["X"])
            for ms in ("local_rss", "global_ll"):
                kw = dict(method=meths(2, True, 10), forget=(0.0, .02)[k % 2], ic=ic, model_selection=ms, equation={0: "all", 1: "all"}, max_it_outer=2, max_it_inner=1)
                if k % 4 == 3:
                    for j in range(2):
                        k2 = dict(kw, ic="aicc", method=meths(3, True, 14), equation={0: "all", 1: "all", 2: "all"}, max_it_outer=1)
                        # data on which ignoring the small coefficients of the other parameters would select another model
                        H = sensitive(GA, 3, k2, [dict(k2, _others_tol=t) for t in (1e-6, 1e-4)], lambda: [("fit", data(r, 16)), ("update", data(r, 3)), ("update", data(r, 1))], 12)
                        scenario(rep, "I4", f"distributional aicc {ms} 3 parameters small coefficients #{k}.{j}", GA, k2, H, P=3, X=data(r, 2)["X"])
                scenario(rep, "I4", f"distributional {kw['ic']} {ms} small coefficients #{k}", GA, kw, [("fit", data(r, 13)), ("update", data(r, 3)), ("update", data(r, 1))], X=data(r, 2)["X"])

    for ic in ("aic", "bic", "hqc", "max"):
        for k in range(5 if not th else 10):
            H = [("fit", data(r, 9, w=bool(k % 2))), ("update", data(r, 3)), ("update", data(r, 1))]
            scenario(rep, "I4", f"linear {ic} #{k}", LI, dict(method=record("M", True, 8), forget=(0.0, .1, .02)[k % 3], ic=ic, scale_inputs=k != 1), H, X=data(r, 2)["X"])
            for ms in ("local_rss", "global_ll"):
                # the criterion of a later parameter counts the coefficients of the others
                for P in (2, 3) if k == 0 or th else (2,):
                    H = [("fit", data(r, 9, w=bool(k % 2))), ("update", data(r, 3)), ("update", data(r, 2))]
                    kw = dict(method=meths(P, True, 8), forget={p: (.1, .02, 0.0)[(p + k) % 3] for p in range(P)}, ic={p: ic if p != 1 else ("bic", "aic")[k % 2] for p in range(P)},
                              model_selection=ms, equation={p: "all" for p in range(P)}, max_it_outer=2, max_it_inner=1)
                    scenario(rep, "I4", f"distributional {ic} {ms} {P} parameters #{k}", GA, kw, H, P=P, X=data(r, 2)["X"])
