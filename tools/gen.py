#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/ondil/"
G = S + "estimators/online_gamlss.py"
L = S + "estimators/online_linear_model.py"
P = []


def prop(i, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech="", note="", claim=True, reason=""):
    assert len(title) <= 80, (i, len(title))
    P.append(dict(id=i, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state,
                  observe=observe, tech=tech, note=note, claim=claim, reason=reason))


VG = "value-graph abstract interpretation of the source + identity test of the extracted closed forms against the prescribed expression"
EFF = "interprocedural effect / event-order analysis over the gated call graph (value-graph abstract interpretation)"
NOTE = ("Decides on the current source without importing or running it. Trusts the model of the numpy/scipy primitives and the interpreter; "
        "an expression outside the modelled fragment is recorded as undecided (quiet), never as a pass of a stronger kind. ")

prop("C01", "Online Gramians equal the discounted batch Gramians",
     "For every design matrix, response, weight vector and forgetting factor, initialising the x- and y-Gramian on a batch and then updating them with any sequence of further rows gives the same matrices as the exponentially discounted, weighted cross-products of the whole history computed in one batch. Updating with a block of rows equals updating with its rows one by one, in order; the stored Gramian passed in is not altered.",
     ["inputs", "histories"], "all data, weights, forgetting factors in [0,1), all splits of a history into an initial batch and updates",
     "tests compare a few seeded random histories with one forget value; the identity is over all splits, weights and forgets",
     [S + "gram.py"], [("init_gram/init_y_gram", S + "gram.py"), ("update_gram/update_y_gram", S + "gram.py"), ("init_forget_vector", S + "gram.py")],
     observe=["ondil.gram public functions"], tech=VG, note=NOTE + "Loops are kept as recurrences and compared through their kernels.")
prop("C02", "Recursive inverse Gramian equals the inverse of the Gramian",
     "For every design, weights and forgetting factor, the initial inverted Gramian is the inverse of the discounted weighted cross-product, and each recursive update returns the inverse of the correspondingly updated Gramian, row by row in order. A rank-deficient initial design is rejected with an error instead of yielding a pseudo-result.",
     ["inputs", "histories"], "all histories of rows, weights, forgetting factors",
     "tests sample a handful of matrices with fixed weights; order, weight and discount interactions are unsampled",
     [S + "gram.py", S + "methods/recursive_least_squares.py"], [("init_inverted_gram", S + "gram.py"), ("update_inverted_gram", S + "gram.py")],
     observe=["ondil.gram public functions"], tech=VG, note=NOTE)
prop("C03", "Exponential discount weights follow (1-forget)^age",
     "The discount vector gives the newest observation weight one and each older one a further factor (1 - forget); the effective training length is the sum of those weights and reduces to the plain count without forgetting. The exponential online mean update is the discounted weighted mean of the past and the new values.",
     ["inputs"], "all lengths and forgetting factors in [0,1)",
     "tests fix two or three forget values; off-by-one ages only show for particular lengths",
     [S + "gram.py", S + "utils.py"], [("init_forget_vector", S + "gram.py"), ("calculate_effective_training_length", S + "utils.py"), ("online_mean_update", S + "utils.py")],
     tech=VG, note=NOTE)
prop("C04", "Online scaler statistics equal the discounted batch statistics",
     "However a history of weighted observations is split into an initial fit and later updates, the scaler's running mean, variance and cumulative weight equal the discounted weighted mean, variance and weight total of the whole history. This holds for every forgetting factor in [0,1), every positive weight vector and for batches of any size.",
     ["inputs", "histories"], "all chunkings of all weighted histories, all forgetting factors",
     "tests compare unweighted histories for a few batch splits; weights with forgetting are not sampled",
     [S + "scaler.py"], [("OnlineScaler.fit/update", S + "scaler.py")], state=[("running mean/variance/weight", "discounted sufficient statistics", S + "scaler.py")],
     observe=["OnlineScaler.fit, update"], tech=VG, note=NOTE + "Transfer functions of fit and update are composed over arbitrary attribute names.")
prop("C05", "Scaling and inverse scaling are exact inverses on selected columns",
     "Scaling subtracts the running mean and divides by the running standard deviation exactly on the selected columns and leaves all other columns untouched; inverse scaling undoes it exactly. With scaling disabled both are the identity, and neither changes the caller's array or the scaler's state.",
     ["inputs", "configurations"], "all matrices and all column selections (all, none, index array)",
     "tests check a round trip on one matrix per selection kind",
     [S + "scaler.py"], [("OnlineScaler.transform/inverse_transform", S + "scaler.py")], tech=VG, note=NOTE)
prop("C06", "Links, inverse links and their derivatives are mutually consistent",
     "For every link, the inverse undoes the link, the link and its inverse are the documented functions, and each published derivative (first and second of the link, first of the inverse) is the exact derivative of the corresponding function over the usable range. The inverse link is increasing and its values stay in the link's declared range.",
     ["inputs", "configurations"], "all links, all arguments in the usable range (away from documented saturation)",
     "tests evaluate at a few points and only for some links; branches of the guarded helpers at large arguments are unsampled",
     [S + "links/identitylinks.py", S + "links/loglinks.py", S + "links/logitlinks.py", S + "links/sqrtlinks.py", S + "links/softpluslinks.py", S + "links/robust_math.py"],
     [("LinkFunction subclasses", S + "links")], tech=VG + "; symbolic differentiation", note=NOTE)
prop("C08", "Score functions are the gradients of the documented log-density",
     "For every distribution and every distribution parameter, the log-density is the documented one and the published first derivative is its exact partial derivative at every observation in the support and every admissible parameter value, including the point masses of the mixed distributions.",
     ["inputs", "configurations"], "all distributions, parameters, admissible parameter values and observations",
     "tests compare with R output at a few rows per distribution; wide tails and point masses are not sampled",
     [S + "distributions", S + "base/distribution.py"], [("dl1_dp1 of each distribution", S + "distributions"), ("ScipyMixin log densities", S + "base/distribution.py")],
     tech=VG + "; symbolic differentiation of the density term", note=NOTE)
prop("C09", "Second derivatives obey the observed or expected curvature law",
     "For every distribution and parameter, the published second derivative equals the observed second derivative of the log-density, its expectation, or minus the squared score (or a documented mixture of these), so that the working weight derived from it is the curvature of the likelihood. Cross derivatives equal the observed or expected mixed derivative and do not depend on the order of the two parameters.",
     ["inputs", "configurations"], "all distributions, parameter pairs, admissible values",
     "tests compare with R at a few rows; wrong factors that vanish at the sampled parameter values stay invisible",
     [S + "distributions"], [("dl2_dp2, dl2_dpp of each distribution", S + "distributions")], tech=VG + "; symbolic differentiation", note=NOTE)
exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None

P.sort(key=lambda d: d["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps({
            "id": d["id"], "title": d["title"], "statement": d["statement"],
            "quantifier": {"over": d["over"], "text": d["qtext"]}, "why_tests_cant": d["why"],
            "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in d["state"]],
                        "observe_at": list(d["observe"]), "hook_needed": None},
        }) + "\n")
man = {
    "version": 1, "setup_cmd": "python3-vt -c 'import numpy, scipy'",
    "checks": [{
        "property": d["id"], "quick_cmd": f"python3-vt check.py {d['id']} quick", "thorough_cmd": f"python3-vt check.py {d['id']} thorough",
        "technique": "static analysis: " + d["tech"], "level": "other", "level_note": d["note"],
    } for d in P if d["claim"]],
    "not_applicable": [{"property": d["id"], "reason": d["reason"]} for d in P if not d["claim"]],
    "notes": "Static analysis only: the checks parse /repo/src on every run and never import or execute it. See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
for d in P:
    n = d["statement"].count(". ") + 1
    if n > 3:
        print("statement too long", d["id"], n)
print(len(P), "properties", sum(d["claim"] for d in P), "claimed")
