"""Obligations, verdicts, evidence, known findings, exit protocol."""
from __future__ import annotations

import json
import os
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SA_EVID") or os.path.join(VERIF, "evidence")
PROVED, HOLDS, REFUTED, UNDECIDED = "proved", "holds", "refuted", "undecided"


class AnchorLost(Exception):
    """a public name the property is about no longer exists"""


class OutOfTime(BaseException):
    pass


class Report:
    def __init__(self, pid, tier, rules):
        self.pid = pid
        self.tier = tier
        self.rules = rules  # rule id -> text
        self.obs = []
        self.analysed = Counter()
        self.functions = set()
        self.sites = set()
        self.assumptions = []
        self.t0 = time.time()
        self.notes = []

    # -- recording
    def ob(self, rule, construct, status, where="", detail=""):
        """rule: rule id; construct: stable name of the judged construct"""
        assert status in (PROVED, HOLDS, REFUTED, UNDECIDED), status
        self.obs.append(dict(rule=rule, construct=construct, status=status, where=where, detail=str(detail)[:1500]))

    def count(self, what, n=1):
        self.analysed[what] += n

    def guard(self, rule, construct, fn, where=""):
        """run one obligation; an expression outside the modelled fragment is undecided"""
        from .evalt import Fault, Missing, Unknown
        from .interp import Unsupported
        from .lab import Raised
        quick = self.tier == "quick"
        left = (540 if quick else 5400) - (time.time() - self.t0)
        if left < 1:
            self.ob(rule, construct, UNDECIDED, where, "time budget of the check used up")
            return

        def late(*_):
            raise OutOfTime()
        signal.signal(signal.SIGALRM, late)
        signal.alarm(max(1, int(min(left, 60 if quick else 600))))
        try:
            fn()
        except OutOfTime:
            self.ob(rule, construct, UNDECIDED, where, "time budget of the obligation used up")
        except (Unknown, Unsupported) as e:
            self.ob(rule, construct, UNDECIDED, where, f"{type(e).__name__}: {e}")
        except Missing as e:
            self.ob(rule, construct, REFUTED, where, str(e))
        except Fault as e:
            self.ob(rule, construct, UNDECIDED, where, f"no value: {e}")
        except AnchorLost:
            raise
        except Raised as e:  # a call of a valid history is rejected
            ev = e.args[1] if len(e.args) > 1 else None
            self.ob(rule, construct, REFUTED, ev.where() if ev is not None else where, f"a valid call is rejected: {e.args[0]}")
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.ob(rule, construct, UNDECIDED, where, f"analysis gap: {type(e).__name__}: {e}")
        finally:
            signal.alarm(0)

    # -- finish
    def finish(self, level, explanation):
        known = load_known(self.pid)
        viol, kn = [], []
        for o in self.obs:
            if o["status"] != REFUTED:
                continue
            k = next((f for f in known if f["rule"] == o["rule"] and f["construct"] == o["construct"]), None)
            (kn if k else viol).append(o)
        seen = set()
        for o in kn:
            key = (o["rule"], o["construct"])
            if key in seen:
                continue
            seen.add(key)
            print(f"KNOWN-FINDING: property={self.pid} {o['rule']} {o['construct']}: {o['detail'][:200]}")
        c = Counter(o["status"] for o in self.obs)
        byrule = {}
        for o in self.obs:
            byrule.setdefault(o["rule"], Counter())[o["status"]] += 1
        os.makedirs(EVID, exist_ok=True)
        replay = os.path.join(EVID, f"{self.pid}.violations.txt")
        if viol:
            with open(replay, "w") as f:
                for o in viol:
                    f.write(f"{o['rule']}: {self.rules.get(o['rule'], '')}\n  construct: {o['construct']}\n  where: {o['where']}\n  {o['detail']}\n")
        elif os.path.exists(replay):
            os.remove(replay)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": {
                "explanation": explanation,
                "rules": self.rules,
                "obligations": len(self.obs),
                "discharged": c[PROVED] + c[HOLDS],
                "proved_by_normal_form": c[PROVED],
                "held_by_identity_test_or_effect_rule": c[HOLDS],
                "refuted": c[REFUTED],
                "undecided": c[UNDECIDED],
                "undecided_list": [f"{o['rule']} {o['construct']}: {o['detail'][:160]}" for o in self.obs if o["status"] == UNDECIDED][:60],
                "by_rule": {r: dict(v) for r, v in byrule.items()},
                "analysed": dict(self.analysed),
                "functions": sorted(self.functions)[:400],
                "n_functions": len(self.functions),
                "known_findings": [f"{o['rule']} {o['construct']}" for o in kn],
                "obligation_list": [f"{o['status']} {o['rule']} {o['construct']} {o['where']}" for o in self.obs][:600],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": [f"{o['rule']} {o['construct']} at {o['where']}: {o['detail'][:300]}" for o in viol],
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o in viol:
            print(f"  {o['rule']} {o['construct']} at {o['where']}: {o['detail'][:400]}")
        print(f"{self.pid}: obligations={len(self.obs)} {dict(c)} known={len(kn)} violations={len(viol)} in {time.time()-self.t0:.1f}s")
        if viol:
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        if not self.obs:
            print(f"{self.pid}: nothing analysed", file=sys.stderr)
            return 3
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == pid]
