#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [quick|thorough]  -- decide one property on /repo's current source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from sa.frontend import AnchorError
    from sa.report import AnchorLost, Report
    mod = importlib.import_module(f"sa.checks.{pid.lower()}")
    rep = Report(pid, tier, mod.RULES)
    rep.assumptions = list(getattr(mod, "ASSUMPTIONS", [])) + [
        "numpy/scipy/sklearn primitives have their documented meaning",
        "identity tests are in IEEE double arithmetic at fixed generic points with relative tolerance 1e-7 unless stated",
    ]
    try:
        mod.run(rep)
    except (AnchorLost, AnchorError) as e:
        rep.ob(next(iter(mod.RULES)), "anchor", "undecided", "", f"a function the rule is about is no longer found: {e}")
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        rep.ob(next(iter(mod.RULES)), "analysis", "undecided", "", f"analysis gap: {type(e).__name__}: {e}")
    return rep.finish(getattr(mod, "LEVEL", "other"), mod.EXPL)


if __name__ == "__main__":
    sys.exit(main())
