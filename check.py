#!/usr/bin/env python3
"""check.py <property> : decide one property on the current working tree of the repository."""
import importlib
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from checks.base import Ctx
    from checks import registry
    c = Ctx(pid, tier, seed)
    spec = registry.CHECKS[pid]
    c.group_limit, lim = (3500 if tier == "thorough" else 650), c.group_limit
    c.group("check", lambda: (setattr(c, "group_limit", lim), spec.run(c)))
    c.stop_clock()
    return c.finish(t0, spec.explanation, spec.assumptions)


if __name__ == "__main__":
    sys.exit(main())
