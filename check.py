#!/usr/bin/env python3
"""Decide one property of /repo: check.py <ID> quick|thorough

Builds the monitors against /repo's current sources, runs the workloads,
collects what the monitors observed, and writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not do its work.
"""
import json
import os
import shutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "py"))
import build  # noqa: E402
import plan  # noqa: E402
import runner  # noqa: E402


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        build.prepare(plan.all_variants())
        for v in plan.optional_variants():
            build.prepare_if_it_builds(v)
        print("setup done")
        return 0
    if len(sys.argv) < 2 or sys.argv[1] not in plan.PLAN:
        sys.stderr.write(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = os.path.join(build.BUILD, "scratch", "%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    run = runner.Run(prop, tier, seed, scratch)
    try:
        plan.PLAN[prop]["run"](run)
        rc = run.finish(t0, plan.PLAN[prop])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        sys.stderr.write("BUILD ERROR\n%s\n" % e)
        sys.exit(2)
