#!/usr/bin/env python3-vt
"""C08: the precomputed sweep schedule is complete, ordered and matched."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vt import check, sched


def test(case):
    m, pr = sched.load(case)
    info = dict(nontrivial=m.nc > 1 and case["nparts"] > 1, tags=[case["kind"], "parts%d" % case["nparts"]] +
                ["options%d%d" % (s[1], s[2]) for s in case["schedules"]])
    D, f = sched.execute(case, m)
    if f:
        return f, info
    return sched.check_schedule(case, m, pr, D), info


if __name__ == "__main__":
    check.main("C08", [check.Part("schedule", sched.gen, test, 600, sched.shrink, sched.prepare, thorough=20000, optional=True)],
               rule="a case is a random mesh, numbering, partition (sometimes with an empty one) and up to four schedules (set of directions in any order, step "
                    "limit, priority options); the schedules of all processes are judged together against the dependency graph of the serial mesh. Non-trivial: "
                    "several cells on several processes.")
