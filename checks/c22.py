#!/usr/bin/env python3-vt
"""C22: priority options follow their definitions and steer the sweep order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vt import check, sched, trav


def gen_values(rng, i):
    return sched.gen(rng, i, 60, 5, prio=True)


def test_values(case):
    m, pr = sched.load(case)
    info = dict(nontrivial=m.nc > 2 and case["nparts"] > 1, tags=[case["kind"], "parts%d" % case["nparts"], "threads%d" % case["threads"]])
    D, f = sched.execute(case, m)
    if f:
        return f, info
    return sched.check_priorities(case, m, pr, D) or sched.check_picks(case, m, pr, D), info


def gen_order(rng, i):
    c = trav.gen(rng, i, 60, 4)
    if c is not None:
        for t in c["traversals"]:
            if t[5] == 0:
                t[5] = 1
            t[2] = min(t[2], 72)
    return c


def test_order(case):
    m, pr = trav.load(case)
    info = dict(nontrivial=m.nc > 2, tags=[case["kind"], "parts%d" % case["nparts"], "threads%d" % case["threads"]])
    D, f = trav.execute(case, m)
    if f:
        return f, info
    return trav.check_order(case, m, pr, D, priorities=True), info


if __name__ == "__main__":
    check.main("C22", [check.Part("values", gen_values, test_values, 350, sched.shrink, sched.prepare, thorough=12000, optional=True),
                       check.Part("order", gen_order, test_order, 300, trav.shrink, trav.prepare, thorough=10000, optional=True)],
               rule="values: random mesh, partition, thread count: the priorities of all 12 non-random option pairs are compared with their definitions computed from the "
                    "serial mesh, and precomputed schedules are replayed to see that ready items of highest priority go first; order: recorded traversals with random priorities "
                    "are replayed, and each item taken must have the highest priority among those ready in its thread. Non-trivial: more than two cells (and several processes).")
