#!/usr/bin/env python3-vt
"""C07: graph traversal visits every item once, in dependency order, and ends."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vt import check, trav


def test(case):
    m, pr = trav.load(case)
    cross = any(t[1] for t in case["traversals"]) and case["nparts"] > 1
    info = dict(nontrivial=m.nc > 1 and (cross or not any(t[1] for t in case["traversals"])),
                tags=[case["kind"], "parts%d" % case["nparts"], "threads%d" % case["threads"]] +
                ["%s_%s_%s" % ("backward" if t[0] else "forward", "comm" if t[1] else "local", "capsaicin" if t[4] else "tycho") for t in case["traversals"]])
    D, f = trav.execute(case, m)
    if f:
        return f, info
    return trav.check_order(case, m, pr, D), info


if __name__ == "__main__":
    check.main("C07", [check.Part("traverse", trav.gen, test, 700, trav.shrink, trav.prepare, thorough=20000, optional=True)],
               rule="a case is a random mesh, numbering, partition (sometimes with an empty one), thread count and a sequence of up to five traversals "
                    "(direction, communication, payload size, step limit, message mode, priorities, artificial delays) by traverser objects that are reused; the "
                    "recorded callbacks of all processes are replayed against the dependency graph computed from the serial mesh. Non-trivial: several cells and, "
                    "when communicating, several processes.")
