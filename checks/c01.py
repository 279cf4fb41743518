#!/usr/bin/env python3-vt
"""C01: a direct sweep solves the discrete transport equations on any mesh."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, mesh as M

BIN = None


def prepare():
    global BIN
    BIN = build.sweep()


def gen(rng, i):
    if i % 30 == 7:                                         # thousands of cells
        c = cli.gen_case(rng, sns=(2,), lo=1000, hi=12000, groups=(1, 1, 2), work=100000, parallel=0)
    elif i % 30 == 22:                                      # thousands of directions
        c = cli.gen_case(rng, sns=(20, 24, 28, 30), lo=4, hi=40, groups=(1, 1, 2), work=100000, parallel=0)
    else:
        c = normal(rng)
    if c:
        c["deck"]["iterMax"] = 1 if c["deck"]["SourceIteration"] else 20
    return c


def normal(rng):
    c = cli.gen_case(rng, sns=(2, 2, 2, 4, 4, 6, 8, 10, 12, 16), hi=400, groups=(1, 1, 2, 3, 5))
    return c


def test(case):
    m, deck, pr = cli.load(case)
    o = cli.execute(BIN, case, m)
    f = cli.run_failure(o)
    info = dict(nontrivial=m.nc >= 2, tags=cli.tags(case, deck))
    if f:
        return f, info
    if not o.marked:
        case = dict(case, source=dict(kind="hat"))
    Q = cli.ref_source(case, m, deck, pr)
    if not np.abs(Q).max() > 0:
        info["nontrivial"] = False
        if np.abs(o.psi).max() > 0:
            return "zero source gives non-zero flux", info
        return None, info
    hat = case["source"]["kind"] == "hat"                       # its streaming part may cancel to rounding
    r = pr.residual(o.psi, Q, 1e-6 * float(np.abs(Q).max()) if hat else 0.0)
    if not r < 1e-9:
        return "the flux does not satisfy the cell equations: relative residual %.3e" % r, info
    return None, info


if __name__ == "__main__":
    check.main("C01", [check.Part("run", gen, test, 400, cli.shrink_case, prepare)],
               rule="a case is a random conforming mesh x numbering x partition x deck x source run through sweep.x; every flux value is "
                    "checked against the balance equations of its cell. Non-trivial: at least two cells and a non-zero source.")
