#!/usr/bin/env python3-vt
"""C02: all solvers converge to the solution of the scattering problem."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, mesh as M

BIN = None


def prepare():
    global BIN
    BIN = build.sweep()


def gen(rng, i):
    c = cli.gen_case(rng, sweeps=cli.DDS * 2 + cli.SWEEPS, sns=(2, 2, 2, 4, 4, 6), hi=120, scatter=True, work=1500 if i % 3 else 5000)
    if c is None:
        return None
    d = c["deck"]
    if c["source"]["kind"] == "wide":
        c["source"]["kind"] = "random"
    if c["source"]["kind"] != "hat":                         # the solution is linear in the source, whatever its size
        c["source"]["exp"] = int(rng.integers(-25, 13)) if rng.random() < .7 else 0
    d["SourceIteration"] = bool(rng.random() < .5)
    kr = not d["SourceIteration"] or d["SweepType"] in ("Schur", "SchurOuter", "SchurKrylov")
    tol = float(rng.choice([1e-11, 1e-10])) if kr else float(rng.choice([1e-13, 1e-12]))
    d.update(iterMax=3000, errMax=tol, DD_IterMax=3000, DD_ErrMax=tol)
    if d["SweepType"] == "PBJ" and kr:          # the inner iteration must not disturb the outer Krylov iteration
        d["DD_ErrMax"] = 1e-13
    return c


def test(case):
    m, deck, pr = cli.load(case)
    o = cli.execute(BIN, case, m)
    f = cli.run_failure(o)
    t, s = cli.sigma_cells(m, deck)
    tags = cli.tags(case, deck) + [deck["SweepType"] + ("/SI" if deck["SourceIteration"] in (True, "true") else "/Krylov")]
    info = dict(nontrivial=bool(m.nc >= 2 and (s > 0).any()), tags=tags)
    if f:
        return f, info
    if not o.marked:
        case = dict(case, source=dict(kind="hat"))
    Q = cli.ref_source(case, m, deck, pr)
    if not np.abs(Q).max() > 0:
        info["nontrivial"] = False
        return ("zero source gives non-zero flux" if np.abs(o.psi).max() > 0 else None), info
    psi = pr.solve(Q)
    e = cli.reldiff(o.psi, psi)
    if not e < 1e-6:
        return "%s: the flux differs from the solution by %.3e (relative)" % (tags[-1], e), info
    return None, info


if __name__ == "__main__":
    check.main("C02", [check.Part("run", gen, test, 400, cli.shrink_case, prepare)],
               rule="a case is a random mesh x partition x solver (all nine sweep types, source iteration and Krylov) x scattering ratio x "
                    "source, compared with an independent converged solution (GMRES on the reference discretisation). Non-trivial: scattering "
                    "present, non-zero source and at least two cells.")
