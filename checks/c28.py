#!/usr/bin/env python3-vt
"""C28: a run holds no more memory, requests or files when it iterates longer."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, env, mesh as M

B = {}
KEYS = ["live bytes", "peak bytes", "live blocks", "outstanding requests", "open files", "heap bytes"]


def prepare():
    h = [os.path.join(env.HARNESS, x) for x in ("wrap_problem.cc", "resource.cc")]
    B["s"] = build.build("sweep-res", build.repo_sources() + h, link=["-Wl,--wrap=" + x for x in build.WRAPS] + build.PETSC_LIB)


def gen(rng, i):
    c = cli.gen_case(rng, sweeps=cli.SWEEPS + cli.DDS, sns=(2, 2, 4), lo=2, hi=60, work=1200, maxp=4, scatter=True, cmax=.98)
    if c is None:
        return None
    d = c["deck"]
    for k in "12":                                          # slow convergence, so that all iterations are made
        if float(d["sigmaS" + k]) < .5 * float(d["sigmaT" + k]):
            d["sigmaS" + k] = .9 * float(d["sigmaT" + k])
    if not float(d["sigmaT1"]) > 0:
        return None
    lo = int(rng.integers(6, 12))
    c["steps"] = [lo, lo + int(rng.choice([30, 60]))]
    if d["SweepType"] in cli.SWEEPS and rng.random() < .8:
        d["SourceIteration"] = True
    d.update(errMax=1e-300, DD_ErrMax=1e-300)
    c["inner"] = bool(d["SweepType"] in cli.DDS and rng.random() < .5)
    c["threads"] = cli.tame(d, M.Mesh.from_json(c["mesh"]), c["nparts"], min(c["threads"], 3))
    return c


def measure(case, m, d, n):
    deck = dict(case["deck"])
    if case["inner"]:
        deck.update(iterMax=2, DD_IterMax=n)
    else:
        deck.update(iterMax=n, DD_IterMax=3)
    p = os.path.join(d, "res")
    o = cli.execute(B["s"], dict(case, deck=deck), m, d, extra=dict(VT_RES=p))
    f = cli.run_failure(o)
    if f:
        return o, f, None
    v = []
    for r in range(case["nparts"]):
        try:
            with open("%s.%d" % (p, r)) as g:
                v.append([int(x) for x in g.read().split()])
        except OSError:
            raise check.Skip()
    return o, None, np.array(v)


def test(case):
    m, deck, pr = cli.load(case)
    info = dict(nontrivial=False, tags=cli.tags(case, deck) + ["inner" if case["inner"] else "outer"])
    out = []
    for n in case["steps"]:
        with check.Workdir() as d:
            o, f, v = measure(case, m, d, n)
        if f:
            return f, info
        out.append((v, o))
    a, b = out[0][0], out[1][0]
    steps = case["steps"][1] - case["steps"][0]
    info["nontrivial"] = True
    for r in range(len(a)):
        for v, n in ((a, case["steps"][0]), (b, case["steps"][1])):
            if v[r][3] > 0:
                return "process %d: %d outstanding requests at the end of %d iterations" % (r, v[r][3], n), info
        for k in (4,):                                      # files
            if b[r][k] > a[r][k] + 2:
                return "process %d: %d %s after %d iterations, %d after %d" % (r, a[r][k], KEYS[k], case["steps"][0], b[r][k], case["steps"][1]), info
        # reusable buffers may have grown; a loss in every iteration adds up
        for k, slack in ((0, 1.0), (1, 1.0), (2, 0)):
            allow = steps * .25 + 12 if k == 2 else 8 * steps + 4096 + slack * a[r][k] * (.3 if case["nparts"] > 1 or case["threads"] > 1 else .01)
            if b[r][k] - a[r][k] > allow:
                return "process %d: %d %s after %d iterations, %d after %d" % (r, a[r][k], KEYS[k], case["steps"][0], b[r][k], case["steps"][1]), info
        if case["nparts"] == 1 and b[r][5] - a[r][5] > 8 * steps + 65536 + .3 * a[r][5]:
            return "process %d: %d %s after %d iterations, %d after %d" % (r, a[r][5], KEYS[5], case["steps"][0], b[r][5], case["steps"][1]), info
    return None, info


if __name__ == "__main__":
    check.main("C28", [check.Part("growth", gen, test, 300, cli.shrink_case, prepare)],
               rule="a case runs one problem twice with different numbers of (outer or inner) iterations that do not converge before, and compares what every process holds at the end: memory from "
                    "operator new, its peak, MPI requests, open files, C heap. Non-trivial: both runs ended regularly.")
