#!/usr/bin/env python3-vt
"""C27: builds without assertions, without PETSc or with other optimisation compute the same and refuse the same."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from vt import build, check, cli, env, mesh as M
import c16

# name: assertions, PETSc, optimisation
BUILDS = dict(default=(1, 1, "-O3"), noassert=(0, 1, "-O3"), nopetsc=(1, 0, "-O2"), bare=(0, 0, "-O3"), plain=(1, 1, "-O0"), plainbare=(0, 0, "-O0"))
B = {}


def prepare():
    w = os.path.join(env.HARNESS, "wrap_problem.cc")
    for k, (a, p, o) in BUILDS.items():
        base = [x for x in build.BASE if not x.startswith(("-DASSERT_ON", "-DUSE_PETSC"))] + ["-DASSERT_ON=%d" % a, "-DUSE_PETSC=%d" % p]
        B[k] = build.build("sweep-" + k, build.repo_sources() + [w], base=base, opt=o,
                           link=["-Wl,--wrap=" + x for x in build.WRAPS] + (build.PETSC_LIB if p else []))


def krylov(deck):
    return str(deck["SourceIteration"]).lower() == "false" or deck["SweepType"] in ("Schur", "SchurKrylov", "SchurOuter")


def gen(rng, i):
    c = cli.gen_case(rng, sweeps=cli.SWEEPS + cli.DDS, sns=(2, 2, 4, 4, 6), hi=120, scatter=bool(rng.random() < .6), work=12000, maxp=4)
    if c is None:
        return None
    d = c["deck"]
    if rng.random() < .5:                                   # most builds without PETSc should also run
        d["SourceIteration"] = True
        if d["SweepType"].startswith("Schur"):
            d["SweepType"] = str(rng.choice(cli.SWEEPS + ["PBJ", "PBJOuter", "PBJSI"]))
    d["iterMax"] = int(rng.choice([1, 2, 3, 5])) if d["SourceIteration"] else 60
    d["errMax"] = float(rng.choice([1e-30, 1e-30, 1e-2])) if d["SourceIteration"] else 1e-12
    d.update(DD_IterMax=int(rng.choice([1, 3, 40])), DD_ErrMax=1e-11)
    if krylov(d) and d["SweepType"] in cli.DDS:
        d["DD_IterMax"] = 100
    c["threads"] = cli.tame(d, M.Mesh.from_json(c["mesh"]), c["nparts"], c["threads"])
    c["builds"] = [str(x) for x in rng.permutation([k for k in BUILDS if k != "default"])[:int(rng.choice([1, 2, 2]))]]
    return c


def test(case):
    m, deck, pr = cli.load(case)
    kry = krylov(deck)
    info = dict(nontrivial=False, tags=cli.tags(case, deck) + ["krylov" if kry else "no_krylov"] + ["build_" + b for b in case["builds"]])
    o = cli.execute(B["default"], case, m)
    f = cli.run_failure(o)
    if f:
        return f, info
    for b in case["builds"]:
        o2 = cli.execute(B[b], case, m)
        if not BUILDS[b][1] and kry:                        # needs the solver that this build has not
            if o2.res.timed_out:
                return "build %s: run that needs PETSc does not end" % b, info
            if o2.res.rc == 0 and (o2.psi is None or not cli.reldiff(o2.psi, o.psi) < 1e-6):
                return "build %s: a run that needs PETSc reports success without it, with a wrong or no result" % b, info
            if o2.res.rc != 0 and re.search(r"(?i)segmentation|bus error|floating point exception|signal (7|8|11)\b", o2.res.out + o2.res.err):
                return "build %s: a run that needs PETSc crashes instead of ending with an error: %s" % (b, o2.res.tail(200)), info
            if o2.res.rc != 0 and o2.psi is not None:
                return "build %s: a run that failed for want of PETSc left a flux file" % b, info
            info["nontrivial"] = True
            continue
        f = cli.run_failure(o2)
        if f:
            return "build %s: %s" % (b, f), info
        if not np.abs(o.psi).max() > 0 and not np.abs(o2.psi).max() > 0:
            continue
        info["nontrivial"] = True
        e = cli.reldiff(o2.psi, o.psi)
        tol = 1e-6 if kry or deck["SweepType"] in cli.DDS else 1e-9
        if not e < tol:
            return "build %s differs from the default build by %.3e (relative)" % (b, e), info
    return None, info


def gen_refuse(rng, i):
    c = c16.gen_refuse(rng, i)
    if c is not None:
        c["build"] = str(rng.choice(["noassert", "noassert", "bare", "nopetsc", "plainbare"]))
    return c


def test_refuse(case):
    c16.BIN = B[case["build"]]
    msg, info = c16.test_refuse(case)
    info["tags"].append("build_" + case["build"])
    return "build %s: %s" % (case["build"], msg) if msg else None, info


def shrink(case):
    if len(case["builds"]) > 1:
        for b in case["builds"]:
            yield dict(case, builds=[b])
    yield from cli.shrink_case(case)


if __name__ == "__main__":
    check.main("C27", [check.Part("same", gen, test, 170, shrink, prepare),
                       check.Part("refuse", gen_refuse, test_refuse, 60, None, prepare)],
               rule="same: one run through the default build and one or two of five other builds (assertions off, PETSc off, both, no optimisation), fluxes compared; builds without "
                    "PETSc have to fail cleanly when the deck needs the Krylov solver. refuse: an invalid deck or mesh given to one of these builds has to be refused without output. "
                    "Non-trivial: non-zero flux, or a refusal.")
