#!/usr/bin/env python3-vt
"""C18: results and termination do not depend on message timing or buffering."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli

BIN = None


def prepare():
    global BIN
    BIN = build.sweep(pmpi=True)


def timing(rng, n):
    return dict(seed=int(rng.integers(1, 1 << 30)), sync=int(rng.choice([0, 1, 1, 2])), delay=int(rng.choice([0, 5, 30, 200])),
                notyet=int(rng.choice([0, 0, 30, 80])), shuffle=int(rng.integers(2)), slow=int(rng.integers(n)) if rng.random() < .3 else -1)


def gen(rng, i):
    pool = cli.SWEEPS + ["TraverseGraph"] if rng.random() < .6 else cli.DDS
    c = None
    for _ in range(20):
        c = cli.gen_case(rng, sweeps=pool, sns=(2, 2, 4, 6, 8), lo=4, hi=120, work=6000, scatter=bool(rng.random() < .5), maxp=5)
        if c and c["nparts"] > 1:
            break
    if c is None or c["nparts"] < 2:
        return None
    d = c["deck"]
    if d["SourceIteration"]:
        d["iterMax"] = int(rng.choice([1, 2, 4]))
        d["errMax"] = float(rng.choice([1e-30, 1e-3]))
    else:
        d.update(iterMax=50, errMax=1e-10)
    d.update(DD_IterMax=int(rng.choice([3, 60])), DD_ErrMax=1e-10)
    if d["SweepType"] in cli.DDS:
        c["threads"] = min(c["threads"], 2)
    c["timings"] = [timing(rng, c["nparts"]) for _ in range(2)]
    return c


def execute(case, m, t):
    with check.Workdir() as d:
        e = dict(VT_PMPI="%(seed)d %(sync)d %(delay)d %(notyet)d %(shuffle)d %(slow)d" % t, VT_PMPI_OUT=os.path.join(d, "rep"), MALLOC_PERTURB_="171")
        o = cli.execute(BIN, case, m, d, timeout=40, extra=e)
        rep, stat = [], np.zeros(6, int)
        for p in range(case["nparts"]):
            f = os.path.join(d, "rep.%d" % p)
            if os.path.exists(f):
                with open(f) as g:
                    rep += ["rank %d: %s" % (p, x.strip()) for x in g]
            f = os.path.join(d, "rep.stat.%d" % p)
            if os.path.exists(f):
                with open(f) as g:
                    stat += [int(x) for x in g.read().split()]
    return o, rep, stat


def test(case):
    m, deck, pr = cli.load(case)
    info = dict(nontrivial=False, tags=cli.tags(case, deck) + [deck["MPIType"]])
    a = cli.execute(BIN, case, m)
    f = cli.run_failure(a)
    if f:
        return f, info
    kry = not deck["SourceIteration"] or deck["SourceIteration"] == "false" or "Krylov" in deck["SweepType"] or "Schur" in deck["SweepType"]
    for t in case["timings"]:
        w = "timing %s: " % t
        o, rep, stat = execute(case, m, t)
        if rep:
            return w + rep[0], info
        f = cli.run_failure(o)
        if f:
            return w + f, info
        e = cli.reldiff(o.psi, a.psi)
        if not e < (1e-6 if kry else 1e-10):
            return w + "the flux differs by %.3e (relative) from the undisturbed run" % e, info
        if stat[0] and stat[1] + stat[2] + stat[3] + stat[4]:
            info["nontrivial"] = True
        info["tags"] += ["sync%d" % t["sync"], "delay%d" % t["delay"], "notyet%d" % t["notyet"], "slow" if t["slow"] >= 0 else "even"]
        info["tags"] += ["sends_%s" % ("0" if stat[0] == 0 else "<100" if stat[0] < 100 else ">=100")]
    return None, info


def shrink(case):
    if len(case["timings"]) > 1:
        for t in case["timings"]:
            yield dict(case, timings=[t])
        return
    t = case["timings"][0]
    for k, v in (("slow", -1), ("delay", 0), ("notyet", 0), ("shuffle", 0), ("sync", 0), ("sync", 1)):
        if t[k] != v and not (k == "sync" and t[k] == 1):
            yield dict(case, timings=[dict(t, **{k: v})])
    for c in cli.shrink_case(case):
        if c["nparts"] > 1:
            yield dict(c, timings=[dict(t, slow=t["slow"] if t["slow"] < c["nparts"] else -1)])


if __name__ == "__main__":
    check.main("C18", [check.Part("timing", gen, test, 130, shrink, prepare)],
               rule="a generated problem on 2 to 5 processes run once undisturbed and twice with message timings chosen by a seed: sends complete only when received, "
                    "calls delayed, tests and probes answering 'not yet', completions reported in random order, one slow process, freed memory overwritten. The buffer of every "
                    "nonblocking send is compared before and at completion. Non-trivial: messages were sent and something was disturbed.",
               assumptions=["the interposed calls stay within what the MPI standard allows"])
