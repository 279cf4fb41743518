#!/usr/bin/env python3-vt
"""C03: results do not depend on the number of processes, partitioning, threads or schedule."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, mesh as M

BIN = None


def prepare():
    global BIN
    BIN = build.sweep()


def layout(rng, m, deck, big=False, wide=False):
    part, n = cli.gen_layout(rng, m, 5)
    if wide:
        n = min(int(rng.integers(2, 5)), m.nc)
        part, n = M.gen_partition(rng, m, n)
        part = [int(x) for x in part]
    if big:
        n = min(int(rng.integers(4, 9)), m.nc)
        part, n = M.gen_partition(rng, m, n)
        part = [int(x) for x in part]
    if rng.random() < .08:                                 # a partition without cells
        n += 1
        s = rng.permutation(n)
        part = [int(s[x]) for x in part]
    v = dict(part=part, nparts=n, threads=cli.gen_threads(rng, (3, 3, 4, 4, 5, 6, 8) if wide else (1, 2, 3, 4)), lseed=int(rng.integers(1 << 31)) if rng.random() < .7 else None,
             flip=bool(rng.random() < .2))
    d = dict(SweepType=str(rng.choice(["OriginalTycho1"] * 4 + ["OriginalTycho2"] if wide else cli.SWEEPS)), GaussElim=str(rng.choice(cli.GAUSS)),
             maxCellsPerStep=int(rng.choice([1, 2, 5, 20, 100, 1000, 2000000000])), intraAngleP=int(rng.integers(5)),
             interAngleP=int(rng.integers(3)), MPIType=str(rng.choice(["TychoTwoSided", "CapsaicinTwoSided"])))
    full = dict(deck, **d)
    v["threads"] = cli.tame(full, m, n, v["threads"], wide)
    d["maxCellsPerStep"] = full["maxCellsPerStep"]
    v["deck"] = d
    v["env"] = {}
    if v["threads"] > 1 and rng.random() < .2:              # the OpenMP runtime may pick the number of threads
        v["env"] = [dict(OMP_DYNAMIC="true", VT_LOAD=int(rng.integers(1, 1000))), dict(OMP_THREAD_LIMIT=int(rng.integers(1, v["threads"] + 1)))][int(rng.random() < .25)]
    elif n > 1 and rng.random() < .1:                       # processes with different numbers of threads
        v["env"] = dict(VT_THREADS=",".join(str(int(rng.integers(1, v["threads"] + 3))) for _ in range(n)))
    return v


def gen(rng, i):
    c = cli.gen_case(rng, sns=(2, 2, 4, 4, 6, 8), hi=250, scatter=bool(rng.random() < .6))
    if c is None:
        return None
    m = M.Mesh.from_json(c["mesh"])
    d = c["deck"]
    d["iterMax"] = int(rng.choice([1, 2, 3, 5])) if d["SourceIteration"] else 60
    d["errMax"] = float(rng.choice([1e-30, 1e-30, 1e-2])) if d["SourceIteration"] else 1e-12
    c["variants"] = [layout(rng, m, d, big=rng.random() < .15) for _ in range(int(rng.choice([1, 2, 2])))]
    if rng.random() < .3:                                   # several processes, each with several threads in turn
        c["variants"][0] = layout(rng, m, d, wide=True)
    if rng.random() < .3:
        c["variants"].append(dict(part=c["part"], nparts=c["nparts"], threads=c["threads"], lseed=c["lseed"], flip=c["flip"], deck={}, env={}))
    return c


def test(case):
    m, deck, pr = cli.load(case)
    info = dict(nontrivial=False, tags=cli.tags(case, deck))
    o = cli.execute(BIN, case, m)
    f = cli.run_failure(o)
    if f:
        return f, info
    kry = not deck["SourceIteration"] or deck["SourceIteration"] == "false"
    tol = 1e-8 if kry else 1e-9
    for j, v in enumerate(case["variants"]):
        c2 = dict(case, **v)
        c2["deck"] = dict(case["deck"], **v["deck"])
        o2 = cli.execute(BIN, c2, m)
        f = cli.run_failure(o2)
        if f:
            return "variant %d: %s" % (j, f), info
        if not np.abs(o.psi).max() > 0 and not np.abs(o2.psi).max() > 0:
            continue
        info["nontrivial"] = info["nontrivial"] or v["nparts"] > 1 or case["nparts"] > 1
        info["tags"] += ["env_" + x for x in v.get("env") or {}]
        info["tags"] += ["to_" + x for x in cli.tags(c2, cli.full_deck(c2["deck"]))[1:]]
        e = float(np.max(scaled(o2.psi, o.psi)))
        if not e < tol:
            return "variant %d differs from the base run by %.3e (relative)" % (j, e), info
    return None, info


def scaled(a, b):
    """Difference relative to the largest flux of the direction and group."""
    s = np.maximum(np.abs(b).max(axis=(0, 2)), np.abs(a).max(axis=(0, 2)))
    d = np.abs(a - b).max(axis=(0, 2))
    return np.where(d > 0, d / np.where(s > 0, s, 1), 0)


def shrink(case):
    vs = case["variants"]
    if len(vs) > 1:
        for j in range(len(vs)):
            yield dict(case, variants=vs[:j] + vs[j + 1:])
    m = M.Mesh.from_json(case["mesh"])
    n = m.nc
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            keep = [c for c in range(n) if not (a <= c < a + size)]
            if keep:
                c2 = cli.relabel(dict(case), m, keep)
                nv = []
                for v in vs:
                    p = [v["part"][c] for c in keep]
                    u = sorted(set(p))
                    nv.append(dict(v, part=[u.index(x) for x in p], nparts=len(u)))
                c2["variants"] = nv
                yield c2
        size //= 2
        if n > 40 and size < 3:
            break
    for c in cli.shrink_case(dict(case, part=[0] * n, nparts=1)):
        if len(c["part"]) == n:
            yield c
    for j, v in enumerate(vs):
        for k in list(v["deck"]):
            d = dict(v["deck"])
            d.pop(k)
            yield dict(case, variants=vs[:j] + [dict(v, deck=d)] + vs[j + 1:])


if __name__ == "__main__":
    check.main("C03", [check.Part("run", gen, test, 220, shrink, prepare)],
               rule="a case runs one problem under two to four layouts (processes, partitioning, numbering inside partitions, threads, "
                    "cells per step, priorities, message mode, elimination, sweep type), with iterations often cut off before convergence, and "
                    "compares the flux files. Non-trivial: non-zero flux and more than one partition in some layout.")
