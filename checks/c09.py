#!/usr/bin/env python3-vt
"""C09: the partition-boundary exchange delivers exactly the outgoing flux."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
from vt import build, check, cli, dump, mesh as M, ref, run, trav

BIN = {}


def prepare():
    BIN["c"] = build.harness("commsides")


def gen(rng, i):
    sn = int(rng.choice([2, 2, 2, 4, 6]))
    if rng.random() < .15:
        m, kd = cli.gen_parallel_mesh(rng, 60)
        sn = 2
    else:
        m, kd = cli.gen_mesh(rng, 1, max(3, 2400 // (2 * sn * sn)) if sn > 2 else 150)
    if m.nc < 1 or not cli.usable(m, sn, kd):
        return None
    part, P = cli.gen_layout(rng, m, 6)
    if rng.random() < .12:
        P += 1
        s = rng.permutation(P)
        part = [int(s[x]) for x in part]
    ex = [[int(rng.integers(2)), int(rng.integers(2 ** 31)), int(rng.integers(3))] for _ in range(int(rng.integers(1, 5)))]
    return dict(mesh=m.to_json(), kind=kd, sn=sn, part=part, nparts=P, groups=int(rng.choice([1, 1, 2, 3, 7])), exchanges=ex,
                lseed=int(rng.integers(2 ** 31)), flip=bool(rng.random() < .4))


def test(case):
    m = M.Mesh.from_json(case["mesh"])
    pr = ref.Problem(m, case["sn"], np.ones(m.nc))
    if not cli.ok(pr, case["kind"]):
        raise check.Skip()
    P, G, A = case["nparts"], case["groups"], pr.na
    info = dict(nontrivial=m.nc > 1 and P > 1, tags=[case["kind"], "parts%d" % P, "groups%d" % G, "flip%d" % case["flip"]])
    with check.Workdir() as d:
        M.write_pmesh(M.split(m, case["part"], P, np.random.default_rng(case["lseed"]), flip_nodes=case["flip"]), os.path.join(d, "m.pmesh"))
        with open(os.path.join(d, "c"), "w") as f:
            for e in case["exchanges"]:
                f.write("%d %d %d\n" % tuple(e))
        r = run.mpirun(P, [BIN["c"], "m.pmesh", str(case["sn"]), str(G), "c", "o"], cwd=d, timeout=45)
        if r.timed_out:
            return "exchange does not end: " + r.tail(300), info
        if r.rc != 0:
            return "exchange on a valid mesh failed: " + r.tail(500), info
        D = [dump.read(os.path.join(d, "o.%d" % p)) for p in range(P)]
    an, bad = trav.parallel_faces(pr, D)
    if bad:
        return bad, info
    topo = pr.topo
    part = case["part"]
    local = [{int(g): i for i, g in enumerate(x["lgCell"])} for x in D]
    for k in range(len(case["exchanges"])):
        psi = [x["psi%d" % k].reshape(-1, A, 4, G) for x in D]
        for p, x in enumerate(D):
            w = "exchange %d, process %d" % (k, p)
            if (x["psi%d" % k] != x["psiafter%d" % k]).any():
                return "%s: the flux itself was changed" % w, info
            if k and (x["before%d" % k] != x["after%d" % (k - 1)]).any():
                return "%s: boundary values changed between exchanges" % w, info
            lg = x["lgCell"]
            n = len(lg)
            sides, f2c = x["side"].reshape(n, 4), x["f2c"].reshape(n, 4, 3)
            old, new = x["before%d" % k].reshape(-1, A, 3, G), x["after%d" % k].reshape(-1, A, 3, G)
            want = old.copy()
            src = {}
            for i in range(n):
                g = int(lg[i])
                for f in range(4):
                    h = int(topo.nb[g, f])
                    s = int(sides[i, f])
                    if s >= 0:
                        src[s] = (g, f, h)
                    if h < 0 or part[h] == p:
                        continue
                    q = part[h]
                    j = local[q][h]
                    inc = an[:, g, f] < 0
                    for fv in range(3):
                        v2 = int(topo.nbv[g, f, int(f2c[i, f, fv])])
                        want[s, inc, fv, :] = psi[q][j][inc, v2, :]
            if new.shape != want.shape or (new != want).any():
                s, a, fv, gr = np.argwhere(new != want)[0]
                g, f, h = src.get(int(s), (-1, -1, -1))
                kept = new[s, a, fv, gr] == old[s, a, fv, gr]
                return "%s: cell %d, face %d (neighbour %d), direction %d, vertex %d, group %d: %s" % (
                    w, g, f, h, a, fv, gr, "value is not delivered" if kept else "a value that must not change is changed" if want[s, a, fv, gr] == old[s, a, fv, gr]
                    else "wrong value delivered"), info
    return None, info


def shrink(case):
    E = case["exchanges"]
    if len(E) > 1:
        for j in range(len(E)):
            yield dict(case, exchanges=E[:j] + E[j + 1:])
    if case["groups"] > 1:
        yield dict(case, groups=1)
    if case["flip"]:
        yield dict(case, flip=False)
    m = M.Mesh.from_json(case["mesh"])
    size = m.nc // 2
    while size >= 1:
        for a in range(0, m.nc, size):
            keep = [c for c in range(m.nc) if not (a <= c < a + size)]
            if keep:
                yield dict(case, mesh=m.subset(keep).to_json(), part=[case["part"][c] for c in keep])
        size //= 2
    for p in range(case["nparts"] - 1, 0, -1):
        yield dict(case, nparts=case["nparts"] - 1, part=[x - (x >= p) for x in case["part"]])


if __name__ == "__main__":
    check.main("C09", [check.Part("exchange", gen, test, 600, shrink, prepare, thorough=20000, optional=True)],
               rule="random mesh, numbering, partition (sometimes with an empty one), group count, and up to four exchanges through two exchange objects with arbitrary "
                    "bit patterns as flux and as previous boundary values; every boundary value of every process is compared bit by bit with the value the model of the exchange "
                    "gives. Non-trivial: several cells on several processes.")
