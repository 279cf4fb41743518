#!/usr/bin/env python3-vt
"""C04: the four cell solvers all solve the cell equations accurately."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
from vt import build, check, cli, dump, mesh as M, ref, run

B = {}
EPS = 2.2e-16


def prepare():
    B["c"] = build.harness("cellsolve")


def prepare_cli():
    B["s"] = build.sweep()


# ---------------------------------------------------------------- single cells
def tet(rng, kind):
    while True:
        x = rng.normal(size=(4, 3))
        if kind == "needle":
            x[:, 1:] *= 10 ** rng.uniform(-3, 0)
        elif kind == "plate":
            x[:, 2] *= 10 ** rng.uniform(-3, 0)
        elif kind == "corner":
            x = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.]]) * rng.uniform(.3, 3, 3)
        elif kind == "sliver":
            x = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 1], [0, -1, 1.]])
            x[2:, 2] = 10 ** rng.uniform(-3, -.5)
            x = x + rng.uniform(-1e-3, 1e-3, (4, 3)) * x[2, 2]
        elif kind == "cluster":                                # two vertices close together
            x[1] = x[0] + 10 ** rng.uniform(-4, -1) * rng.normal(size=3)
        if kind != "corner" or rng.random() < .7:
            x = x @ M.rot(rng.uniform(0, 6.3, 3)).T
        if M.Mesh(x, [[0, 1, 2, 3]]).quality()[0] > 1e-5:
            return x


KINDS = ["random", "needle", "plate", "corner", "sliver", "cluster"]


def gen(rng, i):
    K = int(rng.integers(1, 40))
    nodes, kinds = [], []
    sc = 10.0 ** rng.uniform(-6, 6) if rng.random() < .3 else 1.0
    for c in range(K):
        kd = KINDS[rng.integers(len(KINDS))]
        x = tet(rng, kd)[rng.permutation(4)]
        nodes.append((x + rng.normal(size=3) * (0 if rng.random() < .5 else 5)) * sc)
        kinds.append(kd)
    m = M.Mesh(np.concatenate(nodes), np.arange(4 * K).reshape(K, 4), np.ones(K, int))
    vol = m.geometry()[0]
    sig = np.empty(K)
    for c in range(K):
        l = vol[c] ** (1 / 3.)
        t = rng.integers(4)
        sig[c] = [0.0, 10.0 ** rng.uniform(-6, 0) / l, 10.0 ** rng.uniform(0, 2) / l, 10.0 ** rng.uniform(2, 7) / l][t]
    return dict(mesh=m.to_json(), kinds=sorted(set(kinds)), sigma=[float(x) for x in sig], sn=int(rng.choice([2, 4, 6, 8])), groups=int(rng.choice([1, 2, 3])),
                dseed=int(rng.integers(2 ** 31)), data=str(rng.choice(["normal", "wide", "inflow", "source", "positive"])))


def cell_data(case, K, A, G):
    """Inflow [K,A,4,4,G], source [K,A,4,G]."""
    rng = np.random.default_rng(case["dseed"])
    b, s = rng.normal(size=(K, A, 4, 4, G)), rng.normal(size=(K, A, 4, G))
    d = case["data"]
    if d == "wide":
        b *= 10.0 ** rng.uniform(-12, 12, (K, 1, 1, 1, G))
        s *= 10.0 ** rng.uniform(-12, 12, (K, 1, 1, G))
    elif d == "inflow":
        s[:] = 0
    elif d == "source":
        b[:] = 0
    elif d == "positive":
        b, s = np.abs(b), np.abs(s)
    return b, s


def test(case):
    m = M.Mesh.from_json(case["mesh"])
    K, G, sn = m.nc, case["groups"], case["sn"]
    A = 2 * sn * sn
    b, s = cell_data(case, K, A, G)
    sig = np.array(case["sigma"])
    info = dict(nontrivial=True, tags=case["kinds"] + [case["data"], "S%d" % sn])
    with check.Workdir() as d:
        M.write_pmesh(M.split(m, [0] * K, 1), os.path.join(d, "m"))
        with open(os.path.join(d, "i"), "wb") as f:
            f.write(sig.tobytes() + b.tobytes() + s.tobytes())
        r = run.run([B["c"], os.path.join(d, "m"), str(sn), str(G), os.path.join(d, "i"), os.path.join(d, "o")], cwd=d, timeout=60)
        if r.rc != 0:
            return "solving single cells failed: " + r.tail(400), info
        x = dump.read(os.path.join(d, "o.0"))
    vol, area = x["volume"], x["area"].reshape(K, 4)
    an = x["omegaDotN"].reshape(K, A, 4)
    aw = an * area[:, None]
    Mx = np.einsum("caj,i->caji", aw, np.ones(4)) / 12.0 + (sig * vol / 20.0)[:, None, None, None] * ref.M4
    Mx += np.einsum("cak,kji->caji", np.maximum(aw, 0) / 12.0, ref.FM)
    rhs = np.einsum("ij,cajg->caig", ref.M4, s) * (vol / 20.0)[:, None, None, None]
    mag = np.einsum("ij,cajg->caig", ref.M4, np.abs(s)) * (vol / 20.0)[:, None, None, None]
    rhs -= np.einsum("cak,kij,cakjg->caig", np.minimum(aw, 0) / 12.0, ref.FM, b)
    mag -= np.einsum("cak,kij,cakjg->caig", np.minimum(aw, 0) / 12.0, ref.FM, np.abs(b))
    inv = np.linalg.inv(Mx)
    want = np.einsum("caij,cajg->caig", inv, rhs)
    # two steps of refinement in extended precision
    ML, rl = Mx.astype(np.longdouble), rhs.astype(np.longdouble)
    for _ in range(2):
        res = rl - np.einsum("caij,cajg->caig", ML, want.astype(np.longdouble))
        want = want + np.einsum("caij,cajg->caig", inv, res.astype(float))
    # rounding of matrix and right-hand side, amplified by the inverse (these matrices have condition numbers below 10, whatever the shape)
    ai, am = np.abs(inv), np.abs(Mx)
    amp = np.einsum("caij,cajg->caig", ai, mag + np.einsum("caij,cajg->caig", am, np.abs(want))).max(2)       # (K,A,G)
    cond = np.linalg.norm(Mx, axis=(2, 3)) * np.linalg.norm(inv, axis=(2, 3))
    info["tags"].append("cond1e%d" % int(np.log10(cond.max())))
    nin = (aw < 0).sum(2)
    for k in (1, 2, 3):
        if (nin == k).any():
            info["tags"].append("inflow_faces%d" % k)
    for name in cli.GAUSS:
        got = x[name].reshape(K, A, 4, G)
        err = np.abs(got - want).max(2)
        lim = FACT * EPS * amp
        bad = ~(err <= lim + 1e-290)
        if bad.any():
            c, a, g = (int(t[0]) for t in np.nonzero(bad))
            return "%s: cell %d, direction %d, group %d: flux %s, solution of the cell equations %s (condition %.2g)" % (
                name, c, a, g, got[c, a, :, g].tolist(), want[c, a, :, g].tolist(), cond[c, a]), info
    return None, info


FACT = 100.0          # largest value seen over all methods and shapes: 2.2


def shrink(case):
    m = M.Mesh.from_json(case["mesh"])
    # note: the data are generated for the whole mesh; halves keep their own data
    if m.nc > 1:
        h = m.nc // 2
        for keep in (list(range(h)), list(range(h, m.nc))):
            yield dict(case, mesh=m.subset(keep).to_json(), sigma=[case["sigma"][c] for c in keep])
    for dd in ("source", "inflow", "normal"):
        if case["data"] not in ("source", "inflow", dd):
            yield dict(case, data=dd)
    if case["sn"] > 2:
        yield dict(case, sn=2)
    if case["groups"] > 1:
        yield dict(case, groups=1)


# ---------------------------------------------------------------- whole program, four methods
def gen_cli(rng, i):
    c = cli.gen_case(rng, sweeps=["TraverseGraph"], sns=(2, 2, 4), hi=60, maxp=1, groups=(1, 2))
    if c:
        c["deck"].update(iterMax=1, SourceIteration=True)
        c["threads"] = 1
    return c


def test_cli(case):
    m, deck, pr = cli.load(case)
    info = dict(nontrivial=m.nc >= 2, tags=[str(case["kind"])])
    out = {}
    for g in cli.GAUSS:
        o = cli.execute(B["s"], dict(case, deck=dict(case["deck"], GaussElim=g)), m)
        f = cli.run_failure(o)
        if f:
            return "%s: %s" % (g, f), info
        src = case if o.marked else dict(case, source=dict(kind="hat"))
        Q = cli.ref_source(src, m, deck, pr)
        if not np.abs(Q).max() > 0:
            return None, dict(info, nontrivial=False)
        r = pr.residual(o.psi, Q, 1e-6 * float(np.abs(Q).max()) if src["source"]["kind"] == "hat" else 0.0)
        if not r < 1e-9:
            return "%s: the flux does not satisfy the cell equations: relative residual %.3e" % (g, r), info
    return None, info


if __name__ == "__main__":
    check.main("C04", [check.Part("cells", gen, test, 700, shrink, prepare, thorough=40000, weight=3, optional=True),
                       check.Part("program", gen_cli, test_cli, 60, cli.shrink_case, prepare_cli, thorough=3000)],
               rule="cells: every direction of S2-S8 on up to 40 random separate tetrahedra (six shape families, scales 1e-6 to 1e6, random vertex order, "
                    "total cross section from 0 to 1e7 mean free paths) with arbitrary inflow and source and up to three groups, all four methods compared with a "
                    "refined solution of the 4x4 equations; bound: rounding of matrix and data amplified by the inverse, times 100."
                    " program: a whole sweep with each method, residual of every cell. Non-trivial: all single-cell cases; programs with two cells or more.")
