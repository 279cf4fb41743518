#!/usr/bin/env python3-vt
"""C19: the built-in test problem and the printed diagnostics."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, mesh as M, ref

BIN = None
L2 = re.compile(r"^L2 Relative Error: +(\S+)", re.M)
DG = re.compile(r"^Diff between groups: +(\S+)", re.M)
CUBE = 50.0


def prepare():
    global BIN
    BIN = build.sweep()


def tie(m):
    """A node or cell centre so close to the surface of the hat that rounding decides."""
    r = np.linalg.norm(m.nodes - CUBE, axis=1)
    c = np.linalg.norm(m.nodes[m.cells].mean(1) - CUBE, axis=1)
    return (np.abs(r - 30) < 1e-9).any() or (np.abs(c - 30) < 1e-9).any()


def place(rng, m):
    """Moves the mesh so that a node (or nothing in particular) is at the centre of the hat."""
    w = rng.random()
    if w < .35:
        n = m.nodes[rng.integers(len(m.nodes))].copy()
        # exact: choose coordinates on a grid of 2^-20
        m.nodes = np.round((m.nodes - n) * 2 ** 20) / 2 ** 20 + CUBE
        return "node_at_centre"
    if w < .6:
        m.nodes = m.nodes + rng.uniform(-25, 25, 3)
        return "shifted"
    if w < .75:
        return edge(rng, m)
    return "as_is"


def edge(rng, m):
    """A node, or the centre of the first cell that a sphere around the hat's centre meets, is near the surface of the hat."""
    u = rng.standard_normal(3)
    u /= np.linalg.norm(u)
    p = m.nodes[m.cells].mean(1) if rng.random() < .7 else m.nodes
    q = p[np.argmin(p @ u)]
    m.nodes = m.nodes - q + CUBE + u * (30 + rng.choice([1, 1, -1]) * 10.0 ** rng.uniform(-4, 0))
    return "edge"


def diagnostics(psi, m):
    x = m.nodes[m.cells].mean(1) - CUBE
    c = np.linalg.norm(x, axis=1)
    act = np.where(c <= 30, 1 - c / 30, 0.0)
    v = psi.mean(axis=2)                                  # (C,A,G)
    l2 = np.sqrt(((v - act[:, None, None]) ** 2).sum() / (v ** 2).sum())
    dg = np.abs(psi - psi[..., :1]).max() / np.abs(psi[..., 0]).max()
    return float(l2), float(dg)


def printed(o, psi, m):
    a, b = L2.findall(o.res.out), DG.findall(o.res.out)
    if len(a) != 1 or len(b) != 1:
        return "diagnostics printed %d and %d times" % (len(a), len(b))
    l2, dg = diagnostics(psi, m)
    if not abs(float(a[0]) - l2) <= 2e-6 * l2 + 1e-12:
        return "printed relative L2 error %s, from the flux written %.6e" % (a[0], l2)
    if not abs(float(b[0]) - dg) <= 2e-6 * dg + 1e-15:
        return "printed difference between groups %s, from the flux written %.6e" % (b[0], dg)
    return None


# ---------------------------------------------------------------- the source
def gen_hat(rng, i):
    c = cli.gen_case(rng, sns=(2, 2, 4, 4, 6, 8), hi=250, scatter=True, scale=float(rng.choice([20., 40., 60., 100., 120.])), parallel=.1)
    if c is None:
        return None
    m = M.Mesh.from_json(c["mesh"])
    c["place"] = place(rng, m) if c["kind"] != "kuhn_parallel" else "as_is"
    if not cli.usable(m, c["deck"]["snOrder"], c["kind"]) or tie(m):
        return None
    c["mesh"] = m.to_json()
    c["source"] = dict(kind="hat")
    c["deck"].update(SourceIteration=True, iterMax=int(rng.integers(1, 4)), errMax=1e-30)
    return c


def test_hat(case):
    m, deck, pr = cli.load(case)
    if tie(m):
        raise check.Skip()
    o = cli.execute(BIN, case, m)
    f = cli.run_failure(o)
    Q = cli.ref_source(dict(source=None), m, deck, pr)
    centre = bool((np.linalg.norm(m.nodes - CUBE, axis=1) == 0).any())
    nz = bool(np.abs(Q).max() > 0)
    info = dict(nontrivial=nz and m.nc > 1, tags=[case["place"], "centre_%s" % centre] + cli.tags(case, deck))
    if f:
        return f, info
    if not nz:
        return ("non-zero flux without source" if np.abs(o.psi).max() > 0 else None), info
    psi, _e = pr.source_iteration(Q, iters=int(deck["iterMax"]))
    e = cli.reldiff(o.psi, psi)
    if not e < 1e-8:
        return "the flux is not that of the hat source (relative difference %.3e)" % e, info
    return printed(o, o.psi, m), info


# ---------------------------------------------------------------- printed diagnostics for arbitrary fluxes
def gen_diag(rng, i):
    c = cli.gen_case(rng, sweeps=cli.SWEEPS + cli.DDS, sns=(2, 2, 4, 6), hi=150, scatter=False, work=6000, hat=0,
                     groups=(1, 2, 2, 3, 4))
    if c is None:
        return None
    small = rng.random() < .25 and "parallel" not in c["kind"]
    if small:                                               # most of the difference comes from the hat
        m = M.Mesh.from_json(c["mesh"])
        edge(rng, m)
        if not cli.usable(m, c["deck"]["snOrder"], c["kind"]) or tie(m):
            return None
        c["mesh"] = m.to_json()
    c["source"] = dict(kind=str(rng.choice(["random", "positive", "sparse"])), seed=int(rng.integers(1 << 31)),
                       amp=float(10 ** rng.uniform(-2, 2) * (1e-6 if small else 1)))
    c["deck"].update(iterMax=1, errMax=1e-8, DD_IterMax=20, DD_ErrMax=1e-8, SourceIteration=True)
    return c


def test_diag(case):
    m, deck, pr = cli.load(case)
    if tie(m):
        raise check.Skip()
    o = cli.execute(BIN, case, m)
    info = dict(nontrivial=m.nc > 1 and int(deck["nGroups"]) > 1, tags=cli.tags(case, deck) + ["groups%d" % int(deck["nGroups"])])
    f = cli.run_failure(o)
    if f:
        return f, info
    if not o.marked or not np.abs(o.psi[..., 0]).max() > 0:
        raise check.Skip()
    return printed(o, o.psi, m), info


# ---------------------------------------------------------------- the error decreases with the mesh size
def gen_conv(rng, i):
    return dict(n=int(rng.choice([3, 4])), st=float("%.4g" % 10 ** rng.uniform(-2, .3)), sn=int(rng.choice([2, 4])),
                nparts=int(rng.integers(1, 4)), seed=int(rng.integers(1 << 31)), sweep=str(rng.choice(cli.SWEEPS)), groups=int(rng.integers(1, 3)))


def test_conv(case):
    errs = []
    for k in (1, 2):
        rng = np.random.default_rng(case["seed"])
        P, T = M._kuhn(*(3 * [case["n"] * k]))
        P = (P / (case["n"] * k) - .5) @ M.rot(rng.uniform(0, 6.28, 3)).T * 75 + CUBE
        m = M.Mesh(P, T)
        d = P[T].mean(1) @ rng.normal(size=3)
        part = (np.argsort(np.argsort(d)) * case["nparts"] // m.nc).tolist()
        c = dict(mesh=m.to_json(), part=part, nparts=case["nparts"], threads=1, source=dict(kind="hat"),
                 deck=dict(snOrder=case["sn"], sigmaT1=case["st"], sigmaT2=case["st"], iterMax=1, SweepType=case["sweep"],
                           maxCellsPerStep=200, nGroups=case["groups"]))
        o = cli.execute(BIN, c, m)
        f = cli.run_failure(o)
        if f:
            return f
        e = L2.findall(o.res.out)
        if len(e) != 1:
            return "no L2 error printed"
        errs.append(float(e[0]))
    if not (errs[1] < .75 * errs[0] and errs[1] < .6):
        return "halving the mesh size changes the error from %.3e to %.3e" % tuple(errs)
    return None


if __name__ == "__main__":
    check.main("C19", [check.Part("hat", gen_hat, test_hat, 200, cli.shrink_case, prepare, weight=2),
                       check.Part("diag", gen_diag, test_diag, 150, cli.shrink_case, prepare, weight=2),
                       check.Part("conv", gen_conv, test_conv, 16, None, prepare, workers=4, thorough=100)],
               rule="hat: random meshes, often with a node exactly at the centre, cross sections and layouts; the flux must be the iterate of "
                    "the reference hat source and the printed diagnostics those of the flux written. diag: the same diagnostics for random "
                    "sources that differ between groups. conv: the printed error shrinks under refinement. Non-trivial: non-zero source, more "
                    "than one cell (diag: more than one group).")
