#!/usr/bin/env python3-vt
"""C20: solutions conserve particles and respect the symmetries of the equations."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, mesh as M, ref

BIN = None


def prepare():
    global BIN
    BIN = build.sweep()


def direct(rng, c, scatter):
    """Exact sweeps, iteration cut off after a few steps (metamorphic relations hold for every iterate)."""
    c["deck"].update(iterMax=int(rng.choice([1, 2, 3])) if scatter else 1, errMax=1e-30, SourceIteration=True)


# ---------------------------------------------------------------- particle balance
def gen_balance(rng, i):
    sc = bool(rng.random() < .5)
    c = cli.gen_case(rng, sweeps=cli.SWEEPS + cli.DDS, sns=(2, 2, 4, 6), hi=150, scatter=sc, work=4000)
    if c is None:
        return None
    if c["source"]["kind"] == "wide":
        c["source"]["kind"] = "positive"
    if c["source"]["kind"] != "hat" and rng.random() < .3:       # weak sources: convergence is relative
        c["source"]["exp"] = -int(rng.integers(5, 16))
    kr = bool(rng.random() < .4)
    c["deck"].update(SourceIteration=not kr, iterMax=2000, errMax=1e-11 if kr else 1e-13, DD_IterMax=2000, DD_ErrMax=1e-11 if kr else 1e-13)
    if c["deck"]["SweepType"].startswith("Schur"):
        c["deck"].update(DD_ErrMax=1e-11)
    if kr and c["deck"]["SweepType"] == "PBJ":
        c["deck"].update(DD_ErrMax=1e-13)
    return c


def balance(pr, psi, Q):
    """Largest imbalance of a cell, direction and group relative to the particles emitted and entering in all the mesh."""
    m, t = pr.m, pr.topo
    V, ar = pr.vol, pr.area
    src = Q.mean(2) * V[:, None, None] + (pr.sigS / (4 * np.pi) * V)[:, None, None] * pr.phi(psi).mean(1)[:, None, :]
    absb = (pr.sigT * V)[:, None, None] * psi.mean(2)
    leak = np.zeros_like(absb)
    size = np.abs(Q).mean(2) * V[:, None, None] + (pr.sigT * V)[:, None, None] * np.abs(psi).mean(2)
    for k in range(4):
        vs = [v for v in range(4) if v != k]
        an = pr.an[:, :, k].T                                     # (C,A)
        own = psi[:, :, vs].mean(2)
        inn = np.zeros_like(own)
        i = np.nonzero(t.nb[:, k] >= 0)[0]
        inn[i] = psi[t.nb[i, k]][np.arange(len(i))[:, None], :, t.nbv[i, k][:, vs]].mean(1)
        f = np.where((an > 0)[:, :, None], own, inn)
        leak += (ar[:, k][:, None] * an)[:, :, None] * f
        size += (ar[:, k][:, None] * np.abs(an))[:, :, None] * np.abs(f)
    r = np.abs(src - absb - leak)
    loc = np.max(r / np.maximum(size, size.max(axis=(0, 1)) * 1e-3 + 1e-300))
    tot = np.abs((src - absb - leak).sum(axis=0)).max() / (size.sum(axis=0).max() + 1e-300)
    return float(loc), float(tot)


def test_balance(case):
    m, deck, pr = cli.load(case)
    o = cli.execute(BIN, case, m)
    info = dict(nontrivial=m.nc > 1, tags=cli.tags(case, deck))
    f = cli.run_failure(o)
    if f:
        return f, info
    if not o.marked:
        case = dict(case, source=dict(kind="hat"))
    Q = cli.ref_source(case, m, deck, pr)
    if not np.abs(Q).max() > 0:
        info["nontrivial"] = False
        return None, info
    loc, tot = balance(pr, o.psi, Q)
    if not (loc < 1e-6 and tot < 1e-7):
        return "particles are not balanced: cell-wise %.3e, in total %.3e (relative)" % (loc, tot), info
    return None, info


# ---------------------------------------------------------------- symmetries
def sym_matrix(rng, sn):
    """An orthogonal map that permutes the directions of the quadrature, and its kind."""
    w = int(rng.integers(5))
    F = np.eye(3)
    if w == 0:
        F = np.diag(rng.choice([-1.0, 1.0], 3))
    elif w == 1:
        k = int(rng.integers(1, 2 * sn))
        a = np.pi / sn * k
        F = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.0]])
    elif w == 2:
        F = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1.0]])
    elif w == 3:
        F = np.array([[0, -1, 0], [1, 0, 0], [0, 0, -1.0]])
    else:
        k = int(rng.integers(2 * sn))
        a = np.pi / sn * k                                       # reflection x -> azimuth a - phi
        F = np.array([[np.cos(a), np.sin(a), 0], [np.sin(a), -np.cos(a), 0], [0, 0, 1.0]])
    return F.tolist()


def gen_sym(rng, i):
    sc = bool(rng.random() < .5)
    c = cli.gen_case(rng, sns=(2, 2, 4, 4, 6, 8), hi=200, scatter=sc, work=12000)
    if c is None:
        return None
    if c["source"]["kind"] == "hat":
        c["source"] = dict(kind="random", seed=int(rng.integers(1 << 31)))
    direct(rng, c, sc)
    c["rel"] = str(rng.choice(["scale_source", "scale_length", "renumber", "map", "map", "translate", "material_swap", "sum"]))
    c["rseed"] = int(rng.integers(1 << 31))
    return c


def run_psi(case, m, Q):
    """Runs with an explicit source array."""
    with check.Workdir() as d:
        deck = cli.write_inputs(d, case, m)
        Q.astype("<f8").tofile(os.path.join(d, "src.bin"))
        from vt import run
        r = run.mpirun(case["nparts"], [BIN, "m.pmesh", "in.deck"], threads=case.get("threads", 1), cwd=d, timeout=cli.TIMEOUT,
                       extra=dict(VT_SRC=os.path.join(d, "src.bin"), VT_MARK=os.path.join(d, "marked")))
        if r.timed_out or r.rc != 0:
            return None, "run of a valid input failed: " + r.tail(500)
        if not os.path.exists(os.path.join(d, "marked")):
            raise check.Skip()
        try:
            with open(os.path.join(d, "psi.out"), "rb") as f:
                return cli.parse_psi(f.read(), m.nc, 2 * int(deck["snOrder"]) ** 2, int(deck["nGroups"]))[1], None
        except (OSError, M.FormatError) as e:
            return None, "no usable output: %s" % e


def test_sym(case):
    m, deck, pr = cli.load(case)
    rng = np.random.default_rng(case["rseed"])
    Q = cli.ref_source(case, m, deck, pr)
    info = dict(nontrivial=m.nc > 1, tags=[case["rel"]] + cli.tags(case, deck))
    psi, f = run_psi(case, m, Q)
    if f:
        return f, info
    rel = case["rel"]
    c2, m2, Q2 = dict(case), m, Q
    d2 = dict(case["deck"])
    want = psi
    A, G = psi.shape[1], psi.shape[3]
    if rel == "scale_source":
        s = float(rng.choice([1e-8, .3, 7.0, 1e9, -1.0]))
        Q2, want = Q * s, psi * s
    elif rel == "sum":
        P2 = rng.uniform(-1, 1, Q.shape) * np.abs(Q).max()
        b, f = run_psi(case, m, P2)
        if f:
            return f, info
        Q2, want = Q + P2, psi + b
    elif rel == "scale_length":
        s = float(rng.choice([.125, .01, 3.0, 16.0, 1000.0]))
        m2 = M.Mesh(m.nodes * s, m.cells, m.mats, None, m.faces, m.fcells, m.cfaces)
        for k in ("sigmaT1", "sigmaS1", "sigmaT2", "sigmaS2"):
            d2[k] = float(deck[k]) / s
        Q2 = Q / s
    elif rel == "translate":
        m2 = M.Mesh(m.nodes + rng.uniform(-4, 4, 3) * float(np.ptp(m.nodes, axis=0).max()), m.cells, m.mats, None, m.faces, m.fcells, m.cfaces)
    elif rel == "material_swap":
        m2 = M.Mesh(m.nodes, m.cells, 3 - m.mats, None, m.faces, m.fcells, m.cfaces)
        for k in ("sigmaT", "sigmaS"):
            d2[k + "1"], d2[k + "2"] = deck[k + "2"], deck[k + "1"]
    elif rel == "renumber":
        m2, pc, vmap = m.renumbered(rng)
        Q2, want = np.empty_like(Q), np.empty_like(psi)
        part = [0] * m.nc
        for c in range(m.nc):
            Q2[pc[c]] = Q[c][:, vmap[c]]
            want[pc[c]] = psi[c][:, vmap[c]]
            part[pc[c]] = case["part"][c]
        c2["part"] = part
    elif rel == "map":
        F = np.array(sym_matrix(rng, int(deck["snOrder"])))
        cen = m.nodes.mean(0)
        m2 = M.Mesh((m.nodes - cen) @ F.T + cen, m.cells, m.mats, None, m.faces, m.fcells, m.cfaces)
        om = pr.om
        img = om @ F.T
        to = np.argmin(((img[:, None] - om[None]) ** 2).sum(2), axis=1)
        if np.abs(om[to] - img).max() > 1e-12:
            raise RuntimeError("not a symmetry")
        Q2, want = np.empty_like(Q), np.empty_like(psi)
        Q2[:, to] = Q
        want[:, to] = psi
    c2["deck"] = d2
    kind = case["kind"] if rel not in ("map", "scale_length", "translate") else None
    if rel in ("map", "translate", "scale_length") and not cli.usable(m2, deck["snOrder"], kind):
        raise check.Skip()
    got, f = run_psi(c2, m2, Q2)
    if f:
        return "after %s: %s" % (rel, f), info
    s = max(np.abs(want).max(), np.abs(psi).max() if rel == "sum" else 0)
    e = np.abs(got - want).max() / s if s > 0 else np.abs(got).max()
    if not e < 1e-7:
        return "%s: flux differs from the transformed one by %.3e (relative)" % (rel, e), info
    return None, info


# ---------------------------------------------------------------- influence
def gen_influence(rng, i):
    isl = bool(rng.random() < .4)
    c = cli.gen_case(rng, sweeps=cli.SWEEPS + (cli.DDS if isl else []), sns=(2, 2, 4, 6), hi=150, scatter=isl, work=5000,
                     kind="islands" if isl else None, parallel=0 if isl else .1)
    if c is None:
        return None
    c["islands"] = isl
    c["rseed"] = int(rng.integers(1 << 31))
    c["deck"].update(iterMax=int(rng.integers(1, 4)) if isl else 1, errMax=1e-30, SourceIteration=True, DD_IterMax=20, DD_ErrMax=1e-8)
    return c


def test_influence(case):
    m, deck, pr = cli.load(case)
    rng = np.random.default_rng(case["rseed"])
    A, G = pr.na, int(deck["nGroups"])
    src = int(rng.integers(m.nc))
    Q = np.zeros((m.nc, A, 4, G))
    Q[src] = rng.uniform(.5, 1, (A, 4, G))
    info = dict(nontrivial=False, tags=cli.tags(case, deck) + ["islands_%s" % case["islands"]])
    psi, f = run_psi(case, m, Q)
    if f:
        return f, info
    nb = pr.topo.nb
    t, s = cli.sigma_cells(m, deck)
    for a in range(A):
        reach, todo = {src}, [src]
        while todo:
            c = todo.pop()
            for k in range(4):
                n = int(nb[c, k])
                # a face parallel to a direction may count as either
                if n >= 0 and n not in reach and ((s > 0).any() or pr.an[a, c, k] > 0 or abs(pr.an[a, c, k]) < 1e-9):
                    reach.add(n)
                    todo.append(n)
        out = np.array([c for c in range(m.nc) if c not in reach], int)
        info["nontrivial"] = info["nontrivial"] or len(out) > 0
        if len(out) and np.abs(psi[out, a]).max() > 0:
            c = int(out[np.argmax(np.abs(psi[out, a]).max(axis=(1, 2)))])
            return "a source in cell %d gives flux %.3e in cell %d, direction %d, which is not downstream of it" % (src, np.abs(psi[c, a]).max(), c, a), info
        if not np.abs(psi[src, a]).max() > 0:
            return "a source in cell %d gives no flux there in direction %d" % (src, a), info
    return None, info


if __name__ == "__main__":
    check.main("C20", [check.Part("balance", gen_balance, test_balance, 230, cli.shrink_case, prepare, weight=1.2),
                       check.Part("sym", gen_sym, test_sym, 180, cli.shrink_case, prepare, weight=1.4),
                       check.Part("influence", gen_influence, test_influence, 110, cli.shrink_case, prepare)],
               rule="balance: in every cell, direction and group of a converged solution of any solver, inflow, outflow, absorption and "
                    "sources balance. sym: pairs of runs related by source scaling or addition, length scaling, translation, material "
                    "exchange, renumbering, or a rotation or reflection that permutes the directions. influence: a source in one cell gives "
                    "flux only in cells downstream of it (or, with scattering, in the same body). Non-trivial: more than one cell (influence: "
                    "some cell out of reach).")
