#!/usr/bin/env python3-vt
"""C24: the tool chain from serial mesh to flux file works end to end."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, mesh as M, ref, run

B = {}
TOOLS = ["PartitionColumns", "PartitionMetis", "RefineSerialMesh"]


def prepare():
    B["sweep"] = build.sweep()
    for u in TOOLS:
        B[u] = build.util(u)


def gen(rng, i):
    sn = int(rng.choice([2, 2, 4, 4, 6, 8]))
    refine = int(rng.choice([0, 0, 1, 1, 2]))
    top = max(3, int(30000 / (2 * sn * sn)))
    n = int(np.exp(rng.uniform(np.log(2), np.log(min(top, 300)))))
    n0 = max(1, n // 8 ** refine)
    m, kd = M.gen(rng, n0)
    if m.nc < 1:
        return None
    m.build_faces(rng)
    m = m.renumbered(rng)[0]
    ext = float(np.ptp(m.nodes, axis=0).max())
    nc = m.nc * 8 ** refine
    if nc * 2 * sn * sn > 60000:
        return None
    c = dict(mesh=m.to_json(), kind=kd, refine=refine, tool=str(rng.choice(TOOLS[:2])))
    p = int(rng.integers(1, min(nc, 6) + 1))
    if c["tool"] == "PartitionColumns":
        d = [x for x in range(1, p + 1) if p % x == 0]
        nx = int(rng.choice(d))
        c["args"] = [str(nx), str(p // nx)]
    else:
        c["args"] = [str(p)]
    scat = bool(rng.random() < .35)
    deck = dict(snOrder=sn, nGroups=int(rng.choice([1, 1, 2, 3])), SweepType=str(rng.choice(cli.SWEEPS + cli.DDS)), GaussElim=str(rng.choice(cli.GAUSS)),
                maxCellsPerStep=int(rng.choice([1, 5, 20, 100, 1000])), intraAngleP=int(rng.integers(5)), interAngleP=int(rng.integers(3)),
                MPIType=str(rng.choice(["TychoTwoSided", "CapsaicinTwoSided"])), SourceIteration=bool(rng.random() < .8),
                iterMax=500, errMax=1e-11, DD_IterMax=500, DD_ErrMax=1e-11)
    if not scat:
        deck["SweepType"] = str(rng.choice(cli.SWEEPS))
    deck.update(cli.gen_sigma(rng, scatter=scat, scale=ext, cmax=.7))
    if not deck["SourceIteration"] or "Schur" in deck["SweepType"]:
        deck.update(errMax=1e-10, DD_ErrMax=1e-10)
    c.update(deck=deck, nparts=p, threads=int(rng.choice([1, 1, 2, 3])), source=cli.gen_source(rng, .3))
    if p * c["threads"] > 8:
        c["threads"] = 1
    m.nc_est = nc
    return c


def origin(m0, m):
    """Checks that the refined cells fill the original ones, and gives them the materials of those."""
    x0 = m0.nodes[m0.cells]
    v0 = np.abs(np.linalg.det(x0[:, 1:] - x0[:, :1])) / 6
    x = m.nodes[m.cells]
    v = np.abs(np.linalg.det(x[:, 1:] - x[:, :1])) / 6
    cen = x.mean(1)
    inv = np.linalg.inv(np.swapaxes(x0[:, 1:] - x0[:, :1], 1, 2))
    b = np.einsum("cij,ncj->nci", inv, cen[:, None] - x0[None, :, 0])
    b = np.concatenate([b, 1 - b.sum(2, keepdims=True)], 2).min(2)
    own = np.argmax(b, axis=1)
    if b[np.arange(m.nc), own].min() < -1e-6:
        return "a refined cell lies outside of all cells of the mesh given"
    got = np.bincount(own, v, m0.nc)
    if not (np.abs(got - v0) <= 1e-6 * v0).all():
        return "the refined cells do not fill the cells of the mesh given"
    m.mats = np.array(m0.mats)[own]


def test(case):
    m0 = M.Mesh.from_json(case["mesh"])
    deck = cli.full_deck(case["deck"])
    with check.Workdir() as d:
        s = os.path.join(d, "s0.smesh")
        M.write_smesh(m0, s)
        for k in range(case["refine"]):
            t = os.path.join(d, "s%d.smesh" % (k + 1))
            r = run.run([B["RefineSerialMesh"], s, t], cwd=d, timeout=40)
            if r.rc != 0 or not os.path.exists(t):
                return "refinement %d of a valid mesh fails: %s" % (k + 1, r.tail(300))
            s = t
        m = M.read_smesh(s)
        if m.nc != m0.nc * 8 ** case["refine"]:
            return "%d refinements of %d cells give %d cells" % (case["refine"], m0.nc, m.nc)
        f = origin(m0, m)
        if f:
            return f
        pr = cli.problem(m, deck)
        if case["nparts"] > m.nc or not cli.ok(pr, case["kind"]):
            raise check.Skip()
        info = dict(nontrivial=case["nparts"] > 1, tags=[case["kind"], case["tool"], "refined%d" % case["refine"], deck["SweepType"], "parts%d" % case["nparts"]])
        r = run.run([B[case["tool"]]] + case["args"] + [s, os.path.join(d, "m.pmesh")], cwd=d, timeout=40)
        if r.rc != 0:
            return "%s fails on a valid mesh: %s" % (case["tool"], r.tail(300)), info
        with open(os.path.join(d, "in.deck"), "w") as f:
            f.write(cli.deck_text(dict(deck, maxCellsPerStep=tame(case, deck, m))))
        ex = {}
        Q = cli.make_source(case["source"], m, int(deck["snOrder"]), deck)
        hat = Q is None
        if not hat:
            Q.astype("<f8").tofile(os.path.join(d, "src.bin"))
            ex = dict(VT_SRC=os.path.join(d, "src.bin"), VT_MARK=os.path.join(d, "marked"))
        r = run.mpirun(case["nparts"], [B["sweep"], "m.pmesh", "in.deck"], threads=case["threads"], cwd=d, timeout=60, extra=ex)
        o = cli.Out(r, None, None, hat or os.path.exists(os.path.join(d, "marked")))
        p = os.path.join(d, deck["OutputFilename"])
        if os.path.exists(p):
            with open(p, "rb") as f:
                b = f.read()
            try:
                o.psi = cli.parse_psi(b, m.nc, 2 * int(deck["snOrder"]) ** 2, int(deck["nGroups"]))[1]
            except M.FormatError as e:
                o.psi_err = str(e)
        f = cli.run_failure(o)
        if f:
            return f, info
    if hat or not o.marked:
        t, sg = cli.sigma_cells(m, deck)
        Q = ref.hat_source(m, pr.om, t, sg, int(deck["nGroups"]))
        hat = True
    if not np.abs(Q).max() > 0:
        info["nontrivial"] = False
        return ("zero source gives non-zero flux" if np.abs(o.psi).max() > 0 else None), info
    if float(deck["sigmaS1"]) == 0 and float(deck["sigmaS2"]) == 0 and deck["SweepType"] in cli.SWEEPS:
        r = pr.residual(o.psi, Q, 1e-6 * float(np.abs(Q).max()) if hat else 0.0)
        return (None if r < 1e-9 else "the flux written does not satisfy the equations of the %s mesh: relative residual %.3e" %
                ("refined" if case["refine"] else "given", r)), info
    e = cli.reldiff(o.psi, pr.solve(Q))
    info["tags"].append("scattering")
    return (None if e < 1e-6 else "the flux written differs from the solution on the %s mesh by %.3e" % ("refined" if case["refine"] else "given", e)), info


def tame(case, deck, m):
    x = dict(deck)
    case["threads"] = cli.tame(x, m, case["nparts"], case["threads"])
    return x["maxCellsPerStep"]


def shrink(case):
    m = M.Mesh.from_json(case["mesh"])
    if case["refine"]:
        yield dict(case, refine=case["refine"] - 1)
    for k in (2, 4, 8):
        s = max(1, m.nc // k)
        for a in range(0, m.nc, s):
            keep = [c for c in range(m.nc) if not a <= c < a + s]
            if keep:
                yield dict(case, mesh=m.subset(keep).to_json())
    if case["nparts"] > 1:
        yield dict(case, nparts=1, args=["1"] * len(case["args"]))
        yield dict(case, nparts=2, args=["2"] if len(case["args"]) == 1 else ["2", "1"])
        yield dict(case, nparts=2, args=["2"] if len(case["args"]) == 1 else ["1", "2"])
    if case["threads"] > 1:
        yield dict(case, threads=1)
    d = case["deck"]
    if d["snOrder"] > 2:
        yield dict(case, deck=dict(d, snOrder=d["snOrder"] - 2))
    if d["nGroups"] > 1:
        yield dict(case, deck=dict(d, nGroups=1))


if __name__ == "__main__":
    check.main("C24", [check.Part("chain", gen, test, 300, shrink, prepare)],
               rule="a case is a serial mesh, 0 to 2 refinements, a partitioning tool with its arguments, a deck and a source; the files the tools write are given to the next "
                    "program and the flux file is compared with the reference solution on the last serial mesh, with the materials the first one has at the same place. Non-trivial: several processes and a non-zero source.")
