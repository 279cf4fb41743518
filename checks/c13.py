#!/usr/bin/env python3-vt
"""C13: the partitioning tools produce balanced partitions of the stated shape."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from vt import build, check, mesh as M, run
from c12 import check_parts

B = {}


def prep(name):
    def f():
        B[name] = build.util(name)
    return f


def gen_mesh(rng, lo, hi):
    n = int(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    m, kind = M.gen(rng, n)
    if rng.random() < .3:                                    # negative and large coordinates
        m.nodes = m.nodes * 10.0 ** rng.uniform(-3, 3) - rng.uniform(-1, 1, 3) * 10.0 ** rng.uniform(0, 3)
        if len(np.unique(m.nodes, axis=0)) != len(m.nodes):
            return None, None
    m.build_faces(rng)
    m = m.renumbered(rng)[0]
    m.mats = rng.integers(1, 3, m.nc)
    return m, kind


def tool(case, m, args):
    """(partitions, result) or a complaint."""
    with check.Workdir() as d:
        s, o = os.path.join(d, "in.smesh"), os.path.join(d, "out.pmesh")
        M.write_smesh(m, s)
        if case.get("old"):
            with open(o, "wb") as f:
                f.write(b"x" * 100000)
        r = run.run([args[0]] + args[1:] + [s, o], cwd=d, timeout=45)
        if r.rc != 0:
            return None, "the tool failed: " + r.tail(400)
        try:
            with open(o, "rb") as f:
                return (M.parse_pmesh(f.read()), r), None
        except (OSError, M.FormatError) as e:
            return None, "no valid partitioned mesh was written: %s" % e


def gen_columns(rng, i):
    m, kind = gen_mesh(rng, 1, 400)
    if m is None or m.nc < 1:
        return None
    k = rng.integers(5)
    if k == 0:
        nx, ny = 1, int(rng.integers(1, m.nc + 1))
    elif k == 1:
        nx, ny = int(rng.integers(1, m.nc + 1)), 1
    else:
        nx = int(np.exp(rng.uniform(0, np.log(m.nc + .5))))
        ny = int(np.exp(rng.uniform(0, np.log(max(1, m.nc // nx) + .5))))
    return dict(mesh=m.to_json(), kind=kind, nx=max(1, nx), ny=max(1, min(ny, m.nc // max(1, nx))), old=bool(rng.random() < .3))


def test_columns(case):
    m = M.Mesh.from_json(case["mesh"])
    nx, ny = case["nx"], case["ny"]
    if nx * ny > m.nc:
        raise check.Skip()
    info = dict(nontrivial=nx > 1 and ny > 1, tags=[case["kind"], "uneven" if m.nc % (nx * ny) else "even"])
    t, f = tool(case, m, [B["PartitionColumns"], str(nx), str(ny)])
    if f:
        return f, info
    parts, r = t
    f = check_parts(parts, m, None, nx * ny)
    if f:
        return "the file written does not describe the mesh: " + f, info
    own = [[int(c[8]) for c in P.cells] for P in parts]
    printed = {(int(a), int(b)): int(c) for a, b, c in re.findall(r"partition \((\d+),(\d+)\) = (\d+)", r.out)}
    for i in range(nx):
        for j in range(ny):
            n = len(own[i * ny + j])
            if (i, j) not in printed and i * ny + j < 100:
                return "the number of cells of partition (%d,%d) is not printed" % (i, j), info
            if printed.get((i, j), n) != n:
                return "partition (%d,%d) has %d cells, %d were printed" % (i, j, n, printed[i, j]), info
    cen = m.nodes[m.cells].mean(1)
    tol = 1e-12 * np.abs(m.nodes).max()
    slab = [sum(own[i * ny:(i + 1) * ny], []) for i in range(nx)]
    n = [len(s) for s in slab]
    if max(n) - min(n) > 1:
        return "slabs have %s cells" % n, info
    for i in range(nx - 1):
        if cen[slab[i], 0].max() > cen[slab[i + 1], 0].min() + tol:
            return "slab %d reaches x = %.17g, slab %d starts at %.17g" % (i, cen[slab[i], 0].max(), i + 1, cen[slab[i + 1], 0].min()), info
    for i in range(nx):
        o = own[i * ny:(i + 1) * ny]
        n = [len(s) for s in o]
        if max(n) - min(n) > 1:
            return "the partitions of slab %d have %s cells" % (i, n), info
        o = [(j, s) for j, s in enumerate(o) if s]
        for (j, s), (j2, s2) in zip(o, o[1:]):
            if cen[s, 1].max() > cen[s2, 1].min() + tol:
                return "partition (%d,%d) reaches y = %.17g, (%d,%d) starts at %.17g" % (i, j, cen[s, 1].max(), i, j2, cen[s2, 1].min()), info
    return None, info


def gen_metis(rng, i):
    m, kind = gen_mesh(rng, 1, 500) if rng.random() < .5 else gen_mesh(rng, 60, 900)
    if m is None or m.nc < 1:
        return None
    n = int(rng.choice([1, 2, 3, 4, 5, 8, 13, 30]))
    return dict(mesh=m.to_json(), kind=kind, n=max(1, min(n, m.nc)), old=bool(rng.random() < .3))


def test_metis(case):
    m = M.Mesh.from_json(case["mesh"])
    n = case["n"]
    if n > m.nc:
        raise check.Skip()
    info = dict(nontrivial=n > 1, tags=[case["kind"], "parts%d" % n])
    t, f = tool(case, m, [B["PartitionMetis"], str(n)])
    if f:
        return f, info
    parts, r = t
    f = check_parts(parts, m, None, n)
    if f:
        return "the file written does not describe the mesh: " + f, info
    size = [len(P.cells) for P in parts]
    own = np.empty(m.nc, int)
    for p, P in enumerate(parts):
        own[[int(c[8]) for c in P.cells]] = p
    inner = np.asarray([(int(a), int(b)) for a, b in m.fcells if min(a, b) >= 0]).reshape(-1, 2)
    cut = (own[inner[:, 0]] != own[inner[:, 1]]).mean() if len(inner) else 0
    if m.nc >= 20 * n:
        if max(size) > 1.5 * m.nc / n:
            return "the largest of %d partitions has %d of %d cells" % (n, max(size), m.nc), info
        if n > 1 and m.nc >= 100 and cut > .9 * (1 - 1 / n):
            return "the %d partitions cut %.0f%% of the interior faces, arbitrary ones would cut %.0f%%" % (n, 100 * cut, 100 * (1 - 1 / n)), info
    return None, info


def shrink(case):
    m = M.Mesh.from_json(case["mesh"])
    size = m.nc // 2
    while size >= 1:
        for a in range(0, m.nc, size):
            keep = [c for c in range(m.nc) if not (a <= c < a + size)]
            if keep:
                yield dict(case, mesh=m.subset(keep).to_json())
        size //= 2
    for k in ("nx", "ny", "n"):
        if case.get(k, 1) > 1:
            yield dict(case, **{k: case[k] - 1})


if __name__ == "__main__":
    check.main("C13", [check.Part("columns", gen_columns, test_columns, 900, shrink, prep("PartitionColumns"), weight=2),
                       check.Part("metis", gen_metis, test_metis, 500, shrink, prep("PartitionMetis"))],
               rule="random meshes (up to 500 cells, several families, scales and positions, arbitrary numbering) and partition counts up to the number of cells; the file "
                    "each tool writes is parsed, compared record by record with the serial mesh, and judged by the specification of the tool. Non-trivial: a grid of "
                    "several slabs and runs; more than one partition.")
