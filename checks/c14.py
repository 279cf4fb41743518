#!/usr/bin/env python3-vt
"""C14: mesh refinement splits every cell into eight and stays conforming."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
from vt import build, check, mesh as M, run

B = {}
EPS = 2.3e-16
EDGES = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
OPP = [(0, 5), (1, 4), (2, 3)]                          # midpoints of opposite edges


def prepare():
    B["r"] = build.util("RefineSerialMesh")


def gen(rng, i):
    again = int(rng.choice([1, 1, 1, 2, 3]))
    n = int(np.exp(rng.uniform(0, np.log({1: 1500 if rng.random() < .1 else 250, 2: 40, 3: 6}[again]))))
    if rng.random() < .2:
        # a rotated grid: many coordinates that are equal up to rounding
        b = max(1.0, n / 6.0) ** (1 / 3.)
        P, T = M._kuhn(*[max(1, int(round(b * rng.uniform(.6, 1.5)))) for _ in range(3)])
        ang = rng.uniform(0, 6.28, 3) * (rng.random(3) < .5)
        m, kind = M.Mesh((P * 10.0 ** rng.uniform(-2, 2) + rng.normal(size=3) * 10.0 ** rng.uniform(-2, 3)) @ M.rot(ang).T, T), "kuhn_rot"
    else:
        m, kind = M.gen(rng, n)
    if m.nc < 1:
        return None
    if rng.random() < .5:                                    # scale, aspect ratio and position
        a = 10.0 ** rng.uniform(-3, 3, 3) if rng.random() < .5 else 10.0 ** rng.uniform(-6, 6)
        m.nodes = (m.nodes - m.nodes.mean(0)) * a
        if rng.random() < .6:
            m.nodes = m.nodes + rng.normal(size=3) * np.ptp(m.nodes, axis=0).max() * 10.0 ** rng.uniform(-1, 3)
        kind += "+affine"
    m.build_faces(rng)
    m = m.renumbered(rng)[0]
    X = m.nodes
    if len(np.unique(X, axis=0)) != len(X) or not sound(m):
        return None
    m.mats = rng.integers(1, 3, m.nc) if rng.random() < .7 else rng.integers(0, 2 ** 40, m.nc)
    return dict(mesh=m.to_json(), kind=kind, again=again, old=bool(rng.random() < .3))


def sound(m):
    """Volumes and distances are far above the rounding of the coordinates."""
    u = EPS * np.abs(m.nodes).max()
    vol = m.geometry()[0]
    X = m.nodes[m.cells]
    l = np.array([np.linalg.norm(X[:, i] - X[:, j], axis=1) for i, j in EDGES])
    return (vol / l.max(0) ** 2).min() > 1e4 * u and l.min() > 1e-9 * np.ptp(m.nodes, axis=0).max()


def compare(m, r):
    """r must be the refinement of m; None or a complaint."""
    C = m.nc
    if r.nc != 8 * C:
        return "%d cells were refined to %d" % (C, r.nc)
    bad = M.check_conforming(r)
    if bad:
        return "the refined mesh is not conforming: " + "; ".join(bad)
    u = 4 * EPS * np.abs(m.nodes).max()
    used = np.unique(m.cells)
    mid = {}
    for c in m.cells:
        for i, j in EDGES:
            mid.setdefault((min(c[i], c[j]), max(c[i], c[j])), None)
    exact = {}
    pts = [m.nodes[n] for n in used] + [.5 * (m.nodes[a] + m.nodes[b]) for a, b in mid]
    names = [("node", int(n)) for n in used] + [("mid", int(a), int(b)) for a, b in mid]
    if len(r.nodes) != len(pts):
        return "the refined mesh has %d nodes, there are %d nodes and edge midpoints" % (len(r.nodes), len(pts))
    from scipy.spatial import cKDTree
    dist, idx = cKDTree(np.array(pts)).query(r.nodes, p=np.inf)
    if (dist > u).any():
        n = int(np.argmax(dist))
        return "refined node %d at %s is neither a node nor an edge midpoint (nearest: %.3g away)" % (n, r.nodes[n].tolist(), dist[n])
    if len(set(idx.tolist())) != len(pts):
        return "a node or edge midpoint is present twice, another is missing"
    name = [names[k] for k in idx]
    vol0, vol1 = m.geometry()[0], r.geometry()[0]
    for c in range(C):
        v = [int(x) for x in m.cells[c]]
        own = {("node", x) for x in v} | {("mid", min(v[i], v[j]), max(v[i], v[j])) for i, j in EDGES}
        X = m.nodes[v]
        L = max(np.linalg.norm(X[i] - X[j]) for i, j in EDGES)
        kids = [frozenset(name[int(x)] for x in r.cells[8 * c + k]) for k in range(8)]
        for k in range(8):
            w = "cell %d, part %d" % (c, k)
            if int(r.mats[8 * c + k]) != int(m.mats[c]):
                return "%s: material %d, cell has %d" % (w, r.mats[8 * c + k], m.mats[c])
            if not kids[k] <= own:
                return "%s: its nodes are not nodes and midpoints of the cell" % w
            if abs(vol1[8 * c + k] - vol0[c] / 8) > 1e-9 * vol0[c] + 20 * u * L ** 2:
                return "%s: volume %.17g, one eighth of the cell is %.17g" % (w, vol1[8 * c + k], vol0[c] / 8)
        if len(set(kids)) != 8:
            return "cell %d: two of its parts are the same" % c
        em = [("mid", min(v[i], v[j]), max(v[i], v[j])) for i, j in EDGES]
        corner = [k for k in kids if any(x[0] == "node" for x in k)]
        if sorted(sorted(x[1] for x in k if x[0] == "node") for k in corner) != sorted([x] for x in v):
            return "cell %d: its parts do not contain each of its corners once" % c
        inner = [k for k in kids if k not in corner]
        diag = [(em[a], em[b]) for a, b in OPP]
        P = [.5 * (X[i] + X[j]) for i, j in EDGES]
        ln = [np.linalg.norm(P[a] - P[b]) for a, b in OPP]
        cut = [q for q, (a, b) in enumerate(diag) if all(a in k and b in k for k in inner)]
        if len(cut) != 1:
            return "cell %d: the four inner parts do not share one diagonal" % c
        if ln[cut[0]] > min(ln) + 1e-12 * L + 4 * u:
            return "cell %d: cut along a diagonal of length %.17g, the shortest is %.17g" % (c, ln[cut[0]], min(ln))
    # boundary
    bf = {}
    for f in range(len(m.faces)):
        if min(m.fcells[f]) < 0:
            v = [int(x) for x in m.faces[f]]
            bf[f] = {("node", x) for x in v} | {("mid", min(a, b), max(a, b)) for a in v for b in v if a != b}
    where = {}
    for f, s in bf.items():
        for x in s:
            where.setdefault(x, set()).add(f)
    cnt = {f: 0 for f in bf}
    for f in range(len(r.faces)):
        if min(r.fcells[f]) < 0:
            s = [name[int(x)] for x in r.faces[f]]
            on = set.intersection(*[where.get(x, set()) for x in s])
            if len(on) != 1:
                return "refined boundary face %d is not part of a boundary face" % f
            cnt[on.pop()] += 1
    for f, n in cnt.items():
        if n != 4:
            return "boundary face %d is refined into %d boundary faces" % (f, n)
    return None


def printed(out, m, fine):
    """The numbers of cells, nodes and faces the tool prints for both meshes."""
    got = [[int(x) for x in g] for g in re.findall(r"Cells:\s*(\d+)\D+?Nodes:\s*(\d+)\D+?Faces:\s*(\d+)\s+Exterior Faces:\s*(\d+)\s+Interior Faces:\s*(\d+)", out)]
    want = []
    for x in (m, fine):
        e = int((x.fcells.min(axis=1) < 0).sum())
        want.append([x.nc, len(x.nodes), len(x.faces), e, len(x.faces) - e])
    if got != want:
        return "prints cells, nodes, faces, exterior and interior faces %s, the meshes have %s" % (got, want)


def test(case):
    m = M.Mesh.from_json(case["mesh"])
    info = dict(nontrivial=m.nc > 1, tags=[case["kind"], "times%d" % case["again"]])
    if not sound(m):
        raise check.Skip()
    with check.Workdir() as d:
        p = os.path.join(d, "r0")
        M.write_smesh(m, p)
        for k in range(case["again"]):
            q = os.path.join(d, "r%d" % (k + 1))
            if case["old"]:
                with open(q, "wb") as f:
                    f.write(b"y" * 3000000)
            r = run.run([B["r"], p, q], cwd=d, timeout=45)
            if r.rc != 0:
                return "refinement %d failed: %s" % (k + 1, r.tail(400)), info
            try:
                fine = M.read_smesh(q)
            except (OSError, M.FormatError) as e:
                return "refinement %d wrote no valid mesh file: %s" % (k + 1, e), info
            f = compare(m, fine) or printed(r.out, m, fine)
            if f:
                return "refinement %d: %s" % (k + 1, f), info
            m, p = fine, q
    return None, info


def shrink(case):
    m = M.Mesh.from_json(case["mesh"])
    if case["again"] > 1:
        yield dict(case, again=case["again"] - 1)
    size = m.nc // 2
    while size >= 1:
        for a in range(0, m.nc, size):
            keep = [c for c in range(m.nc) if not (a <= c < a + size)]
            if keep:
                yield dict(case, mesh=m.subset(keep).to_json())
        size //= 2


if __name__ == "__main__":
    check.main("C14", [check.Part("refine", gen, test, 2500, shrink, prepare, thorough=25000)],
               rule="random valid meshes (one to 1500 cells, several families, scales, aspect ratios, positions, arbitrary numbering and materials), refined one to three "
                    "times by the tool; every cell, face and node of the result is compared with the specification. Non-trivial: more than one cell.")
