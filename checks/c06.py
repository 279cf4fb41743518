#!/usr/bin/env python3-vt
"""C06: the in-memory mesh represents the file's geometry and topology."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
from vt import build, check, cli, dump, mesh as M, ref, run

B = {}
EPS = 2.2e-16


def prepare():
    B["d"] = build.harness("meshdump")


def gen(rng, i):
    n = int(np.exp(rng.uniform(0, np.log(120))))
    m, kind = M.gen(rng, n)
    if rng.random() < .12:
        m, kind = cli.gen_parallel_mesh(rng, n)
    elif rng.random() < .4:                                   # other scales, positions and aspect ratios
        a = np.diag(10.0 ** rng.uniform(-3, 3, 3))
        m.nodes = m.nodes @ a
        if rng.random() < .5:
            m.nodes = m.nodes @ M.rot(rng.normal(size=3)).T if False else m.nodes
        m.nodes = m.nodes + rng.normal(size=3) * 10.0 ** rng.uniform(-2, 4)
        if len(np.unique(m.nodes, axis=0)) != len(m.nodes):
            return None
        kind += "+affine"
    elif rng.random() < .35:                                   # other units of length
        m.nodes = m.nodes * 10.0 ** rng.uniform(-10, 6)
        if len(np.unique(m.nodes, axis=0)) != len(m.nodes):
            return None
        kind += "+units"
    m.build_faces(rng)
    m = m.renumbered(rng)[0]
    m.mats = rng.integers(1, 3, m.nc)
    p = min(int(rng.choice([1, 2, 3, 4, 5])), m.nc)
    part, p = M.gen_partition(rng, m, p)
    if rng.random() < .15:
        p += 1
        s = rng.permutation(p)                              # one empty partition
        part = s[np.asarray(part)]
    return dict(mesh=m.to_json(), kind=kind, part=[int(x) for x in part], nparts=int(p), lseed=int(rng.integers(2 ** 31)),
                flip=bool(rng.random() < .4), sn=int(rng.choice([2, 2, 4])))


def geom(m):
    """Volumes, areas, normals in extended precision, with the rounding a double computation may incur."""
    X = m.nodes.astype(np.longdouble)[m.cells]
    e = [X[:, i] - X[:, 0] for i in (1, 2, 3)]
    cr = lambda a, b: np.stack([a[:, 1] * b[:, 2] - a[:, 2] * b[:, 1], a[:, 2] * b[:, 0] - a[:, 0] * b[:, 2],
                                a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]], 1)
    nn = lambda a: np.sqrt((a * a).sum(1))
    lm = np.max([nn(X[:, i] - X[:, j]) for i in range(4) for j in range(i)], axis=0)
    vol = np.abs((cr(e[0], e[1]) * e[2]).sum(1)) / 6
    tv = 40 * EPS * lm ** 3
    area = np.empty((m.nc, 4), np.longdouble)
    ta, tn = np.empty((m.nc, 4)), np.empty((m.nc, 4))
    nrm = np.empty((m.nc, 4, 3), np.longdouble)
    sure = np.empty((m.nc, 4), bool)
    for k in range(4):
        a, b, c = (X[:, v] for v in M.FACE_OF[k])
        n = cr(b - a, c - a)
        l = nn(n)
        area[:, k] = l / 2
        lf = np.max([nn(b - a), nn(c - a), nn(c - b)], axis=0)
        ta[:, k] = 40 * EPS * lf ** 2
        tn[:, k] = 80 * EPS * lf ** 2 / l
        n = n / l[:, None]
        h = ((X[:, k] - a) * n).sum(1)
        sure[:, k] = np.abs(h) > 1e3 * tn[:, k] * lm
        nrm[:, k] = -n * np.sign(h)[:, None]
    return vol, tv, area, ta, nrm, tn, sure


def test(case):
    m = M.Mesh.from_json(case["mesh"])
    P, part = case["nparts"], case["part"]
    info = dict(nontrivial=m.nc > 1, tags=[case["kind"], "parts%d" % P, "flip%d" % case["flip"]])
    with check.Workdir() as d:
        parts = M.split(m, part, P, np.random.default_rng(case["lseed"]), flip_nodes=case["flip"])
        M.write_pmesh(parts, os.path.join(d, "m"))
        r = run.mpirun(P, [B["d"], os.path.join(d, "m"), str(case["sn"]), os.path.join(d, "o")], cwd=d, timeout=45)
        if r.rc != 0:
            return "reading a valid mesh failed: " + r.tail(400), info
        D = [dump.read(os.path.join(d, "o.%d" % k)) for k in range(P)]
    return compare(m, part, P, D), info


def compare(m, part, P, D):
    topo = ref.Topo(m)
    vol, tv, area, ta, nrm, tn, sure = geom(m)
    gid = {}                                   # (partition, local cell) -> global cell
    for p in range(P):
        x = D[p]
        want = sorted(c for c in range(m.nc) if part[c] == p)
        if sorted(x["lgCell"].tolist()) != want or int(x["nCells"][0]) != len(want):
            return "process %d has cells %s, its partition has %s" % (p, x["lgCell"].tolist()[:20], want[:20])
        for i, g in enumerate(x["lgCell"]):
            gid[p, i] = int(g)
    local = {g: k for k, g in gid.items()}
    gface = {}
    for g in range(m.nc):
        for k in range(4):
            key = sorted(int(m.cells[g][v]) for v in M.FACE_OF[k])
            for f in m.cfaces[g]:
                if sorted(map(int, m.faces[f])) == key:
                    gface[g, k] = int(f)
    sideverts = {}
    for p in range(P):
        x = D[p]
        n, ns = int(x["nCells"][0]), int(x["nSides"][0])
        A = int(x["nAngles"][0])
        om = x["omega"].reshape(A, 3)
        co = x["coords"].reshape(n, 4, 3)
        f2c, c2f, nv = x["faceToCellVrtx"].reshape(n, 4, 3), x["cellToFaceVrtx"].reshape(n, 4, 4), x["neighborVrtx"].reshape(n, 4, 3)
        adjc, adjf, side, rank = (x[k].reshape(n, 4) for k in ("adjCell", "adjFace", "side", "adjRank"))
        odn, io = x["omegaDotN"].reshape(A, n, 4), x["inout"].reshape(A, n, 4)
        ar = x["area"].reshape(n, 4)
        seen = set()
        for i in range(n):
            g = gid[p, i]
            w = "process %d, cell %d (global %d)" % (p, i, g)
            if int(x["material"][i]) != int(m.mats[g]):
                return "%s: material %d, file has %d" % (w, x["material"][i], m.mats[g])
            # the vertex order of a cell is its own: a permutation of the file's
            if co[i].tobytes() != m.nodes[m.cells[g]].tobytes():
                return "%s: vertex coordinates differ from the file's" % w
            if abs(float(x["volume"][i]) - vol[g]) > tv[g]:
                return "%s: volume %.17g, is %.17g" % (w, x["volume"][i], vol[g])
            for k in range(4):
                wf = "%s, face %d" % (w, k)
                if abs(float(ar[i, k]) - area[g, k]) > ta[g, k]:
                    return "%s: area %.17g, is %.17g" % (wf, ar[i, k], area[g, k])
                dot = om @ nrm[g, k].astype(float)
                tol = tn[g, k] + 1e-14
                if sure[g, k]:
                    bad = np.abs(odn[:, i, k] - dot) > tol + 1e-11    # values that round to zero may be stored as zero
                    if bad.any():
                        a = int(np.nonzero(bad)[0][0])
                        return "%s, direction %d: omega.n is %.17g, reported %.17g" % (wf, a, dot[a], odn[a, i, k])
                    out, inc = (io[:, i, k] & 1) > 0, (io[:, i, k] & 2) > 0
                    t2 = tol + 1e-11
                    if (out != (odn[:, i, k] > 0)).any() or (out & inc).any() or (inc & (dot > t2)).any() or (~inc & (dot < -t2)).any():
                        return "%s: incoming and outgoing disagree with omega.n" % wf
                # vertices of the face
                vs = [int(v) for v in f2c[i, k]]
                if sorted(vs) != [int(v) for v in M.FACE_OF[k]]:
                    return "%s: face vertices %s are not those opposite vertex %d" % (wf, vs, k)
                if any(int(c2f[i, k, v]) != j for j, v in enumerate(vs)):
                    return "%s: cell-to-face and face-to-cell vertex maps disagree" % wf
                h = int(topo.nb[g, k])
                if h < 0:
                    want = (-1, -1)
                elif part[h] != p:
                    want = (-1, int(part[h]))
                else:
                    want = (local[h][1], p)
                if (int(adjc[i, k]), int(rank[i, k])) != want:
                    return "%s: neighbour (cell, process) %s, is %s" % (wf, (int(adjc[i, k]), int(rank[i, k])), want)
                if want[0] >= 0:
                    k2 = [int(q) for q in topo.nb[h]].index(g)
                    if int(adjf[i, k]) != k2:
                        return "%s: adjacent face %d, is %d" % (wf, adjf[i, k], k2)
                    if int(side[i, k]) != -1:
                        return "%s: interior face has side %d" % (wf, side[i, k])
                    wn = [int(topo.nbv[g, k, v]) for v in vs]
                    if [int(v) for v in nv[i, k]] != wn:
                        return "%s: neighbour's vertices %s, are %s" % (wf, nv[i, k].tolist(), wn)
                    j = want[0]
                    if [int(m.cells[h][v]) for v in f2c[j, k2]] != [int(m.cells[g][v]) for v in vs]:
                        return "%s: the two cells of the face order its vertices differently" % wf
                    if (odn[:, j, k2] != -odn[:, i, k]).any() and np.abs(odn[:, j, k2] + odn[:, i, k]).max() > 2 * tol:
                        return "%s: omega.n of the two sides are not opposite" % wf
                else:
                    s = int(side[i, k])
                    if not 0 <= s < ns or s in seen:
                        return "%s: side number %d of %d, missing or used twice" % (wf, s, ns)
                    seen.add(s)
                    if int(x["sideCell"][s]) != i:
                        return "%s: side %d belongs to cell %d" % (wf, s, x["sideCell"][s])
                    if int(x["lgSide"][s]) != gface[g, k] or int(x["glSide"][s]) != s:
                        return "%s: side %d has global number %d (back %d), face is %d" % (wf, s, x["lgSide"][s], x["glSide"][s], gface[g, k])
                    if h >= 0:
                        if (int(x["adjCellFromSide"][s]), int(x["adjFaceFromSide"][s])) != (local[h][1], [int(q) for q in topo.nb[h]].index(g)):
                            return "%s: side %d names cell %d, face %d beyond the boundary" % (wf, s, x["adjCellFromSide"][s], x["adjFaceFromSide"][s])
                        nodes = [int(m.cells[g][v]) for v in vs]
                        f = gface[g, k]
                        if f in sideverts and sideverts[f][0] != nodes:
                            return "%s: the two partitions order the vertices of the face differently" % wf
                        sideverts[f] = (nodes, odn[:, i, k])
        if len(seen) != ns:
            return "process %d: %d sides, %d boundary faces" % (p, ns, len(seen))
    return None


def shrink(case):
    m = M.Mesh.from_json(case["mesh"])
    if case["flip"]:
        yield dict(case, flip=False)
    size = m.nc // 2
    while size >= 1:
        for a in range(0, m.nc, size):
            keep = [c for c in range(m.nc) if not (a <= c < a + size)]
            if keep:
                yield dict(case, mesh=m.subset(keep).to_json(), part=[case["part"][c] for c in keep])
        size //= 2
    for p in range(case["nparts"] - 1, 0, -1):
        yield dict(case, nparts=case["nparts"] - 1, part=[x - (x >= p) for x in case["part"]])


if __name__ == "__main__":
    check.main("C06", [check.Part("mesh", gen, test, 450, shrink, prepare, thorough=20000)],
               rule="random valid meshes (single cells to 120 cells, several families, affine distortions), numberings and partition vectors, also with "
                    "an empty partition and unrelated node orders on the two sides of a partition boundary; all getters on all processes are compared with "
                    "values computed from the serial mesh (geometry in extended precision, bounds from the number of roundings). Non-trivial: more than one cell.")
