"""Tetrahedral meshes: generation, validation, renumbering and the file formats (written from the
format descriptions in the documentation, not with the repository's code)."""
import struct
import numpy as np

INV = 2 ** 64 - 1
FACE_OF = np.array([[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]])   # face k is opposite vertex k


class Mesh:
    """nodes (N,3) float; cells (C,4) node ids; mats (C,) 1|2; faces (F,3) node ids;
    fcells (F,2) cell ids (second -1: boundary); cfaces (C,4) face ids (any order)."""

    def __init__(self, nodes, cells, mats=None, rng=None, faces=None, fcells=None, cfaces=None):
        self.nodes = np.asarray(nodes, float).reshape(-1, 3)
        self.cells = np.asarray(cells, np.int64).reshape(-1, 4)
        self.mats = (np.ones(len(self.cells), np.int64) if mats is None else np.asarray(mats, np.int64))
        if faces is None:
            self.build_faces(rng)
        else:
            self.faces, self.fcells, self.cfaces = (np.asarray(x, np.int64) for x in (faces, fcells, cfaces))

    @property
    def nc(self):
        return len(self.cells)

    def build_faces(self, rng=None):
        """Face records.  Without rng: in order of first occurrence, face k of a cell opposite
        vertex k.  With rng: random face numbering, node order, cell order and local face order."""
        fid, faces, fcells = {}, [], []
        cfaces = np.zeros((self.nc, 4), np.int64)
        for c in range(self.nc):
            for k in range(4):
                nd = [int(self.cells[c][v]) for v in FACE_OF[k]]
                key = tuple(sorted(nd))
                if key in fid:
                    f = fid[key]
                    assert fcells[f][1] == -1, "face shared by three cells"
                    fcells[f][1] = c
                else:
                    f = fid[key] = len(faces)
                    faces.append(nd)
                    fcells.append([c, -1])
                cfaces[c, k] = f
        self.faces = np.array(faces, np.int64)
        self.fcells = np.array(fcells, np.int64)
        self.cfaces = cfaces
        if rng is not None:
            F = len(faces)
            perm = rng.permutation(F)            # new index of old face
            nf, nfc = np.empty_like(self.faces), np.empty_like(self.fcells)
            first = rng.random() < 0.3           # boundary faces may list the missing cell first
            for f in range(F):
                nd = self.faces[f][rng.permutation(3)]
                cc = self.fcells[f]
                if (cc[1] >= 0 or first) and rng.random() < 0.5:
                    cc = cc[::-1]
                nf[perm[f]], nfc[perm[f]] = nd, cc
            self.faces, self.fcells = nf, nfc
            self.cfaces = np.array([perm[row][rng.permutation(4)] for row in self.cfaces])
        return self

    def renumbered(self, rng, faces=True):
        """Random renumbering of cells, nodes, local vertices (and faces).  Returns mesh and the
        permutation cellnew[old], and vertex maps vnew[oldcell][newlocal] = oldlocal."""
        N, C = len(self.nodes), self.nc
        pn, pc = rng.permutation(N), rng.permutation(C)
        nodes = np.empty_like(self.nodes)
        nodes[pn] = self.nodes
        cells, mats = np.empty_like(self.cells), np.empty_like(self.mats)
        vmap = np.array([rng.permutation(4) for _ in range(C)])
        for c in range(C):
            cells[pc[c]] = pn[self.cells[c][vmap[c]]]
            mats[pc[c]] = self.mats[c]
        return Mesh(nodes, cells, mats, rng if faces else None), pc, vmap

    # ---- geometry (own formulas) -------------------------------------------------------
    def geometry(self):
        """volumes (C,), areas (C,4), outward unit normals (C,4,3)."""
        X = self.nodes[self.cells]
        vol = np.abs(np.einsum("ci,ci->c", X[:, 3] - X[:, 0], np.cross(X[:, 1] - X[:, 0], X[:, 2] - X[:, 0]))) / 6.0
        area = np.empty((self.nc, 4))
        nrm = np.empty((self.nc, 4, 3))
        for k in range(4):
            a, b, c = (X[:, v] for v in FACE_OF[k])
            n = np.cross(b - a, c - a)
            l = np.linalg.norm(n, axis=1)
            n = n / l[:, None]
            s = np.sign(np.einsum("ci,ci->c", n, X[:, k] - a))
            nrm[:, k] = -n * s[:, None]
            area[:, k] = 0.5 * l
        return vol, area, nrm

    def quality(self):
        """min over cells of 6V*sqrt(2)/lmax^3 style shape measure."""
        X = self.nodes[self.cells]
        vol, _, _ = self.geometry()
        l = np.max([np.linalg.norm(X[:, i] - X[:, j], axis=1) for i in range(4) for j in range(i)], axis=0)
        return vol * 6 * np.sqrt(2) / l ** 3

    def neighbours(self):
        """(C,4) neighbour cell opposite vertex k or -1."""
        nb = -np.ones((self.nc, 4), np.int64)
        d = {}
        for c in range(self.nc):
            for k in range(4):
                key = tuple(sorted(int(self.cells[c][v]) for v in FACE_OF[k]))
                if key in d:
                    c2, k2 = d[key]
                    nb[c, k], nb[c2, k2] = c2, c
                else:
                    d[key] = (c, k)
        return nb

    def to_json(self):
        return dict(nodes=[[x.hex() for x in map(float, r)] for r in self.nodes], cells=self.cells.tolist(), mats=self.mats.tolist(),
                    faces=self.faces.tolist(), fcells=self.fcells.tolist(), cfaces=self.cfaces.tolist())

    @staticmethod
    def from_json(d):
        return Mesh([[float.fromhex(x) for x in r] for r in d["nodes"]], d["cells"], d["mats"], None, d["faces"], d["fcells"], d["cfaces"])

    def subset(self, keep, rng=None):
        """Mesh of the cells in keep (list), unused nodes removed."""
        keep = np.asarray(keep, np.int64)
        used = np.unique(self.cells[keep])
        m = {int(n): i for i, n in enumerate(used)}
        return Mesh(self.nodes[used], [[m[int(n)] for n in self.cells[c]] for c in keep], self.mats[keep], rng)


# ---------------------------------------------------------------- file formats
SNAME = b"Tycho 2 Serial Mesh".ljust(32, b"\0")
PNAME = b"Tycho 2 Parallel Mesh".ljust(32, b"\0")
PSINAME = b"Tycho 2 Psi Output".ljust(32, b"\0")


def _u(a):
    a = np.asarray(a)
    return np.where(a < 0, INV, a).astype("<u8") if a.dtype.kind == "i" else a.astype("<u8")


def _uint(a):
    b = np.empty(np.shape(a), "<u8")
    a = np.asarray(a, np.int64)
    b[...] = a.astype("<u8")
    b[a < 0] = INV
    return b


def smesh_bytes(m, name=SNAME, version=2):
    cells = np.concatenate([m.cfaces, m.cells, m.mats[:, None]], axis=1)
    faces = np.concatenate([m.fcells, m.faces], axis=1)
    return (name + struct.pack("<4Q", version, m.nc, len(m.faces), len(m.nodes)) +
            _uint(cells).tobytes() + _uint(faces).tobytes() + m.nodes.astype("<f8").tobytes())


def write_smesh(m, path):
    with open(path, "wb") as f:
        f.write(smesh_bytes(m))


class FormatError(Exception):
    pass


def parse_smesh(b):
    if len(b) < 64 or b[:32] != SNAME:
        raise FormatError("header")
    v, nc, nf, nn = struct.unpack("<4Q", b[32:64])
    if v != 2 or len(b) != 64 + 8 * (9 * nc + 5 * nf + 3 * nn):
        raise FormatError("version or size: v=%d cells=%d faces=%d nodes=%d bytes=%d" % (v, nc, nf, nn, len(b)))
    u = np.frombuffer(b, "<u8", 9 * nc + 5 * nf, 64)
    cells = u[:9 * nc].reshape(nc, 9).astype(np.int64)
    faces = u[9 * nc:].reshape(nf, 5).view("<i8").astype(np.int64)
    nodes = np.frombuffer(b, "<f8", 3 * nn, 64 + 8 * (9 * nc + 5 * nf)).reshape(nn, 3).copy()
    return Mesh(nodes, cells[:, 4:8], cells[:, 8], None, faces[:, 2:5], faces[:, :2], cells[:, :4])


def read_smesh(path):
    with open(path, "rb") as f:
        return parse_smesh(f.read())


class Part:
    """One partition: cells (n,10) = 4 faces, 4 nodes, globalID, material; faces (f,9) = 2 cells,
    3 nodes, globalID, 2 partitions, boundary type; node coords and global ids."""

    def __init__(self, cells, faces, coords, ngid):
        self.cells, self.faces = np.asarray(cells, np.int64).reshape(-1, 10), np.asarray(faces, np.int64).reshape(-1, 9)
        self.coords, self.ngid = np.asarray(coords, float).reshape(-1, 3), np.asarray(ngid, np.int64)

    def tobytes(self):
        nn = np.empty((len(self.coords), 4), "<u8")
        nn[:, :3] = np.ascontiguousarray(self.coords, "<f8").view("<u8")
        nn[:, 3] = _uint(self.ngid)
        return (struct.pack("<3Q", len(self.cells), len(self.faces), len(self.coords)) +
                _uint(self.cells).tobytes() + _uint(self.faces).tobytes() + nn.tobytes())


def split(m, part, nparts, rng=None, flip_nodes=False):
    """Partition data for a serial mesh, from the format's definition.  With rng the local numbering
    of cells, faces and nodes inside each partition is random.  flip_nodes additionally stores the
    nodes of a partition-boundary face in an unrelated order in the two partitions."""
    part = np.asarray(part)
    out = []
    allcs, local = [], {}
    for p in range(nparts):
        cs = [int(c) for c in range(m.nc) if part[c] == p]
        if rng is not None:
            cs = [cs[i] for i in rng.permutation(len(cs))]
        allcs.append(cs)
        local.update({c: i for i, c in enumerate(cs)})
    for p in range(nparts):
        cs = allcs[p]
        fs, ns, seenf, seenn = [], [], {}, {}
        for c in cs:
            for f in m.cfaces[c]:
                if int(f) not in seenf:
                    seenf[int(f)] = len(fs)
                    fs.append(int(f))
            for n in m.cells[c]:
                if int(n) not in seenn:
                    seenn[int(n)] = len(ns)
                    ns.append(int(n))
        if rng is not None:
            fs = [fs[i] for i in rng.permutation(len(fs))]
            ns = [ns[i] for i in rng.permutation(len(ns))]
        cl, fl, nl = ({g: i for i, g in enumerate(x)} for x in (cs, fs, ns))
        cells = [[fl[int(f)] for f in m.cfaces[c]] + [nl[int(n)] for n in m.cells[c]] + [c, int(m.mats[c])] for c in cs]
        faces = []
        for f in fs:
            c0, c1 = (int(x) for x in m.fcells[f])
            nd = [nl[int(n)] for n in m.faces[f]]
            if min(c0, c1) < 0:
                row, bt, pp = [cl[x] if x >= 0 else -1 for x in (c0, c1)], 0, [int(part[x]) if x >= 0 else -1 for x in (c0, c1)]
            elif part[c0] == part[c1]:
                row, bt, pp = [cl[c0], cl[c1]], 2, [p, p]
            else:
                row, bt, pp = [local[c0], local[c1]], 1, [int(part[c0]), int(part[c1])]
                if flip_nodes and rng is not None:
                    nd = [nd[i] for i in rng.permutation(3)]
            faces.append(row + nd + [f] + pp + [bt])
        out.append(Part(cells, faces, m.nodes[ns] if ns else np.zeros((0, 3)), ns))
    return out


def pmesh_bytes(parts, name=PNAME, version=2):
    blobs = [p.tobytes() for p in parts]
    off = [32 + 8 * (2 + len(parts) + 1)]
    for b in blobs:
        off.append(off[-1] + len(b))
    return name + struct.pack("<2Q", version, len(parts)) + np.array(off, "<u8").tobytes() + b"".join(blobs)


def write_pmesh(parts, path):
    with open(path, "wb") as f:
        f.write(pmesh_bytes(parts))


def parse_pmesh(b):
    if len(b) < 48 or b[:32] != PNAME:
        raise FormatError("header")
    v, n = struct.unpack("<2Q", b[32:48])
    if v != 2 or n > 10 ** 6:
        raise FormatError("version")
    off = np.frombuffer(b, "<u8", n + 1, 48).astype(np.int64)
    parts, pos = [], 48 + 8 * (n + 1)
    for p in range(n):
        if off[p] != pos:
            raise FormatError("offset of partition %d is %d, data at %d" % (p, off[p], pos))
        nc, nf, nn = struct.unpack("<3Q", b[pos:pos + 24])
        pos += 24
        if pos + 8 * (10 * nc + 9 * nf + 4 * nn) > len(b):
            raise FormatError("partition %d too short" % p)
        cells = np.frombuffer(b, "<i8", 10 * nc, pos).reshape(nc, 10)
        pos += 80 * nc
        faces = np.frombuffer(b, "<i8", 9 * nf, pos).reshape(nf, 9)
        pos += 72 * nf
        raw = np.frombuffer(b, "<u8", 4 * nn, pos).reshape(nn, 4)
        pos += 32 * nn
        parts.append(Part(cells.copy(), faces.copy(), raw[:, :3].copy().view("<f8"), raw[:, 3].astype(np.int64)))
    if off[n] != pos or len(b) != pos:
        raise FormatError("end offset %d, data ends at %d, file has %d bytes" % (off[n], pos, len(b)))
    return parts


def parse_psi(b):
    """Returns array psi[cell, angle, vertex, group]."""
    if b[:32] != PSINAME:
        raise FormatError("psi name %r" % b[:32])
    v, nc, na, ng = struct.unpack("<4Q", b[32:64])
    if v != 1:
        raise FormatError("psi version %d" % v)
    if len(b) != 64 + 8 * nc * na * ng * 4:
        raise FormatError("psi size %d for %d cells %d angles %d groups" % (len(b), nc, na, ng))
    return np.frombuffer(b, "<f8", nc * na * ng * 4, 64).reshape(nc, na, 4, ng)


def check_conforming(m, eps=1e-12):
    """Structural validity of a mesh read from a file; returns a list of complaints."""
    bad = []
    C, F, N = m.nc, len(m.faces), len(m.nodes)
    if ((m.cells < 0) | (m.cells >= N)).any() or ((m.cfaces < 0) | (m.cfaces >= F)).any() or ((m.faces < 0) | (m.faces >= N)).any():
        return ["index out of range"]
    if (m.fcells.max(axis=1, initial=-1) < 0).any() or (m.fcells >= C).any():
        return ["face cell index out of range"]
    seen = {}
    for c in range(C):
        if len(set(m.cells[c])) != 4 or len(set(m.cfaces[c])) != 4:
            bad.append("cell %d repeats a node or face" % c)
            continue
        want = sorted(tuple(sorted(int(m.cells[c][v]) for v in FACE_OF[k])) for k in range(4))
        got = sorted(tuple(sorted(int(n) for n in m.faces[f])) for f in m.cfaces[c])
        if want != got:
            bad.append("cell %d: its faces are not the faces of its nodes" % c)
        for f in m.cfaces[c]:
            seen.setdefault(int(f), []).append(c)
    for f in range(F):
        cc = sorted(int(x) for x in m.fcells[f] if x >= 0)
        if sorted(seen.get(f, [])) != cc:
            bad.append("face %d lists cells %s, used by %s" % (f, cc, seen.get(f)))
    keys = [tuple(sorted(map(int, f))) for f in m.faces]
    if len(set(keys)) != F:
        bad.append("duplicate faces")
    return bad[:5]


# ---------------------------------------------------------------- generators
def _kuhn(nx, ny, nz):
    nid = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k
    nodes = [[i, j, k] for i in range(nx + 1) for j in range(ny + 1) for k in range(nz + 1)]
    cells = []
    perms = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                for p in perms:
                    a = [i, j, k]
                    t = [nid(*a)]
                    for ax in p:
                        a[ax] += 1
                        t.append(nid(*a))
                    cells.append(t)
    return np.array(nodes, float), np.array(cells)


def gen(rng, ncells=60, kind=None, centre=(50.0, 50.0, 50.0), scale=60.0):
    """A random valid mesh with roughly ncells cells, positioned around `centre` with extent `scale`.
    Returns (mesh with canonical face order, description)."""
    kinds = ["delaunay", "delaunay", "delaunay", "holes", "kuhn_jit", "kuhn_stretch", "grid", "slab", "flat", "fan", "islands", "single"]
    kind = kind or kinds[rng.integers(len(kinds))]
    for attempt in range(50):
        try:
            m = _gen_kind(rng, kind, ncells)
        except ImportError:
            raise
        except Exception:
            m = None
        if m is None or m.nc < 1:
            continue
        lo, hi = m.nodes.min(0), m.nodes.max(0)
        ext = float(np.max(hi - lo)) or 1.0
        m.nodes = (m.nodes - (lo + hi) / 2) * (scale / ext) + np.asarray(centre) + rng.uniform(-.05, .05, 3) * scale
        q = m.quality()
        qmin = 1e-3 if kind in ("flat", "kuhn_stretch", "grid", "slab", "fan") else 4e-3
        if q.min() < qmin:
            m = m.subset(np.nonzero(q >= qmin)[0])
            if m.nc < max(1, ncells // 4):
                continue
        m.mats = rng.integers(1, 3, m.nc)
        if rng.random() < 0.15:
            m.mats[:] = rng.integers(1, 3)
        return m, kind
    raise RuntimeError("mesh generation failed for %s" % kind)


def _gen_kind(rng, kind, ncells):
    from scipy.spatial import Delaunay
    if kind in ("delaunay", "holes", "flat"):
        want = ncells * (1.7 if kind == "holes" else 1)
        npts = max(5, int(want / 5.0 + 4))
        P = rng.random((npts, 3))
        if rng.random() < 0.5:
            corners = np.array([[i, j, k] for i in (0, 1) for j in (0, 1) for k in (0, 1)], float)
            P = np.concatenate([P[:max(1, npts - 8)], corners + rng.uniform(-.02, .02, (8, 3))])
        if kind == "flat":
            P = P * np.array([1.0, rng.uniform(.05, 1), rng.uniform(.05, .5)])
        if rng.random() < 0.4:
            A = np.eye(3) + rng.uniform(-.6, .6, (3, 3))
            if abs(np.linalg.det(A)) > .2:
                P = P @ A.T
        T = Delaunay(P).simplices
        m = Mesh(P, T)
        q = m.quality()
        m = m.subset(np.nonzero(q > 4e-3)[0])
        if kind == "holes":
            keep = np.nonzero(rng.random(m.nc) < rng.uniform(.4, .8))[0]
            if len(keep) < 1:
                return None
            m = m.subset(keep)
        return m
    if kind in ("kuhn", "kuhn_jit", "kuhn_stretch", "grid", "slab"):
        n = max(1.0, ncells / 6.0)
        if kind == "slab":
            dims = [max(1, int(round(n))), 1, 1]
            dims = [dims[i] for i in rng.permutation(3)]
        else:
            b = n ** (1 / 3.)
            dims = [max(1, int(round(b * rng.uniform(.7, 1.4)))) for _ in range(3)]
        P, T = _kuhn(*dims)
        if kind == "grid":                  # axis-aligned: many nodes share coordinates exactly
            P = np.asarray(P, float)
            for k in range(3):
                x = np.concatenate([[0.], np.cumsum(rng.uniform(.4, 1.6, dims[k]))])
                P[:, k] = x[P[:, k].astype(int)]
            if rng.random() < .3:           # columns: only x and y are shared
                P[:, 2] += rng.uniform(-.1, .1, len(P))
            return Mesh(P, T)
        if kind == "kuhn_stretch":
            P = np.exp(P * rng.uniform(-.5, .5, 3)) * rng.uniform(.2, 3, 3)
            P = P + rng.uniform(-.02, .02, P.shape) * np.ptp(P, axis=0) / 20
        if kind in ("kuhn_jit", "slab"):
            P = P + rng.uniform(-.18, .18, P.shape)
        if kind != "kuhn":
            ang = rng.uniform(0, 6.28, 3)
            P = P @ rot(ang).T if rng.random() < .7 else P
        return Mesh(P, T)
    if kind == "fan":
        # tetrahedra around a common edge or vertex
        k = max(3, min(ncells, 14))
        th = np.sort(rng.uniform(0, 2 * np.pi, k))
        if np.min(np.diff(np.append(th, th[0] + 2 * np.pi))) < .05 or np.max(np.diff(np.append(th, th[0] + 2 * np.pi))) > 3.0:
            th = np.arange(k) * 2 * np.pi / k + rng.uniform(-.2, .2, k) / k
        ring = np.stack([np.cos(th), np.sin(th), rng.uniform(-.2, .2, k)], 1) * rng.uniform(.6, 1.4, (k, 1))
        P = np.concatenate([[[0, 0, -1.], [0, 0, 1.]], ring])
        T = [[0, 1, 2 + i, 2 + (i + 1) % k] for i in range(k)]
        P = P @ rot(rng.uniform(0, 6.28, 3)).T
        return Mesh(P, T)
    if kind == "islands":
        # several bodies that do not touch
        ms, off = [], 0.0
        nodes, cells, base = [], [], 0
        for _ in range(int(rng.integers(2, 5))):
            s = _gen_kind(rng, ["delaunay", "single", "fan", "kuhn_jit"][rng.integers(4)], max(2, ncells // 4))
            if s is None:
                continue
            lo, hi = s.nodes.min(0), s.nodes.max(0)
            nodes.append((s.nodes - lo) / np.max(hi - lo) + np.array([off, rng.uniform(-.5, .5), rng.uniform(-.5, .5)]))
            cells.append(s.cells + base)
            base += len(s.nodes)
            off += 1.3
        return Mesh(np.concatenate(nodes), np.concatenate(cells))
    if kind == "single":
        P = rng.uniform(-1, 1, (4, 3))
        return Mesh(P, [[0, 1, 2, 3]])
    raise ValueError(kind)


def rot(a):
    cx, cy, cz = np.cos(a)
    sx, sy, sz = np.sin(a)
    return (np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]]) @ np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]]) @
            np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]]))


def gen_partition(rng, m, nparts):
    """A partition vector; every partition non-empty when there are enough cells."""
    C = m.nc
    nparts = min(nparts, C)
    cen = m.nodes[m.cells].mean(1)
    style = rng.integers(5)
    if style == 0:                      # random: many tiny pieces
        p = rng.integers(0, nparts, C)
    elif style == 1:                    # slabs along a random direction
        d = cen @ rng.normal(size=3)
        p = (np.argsort(np.argsort(d)) * nparts) // C
    elif style == 2:                    # Voronoi cells of random seeds
        s = cen[rng.permutation(C)[:nparts]]
        p = np.argmin(((cen[:, None] - s[None]) ** 2).sum(2), axis=1)
    elif style == 3:                    # very unbalanced
        p = np.zeros(C, int)
        for q in range(1, nparts):
            p[rng.integers(C)] = q
    else:                               # interleaved slabs
        d = cen @ rng.normal(size=3)
        p = ((np.argsort(np.argsort(d)) * nparts * 2) // C) % nparts
    p = np.asarray(p)
    for q in range(nparts):             # non-empty
        if not (p == q).any():
            cnt = np.bincount(p, minlength=nparts)
            big = int(np.argmax(cnt))
            p[rng.choice(np.nonzero(p == big)[0])] = q
    perm = rng.permutation(nparts)
    return perm[p], nparts
