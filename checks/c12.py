#!/usr/bin/env python3-vt
"""C12: partitioned mesh files preserve the serial mesh."""
import os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, mesh as M, run

B = {}


def prepare():
    B["mf"] = build.mesh_harness("meshfile")


def prepare_par():
    s = os.path.join(build.env.REPO, "src")
    B["ppar"] = build.build("ppar", [os.path.join(s, x) for x in ("SerialMesh.cc", "ParallelMesh.cc", "Comm.cc", "Assert.cc")] +
                            [os.path.join(build.env.HARNESS, "ppar.cc")], opt="-O1")


def prepare_info():
    B["ParallelMeshInfo"] = build.util("ParallelMeshInfo")


def prepare_tools():
    B["PartitionColumns"] = build.util("PartitionColumns")


def gen_mesh(rng, hi):
    n = int(np.exp(rng.uniform(0, np.log(hi))))
    m, kind = M.gen(rng, max(1, n))
    m.build_faces(rng)
    m = m.renumbered(rng)[0]
    m.mats = rng.integers(1, 3, m.nc) if rng.random() < .7 else rng.integers(0, 2 ** 40, m.nc)
    return m, kind


def check_parts(parts, m, part, nparts):
    """The partition data must describe the serial mesh m partitioned by part; None or a complaint."""
    if len(parts) != nparts:
        return "%d partitions, expected %d" % (len(parts), nparts)
    seen = {}
    for p, P in enumerate(parts):
        for i, row in enumerate(P.cells):
            g = int(row[8])
            if g in seen:
                return "global cell %d is in partitions %d and %d" % (g, seen[g][0], p)
            seen[g] = (p, i)
    if sorted(seen) != list(range(m.nc)):
        return "global cells present: %s" % sorted(set(range(m.nc)) ^ set(seen))[:10]
    for g, (p, i) in seen.items():
        if part is not None and part[g] != p:
            return "cell %d is in partition %d, assigned to %d" % (g, p, part[g])
    part = [seen[g][0] for g in range(m.nc)]
    facenodes = {}
    for p, P in enumerate(parts):
        nf, nn = len(P.faces), len(P.coords)
        if len(set(map(int, P.ngid))) != nn or len(set(map(int, P.faces[:, 5]))) != nf:
            return "partition %d lists a node or face twice" % p
        if ((P.cells[:, :4] < 0) | (P.cells[:, :4] >= nf)).any() or ((P.cells[:, 4:8] < 0) | (P.cells[:, 4:8] >= nn)).any():
            return "partition %d: index out of range in a cell" % p
        if nf and ((P.faces[:, 2:5] < 0) | (P.faces[:, 2:5] >= nn)).any():
            return "partition %d: node index out of range in a face" % p
        for n in range(nn):
            g = int(P.ngid[n])
            if not 0 <= g < len(m.nodes) or P.coords[n].tobytes() != m.nodes[g].tobytes():
                return "partition %d: node %d (global %d) has other coordinates" % (p, n, g)
        if {int(n) for c in P.cells for n in c[4:8]} != set(range(nn)):
            return "partition %d has nodes that belong to none of its cells" % p
        if {int(n) for c in P.cells for n in c[:4]} != set(range(nf)):
            return "partition %d has faces that belong to none of its cells" % p
        for i, row in enumerate(P.cells):
            g = int(row[8])
            if int(row[9]) != int(m.mats[g]):
                return "cell %d has material %d, was %d" % (g, row[9], m.mats[g])
            if [int(P.ngid[n]) for n in row[4:8]] != [int(x) for x in m.cells[g]]:
                return "cell %d has nodes %s, were %s" % (g, [int(P.ngid[n]) for n in row[4:8]], m.cells[g].tolist())
            if [int(P.faces[f][5]) for f in row[:4]] != [int(x) for x in m.cfaces[g]]:
                return "cell %d has faces %s, were %s" % (g, [int(P.faces[f][5]) for f in row[:4]], m.cfaces[g].tolist())
        for f, row in enumerate(P.faces):
            g = int(row[5])
            if not 0 <= g < len(m.faces):
                return "partition %d: face with global number %d" % (p, g)
            nd = [int(P.ngid[n]) for n in row[2:5]]
            if nd != [int(x) for x in m.faces[g]]:
                return "face %d has nodes %s, were %s" % (g, nd, m.faces[g].tolist())
            c0, c1 = (int(x) for x in m.fcells[g])
            kind = 0 if min(c0, c1) < 0 else 2 if part[c0] == part[c1] else 1
            if int(row[8]) != kind:
                return "face %d has boundary type %d, expected %d" % (g, row[8], kind)
            for j, c in enumerate((c0, c1)):
                want = (seen[c][1], part[c]) if c >= 0 else (-1, -1)
                if (int(row[j]), int(row[6 + j])) != want:
                    return "face %d in partition %d: cell %d is (local %d, partition %d), expected (%d, %d)" % (
                        g, p, j, row[j], row[6 + j], want[0], want[1])
    return None


# ---------------------------------------------------------------- creation
def gen_create(rng, i):
    m, kind = gen_mesh(rng, 200)
    k = int(rng.choice([1, 2, 3, 4, 8, 17]))
    if rng.random() < .75:
        part, n = M.gen_partition(rng, m, min(k, m.nc))
    else:                                     # some partitions may be empty
        n = k
        part = rng.integers(0, n, m.nc)
    return dict(mesh=m.to_json(), kind=kind, part=[int(x) for x in part], nparts=int(n))


def test_create(case):
    m = M.Mesh.from_json(case["mesh"])
    info = dict(nontrivial=case["nparts"] > 1 and m.nc > 1, tags=[case["kind"], "parts%d" % case["nparts"]])
    with check.Workdir() as d:
        s, pv, o = (os.path.join(d, x) for x in ("s", "pv", "o"))
        M.write_smesh(m, s)
        with open(pv, "w") as f:
            f.write("\n".join(map(str, case["part"])))
        r = run.run([B["mf"], "create", s, pv, str(case["nparts"]), o], cwd=d)
        if r.rc != 0:
            return "partitioning failed: " + r.tail(400), info
        with open(o, "rb") as f:
            b = f.read()
        try:
            parts = M.parse_pmesh(b)
        except M.FormatError as e:
            return "the file written is not a partitioned mesh: %s" % e, info
        return check_parts(parts, m, case["part"], case["nparts"]), info


# ---------------------------------------------------------------- reading
def arbitrary_parts(rng):
    """Partition data with arbitrary record contents."""
    out = []
    for _ in range(int(rng.integers(1, 5))):
        nc, nf, nn = (int(x) for x in rng.integers(0, 40, 3))
        hi = [10, 2 ** 32 + 7, 2 ** 63 - 1][int(rng.integers(3))]
        c = rng.integers(0, hi, (nc, 10))
        f = rng.integers(0, hi, (nf, 9))
        if nf:
            f[rng.random((nf, 9)) < .1] = -1
            f[:, 8] = rng.integers(0, 3, nf)
        x = rng.normal(size=(nn, 3)) * 10.0 ** rng.integers(-9, 9, (nn, 3))
        out.append(M.Part(c, f, x, rng.integers(0, hi, nn)))
    return out


def gen_read(rng, i):
    if rng.random() < .5:
        m, kind = gen_mesh(rng, 100)
        part, n = M.gen_partition(rng, m, min(int(rng.integers(1, 6)), m.nc))
        b = M.pmesh_bytes(M.split(m, part, n, rng))
    else:
        p = arbitrary_parts(rng)
        n, kind = len(p), "records"
        b = M.pmesh_bytes(p)
    c = dict(data=b.hex(), nparts=int(n), kind=kind)
    if rng.random() < .3:
        c["first"] = M.pmesh_bytes(arbitrary_parts(rng)).hex()
    return c


def test_read(case):
    b = bytes.fromhex(case["data"])
    info = dict(nontrivial=True, tags=[case["kind"], "parts%d" % case["nparts"]])
    with check.Workdir() as d:
        p, o = os.path.join(d, "p"), os.path.join(d, "o")
        with open(p, "wb") as f:
            f.write(b)
        if "first" in case:
            with open(os.path.join(d, "f"), "wb") as f:
                f.write(bytes.fromhex(case["first"]))
            r = run.run([B["mf"], "pround2", os.path.join(d, "f"), p, o], cwd=d)
        else:
            r = run.run([B["mf"], "pround", p, o], cwd=d)
        if r.rc != 0:
            return "reading and writing a partitioned mesh failed: " + r.tail(400), info
        with open(o, "rb") as f:
            g = f.read()
        if g != b:
            k = next((i for i in range(min(len(g), len(b))) if g[i] != b[i]), min(len(g), len(b)))
            return "reading and writing changes the file at byte %d (%d and %d bytes)" % (k, len(g), len(b)), info
    return None, info


def test_par(case):
    b = bytes.fromhex(case["data"])
    n = case["nparts"]
    off = struct.unpack("<%dQ" % (n + 1), b[48:48 + 8 * (n + 1)])
    info = dict(nontrivial=n > 1, tags=[case["kind"], "parts%d" % n])
    with check.Workdir() as d:
        p = os.path.join(d, "p")
        with open(p, "wb") as f:
            f.write(b)
        r = run.mpirun(n, [B["ppar"], p, os.path.join(d, "o")], cwd=d, timeout=45)
        if r.rc != 0:
            return "reading one partition per process failed: " + r.tail(400), info
        for k in range(n):
            with open(os.path.join(d, "o.%d" % k), "rb") as f:
                if f.read() != b[off[k]:off[k + 1]]:
                    return "process %d did not get the records of its partition" % k, info
    return None, info


# ---------------------------------------------------------------- the information tool
NUM = re.compile(r"-?\b(?:nan|inf|\d+(?:\.\d+)?)\b|MeshBoundary|PartitionBoundary|NotBoundary")
BN = ["MeshBoundary", "PartitionBoundary", "NotBoundary"]


def part_tokens(k, P, verbose):
    t = [str(k), str(len(P.cells)), str(len(P.faces)), str(len(P.coords))]
    if verbose:
        u = lambda x: str(int(x) % 2 ** 64)
        for i, c in enumerate(P.cells):
            t += [str(i)] + [u(x) for x in c]
        for i, f in enumerate(P.faces):
            t += [str(i)] + [u(x) for x in f[:8]] + [BN[int(f[8])]]
        for i in range(len(P.coords)):
            t += [str(i)] + ["%f" % x for x in P.coords[i]] + [u(P.ngid[i])]
    return t


def gen_info(rng, i):
    while True:
        c = gen_read(rng, i)
        if len(c["data"]) < 40000:
            c.pop("first", None)
            c["verbose"] = bool(rng.random() < .7)
            return c


def test_info(case):
    b = bytes.fromhex(case["data"])
    n = case["nparts"]
    parts = M.parse_pmesh(b)
    info = dict(nontrivial=n > 1, tags=[case["kind"], "verbose_%s" % case["verbose"]])
    with check.Workdir() as d:
        p = os.path.join(d, "p")
        with open(p, "wb") as f:
            f.write(b)
        # one output file per process: the launcher may interleave the processes' output anywhere
        r = run.mpirun(n, ["sh", "-c", 'exec "$0" "$@" >out.$OMPI_COMM_WORLD_RANK', B["ParallelMeshInfo"], p] +
                       (["verbose"] if case["verbose"] else []), cwd=d, timeout=45)
        if r.rc != 0:
            return "ParallelMeshInfo failed: " + r.tail(400), info
        off = struct.unpack("<%dQ" % (n + 1), b[48:48 + 8 * (n + 1)])
        for k in range(n):
            with open(os.path.join(d, "out.%d" % k)) as f:
                g = f.read()
            w2 = part_tokens(k, parts[k], case["verbose"])
            if k == 0:
                g = NUM.findall(g[g.find("Mesh Version"):])
                want = ["2", str(n)] + [str(x) for x in off] + [t for j, P in enumerate(parts) for t in part_tokens(j, P, case["verbose"])] + w2
            else:
                g, want = NUM.findall(g), w2
            if g[:len(want)] != want:
                j = next((i for i in range(min(len(g), len(want))) if g[i] != want[i]), min(len(g), len(want)))
                return "ParallelMeshInfo, process %d, reports %s, the file has %s" % (k, g[j:j + 4], want[j:j + 4]), info
    return None, info


# ---------------------------------------------------------------- refusal
def gen_bad(rng, i):
    m, kind = gen_mesh(rng, 60)
    m.mats = rng.integers(1, 3, m.nc)
    part, n = M.gen_partition(rng, m, min(int(rng.integers(1, 4)), m.nc))
    b = bytearray(M.pmesh_bytes(M.split(m, part, n, rng)))
    w = str(rng.choice(["name", "version", "cut", "cut", "parts", "serial"]))
    c = dict(why=w, run=int(n))
    if w == "name":
        if rng.random() < .5:
            b[int(rng.integers(22))] ^= int(rng.integers(1, 256))
        else:
            o = rng.choice(["Tycho 1 Parallel Mesh", "Tycho 2 Serial Mesh", "Tycho 2 Parallel Mes", "Tycho 2 Psi Output", ""])
            b[:32] = str(o).encode().ljust(32, b"\0")
    elif w == "version":
        b[32:40] = struct.pack("<Q", [0, 1, 3, 258, 2 ** 32 + 2, 2 ** 64 - 1][int(rng.integers(6))])
    elif w == "cut":
        lim = len(b)
        b = b[:int(rng.integers(1, lim)) if rng.random() < .6 else lim - int(rng.integers(1, 40))]
    elif w == "parts":
        c["run"] = int([x for x in (1, 2, 3, 4) if x != n][int(rng.integers(3))])
    elif w == "serial":
        b = bytearray(M.smesh_bytes(m))
    c["data"] = bytes(b).hex()
    return c


def test_bad(case):
    info = dict(nontrivial=True, tags=[case["why"]])
    with check.Workdir() as d:
        p = os.path.join(d, "p")
        with open(p, "wb") as f:
            f.write(bytes.fromhex(case["data"]))
        if case["why"] != "parts" and "mf" in B:
            r = run.run([B["mf"], "pround", p, os.path.join(d, "o")], cwd=d)
            if r.rc == 0 or r.timed_out:
                return "the serial reader accepts a file with a wrong %s" % case["why"], info
        if case.get("par", True):
            r = run.mpirun(case["run"], [B["ppar"], p, os.path.join(d, "o")], cwd=d, timeout=45)
            if r.rc == 0 or r.timed_out:
                return "the parallel reader %s a file with a wrong %s" % ("does not return from" if r.timed_out else "accepts", case["why"]), info
    return None, info


def test_bad_serial(case):
    return test_bad(dict(case, par=False))


def gen_bad_serial(rng, i):
    while True:
        c = gen_bad(rng, i)
        if c["why"] != "parts":
            return c


def prepare_bad():
    prepare()
    prepare_par()


def shrink_create(case):
    m = M.Mesh.from_json(case["mesh"])
    size = m.nc // 2
    while size >= 1:
        for a in range(0, m.nc, size):
            keep = [c for c in range(m.nc) if not (a <= c < a + size)]
            if keep:
                m2 = m.subset(keep)
                yield dict(case, mesh=m2.to_json(), part=[case["part"][c] for c in keep])
        size //= 2
    if case["nparts"] > 1:
        yield dict(case, nparts=case["nparts"] - 1, part=[min(x, case["nparts"] - 2) for x in case["part"]])


if __name__ == "__main__":
    check.main("C12", [check.Part("create", gen_create, test_create, 700, shrink_create, prepare, optional=True, weight=2),
                       check.Part("read", gen_read, test_read, 700, None, prepare, optional=True),
                       check.Part("parallel", gen_read, test_par, 120, None, prepare_par, optional=True, weight=2),
                       check.Part("info", gen_info, test_info, 100, None, prepare_info, weight=2),
                       check.Part("refuse_serial", gen_bad_serial, test_bad_serial, 400, None, prepare, optional=True),
                       check.Part("refuse", gen_bad, test_bad, 50, None, prepare_bad, optional=True, weight=2)],
               rule="create: random meshes, numberings and partition vectors (also with empty partitions); every record of every partition is "
                    "compared with the serial mesh. read/parallel/info: files of valid and of arbitrary records read serially, one partition per "
                    "process, and printed. refuse: one fault in name, version, length or partition count. Non-trivial: more than one partition "
                    "(and cell).")
