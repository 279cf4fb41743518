#!/usr/bin/env python3-vt
"""C11: serial mesh files round-trip exactly and foreign files are refused."""
import os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, mesh as M, run

B = {}


def prepare():
    B["mf"] = build.mesh_harness("meshfile")
    for u in ("SerialMeshInfo", "RefineSerialMesh", "PartitionColumns"):
        B[u] = build.util(u)


def prepare_tools():
    for u in ("SerialMeshInfo", "RefineSerialMesh", "PartitionColumns"):
        B[u] = build.util(u)


def raw(rng, nc, nf, nn):
    """Arbitrary records: the format does not restrict them."""
    r = rng.integers(6)
    hi = [10, 1000, 2 ** 31, 2 ** 32 + 5, 2 ** 63 - 1, 2 ** 40][int(r)]
    u = rng.integers(0, hi, 9 * nc + 5 * nf, dtype=np.int64).astype("<u8")
    if len(u) and rng.random() < .7:
        u[rng.integers(len(u), size=max(1, len(u) // 6))] = 2 ** 64 - 1
    x = rng.normal(size=3 * nn) * 10.0 ** rng.integers(-12, 13, 3 * nn)
    if len(x) and rng.random() < .5:
        sp = [0.0, -0.0, np.inf, -np.inf, np.nan, 5e-324, 1.7976931348623157e308, -1e-300, .1]
        x[rng.integers(len(x), size=max(1, len(x) // 5))] = [sp[int(i)] for i in rng.integers(len(sp), size=max(1, len(x) // 5))]
    return M.SNAME + struct.pack("<4Q", 2, nc, nf, nn) + u.tobytes() + x.astype("<f8").tobytes()


def content(rng, hi=120):
    if rng.random() < .5:
        m, kind = M.gen(rng, int(rng.integers(1, hi)))
        m = m.renumbered(rng)[0]
        return M.smesh_bytes(m), kind
    nc, nf, nn = (int(np.exp(rng.uniform(0, np.log(hi * 3)))) - int(rng.random() < .2) for _ in range(3))
    return raw(rng, max(nc, 0), max(nf, 0), max(nn, 0)), "records"


def gen(rng, i):
    b, k = content(rng)
    c = dict(data=b.hex(), kind=k)
    if rng.random() < .25:
        c["first"] = content(rng, 60)[0].hex()
    return c


def expected_tokens(b):
    v, nc, nf, nn = struct.unpack("<4Q", b[32:64])
    u = np.frombuffer(b, "<u8", 9 * nc + 5 * nf, 64)
    x = np.frombuffer(b, "<f8", 3 * nn, 64 + 8 * (9 * nc + 5 * nf))
    head = [str(z) for z in (v, nc, nf, nn)]
    t = []
    for c in range(nc):
        t += [str(c)] + [str(int(z)) for z in u[9 * c:9 * c + 9]]
    for f in range(nf):
        o = 9 * nc + 5 * f
        t += [str(f)] + [str(int(z)) for z in u[o:o + 5]]
    for n in range(nn):
        t += [str(n)] + [z if z not in ("nan",) else "nan" for z in ("%f" % w for w in x[3 * n:3 * n + 3])]
    return head, t


TOK = re.compile(r"-?\b(?:nan|inf|\d+(?:\.\d+)?)\b")


def tokens(out):
    j = out.find("Mesh Version")
    return [t[1:] if t == "-nan" else t for t in TOK.findall(out[j:])] if j >= 0 else None


def test(case):
    b = bytes.fromhex(case["data"])
    nc, nf, nn = struct.unpack("<3Q", b[40:64])
    info = dict(nontrivial=len(b) > 64, tags=[case["kind"]])
    with check.Workdir() as d:
        p = os.path.join(d, "in.smesh")
        q = os.path.join(d, "out.smesh")
        with open(p, "wb") as f:
            f.write(b)
        if "first" in case:
            info["tags"].append("object_reused")
            with open(os.path.join(d, "first"), "wb") as f:
                f.write(bytes.fromhex(case["first"]))
            r = run.run([B["mf"], "sround2", os.path.join(d, "first"), p, q], cwd=d)
        else:
            r = run.run([B["mf"], "sround", p, q], cwd=d)
        if r.rc != 0:
            return "reading and writing a well-formed file failed: " + r.tail(300), info
        with open(q, "rb") as f:
            o = f.read()
        if o != b:
            k = next((i for i in range(min(len(o), len(b))) if o[i] != b[i]), min(len(o), len(b)))
            return "the file written differs from the file read (%d and %d bytes, first difference at %d)" % (len(o), len(b), k), info
        with open(p, "rb") as f:
            if f.read() != b:
                return "the file read was changed", info
    return None, info


def test_tool(case):
    b = bytes.fromhex(case["data"])
    info = dict(nontrivial=len(b) > 64, tags=[case["kind"]])
    with check.Workdir() as d:
        p = os.path.join(d, "in.smesh")
        with open(p, "wb") as f:
            f.write(b)
        head, body = expected_tokens(b)
        for args, want in (([], head), (["verbose"], head + body)):
            r = run.run([B["SerialMeshInfo"], p] + args, cwd=d)
            if r.rc != 0:
                return "SerialMeshInfo failed: " + r.tail(300), info
            if "Tycho 2 Serial Mesh" not in r.out:
                return "the format name is not printed", info
            g = tokens(r.out)
            if g is None:
                return "SerialMeshInfo prints no version", info
            if g != want:
                k = next((i for i in range(min(len(g), len(want))) if g[i] != want[i]), min(len(g), len(want)))
                return "SerialMeshInfo %s reports %s, the file has %s (number %d; %d and %d numbers)" % (
                    " ".join(args), g[k:k + 3], want[k:k + 3], k, len(g), len(want)), info
    return None, info


# ---------------------------------------------------------------- refusal
def gen_bad(rng, i):
    m, kind = M.gen(rng, int(rng.integers(2, 60)))
    b = bytearray(M.smesh_bytes(m.renumbered(rng)[0]))
    w = str(rng.choice(["name", "name", "version", "version", "cut", "cut", "cut", "cut", "cut8", "counts", "empty", "parallel"]))
    if w == "name":
        if rng.random() < .5:
            b[int(rng.integers(20))] ^= int(rng.integers(1, 256))
        else:
            o = rng.choice(["Tycho 1 Serial Mesh", "Tycho 2 Serial Mes", "Tycho 2 Parallel Mesh", "tycho 2 serial mesh", "Tycho 2 Psi Output", ""])
            b[:32] = str(o).encode().ljust(32, b"\0")
    elif w == "version":
        b[32:40] = struct.pack("<Q", int(rng.choice([0, 1, 3, 4, 258, 2 ** 32 + 2, 2 ** 56 + 2, 2 ** 64 - 1], p=None) if rng.random() < 0 else
                                         [0, 1, 3, 4, 258, 2 ** 32 + 2, 2 ** 56 + 2, 2 ** 64 - 1][int(rng.integers(8))]))
    elif w == "cut":
        b = b[:int(rng.integers(1, len(b)))]
    elif w == "cut8":
        b = b[:len(b) - int(rng.integers(1, 30))]
    elif w == "counts":
        k = 40 + 8 * int(rng.integers(3))
        n = struct.unpack("<Q", bytes(b[k:k + 8]))[0]
        b[k:k + 8] = struct.pack("<Q", n + int(rng.choice([1, 2, 10, 1000])))
    elif w == "empty":
        b = bytearray()
    elif w == "parallel":
        p, n = M.gen_partition(rng, m, 2)
        b = bytearray(M.pmesh_bytes(M.split(m, p, n)))
    return dict(data=bytes(b).hex(), why=w)


def test_bad(case):
    info = dict(nontrivial=True, tags=[case["why"]])
    with check.Workdir() as d:
        p = os.path.join(d, "in.smesh")
        with open(p, "wb") as f:
            f.write(bytes.fromhex(case["data"]))
        for name, cmd in (("SerialMeshInfo", [p]), ("RefineSerialMesh", [p, "out.r"]), ("PartitionColumns", ["1", "1", p, "out.p"])):
            r = run.run([B[name]] + cmd, cwd=d)
            if r.rc == 0 or r.timed_out:
                return "%s accepts a file with a wrong %s (status %s)" % (name, case["why"], r.rc), info
        left = set(os.listdir(d)) - {"in.smesh"}
        left = {x for x in left if not x.startswith("core")}
        if left:
            return "output written for an invalid file: %s" % sorted(left), info
    return None, info


def shrink(case):
    b = bytes.fromhex(case["data"])
    if "first" in case:
        yield {k: v for k, v in case.items() if k != "first"}
    nc, nf, nn = struct.unpack("<3Q", b[40:64])
    C, F, N = b[64:64 + 72 * nc], b[64 + 72 * nc:64 + 72 * nc + 40 * nf], b[64 + 72 * nc + 40 * nf:]
    for a, c, e in ((nc // 2, nf // 2, nn // 2), (0, nf, nn), (nc, 0, nn), (nc, nf, 0), (nc // 2, nf, nn), (nc, nf // 2, nn), (nc, nf, nn // 2),
                    (nc - 1, nf, nn), (nc, nf - 1, nn), (nc, nf, nn - 1)):
        if min(a, c, e) >= 0 and (a, c, e) != (nc, nf, nn):
            yield dict(case, kind="records", data=(b[:40] + struct.pack("<3Q", a, c, e) + C[:72 * a] + F[:40 * c] + N[:24 * e]).hex())


if __name__ == "__main__":
    check.main("C11", [check.Part("roundtrip", gen, test, 2500, shrink, prepare, optional=True),
                       check.Part("tool", gen, test_tool, 1500, shrink, prepare_tools),
                       check.Part("refuse", gen_bad, test_bad, 1500, None, prepare_tools)],
               rule="roundtrip and tool: files of valid meshes and of arbitrary records (all 64-bit values, special floating-point values, empty "
                    "sections); read and written again they must be identical, and the tool must print the stored numbers. refuse: files with "
                    "one fault in name, version, length or counts. Non-trivial: at least one record.")
