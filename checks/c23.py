#!/usr/bin/env python3-vt
"""C23: valid runs of the solver and tools never touch invalid memory."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from vt import build, check, cli, mesh as M, run
import c11, c15

B = {}
SANENV = dict(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0:exitcode=87:max_allocation_size_mb=3000",
              UBSAN_OPTIONS="print_stacktrace=1:exitcode=87")
REPORT = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|Assertion '__[^\n]*' failed[^\n]*|stl_[a-z]+\.h:\d+:[^\n]*)")


def report(r):
    m = REPORT.search(r.err) or REPORT.search(r.out)
    if not m or re.search("out of memory|allocation-size-too-big|requested allocation size|exceeds maximum supported size", m.group(1)):
        return None                                          # a damaged count may ask for more memory than there is
    txt = r.err if m.re.search(r.err) else r.out
    at = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?/(?:src|util)/[^\n]*)", txt)
    return m.group(1)[:200] + (" in " + at[0][:160] if at else "")


def prepare_sweep():
    B["s"] = build.sweep(san=True)


def prepare_init():
    for k in ("zero", "pattern"):
        B[k] = build.build("sweep-" + k, build.repo_sources() + [os.path.join(build.env.HARNESS, "wrap_problem.cc")],
                           flags=["-ftrivial-auto-var-init=" + k], link=["-Wl,--wrap=" + w for w in build.WRAPS] + build.PETSC_LIB)


def prepare_tools():
    for u in TOOLS:
        B["san" + u] = build.util(u, san=True)


def prepare_val():
    for u in TOOLS:
        B["val" + u] = build.util(u)


# ---------------------------------------------------------------- the solver under AddressSanitizer and UBSan
def gen(rng, i):
    c = cli.gen_case(rng, sweeps=cli.SWEEPS * 2 + cli.DDS, sns=(2, 2, 4, 6, 8, 12), lo=1, hi=80, work=5000, scatter=bool(rng.random() < .5), maxp=4,
                     groups=(1, 2, 3, 5))
    if c is None:
        return None
    d = c["deck"]
    if rng.random() < .25:
        c["source"] = dict(kind="hat")
    if d["SourceIteration"]:
        d["iterMax"] = int(rng.choice([1, 2, 3]))
        d["errMax"] = 1e-30
    else:
        d.update(iterMax=20, errMax=1e-6)
    d.update(DD_IterMax=int(rng.choice([1, 3, 20])), DD_ErrMax=1e-8)
    if rng.random() < .1 and d["SweepType"] == "TraverseGraph":
        c["threads"] = int(rng.choice([6, 9, 12]))           # more threads than directions
    return c


def failed(r, what):
    x = report(r)
    if x:
        return "%s: %s" % (what, x)
    if r.timed_out:
        return "%s does not end: %s" % (what, r.tail(300))
    if r.rc != 0:
        return "%s fails: %s" % (what, r.tail(500))
    return None


def test(case):
    m, deck, pr = cli.load(case)
    info = dict(nontrivial=True, tags=cli.tags(case, deck))
    o = cli.execute(B["s"], case, m, timeout=80, extra=SANENV)
    f = failed(o.res, "run of a valid input")
    if f:
        return f, info
    if o.psi is None:
        return "no flux was written: %s" % o.psi_err, info
    return None, info


# ---------------------------------------------------------------- uninitialised memory, by its effect
def test_init(case):
    m, deck, pr = cli.load(case)
    info = dict(nontrivial=True, tags=cli.tags(case, deck))
    kry = not deck["SourceIteration"] or deck["SourceIteration"] == "false" or "Schur" in deck["SweepType"]
    outs = []
    for k, p in (("zero", "0"), ("pattern", "85"), ("pattern", "170")):
        o = cli.execute(B[k], case, m, extra=dict(MALLOC_PERTURB_=p))
        f = cli.run_failure(o)
        if f:
            return "memory initialised with %s/%s: %s" % (k, p, f), info
        n = re.findall(r"(?i)(?:iter|error|diff|psi|phi|groups?)[^\n]*", re.sub(r"(?im)^.*time.*$", "", o.res.out))
        outs.append((o, n))
    info["nontrivial"] = bool(np.abs(outs[0][0].psi).max() > 0)
    for o, n in outs[1:]:
        e = cli.reldiff(o.psi, outs[0][0].psi)
        if not e <= (1e-6 if kry else 1e-12):
            return "the flux depends on the contents of uninitialised memory (relative difference %.3e)" % e, info
    return None, info


# ---------------------------------------------------------------- tools
TOOLS = ["PartitionColumns", "PartitionMetis", "SerialMeshInfo", "ParallelMeshInfo", "RefineSerialMesh"]


def gen_tool(rng, i, hi=150):
    m, kind = M.gen(rng, int(np.exp(rng.uniform(0, np.log(hi)))))
    if m.nc < 1:
        return None
    m.build_faces(rng)
    m = m.renumbered(rng)[0]
    if rng.random() < .2:
        m.nodes = m.nodes * 10.0 ** rng.uniform(-150, 150)
    t = str(rng.choice(TOOLS))
    c = dict(mesh=m.to_json(), kind=kind, tool=t, args=[], verbose=bool(rng.random() < .7), broken=None)
    if t == "PartitionColumns":
        nx = int(rng.integers(1, m.nc + 1))
        c["args"] = [str(nx), str(int(rng.integers(1, m.nc // nx + 1)))]
    elif t == "PartitionMetis":
        c["args"] = [str(int(rng.integers(1, min(m.nc, 12) + 1)))]
    elif t == "ParallelMeshInfo":
        p, n = M.gen_partition(rng, m, int(rng.integers(1, min(m.nc, 4) + 1)))
        c.update(part=[int(x) for x in p], nparts=n)
    if rng.random() < .35:
        c["broken"] = [str(rng.choice(["cut", "cut", "name", "version", "counts"])), int(rng.integers(1 << 30))]
    return c


def damage(b, how, seed, par=False):
    rng = np.random.default_rng(seed)
    b = bytearray(b)
    if how == "cut":
        b = b[:int(rng.integers(0, len(b)))]
    elif how == "name":
        b[int(rng.integers(19))] ^= int(rng.integers(1, 256))
    elif how == "version":
        b[32 + int(rng.integers(8))] ^= int(rng.integers(1, 256))
    else:                                                   # more records than the file has
        k = 40 + (0 if par else 8 * int(rng.integers(3))) + int(rng.choice([0, 0, 1, 7]))
        if b[k] == 255:
            b[k] = 0
        b[k] += 1 + int(rng.integers(255 - b[k])) if b[k] < 255 else 0
    return bytes(b)


def tool_cmd(case, pre, d):
    m = M.Mesh.from_json(case["mesh"])
    t = case["tool"]
    par = t == "ParallelMeshInfo"
    data = M.pmesh_bytes(M.split(m, case["part"], case["nparts"])) if par else M.smesh_bytes(m)
    if case["broken"]:
        data = damage(data, *case["broken"], par=par)
    with open(os.path.join(d, "in.mesh"), "wb") as f:
        f.write(data)
    cmd = [B[pre + t]] + case["args"] + ["in.mesh"]
    if t.endswith("Info"):
        if case["verbose"]:
            cmd.append("verbose")
        return cmd, case["nparts"] if par else 0
    return cmd + ["out.mesh"], 0


def test_tool(case):
    info = dict(nontrivial=True, tags=[case["tool"], "broken_" + case["broken"][0] if case["broken"] else "valid"])
    w = "%s on a %s file" % (case["tool"], "damaged (%s)" % case["broken"][0] if case["broken"] else "valid")
    with check.Workdir() as d:
        cmd, n = tool_cmd(case, "san", d)
        if n:
            r = run.mpirun(n, cmd, cwd=d, timeout=45, extra=SANENV)
        else:
            r = run.run(cmd, cwd=d, timeout=45, envd=build.env.mpi_env(extra=SANENV))
    if not case["broken"]:
        return failed(r, w), info
    x = report(r)
    if x:
        return "%s: %s" % (w, x), info
    if r.timed_out or r.rc == 0 or r.rc in (-11, 139):
        return "%s is not refused cleanly: %s" % (w, r.tail(400)), info
    return None, info


def gen_val(rng, i):
    for _ in range(30):
        c = gen_tool(rng, i, 60)
        if c and c["tool"] != "ParallelMeshInfo":
            c["broken"] = None
            return c


def test_val(case):
    info = dict(nontrivial=True, tags=[case["tool"]])
    with check.Workdir() as d:
        cmd, _n = tool_cmd(case, "val", d)
        r = run.run(["valgrind", "-q", "--error-exitcode=88", "--errors-for-leak-kinds=none", "--leak-check=no"] + cmd, cwd=d, timeout=90)
    if r.rc == 88:
        return "%s on a valid file: memory error: %s" % (case["tool"], r.err[:700]), info
    if r.rc != 0 or r.timed_out:
        return "%s on a valid file fails under valgrind: %s" % (case["tool"], r.tail(400)), info
    return None, info


def shrink_tool(case):
    m = M.Mesh.from_json(case["mesh"])
    for k in (2, 4, 8):
        s = max(1, m.nc // k)
        for a in range(0, m.nc, s):
            keep = [c for c in range(m.nc) if not a <= c < a + s]
            if not keep:
                continue
            c = dict(case, mesh=m.subset(keep).to_json())
            if "part" in case:
                p = [case["part"][x] for x in keep]
                u = sorted(set(p))
                c.update(part=[u.index(x) for x in p], nparts=len(u))
            if case["tool"] == "PartitionColumns" and int(case["args"][0]) * int(case["args"][1]) > len(keep):
                c["args"] = ["1", "1"]
            if case["tool"] == "PartitionMetis" and int(case["args"][0]) > len(keep):
                continue
            yield c


# ---------------------------------------------------------------- decks and mesh files given to the solver
def gen_bad(rng, i):
    c = None
    for _ in range(20):
        c = cli.gen_case(rng, sns=(2,), lo=1, hi=12, maxp=3)
        if c:
            break
    if c is None:
        return None
    c["deck"]["iterMax"] = 1
    c["broken"] = [str(rng.choice(["deck", "deck", "cut", "name", "version", "parts"])), int(rng.integers(1 << 30))]
    return c


def test_bad(case):
    m = M.Mesh.from_json(case["mesh"])
    how, seed = case["broken"]
    rng = np.random.default_rng(seed)
    info = dict(nontrivial=True, tags=[how])
    with check.Workdir() as d:
        cli.write_inputs(d, case, m)
        if how == "deck":
            with open(os.path.join(d, "in.deck"), "rb") as f:
                b = bytearray(f.read())
            for _ in range(int(rng.integers(1, 6))):
                k = int(rng.integers(5))
                p = int(rng.integers(len(b) + 1))
                if k == 0:
                    b[p:p] = bytes(rng.integers(0, 256, int(rng.integers(1, 9))).astype(np.uint8))
                elif k == 1:
                    del b[p:p + int(rng.integers(1, 30))]
                elif k == 2 and p < len(b):
                    b[p] = int(rng.integers(256))
                elif k == 3:
                    b[p:p] = b[max(0, p - 40):p] * int(rng.integers(1, 40))
                else:
                    b[p:p] = bytes([int(rng.choice([0, 10, 13, 32, 35, 45, 46, 255]))]) * int(rng.choice([1, 2, 600, 5000]))
            with open(os.path.join(d, "in.deck"), "wb") as f:
                f.write(b)
        else:
            with open(os.path.join(d, "m.pmesh"), "rb") as f:
                b = f.read()
            if how == "parts":
                b = b[:40] + (case["nparts"] + 1 + int(rng.integers(1000))).to_bytes(8, "little") + b[48:]
            else:
                b = damage(b, how, seed, True)
            with open(os.path.join(d, "m.pmesh"), "wb") as f:
                f.write(b)
        r = run.mpirun(case["nparts"], [B["s"], "m.pmesh", "in.deck"], threads=1, cwd=d, timeout=60, extra=SANENV)
    x = report(r)
    if x:
        return "damaged %s: %s" % (how, x), info
    if re.search(r"Segmentation fault|signal 11", r.err + r.out):
        return "damaged %s: %s" % (how, r.tail(400)), info
    if how != "deck" and (r.rc == 0 or r.timed_out):
        return "damaged mesh (%s) is not refused: %s" % (how, r.tail(400)), info
    info["tags"].append("refused" if r.rc else "accepted")
    return None, info


if __name__ == "__main__":
    check.main("C23", [check.Part("solver", gen, test, 350, cli.shrink_case, prepare_sweep),
                       check.Part("initial", gen, test_init, 160, cli.shrink_case, prepare_init),
                       check.Part("tools", gen_tool, test_tool, 900, shrink_tool, prepare_tools),
                       check.Part("undefined", gen_val, test_val, 60, shrink_tool, prepare_val),
                       check.Part("damaged", gen_bad, test_bad, 80, None, prepare_sweep)],
               rule="solver: generated problems through a build with AddressSanitizer, UBSan and library assertions. initial: the same problem with automatic variables and heap "
                    "memory preset to three different patterns must give one flux. tools: valid and damaged mesh files through sanitized tools; undefined: tools under valgrind. "
                    "damaged: damaged decks and meshes given to the sanitized solver are refused without a report. All cases are non-trivial except problems with zero source in `initial`.", quick_cap=120)
