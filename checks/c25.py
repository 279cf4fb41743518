#!/usr/bin/env python3-vt
"""C25: success is reported only when the output was written completely."""
import os, resource, signal, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from vt import build, check, cli, env, mesh as M, run

B = {}
TOOLS = ["PartitionColumns", "PartitionMetis", "RefineSerialMesh"]
FAULTS = ["none", "fsize", "fsize", "fsize", "fsize_edge", "fsize_edge", "full", "nodir", "outdir", "noinput", "indir", "mem",
          "write", "write", "write", "write", "read", "read", "close"]


def injected(what, n, path, log, rank=None):
    """A prefix that lets the n-th system call of a kind on a file fail, once (strace's fault injection), in one process."""
    calls = dict(write="write,pwrite64,writev,pwritev,pwritev2", read="read,pread64,readv,preadv,preadv2", close="close")[what]
    err = dict(write=["ENOSPC", "EIO", "EDQUOT"], read=["EIO"], close=["EIO", "ENOSPC", "EDQUOT"])[what]
    p = ["strace", "-f", "-qq", "-P", path, "-o", log, "-e", "trace=" + calls, "-e", "inject=%s:error=%s:when=%d" % (calls, err[n % len(err)], n)]
    if rank is None:
        return p
    return ["sh", "-c", 'if [ "$OMPI_COMM_WORLD_RANK" = %d ]; then exec "$@"; else n=0; while [ "$n" -lt %d ]; do shift; n=$((n+1)); done; exec "$@"; fi' %
            (rank, len(p)), "sh"] + p


def have_strace():
    with check.Workdir() as d:
        p = os.path.join(d, "f")
        r = run.run(injected("write", 1, p, os.path.join(d, "log")) + ["sh", "-c", "echo x > " + p], cwd=d, timeout=20)
        return r.rc != 0 and was_injected(os.path.join(d, "log"))


def was_injected(log):
    try:
        with open(log) as f:
            return "INJECTED" in f.read()
    except OSError:
        return False


def prepare_tools():
    B["strace"] = have_strace()
    for u in TOOLS + ["SerialMeshInfo"]:
        B[u] = build.util(u)


def prepare_solver():
    B["strace"] = have_strace()
    B["sweep"] = build.build("sweep-fault", build.repo_sources() + [os.path.join(env.HARNESS, "fault.cc")], link=build.PETSC_LIB)


def limited(cmd, d, fsize=None, mem=None, timeout=40):
    """cmd with a limit on the size of files (writes beyond it fail, like on a full device) or on memory."""
    pre = []
    if fsize is not None:
        # SIGXFSZ stays ignored over exec, the write returns an error
        pre = ["sh", "-c", "trap '' XFSZ; exec prlimit --fsize=%d \"$@\"" % fsize, "sh"]
    if mem is not None:
        pre = ["prlimit", "--as=%d" % mem]
    return run.run(pre + cmd, cwd=d, timeout=timeout)


def gen_tool(rng, i):
    m, kind = M.gen(rng, int(np.exp(rng.uniform(0, np.log(250)))))
    if m.nc < 1:
        return None
    m.build_faces(rng)
    m = m.renumbered(rng)[0]
    t = str(rng.choice(TOOLS))
    c = dict(mesh=m.to_json(), kind=kind, tool=t, args=[], fault=str(rng.choice(FAULTS)), x=float(rng.random()),
             old=str(rng.choice(["none", "none", "short", "long"])))
    if t == "PartitionColumns":
        nx = int(rng.integers(1, min(m.nc, 8) + 1))
        c["args"] = [str(nx), str(int(rng.integers(1, min(m.nc // nx, 8) + 1)))]
    elif t == "PartitionMetis":
        c["args"] = [str(int(rng.integers(1, min(m.nc, 12) + 1)))]
    return c


def edge(x, full, mark=()):
    """A limit near a place that matters: the end, buffer boundaries, the ends of the header, and places given."""
    e = [full - 1, full, full + 1, full - 8, 0, 1, 31, 32, 40, 48, 64, 4095, 4096, 4097, full // 4096 * 4096, full // 4096 * 4096 - 1] + list(mark)
    return max(0, e[int(x * len(e)) % len(e)])


def test_tool(case):
    m = M.Mesh.from_json(case["mesh"])
    ft, t = case["fault"], case["tool"]
    info = dict(nontrivial=ft != "none", tags=[t, ft])
    if t == "PartitionColumns" and int(case["args"][0]) * int(case["args"][1]) > m.nc or t == "PartitionMetis" and int(case["args"][0]) > m.nc:
        raise check.Skip()
    with check.Workdir() as d:
        inp, ref, out = (os.path.join(d, x) for x in ("in.smesh", "ref.mesh", "out.mesh"))
        data = M.smesh_bytes(m)
        with open(inp, "wb") as f:
            f.write(data)
        r = run.run([B[t]] + case["args"] + [inp, ref], cwd=d, timeout=40)
        if r.rc != 0 or not os.path.exists(ref):
            return "%s fails on a valid mesh: %s" % (t, r.tail(300)), info
        with open(ref, "rb") as f:
            want = f.read()
        full = len(want)
        # what is written without a fault is a complete mesh (its contents are the subject of C12-C14)
        try:
            M.parse_smesh(want) if t == "RefineSerialMesh" else M.parse_pmesh(want)
        except M.FormatError as e:
            return "%s reports success, its output is not a complete mesh: %s" % (t, e), info
        if case["old"] != "none" and ft not in ("full", "nodir", "outdir"):
            with open(out, "wb") as f:
                f.write(b"\7" * (full + 5000 if case["old"] == "long" else full // 2))
        fsize = mem = None
        i2, must, pre, log = inp, None, [], os.path.join(d, "log")
        if ft in ("write", "read", "close"):
            if not B["strace"]:
                raise check.Skip()
            n = 1 if ft == "close" else 1 + int(case["x"] ** 2 * (6 if case["x"] < .9 else 40))
            pre = injected(ft, n, inp if ft == "read" else out, log)
        if ft == "fsize":
            fsize = int(case["x"] * full)
        elif ft == "fsize_edge":
            fsize = edge(case["x"], full)
        elif ft == "full":
            out = "/dev/full"
        elif ft == "nodir":
            out = os.path.join(d, "none", "out.mesh")
        elif ft == "outdir":
            os.mkdir(out)
        elif ft == "noinput":
            i2 = os.path.join(d, "nothing.smesh")
        elif ft == "indir":
            i2 = d
        elif ft == "mem":
            mem = int(2e6 * 10 ** (2 * case["x"]))
        if fsize is not None:
            must = fsize >= full
        elif ft == "none":
            must = True
        elif not pre and ft != "mem":
            must = False
        r = limited(pre + [B[t]] + case["args"] + [i2, out], d, fsize, mem)
        w = "%s with %s%s" % (t, ft, "" if fsize is None else " (%d of %d bytes)" % (fsize, full))
        if pre:
            hit = was_injected(log)
            info["tags"].append("hit" if hit else "not_hit")
            info["nontrivial"] = hit
            w = "%s with call %d of %s failing" % (t, n, ft)
            must = True if not hit else False if ft == "close" else None    # a failed read or write may be repeated, and then all is well
        if r.timed_out:
            return "%s does not end: %s" % (w, r.tail(300)), info
        if r.rc == 0 and must is False:
            return "%s reports success" % w, info
        if r.rc != 0 and must:
            return "%s fails though nothing is wrong: %s" % (w, r.tail(300)), info
        if r.rc == 0:
            with open(out, "rb") as f:
                got = f.read()
            if got != want:
                return "%s reports success, but the output (%d bytes) is not what an undisturbed run writes (%d bytes)" % (w, len(got), full), info
        with open(inp, "rb") as f:
            if f.read() != data:
                return "%s changed its input file" % w, info
        extra = set(os.listdir(d)) - {"in.smesh", "ref.mesh", "out.mesh", "log"}
        if extra and r.rc == 0:
            return "%s left other files: %s" % (w, sorted(extra)), info
        info["tags"].append("success" if r.rc == 0 else "refused")
    return None, info


# ---------------------------------------------------------------- the solver
SF = ["none", "fsize", "fsize", "fsize_edge", "fsize_edge", "onecell", "onecell", "outdir", "nomesh", "nodeck", "meshdir", "deckdir",
      "write", "write", "write", "readmesh", "readmesh", "readdeck"]


def gen_solver(rng, i):
    c = cli.gen_case(rng, sns=(2, 2, 4), lo=1, hi=40, maxp=3, hat=1, groups=(1, 1, 2, 3), work=1500)
    if c is None:
        return None
    c["source"] = dict(kind="hat")
    c["deck"].update(iterMax=1, errMax=1e-6, OutputFile=True, SourceIteration=True, SweepType="TraverseGraph", DD_IterMax=2, DD_ErrMax=1e-3)
    c.update(fault=str(rng.choice(SF)), x=float(rng.random()), old=str(rng.choice(["none", "none", "short", "long"])))
    return c


def test_solver(case):
    m, deck, pr = cli.load(case)
    ft = case["fault"]
    per = 2 * int(deck["snOrder"]) ** 2 * int(deck["nGroups"]) * 4 * 8
    full = 64 + per * m.nc
    info = dict(nontrivial=ft != "none", tags=[ft, "parts%d" % case["nparts"]])
    with check.Workdir() as d:
        e = os.path.join(d, "e")
        os.mkdir(e)
        o = cli.execute(B["sweep"], case, m, e, keep_raw=True)
        f = cli.run_failure(o)
        if f:
            return f, info
        want = o.raw
        if len(want) != full:
            return "success is reported with an output file of %d bytes, complete are %d" % (len(want), full), info
        cli.write_inputs(d, case, m)
        out = os.path.join(d, "psi.out")
        if case["old"] != "none" and ft != "outdir":
            with open(out, "wb") as f:
                f.write(b"\7" * (full + 5000 if case["old"] == "long" else full // 2))
        ex, mesh, dk, must = {}, "m.pmesh", "in.deck", False
        if ft.startswith("fsize") or ft == "onecell":
            if ft == "fsize":
                lim = int(case["x"] * full)
            elif ft == "onecell":                            # only the last cell is cut, by anything from a byte to all of it
                lim = full - 1 - int(case["x"] * per)
            else:
                lim = edge(case["x"], full, [64 + per, 64 + per - 1, full - per, full - per + 8])
            ex["VT_FSIZE"] = lim
            must = lim >= full
        elif ft == "none":
            must = True
        elif ft == "outdir":
            os.mkdir(out)
            with open(os.path.join(out, "keep"), "w") as f:
                f.write("x")
        elif ft == "nomesh":
            mesh = "none.pmesh"
        elif ft == "nodeck":
            dk = "none.deck"
        elif ft == "meshdir":
            mesh = "e"
        elif ft == "deckdir":
            dk = "e"
        pre, log = [], os.path.join(d, "log")
        if ft in ("write", "readmesh", "readdeck"):
            if not B["strace"]:
                raise check.Skip()
            rk = int(case["x"] * 9973) % case["nparts"]
            lim = 1 + int(case["x"] * (len(case["part"]) / case["nparts"] + 3 if ft == "write" else 8 if ft == "readmesh" else 2))
            pre = injected(ft[:5] if ft == "write" else "read", lim, out if ft == "write" else os.path.join(d, mesh if ft == "readmesh" else dk), log, rk)
        r = run.mpirun(case["nparts"], pre + [B["sweep"], mesh, dk], threads=case.get("threads", 1), cwd=d, timeout=cli.TIMEOUT, extra=ex)
        if pre:
            must = None if was_injected(log) else True
            info["nontrivial"] = must is None
            info["tags"].append("not_hit" if must else "hit")
        w = "sweep.x with %s%s" % (ft, " (%d of %d bytes)" % (ex["VT_FSIZE"], full) if ex else "")
        if r.timed_out:
            return "%s does not end: %s" % (w, r.tail(300)), info
        if r.rc == 0 and must is False:
            return "%s reports success (the output has %s bytes)" % (w, os.path.getsize(out) if os.path.isfile(out) else "no"), info
        if r.rc != 0 and must:
            return "%s fails though nothing is wrong: %s" % (w, r.tail(400)), info
        if r.rc == 0:
            with open(out, "rb") as f:
                got = f.read()
            if len(got) != full or got[:64] != want[:64]:
                return "%s reports success, but the output is not complete" % w, info
            a, b = (np.frombuffer(x, "<f8", -1, 64) for x in (got, want))
            if not np.abs(a - b).max() <= 1e-9 * np.abs(b).max():
                return "%s reports success, but the output differs from the one of an undisturbed run" % w, info
        if ft == "outdir" and not os.path.exists(os.path.join(out, "keep")):
            return "%s removed the directory" % w, info
        info["tags"].append("success" if r.rc == 0 else "refused")
    return None, info


def shrink_tool(case):
    m = M.Mesh.from_json(case["mesh"])
    for k in (2, 4, 8):
        s = max(1, m.nc // k)
        for a in range(0, m.nc, s):
            keep = [c for c in range(m.nc) if not a <= c < a + s]
            if keep:
                c = dict(case, mesh=m.subset(keep).to_json())
                if case["tool"] != "RefineSerialMesh":
                    c["args"] = ["1"] * len(case["args"])
                yield c
    if case["old"] != "none":
        yield dict(case, old="none")


if __name__ == "__main__":
    check.main("C25", [check.Part("tools", gen_tool, test_tool, 2500, shrink_tool, prepare_tools),
                       check.Part("solver", gen_solver, test_solver, 150, cli.shrink_case, prepare_solver, weight=1.5)],
               rule="a case is a valid mesh x tool (or deck x partition for the solver) x pre-existing output x injected fault: file size limit anywhere in or around the output "
                    "(writes fail as on a full device), the n-th read, write or close of a file failing once, /dev/full, missing or wrong kind of input or output, memory limit. The exit status is compared with what the "
                    "file contains, byte by byte with an undisturbed run. Non-trivial: a fault is injected.")
