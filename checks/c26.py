#!/usr/bin/env python3-vt
"""C26: threads never access shared data without synchronisation, and call MPI as allowed."""
import glob, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, env, mesh as M, run

B = {}
T = ["-fsanitize=thread", "-g1", "-fno-omit-frame-pointer"]
ENV = dict(PMIX_MCA_gds="hash",                             # the default of PMIx wants addresses that ThreadSanitizer uses
           TSAN_OPTIONS="ignore_noninstrumented_modules=1:halt_on_error=0:exitcode=66:history_size=4:report_signal_unsafe=0:report_thread_leaks=0")


def prepare():
    h = [os.path.join(env.HARNESS, x) for x in ("minigomp.cc", "mpithread.cc")]
    w = os.path.join(env.HARNESS, "wrap_problem.cc")
    B["s"] = build.build("sweep-tsan", build.repo_sources() + [w] + h, flags=T, objflags={x: ["-fno-sanitize=thread"] for x in h + [w]},
                         link=["-Wl,--wrap=" + x for x in build.WRAPS] + build.PETSC_LIB, opt="-O1")


def gen(rng, i):
    c = cli.gen_case(rng, sweeps=["TraverseGraph"] * 3 + ["OriginalTycho1", "OriginalTycho2"] * 2 + cli.DDS, sns=(2, 2, 4, 6), lo=2, hi=60, work=2500,
                     scatter=bool(rng.random() < .5), maxp=3)
    if c is None:
        return None
    d = c["deck"]
    c["threads"] = int(rng.choice([1, 2, 2, 3, 3, 4, 4, 6]))
    if c["nparts"] * c["threads"] > 8:
        c["threads"] = 2
    if "Original" in d["SweepType"]:
        c["threads"] = cli.tame(d, M.Mesh.from_json(c["mesh"]), c["nparts"], c["threads"])
    d.update(iterMax=int(rng.integers(1, 4)) if d["SourceIteration"] else 20, errMax=1e-6, DD_IterMax=int(rng.choice([1, 3, 20])), DD_ErrMax=1e-6)
    c["jitter"] = int(rng.integers(1, 1 << 20)) if rng.random() < .8 else None
    return c


def races(txt):
    """The reports of ThreadSanitizer that involve the program's own code."""
    out = []
    for r in re.findall(r"WARNING: ThreadSanitizer: (data race.*?)\n={10,}", txt, re.S):
        at = re.findall(r"#\d+ (.*?) (\S*/(?:src|util)/\S+:\d+)", r)
        if at:
            kind = re.findall(r"(?m)^  (?:Previous )?(?:atomic )?(?:read|write|Read|Write|Atomic)[^\n]*? by ", r)
            out.append("%s: %s" % (" / ".join(sorted(set(k.strip().lower().split(" of ")[0] for k in kind))), ", ".join(sorted(set("%s at %s" % (a[:60], os.path.basename(b)) for a, b in at[:3])))))
    return out


def test(case):
    m, deck, pr = cli.load(case)
    info = dict(nontrivial=case["threads"] > 1, tags=cli.tags(case, deck) + [deck["MPIType"]])
    with check.Workdir() as d:
        ex = dict(ENV, VT_MPITHREAD=os.path.join(d, "mpithread"))
        if case.get("jitter"):
            ex["VT_JITTER"] = case["jitter"]
        o = cli.execute(B["s"], case, m, d, timeout=45, extra=ex)
        r = races(o.res.err + o.res.out)
        if r:
            return "data race: %s" % r[0], info
        for p in glob.glob(os.path.join(d, "mpithread.*")):
            with open(p) as f:
                return "MPI is used in a way its thread level does not allow: " + f.readline().strip(), info
    f = cli.run_failure(o)
    if f and o.res.rc == 66 and not r:
        return None, info                                    # a report about other code only
    if f:
        return f, info
    if float(deck["sigmaS1"]) == 0 and float(deck["sigmaS2"]) == 0 and deck["SweepType"] in cli.SWEEPS and case["source"]["kind"] != "hat" and o.marked:
        e = pr.residual(o.psi, cli.ref_source(case, m, deck, pr))
        if not e < 1e-9:
            return "with delayed threads the flux is wrong: relative residual %.3e" % e, info
    return None, info


def shrink(case):
    yield from cli.shrink_case(case)
    if case.get("jitter"):
        yield dict(case, jitter=None)


if __name__ == "__main__":
    check.main("C26", [check.Part("races", gen, test, 700, shrink, prepare)],
               rule="a case is a random problem x layout x delays run through a build with ThreadSanitizer in which OpenMP is implemented by instrumented pthread calls "
                    "(so that its synchronisation is seen) and MPI calls are checked against the thread support level asked for. Non-trivial: several threads.")
