#!/usr/bin/env python3-vt
"""C29: the times, iteration counts, sweep counts and schedule statistics that a run prints are true."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, env, mesh as M, sched

B = {}
SOLVE = "_ZN9Transport5solveEmmdRK4Mat3IdERK4Mat2IdERS5_"
ORIG = ("OriginalTycho1", "OriginalTycho2")
N = r"([-+0-9.eEnaif]+)"


def prepare():
    h = [os.path.join(env.HARNESS, x) for x in ("wrap_problem.cc", "timing.cc")]
    B["s"] = build.build("sweep-timing", build.repo_sources() + h, link=["-Wl,--wrap=" + x for x in build.WRAPS + [SOLVE]] + build.PETSC_LIB)


def nums(pattern, text):
    return [float(x) for x in re.findall(pattern.replace("#", N), text, re.M)]


def steep(d):
    """Some hundred iterations at most, but more than one."""
    for k in "12":
        d["sigmaS" + k] = min(float(d["sigmaS" + k]), .97 * float(d["sigmaT" + k]))


def execute(case, m, slow=None):
    """(out, failure, table of the processes: slept in MPI, slept in solves, elapsed (s), solves, delays)"""
    with check.Workdir() as d:
        p = os.path.join(d, "t")
        ex = dict(VT_TIMING=p)
        if slow:
            ex["VT_SLOW"] = "%d %s %d %d" % tuple(slow)
        o = cli.execute(B["s"], case, m, d, extra=ex)
        f = cli.run_failure(o)
        if f:
            return o, f, None
        v = []
        for r in range(case["nparts"]):
            try:
                with open("%s.%d" % (p, r)) as g:
                    v.append([float(x) for x in g.read().split()])
            except OSError:
                raise check.Skip()
        v = np.array(v)
        v[:, :3] *= 1e-3
        return o, None, v


# ------------------------------------------------------------------ counts
def gen_counts(rng, i):
    c = cli.gen_case(rng, sweeps=cli.SWEEPS + cli.DDS, sns=(2, 2, 4), lo=2, hi=60, work=1500, maxp=4, scatter=True, cmax=.97, empty=0)
    if c is None or not float(c["deck"]["sigmaT1"]) > 0:
        return None
    d = c["deck"]
    steep(d)
    dd = d["SweepType"] in cli.DDS
    d["iterMax"] = int(rng.choice([1, 3, 8, 60] if dd else [1, 3, 8, 200]))
    d["DD_IterMax"] = int(rng.choice([1, 2, 5, 40]))
    d["errMax"] = float(rng.choice([1e-2, 1e-6, 1e-10, 1e-300]))
    d["DD_ErrMax"] = float(rng.choice([1e-2, 1e-6, 1e-10]))
    if d["errMax"] < 1e-100:
        d["iterMax"] = min(d["iterMax"], 8)
    c["threads"] = cli.tame(d, M.Mesh.from_json(c["mesh"]), c["nparts"], min(c["threads"], 3))
    return c


def counts(deck, text, n):
    """Compares the counts printed with n, the number of times every cell was solved for every direction."""
    st, si = deck["SweepType"], str(deck["SourceIteration"]).lower() in ("true", "1")
    its = nums(r"^\s*iteration: # ", text)
    if si:
        k = 0
        for x in its:
            if x not in (0, k):
                return "iteration %d is printed after iteration %d" % (x, k - 1)
            k = int(x) + 1
    kr = nums(r"^Krylov iterations: # ", text)
    low = sum(int(k) + 2 for k in kr)
    high = sum(int(k) + 2 + int(k) // 30 + 1 for k in kr)
    if st in cli.SWEEPS:
        if si and len(its) != n:
            return "%d source iterations are reported, but %d sweeps were made" % (len(its), n)
        if not si and (len(kr) != 1 or not low <= n <= high):
            return "Krylov iterations %s are reported, but %d sweeps were made" % (kr, n)
    if st == "Schur":
        g = nums(r"^Schur: Num local sweeps: #$", text)
        if g != [n]:
            return "'Num local sweeps' is reported as %s, but %d sweeps were made" % (g, n)
    if st == "SchurOuter":
        g = nums(r"^SchurOuter: Num sweeps (?:Q|END): #$", text)
        l = re.findall(r"^SchurOuter: Num sweeps KSP:(.*)$", text, re.M)
        if len(g) != 2 or len(l) != 1:
            return "statistics of SchurOuter are missing"
        s = sum(g) + sum(int(x) for x in l[0].split())
        if si and (s != n or len(its) != n):
            return "SchurOuter reports %d sweeps and %d source iterations, but %d sweeps were made" % (s, len(its), n)
        if not si and (s != sum(kr) or not low <= n <= high):
            return "SchurOuter reports %d sweeps and Krylov iterations %s, but %d sweeps were made" % (s, kr, n)
        k = nums(r"^SchurOuter: Krylov iterations: #$", text)
        c = len(l[0].split())
        if len(k) != 1 or not k[0] <= c <= k[0] + k[0] // 30 + 2:
            return "SchurOuter reports %s Krylov iterations and %d solves for them" % (k, c)
    if st == "SchurKrylov":
        k = nums(r"^SchurKrylov: Krylov iterations: #$", text)
        if len(k) != 1 or not k[0] + 2 <= n <= k[0] + k[0] // 30 + 3:
            return "SchurKrylov reports %s Krylov iterations, but %d sweeps were made" % (k, n)
    if st == "PBJ":
        g = nums(r"^Num source iters: #$", text)
        l = nums(r"^\s*PBJ Iters: #$", text)
        if g != [n] or sum(l) != n:
            return "PBJ reports %s source iterations (%s), but %d sweeps were made" % (g, l, n)
        if si and len(its) != len(l) or not si and not sum(kr) + 2 <= len(l) <= sum(kr) + 3 + sum(kr) // 30:
            return "%d source iterations, Krylov iterations %s, but %d block Jacobi solves are reported" % (len(its), kr, len(l))
    if st in ("PBJOuter", "PBJSI"):
        g = nums(r"^PBJ Iters: #$", text)
        l = [int(x) for x in (re.findall(r"^Num source iterations:(.*)$", text, re.M) or [""])[0].split()]
        if len(g) != 1:
            return "the number of block Jacobi iterations is missing"
        if st == "PBJSI" and g != [n]:
            return "PBJSI reports %d iterations, but %d sweeps were made" % (g[0], n)
        if st == "PBJOuter":
            if len(l) != g[0]:
                return "PBJOuter reports %d iterations and numbers of source iterations of %d" % (g[0], len(l))
            if si and (sum(l) != n or len(its) != n):
                return "PBJOuter reports %d source iterations and prints %d, but %d sweeps were made" % (sum(l), len(its), n)
            if not si and (l != kr or not low <= n <= high):
                return "PBJOuter reports source iterations %s, Krylov iterations %s, but %d sweeps were made" % (l, kr, n)
        e = len(nums(r"^Relative error: #$", text))
        if e and e != g[0]:
            return "%d block Jacobi iterations are reported, but %d errors" % (g[0], e)
    t = len(nums(r"^\s*Sweeper Timer \(total time\): #s$" if st in ORIG else r"^\s*Traverse Timer \(total\): +#s$", text))
    if t < n or st in ORIG and t > n:                      # the priorities of TraverseGraph need traversals, too
        return "times of %d sweeps are printed, but %d sweeps were made" % (t, n)
    return None


def test_counts(case):
    m, deck, pr = cli.load(case)
    part = np.array(case["part"])
    if len(np.unique(part)) < case["nparts"]:
        raise check.Skip()
    info = dict(nontrivial=False, tags=cli.tags(case, deck) + ["si%s" % deck["SourceIteration"], "iter%s" % deck["iterMax"]])
    o, f, v = execute(case, m)
    if f:
        return f, info
    A = 2 * int(deck["snOrder"]) ** 2
    k = [v[r][3] / ((part == r).sum() * A) for r in range(case["nparts"])]
    if k[0] != int(k[0]) or len(set(k)) > 1:
        return "the processes solved every cell for every direction %s times" % k, info
    info["nontrivial"] = k[0] > 1
    info["tags"].append("sweeps:%d" % min(2 ** int(np.log2(max(k[0], 1))), 64))
    return counts(deck, o.res.out, int(k[0])), info


# ------------------------------------------------------------------ times
def gen_times(rng, i):
    c = cli.gen_case(rng, sweeps=cli.SWEEPS + cli.SWEEPS + cli.DDS, sns=(2, 2, 4), lo=2, hi=60, work=1200, maxp=3, scatter=True, cmax=.97, empty=0)
    if c is None or not float(c["deck"]["sigmaT1"]) > 0:
        return None
    d = c["deck"]
    steep(d)
    d["iterMax"] = int(rng.choice([1, 2, 5, 20]))
    d["DD_IterMax"] = int(rng.choice([2, 5, 20]))
    d["errMax"] = float(rng.choice([1e-4, 1e-10]))
    c["threads"] = cli.tame(d, M.Mesh.from_json(c["mesh"]), c["nparts"], min(c["threads"], 3))
    place = "p" if c["nparts"] > 1 and rng.random() < .5 else "t" if c["threads"] > 1 and rng.random() < .7 else "s"
    us = int(rng.choice([5000, 20000, 50000]))
    c["slow"] = [int(rng.integers(c["nparts"])), place, us, int(rng.choice([200000, 400000]))]
    return c


def times(deck, nparts, slow, text, v, sweeps):
    """(violation of an inequality that no load of the machine explains, one that a loaded machine may cause)"""
    st, si = deck["SweepType"], str(deck["SourceIteration"]).lower() in ("true", "1")
    p2p, solve, elapsed = v[slow[0]][0], v[slow[0]][1], v[:, 2].max()
    soft = None
    every = [float(x) for x in re.findall(r"(?:time|Timer|Time|Done)[^\n]*?: +" + N + r"s?$", text, re.M)]
    if "Average Krylov time: inf" in text and 0 in nums(r"^Krylov iterations: # ", text):
        every = [x for x in every if x != np.inf]           # no iterations, no average
    if not every or not (np.isfinite(every).all() and min(every) >= 0):
        return "a time is missing, negative or no number: %s" % [x for x in every if not x >= 0], None
    if max(every) > 3600:
        return "a time of %g s is reported" % max(every), None
    total = nums(r"^Total time: #$", text)
    if len(total) != 1:
        return "the total time is not reported once", None
    if total[0] > elapsed + .02:
        return "the total time is reported as %.2f s, but the process ended %.3f s after it began" % (total[0], elapsed), None
    if total[0] < p2p - .011 or total[0] < solve - .011:
        return "the total time is reported as %.2f s, but process %d was delayed by %.3f s" % (total[0], slow[0], p2p + solve), None
    if st in ORIG:
        a = nums(r"^\s*Sweeper Timer \(computation\): #s$", text)
        b = nums(r"^\s*Sweeper Timer \(other\): #s$", text)
        c = nums(r"^\s*Sweeper Timer \(total time\): #s$", text)
        if not len(a) == len(b) == len(c) > 0:
            return "times of sweeps are missing", None
        eps = 2e-6 * len(c) + 1e-3
        for x, y, z in zip(a, b, c):
            if abs(x + y - z) > 5e-6:
                return "computation %f s and other %f s do not add to %f s" % (x, y, z), None
        if sum(c) < p2p - eps or sum(c) < solve - eps:
            return "sweeps are reported to take %f s, but process %d was delayed in them by %f s" % (sum(c), slow[0], p2p + solve), None
        if sum(a) < solve - eps:
            return "computation is reported to take %f s, but process %d was delayed in it by %f s" % (sum(a), slow[0], solve), None
        if sum(a) > sum(c) - .5 * p2p + eps:
            soft = "computation is reported to take %f s of %f s, although process %d was delayed in communication by %f s" % (sum(a), sum(c), slow[0], p2p)
        inner = sum(c)
    else:
        g = {k: nums(r"^\s*Traverse Timer \(%s\): +#s$" % k, text)[-sweeps:] for k in ("comm", "send", "recv", "setup", "total")}
        if any(len(x) != sweeps for x in g.values()):
            return "times of traversals are missing", None
        s = {k: sum(x) for k, x in g.items()}
        eps = 2e-6 * len(g["total"]) + 1e-3
        for k in ("comm", "setup"):
            if any(x > z + 5e-6 for x, z in zip(g[k], g["total"])):
                return "traversal: '%s' is longer than the total time" % k, None
        for k in ("send", "recv"):
            if any(x > z + 5e-6 for x, z in zip(g[k], g["comm"])):
                return "traversal: '%s' is longer than all of communication" % k, None
        if s["total"] < solve - eps:
            return "traversals are reported to take %f s, but process %d was delayed in them by %f s" % (s["total"], slow[0], solve), None
        if st == "TraverseGraph":
            if s["comm"] < p2p - eps or s["total"] < p2p - eps:
                return "communication is reported to take %f s of %f s, but process %d was delayed in it by %f s" % (s["comm"], s["total"], slow[0], p2p), None
            if deck["MPIType"] == "CapsaicinTwoSided" and s["send"] + s["recv"] < p2p - eps:
                return "sending and receiving are reported to take %f s, but process %d was delayed in them by %f s" % (s["send"] + s["recv"], slow[0], p2p), None
        elif s["comm"] > .5 * s["total"] + .05 or s["comm"] > .2 + eps:
            soft = "communication is reported to take %f s of %f s in local sweeps" % (s["comm"], s["total"])
        if s["setup"] > s["total"] - .5 * solve + eps:
            soft = "setup is reported to take %f s of %f s, although process %d was delayed by %f s after it" % (s["setup"], s["total"], slow[0], solve)
        if nparts == 1 and s["comm"] > s["total"] - .5 * solve + eps:
            soft = "communication is reported to take %f s of %f s, although process %d was delayed outside it by %f s" % (s["comm"], s["total"], slow[0], solve)
        inner = s["total"]
    if inner > nparts * (total[0] + .01) + .01:
        return "sweeps are reported to take %f s, more than the total time of %.2f s" % (inner, total[0]), None
    # source iterations
    n = nums(r"^\s*iteration: # ", text)
    t = [float(x) for x in re.findall(r"^\s*iteration: .* time: " + N + "$", text, re.M)]
    T = nums(r"^Total (?:source iteration|Krylov) time: #$", text)
    V = nums(r"^Average (?:source iteration|Krylov) time: #$", text)
    if len(T) != len(V) or len(t) != len(n):
        return "times of source iterations are missing", None
    if sum(T) > nparts * (total[0] + .01 + .005 * len(T)) + .01:
        return "solves for the source take %.2f s, more than the total time of %.2f s" % (sum(T), total[0]), None
    if si and T:
        heads = [j for j, x in enumerate(n) if x == 0] + [len(n)]
        if len(heads) != len(T) + 1:
            return "%d solves for the source, %d times" % (len(heads) - 1, len(T)), None
        for j, (x, y) in enumerate(zip(T, V)):
            q = t[heads[j]:heads[j + 1]]
            if abs(x / len(q) - y) > .005 + .005 / len(q) + 1e-6:
                return "%d source iterations take %.2f s, on average %.2f s" % (len(q), x, y), None
            if nparts == 1 and sum(q) > x + .006:
                return "source iterations take %f s, all together %.2f s" % (sum(q), x), None
            if max(q) > x + .006:
                return "a source iteration takes %f s, all of them %.2f s" % (max(q), x), None
        if st in cli.SWEEPS + ["PBJ", "Schur"]:
            eps = 2e-6 * len(t) + 1e-3
            if sum(t) < p2p - eps or sum(t) < solve - eps:
                return "source iterations are reported to take %f s, but process %d was delayed in them by %f s" % (sum(t), slow[0], p2p + solve), None
            if sum(T) < p2p - .006 or sum(T) < solve - .006:
                return "source iterations are reported to take %.2f s, but process %d was delayed in them by %f s" % (sum(T), slow[0], p2p + solve), None
    if not si and T:
        k = nums(r"^Krylov iterations: # ", text)
        if len(k) != len(T):
            return "%d Krylov solves, %d times" % (len(k), len(T)), None
        for z, x, y in zip(k, T, V):
            if z > 0 and abs(x / z - y) > .005 + .005 / z + 1e-6:
                return "%d Krylov iterations take %.2f s, on average %.2f s" % (z, x, y), None
        if st in cli.SWEEPS + ["PBJ", "Schur"] and (sum(T) < p2p - .006 or sum(T) < solve - .006):
            return "Krylov iterations are reported to take %.2f s, but process %d was delayed in them by %f s" % (sum(T), slow[0], p2p + solve), None
    return None, soft


def test_times(case):
    m, deck, pr = cli.load(case)
    slow = case["slow"]
    if slow[0] >= case["nparts"] or len(np.unique(case["part"])) < case["nparts"]:
        raise check.Skip()
    info = dict(nontrivial=False, tags=cli.tags(case, deck) + ["slow:" + slow[1], "si%s" % deck["SourceIteration"]])
    soft = None
    for _ in range(4):
        o, f, v = execute(case, m, slow)
        if f:
            return f, info
        info["nontrivial"] = v[slow[0]][4] > 0
        n = v[0][3] / (max(1, case["part"].count(0)) * 2 * int(deck["snOrder"]) ** 2)
        if n < 1:
            raise check.Skip()
        hard, s = times(deck, case["nparts"], slow, o.res.out, v, int(n))
        if hard:
            return hard, info
        if not s:
            return None, info
        soft = s
    return soft + " (in each of four runs)", info


# ------------------------------------------------------------------ schedules
def gen_steps(rng, i):
    return sched.gen(rng, i)


def test_steps(case):
    m, pr = sched.load(case)
    info = dict(nontrivial=m.nc > 1 and case["nparts"] > 1, tags=[case["kind"], "parts%d" % case["nparts"]])
    text = []
    D, f = sched.execute(case, m, text)
    if f:
        return f, info
    a, b = nums(r"^\s*Number of sweep steps: #$", text[0]), nums(r"^\s*Step efficiency: #$", text[0])
    if not len(a) == len(b) == len(case["schedules"]):
        return "%d schedules were computed, the statistics of %d and %d are printed" % (len(case["schedules"]), len(a), len(b)), info
    for k, s in enumerate(case["schedules"]):
        n = int(D[0]["steps%d" % k][0])
        size = np.zeros((len(D), max(n, 1)), int)
        for p, x in enumerate(D):
            for t in x["work%d" % k].reshape(-1, 3)[:, 0]:
                size[p, int(t)] += 1
        if a[k] != n:
            return "schedule %d has %d steps, %d are reported" % (k, n, a[k]), info
        e = len(s[3]) * m.nc / float(len(D) * size.max(axis=0).sum())
        if abs(b[k] - e) > 1e-6:
            return "schedule %d has the step efficiency %f, but %f is reported" % (k, e, b[k]), info
    return None, info


if __name__ == "__main__":
    check.main("C29", [check.Part("counts", gen_counts, test_counts, 350, cli.shrink_case, prepare),
                       check.Part("times", gen_times, test_times, 130, cli.shrink_case, prepare),
                       check.Part("steps", gen_steps, test_steps, 250, sched.shrink, sched.prepare, optional=True)],
               rule="counts: a run (random mesh, partition, options, tolerances, limits) counts its cell solves and compares them with the numbers of iterations and sweeps it prints; "
                    "non-trivial: more than one sweep. times: one process is delayed by known amounts in MPI calls or in cell solves, and the times printed are compared with these amounts, "
                    "with each other and with the time elapsed; non-trivial: it was delayed. steps: the printed number of steps and efficiency of random schedules are compared with the "
                    "schedules themselves; non-trivial: several cells on several processes.")
