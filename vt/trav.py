"""Cases for the traversal harness and the order oracle (shared by C07 and C22)."""
import os
import numpy as np
from . import build, check, cli, dump, mesh as M, ref, run

BIN = {}


def prepare(san=False):
    BIN["t"] = build.harness("traverse")


def gen_one(rng, comm=None):
    return [int(rng.random() < .4), int(rng.random() < .75) if comm is None else comm,
            int(rng.choice([1, 5, 8, 24, 24, 72, 1000, 20000])), int(rng.choice([1, 1, 2, 3, 10, 100, 100000])),
            int(rng.integers(2)), int(rng.integers(5)), int(rng.choice([2, 3, 10, 1000])), int(rng.choice([0, 0, 1, 2, 3]))]


def gen(rng, i, hi=70, maxp=5, comm=None):
    sn = int(rng.choice([2, 2, 4, 6]))
    top = max(2, min(hi, 2500 // (2 * sn * sn)))
    if rng.random() < .15:
        m, kd = cli.gen_parallel_mesh(rng, top)
        sn = 2
    else:
        m, kd = cli.gen_mesh(rng, 1, top)
        if rng.random() < .2:
            m, kd = cli.tilt(rng, m, sn), kd + "_tilt"
    if m.nc < 1 or not cli.usable(m, sn, kd):
        return None
    part, P = cli.gen_layout(rng, m, maxp)
    if rng.random() < .1:
        P += 1
        s = rng.permutation(P)
        part = [int(s[x]) for x in part]
    T = [gen_one(rng, comm) for _ in range(int(rng.integers(1, 6)))]
    # total payload bounded
    for t in T:
        if t[2] > 1000 and m.nc * 2 * sn * sn > 600:
            t[2] = 72
    return dict(mesh=m.to_json(), kind=kd, sn=sn, part=part, nparts=P, threads=cli.gen_threads(rng), traversals=T,
                lseed=int(rng.integers(2 ** 31)), flip=bool(rng.random() < .2))


def load(case):
    m = M.Mesh.from_json(case["mesh"])
    pr = ref.Problem(m, case["sn"], np.ones(m.nc))
    if not cli.ok(pr, case.get("kind")):
        raise check.Skip()
    return m, pr


def execute(case, m):
    P = case["nparts"]
    with check.Workdir() as d:
        M.write_pmesh(M.split(m, case["part"], P, np.random.default_rng(case["lseed"]), flip_nodes=case["flip"]), os.path.join(d, "m.pmesh"))
        with open(os.path.join(d, "c"), "w") as f:
            for t in case["traversals"]:
                f.write(" ".join(map(str, t)) + "\n")
        r = run.mpirun(P, [BIN["t"], "m.pmesh", str(case["sn"]), str(case["threads"]), "c", "o"], threads=case["threads"], cwd=d, timeout=20)
        if r.timed_out:
            return None, "traversal does not end: " + r.tail(300)
        if r.rc != 0:
            return None, "traversal of a valid mesh failed: " + r.tail(500)
        return [dump.read(os.path.join(d, "o.%d" % p)) for p in range(P)], None


W = 12
OUT, IN = 0, 3                           # boundary kinds: + 0 partition boundary, + 1 mesh boundary, + 2 interior


def parallel_faces(pr, D):
    """omega.n with the faces parallel to a direction classified as the program does (rounding decides whether
    they are incoming, outgoing or neither); or a complaint when its two sides disagree."""
    an = pr.an.copy()
    for x in D:
        lg = x["lgCell"]
        io = x["inout"].reshape(pr.na, len(lg), 4)
        v = np.where(io == 1, 1e-17, np.where(io == 2, -1e-17, 0.0))
        sub = an[:, lg]
        an[:, lg] = np.where(sub == 0, v, sub)
    for (c, k), (c2, k2) in pr.pairs.items():
        if (np.sign(an[:, c, k]) != -np.sign(an[:, c2, k2])).any():
            return None, "face between cells %d and %d: its sides disagree about which is upstream" % (c, c2)
    return an, None


def check_order(case, m, pr, D, priorities=False):
    """None or a complaint; with priorities=True only the priority rule is judged."""
    an, bad = parallel_faces(pr, D)
    if bad:
        return bad
    part, P, A = case["part"], case["nparts"], pr.na
    topo = pr.topo
    for k, t in enumerate(case["traversals"]):
        back, comm = t[0], t[1]
        for p in range(P):
            x = D[p]
            lg = [int(g) for g in x["lgCell"]]
            n = len(lg)
            loc = {g: i for i, g in enumerate(lg)}
            sides = x["side"].reshape(n, 4)
            side_of = {int(sides[i, f]): (i, f) for i in range(n) for f in range(4) if sides[i, f] >= 0}
            ev = x["log%d" % k].reshape(-1, W)
            ev = ev[np.argsort(ev[:, 1])]
            w = "traversal %d %s, process %d" % (k, t, p)
            # upstream faces of each (cell, angle)
            sgn = (an[:, lg] < 0) if not back else (an[:, lg] > 0)          # (A,n,4)
            nb = topo.nb[lg]                                                       # (n,4)
            local = np.array([[h >= 0 and part[h] == p for h in row] for row in nb], bool).reshape(n, 4)
            remote = (nb >= 0) & ~local
            need = (sgn & local[None]).sum(2) + ((sgn & remote[None]).sum(2) if comm else 0)     # (A,n)
            started, ended = np.zeros((A, n), int), np.zeros((A, n), int)
            got, asked = set(), {}
            ready = {}
            thread_of = {}
            if priorities:
                for e in ev:
                    if e[0] == 0:
                        thread_of[int(e[4])] = int(e[2])
                prio = {(int(e[3]), int(e[4])): int(e[11]) % 2 ** 64 for e in ev if e[0] == 0}
                for a in range(A):
                    for i in np.nonzero(need[a] == 0)[0]:
                        ready.setdefault(thread_of.get(a), {})[int(i), a] = prio.get((int(i), a))

            def dec(i, a):
                need[a, i] -= 1
                if priorities and need[a, i] == 0:
                    ready.setdefault(thread_of.get(a), {})[i, a] = prio.get((i, a))
            for e in ev:
                kind, i, a, f = int(e[0]), int(e[3]), int(e[4]), int(e[5])
                if kind == 0:
                    if not (0 <= i < n and 0 <= a < A):
                        return "%s: visits cell %d, direction %d" % (w, i, a)
                    if started[a, i]:
                        return "%s: cell %d, direction %d is visited twice" % (w, lg[i], a)
                    if need[a, i] > 0:
                        return "%s: cell %d, direction %d is visited before %d of its upstream neighbours" % (w, lg[i], a, need[a, i])
                    started[a, i] = 1
                    if priorities:
                        r = ready[thread_of[a]]
                        best = max(r.values())
                        mine = r.pop((i, a))
                        if mine != best:
                            j = max(r, key=r.get)
                            return "%s: cell %d, direction %d of priority %d is visited while cell %d, direction %d of priority %d is ready" % (
                                w, lg[i], a, mine, lg[j[0]], j[1], best)
                    else:
                        for f in range(4):
                            bt, ad = (int(e[10]) >> (8 * f)) & 255, int(e[6 + f])
                            q = an[a, lg[i], f]
                            h = int(nb[i, f])
                            where = 1 if h < 0 else 2 if local[i, f] else 0
                            okk = {OUT + where} if q > 0 else {IN + where} if q < 0 else {OUT + where, IN + where}
                            if bt not in okk:
                                return "%s: cell %d, direction %d, face %d has boundary kind %d, expected %s" % (w, lg[i], a, f, bt, sorted(okk))
                            if where == 2 and ad != loc[h]:
                                return "%s: cell %d, face %d: adjacent cell %d, is %d" % (w, lg[i], f, ad, loc[h])
                            if where == 0 and ad != int(sides[i, f]):
                                return "%s: cell %d, face %d: side %d, is %d" % (w, lg[i], f, ad, sides[i, f])
                elif kind == 1:
                    ended[a, i] += 1
                    down = an[a, lg[i]] * (-1 if back else 1)
                    for f in range(4):
                        if down[f] > 0 and local[i, f]:
                            dec(loc[int(nb[i, f])], a)
                elif kind == 2:
                    if not comm:
                        return "%s: side data without communication" % w
                    if i not in side_of:
                        return "%s: data for side %d, which does not exist" % (w, i)
                    if (i, a) in got:
                        return "%s: data of side %d, direction %d delivered twice" % (w, i, a)
                    got.add((i, a))
                    c, f2 = side_of[i]
                    if not (remote[c, f2] and sgn[a, c, f2]):
                        return "%s: data delivered for side %d, direction %d, which is not upstream" % (w, i, a)
                    if f != 1:
                        return "%s: data of side %d (cell %d), direction %d were altered on the way" % (w, i, lg[c], a)
                    dec(c, a)
                elif kind == 3:
                    if not ended[a, i]:
                        return "%s: data of cell %d, direction %d are taken before it is done" % (w, lg[i], a)
                    if not remote[i, f]:
                        return "%s: data of cell %d, face %d are asked for; it is not a partition boundary" % (w, lg[i], f)
                    asked[i, f, a] = asked.get((i, f, a), 0) + 1
            if not (started == 1).all() or not (ended == 1).all():
                a, i = (int(z[0]) for z in np.nonzero(started != 1)) if (started != 1).any() else (0, 0)
                return "%s: cell %d, direction %d was not visited" % (w, lg[i] if n else -1, a)
            if comm:
                want = int((sgn & remote[None]).sum())
                if len(got) != want:
                    return "%s: data of %d partition sides delivered, %d are upstream" % (w, len(got), want)
    return None


def shrink(case):
    T = case["traversals"]
    if len(T) > 1:
        for j in range(len(T)):
            yield dict(case, traversals=T[:j] + T[j + 1:])
    if case["threads"] > 1:
        yield dict(case, threads=1)
    for j, t in enumerate(T):
        for q, v in ((7, 0), (5, 0), (2, 8), (3, 100000), (4, 0)):
            if t[q] != v:
                yield dict(case, traversals=T[:j] + [t[:q] + [v] + t[q + 1:]] + T[j + 1:])
    m = M.Mesh.from_json(case["mesh"])
    size = m.nc // 2
    while size >= 1:
        for a in range(0, m.nc, size):
            keep = [c for c in range(m.nc) if not (a <= c < a + size)]
            if keep:
                yield dict(case, mesh=m.subset(keep).to_json(), part=[case["part"][c] for c in keep])
        size //= 2
    for p in range(case["nparts"] - 1, 0, -1):
        yield dict(case, nparts=case["nparts"] - 1, part=[x - (x >= p) for x in case["part"]])
