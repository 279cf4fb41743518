"""Cases for the schedule harness; oracles for schedules (C08) and priorities (C22)."""
import os
import numpy as np
from . import build, check, cli, dump, mesh as M, ref, run, trav

BIN = {}
U64 = 1 << 64


def prepare():
    BIN["s"] = build.harness("schedule")


def gen(rng, i, hi=90, maxp=5, prio=False):
    sn = int(rng.choice([2, 2, 2, 4, 4, 6]))
    A = 2 * sn * sn
    top = max(2, min(hi, 2600 // A))
    big = rng.random() < .02
    if big:                                                 # thousands of items
        sn, A, top = 2, 8, 3000
        m, kd = cli.gen_mesh(rng, 600, top)
    elif rng.random() < .15:
        m, kd = cli.gen_parallel_mesh(rng, top)
        sn, A = 2, 8
    else:
        m, kd = cli.gen_mesh(rng, 1, top)
        if rng.random() < .2:
            m, kd = cli.tilt(rng, m, sn), kd + "_tilt"
    if m.nc < 1 or not cli.usable(m, sn, kd):
        return None
    part, P = cli.gen_layout(rng, m, maxp)
    if rng.random() < .12:
        P += 1
        s = rng.permutation(P)
        part = [int(s[x]) for x in part]
    S = []
    for _ in range(int(rng.integers(1, 3 if big else 5))):
        k = rng.integers(5)
        if k <= 1:
            an = list(range(A))
        elif k == 2:
            lo, h = sorted(rng.integers(0, A + 1, 2))
            an = list(range(lo, h)) or [int(rng.integers(A))]
        elif k == 3:
            an = [int(x) for x in rng.permutation(A)[:int(rng.integers(1, A + 1))]]
        else:
            an = [int(rng.integers(A))]
        mx = int(rng.choice([1, 1, 2, 3, 5, 12, 50, 300, 100000]))
        mx = max(mx, m.nc * len(an) // 500)
        S.append([mx, int(rng.integers(5)), int(rng.integers(3)), [int(x) for x in an]])
    return dict(mesh=m.to_json(), kind=kd, sn=sn, part=part, nparts=P, schedules=S, lseed=int(rng.integers(2 ** 31)), flip=bool(rng.random() < .2),
                threads=int(rng.choice([1, 1, 2, 3])), prio=int(rng.choice([1, 3, 20, 10000])) if prio else 0)


def load(case):
    m = M.Mesh.from_json(case["mesh"])
    pr = ref.Problem(m, case["sn"], np.ones(m.nc))
    if not cli.ok(pr, case.get("kind")):
        raise check.Skip()
    return m, pr


def execute(case, m, text=None):
    P = case["nparts"]
    with check.Workdir() as d:
        M.write_pmesh(M.split(m, case["part"], P, np.random.default_rng(case["lseed"]), flip_nodes=case["flip"]), os.path.join(d, "m.pmesh"))
        with open(os.path.join(d, "c"), "w") as f:
            for s in case["schedules"]:
                f.write("%d %d %d %d %s\n" % (s[0], s[1], s[2], len(s[3]), " ".join(map(str, s[3]))))
        arg = [BIN["s"], "m.pmesh", str(case["sn"]), "c", "o", str(case.get("threads", 1))] + ([str(case["prio"])] if case.get("prio") else [])
        r = run.mpirun(P, arg, threads=case.get("threads", 1), cwd=d, timeout=25)
        if text is not None:
            text.append(r.out)
        if r.timed_out:
            return None, "computing schedules or priorities does not end: " + r.tail(300)
        if r.rc != 0:
            return None, "computing schedules or priorities for a valid mesh failed: " + r.tail(500)
        return [dump.read(os.path.join(d, "o.%d" % p)) for p in range(P)], None


def sign(pr):
    """(A,C,4): 1 where particles leave through the face, -1 where they enter, 0 for parallel faces."""
    return np.sign(pr.an).astype(int)


def where(case, pr):
    nb = pr.topo.nb
    part = np.asarray(case["part"])
    inner = nb >= 0
    remote = inner & (part[np.where(inner, nb, 0)] != part[:, None])
    return nb, inner & ~remote, remote


def check_schedule(case, m, pr, D):
    P, part = case["nparts"], case["part"]
    sg = sign(pr)
    nb, local, remote = where(case, pr)
    for k, (mx, ia, ie, angles) in enumerate(case["schedules"]):
        w = "schedule %d (limit %d, options %d/%d, %d directions)" % (k, mx, ia, ie, len(angles))
        nst = [int(x["steps%d" % k][0]) for x in D]
        if len(set(nst)) > 1:
            return "%s: numbers of steps differ between processes: %s" % (w, nst)
        at, pos = {}, {}
        for p, x in enumerate(D):
            W = x["work%d" % k].reshape(-1, 3)
            lg = x["lgCell"]
            cnt = {}
            for j, (t, c, a) in enumerate(W):
                if not (0 <= c < len(lg)) or int(a) not in angles:
                    return "%s: process %d has cell %d, direction %d" % (w, p, c, a)
                key = int(lg[c]), int(a)
                if key in at:
                    return "%s: cell %d, direction %d appears twice" % ((w,) + key)
                at[key], pos[key] = int(t), j
                cnt[int(t)] = cnt.get(int(t), 0) + 1
                if cnt[int(t)] > mx:
                    return "%s: process %d has more than %d items in step %d" % (w, p, mx, t)
        if len(at) != m.nc * len(angles):
            c, a = next((c, a) for c in range(m.nc) for a in angles if (c, a) not in at)
            return "%s: cell %d, direction %d is missing" % (w, c, a)
        need = set()                                       # (step, from, to)
        for (c, a), t in at.items():
            for f in range(4):
                n = int(nb[c, f])
                if n < 0 or sg[a, c, f] <= 0:
                    continue
                if local[c, f]:
                    if pos[n, a] <= pos[c, a]:
                        return "%s: cell %d comes before cell %d, which is upstream of it for direction %d" % (w, n, c, a)
                else:
                    if at[n, a] <= t:
                        return "%s: cell %d is in step %d, its upstream neighbour %d on another process is in step %d (direction %d)" % (w, n, at[n, a], c, t, a)
                    need.add((t, part[c], part[n]))
        send, recv = set(), set()
        for p, x in enumerate(D):
            for nm, S in (("send", send), ("recv", recv)):
                L = [(int(t), int(q)) for t, q in x["%s%d" % (nm, k)].reshape(-1, 2)]
                if len(set(L)) != len(L):
                    return "%s: process %d lists a partner twice (%s)" % (w, p, nm)
                for t, q in L:
                    S.add((t, p, q) if nm == "send" else (t, q, p))
        if send != recv:
            t, p, q = sorted(send ^ recv)[0]
            return "%s: step %d: process %d %s to %d, which %s" % (w, t, p, "sends" if (t, p, q) in send else "does not send", q,
                                                                  "expects it" if (t, p, q) in recv else "does not expect it")
        if send != need:
            t, p, q = sorted(send ^ need)[0]
            return "%s: step %d: process %d %s for process %d but %s" % (w, t, p, "has no flux" if (t, p, q) in send else "has flux", q,
                                                                        "sends" if (t, p, q) in send else "does not send")
    return None


# ------------------------------------------------------------------ priorities
def levels(pr, angles, sg=None):
    """(A,C) longest downstream path over the whole mesh; -1 for other directions."""
    sg = sign(pr) if sg is None else sg
    nb = pr.topo.nb
    C = pr.m.nc
    B = -np.ones((pr.na, C), int)
    for a in angles:
        todo = [int(((sg[a, c] > 0) & (nb[c] >= 0)).sum()) for c in range(C)]
        q = [c for c in range(C) if todo[c] == 0]
        B[a] = 0
        for c in q:
            for f in range(4):
                n = int(nb[c, f])
                if n >= 0 and sg[a, c, f] < 0:
                    B[a, n] = max(B[a, n], B[a, c] + 1)
                    todo[n] -= 1
                    if todo[n] == 0:
                        q.append(n)
    return B


def intra(case, pr, angles, B, sg=None):
    """{mode: (A,C) priorities} for modes 1-4 and the largest level."""
    sg = sign(pr) if sg is None else sg
    nb, local, remote = where(case, pr)
    C = pr.m.nc
    mb = int(max(0, B[list(angles)].max())) if len(angles) else 0
    out = {1: np.maximum(B, 0).astype(object)}
    for mode, (sc, sh, dec) in {2: (1, 0, 0), 3: (1, mb, 1), 4: (mb, mb, 1)}.items():
        V = np.zeros((pr.na, C), object)
        for a in angles:
            # downstream cells first: ascending level
            for c in np.argsort(B[a], kind="stable"):
                v = 0
                for f in range(4):
                    n = int(nb[c, f])
                    if n < 0 or sg[a, c, f] <= 0:
                        continue
                    if remote[c, f]:
                        v = max(v, int(B[a, n]) * sc + sh)
                    elif V[a, n] > 0:
                        v = max(v, V[a, n] - dec)
                V[a, c] = v
        out[mode] = V
    return out, mb


def check_priorities(case, m, pr, D):
    P, part = case["nparts"], np.asarray(case["part"])
    A = pr.na
    angles = list(range(A))
    # faces parallel to a direction: as the program's rounding classifies them
    an, bad = trav.parallel_faces(pr, D)
    if bad:
        return bad
    sg = np.sign(an).astype(int)
    B = levels(pr, angles, sg)
    V, mb = intra(case, pr, angles, B, sg)
    cells = [np.nonzero(part == p)[0] for p in range(P)]
    for ia in range(1, 5):
        ref_ = V[ia]
        got = []
        for ie in range(3):
            g = np.zeros((A, m.nc), object)
            for x in D:
                lg = x["lgCell"]
                q = x["prio%d%d" % (ia, ie)].reshape(len(lg), A)
                for i, c in enumerate(lg):
                    for a in range(A):
                        g[a, int(c)] = int(q[i, a]) % U64
            got.append(g)
        d = np.argwhere(got[0] != ref_)
        if len(d):
            a, c = d[0]
            return "option %d, interleaved: cell %d, direction %d (process %d) has priority %d, its definition gives %d" % (ia, c, a, part[c], got[0][a, c], ref_[a, c])
        for ie in (1, 2):
            # within a direction of a process the order is that of the intra-direction priorities
            sh = {}
            for p in range(P):
                for a in range(A):
                    dd = set((got[ie][a, cells[p]] - ref_[a, cells[p]]).tolist())
                    if len(dd) > 1:
                        return "option %d/%d: process %d, direction %d: priorities are not those of the direction moved by a constant" % (ia, ie, p, a)
                    if dd:
                        sh[p, a] = dd.pop()
            if ie == 1:
                for a in angles:
                    s = {sh[p, a] for p in range(P) if (p, a) in sh}
                    if len(s) > 1:
                        return "option %d/1: direction %d is moved by different amounts on different processes: %s" % (ia, a, sorted(s))
                rng_ = [(got[1][a].min(), got[1][a].max()) for a in angles]
                o = sorted(angles, key=lambda a: (rng_[a][0], rng_[a][1]))
                for a, b in zip(o, o[1:]):
                    if rng_[a][1] > rng_[b][0]:
                        return "option %d/1: priorities of directions %d and %d overlap: %s, %s" % (ia, a, b, rng_[a], rng_[b])
            else:
                for p in range(P):
                    if not len(cells[p]):
                        continue
                    X = [(got[2][a, cells[p]].min(), got[2][a, cells[p]].max(), ref_[a, cells[p]].max()) for a in angles]
                    o = sorted(angles, key=lambda a: X[a][:2])
                    for a, b in zip(o, o[1:]):
                        if X[a][1] > X[b][0]:
                            return "option %d/2: process %d: priorities of directions %d and %d overlap: %s, %s" % (ia, p, a, b, X[a][:2], X[b][:2])
                        if X[a][2] > X[b][2] and not (X[a][:2] == X[b][:2]):
                            return "option %d/2: process %d: direction %d with highest priority %d is ranked below direction %d with %d" % (ia, p, a, X[a][2], b, X[b][2])
    return None


def check_picks(case, m, pr, D):
    """Schedules take ready items of highest priority first."""
    P, part = case["nparts"], np.asarray(case["part"])
    sg = sign(pr)
    nb, local, remote = where(case, pr)
    for k, (mx, ia, ie, angles) in enumerate(case["schedules"]):
        if ia == 0 or not angles:
            continue
        B = levels(pr, angles)
        V, mb = intra(case, pr, angles, B)
        V = V[ia]
        tight = mb + 1 >= m.nc or mb == 0
        over = {}
        for p, x in enumerate(D):
            cells = np.nonzero(part == p)[0]
            lg = x["lgCell"]
            hi = {a: max([V[a, c] for c in cells], default=0) for a in angles}
            W = x["work%d" % k].reshape(-1, 3)
            when = {(int(lg[c]), int(a)): int(t) for t, c, a in W}
            # steps at which data from other processes are there
            allwhen = {}
            for q, y in enumerate(D):
                for t, c, a in y["work%d" % k].reshape(-1, 3):
                    allwhen[int(y["lgCell"][c]), int(a)] = int(t)
            need, avail = {}, {}
            for c in cells:
                for a in angles:
                    need[int(c), a] = int(((sg[a, c] < 0) & local[c]).sum())
                    avail[int(c), a] = max([allwhen[int(nb[c, f]), a] + 1 for f in range(4) if sg[a, c, f] < 0 and remote[c, f]], default=0)
            ready, wait = set(), {}
            cur = -1

            def free(it):
                if avail[it] <= cur:
                    ready.add(it)
                else:
                    wait.setdefault(avail[it], []).append(it)
            for it in need:
                if need[it] == 0:
                    free(it)
            for t, c, a in W:
                it = (int(lg[c]), int(a))
                while cur < t:
                    cur += 1
                    for z in wait.pop(cur, []):
                        ready.add(z)
                if it not in ready:
                    return None                             # judged by C08
                mine = V[it[1], it[0]]
                for z in ready:
                    if z == it:
                        continue
                    v = V[z[1], z[0]]
                    if z[1] == it[1] or ie == 0:
                        bad = v > mine
                    elif ie == 2:
                        bad = not tight and hi[z[1]] > hi[it[1]]
                    else:
                        bad = False
                        if not tight:
                            over.setdefault((it[1], z[1]), (p, int(t), it, z))
                            bad = (z[1], it[1]) in over
                    if bad:
                        return "schedule %d (options %d/%d): process %d, step %d takes cell %d, direction %d (%d) while cell %d, direction %d (%d) is ready%s" % (
                            (k, ia, ie, p, t) + it + (mine,) + z + (v, "" if ie != 1 else ", and elsewhere ranks the directions the other way round"))
                ready.discard(it)
                for f in range(4):
                    if local[it[0], f] and sg[it[1], it[0], f] > 0:
                        z = (int(nb[it[0], f]), it[1])
                        need[z] -= 1
                        if need[z] == 0:
                            free(z)
    return None


def shrink(case):
    S = case["schedules"]
    if len(S) > 1:
        for j in range(len(S)):
            yield dict(case, schedules=S[:j] + S[j + 1:])
    if case.get("threads", 1) > 1:
        yield dict(case, threads=1)
    for j, s in enumerate(S):
        if len(s[3]) > 1:
            h = len(s[3]) // 2
            for an in (s[3][:h], s[3][h:]):
                yield dict(case, schedules=S[:j] + [s[:3] + [an]] + S[j + 1:])
        for q, v in ((0, 100000), (1, 1), (2, 0)):
            if s[q] != v:
                yield dict(case, schedules=S[:j] + [s[:q] + [v] + s[q + 1:]] + S[j + 1:])
    m = M.Mesh.from_json(case["mesh"])
    size = m.nc // 2
    while size >= 1:
        for a in range(0, m.nc, size):
            keep = [c for c in range(m.nc) if not (a <= c < a + size)]
            if keep:
                yield dict(case, mesh=m.subset(keep).to_json(), part=[case["part"][c] for c in keep])
        size //= 2
    for p in range(case["nparts"] - 1, 0, -1):
        yield dict(case, nparts=case["nparts"] - 1, part=[x - (x >= p) for x in case["part"]])
