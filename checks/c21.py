#!/usr/bin/env python3-vt
"""C21: the Krylov solver solves any well-conditioned linear system."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
from vt import build, check, dump, run

B = {}


def prepare():
    B["k"] = build.harness("krylov")


def gen(rng, i):
    n = int(rng.choice([1, 2, 3, 5, 8, 13, 20, 27, 40, 80]))
    P = int(rng.choice([1, 2, 3, 4]))
    cut = np.sort(rng.integers(0, n + 1, P - 1)) if rng.random() < .7 else np.sort(rng.choice([0, n], P - 1))
    sizes = np.diff(np.concatenate([[0], cut, [n]])).astype(int)
    mats = [dict(kind=str(rng.choice(["contraction", "spd", "general" if n <= 27 else "spd", "diagonal", "scaled"])), seed=int(rng.integers(2 ** 31)),
                 scale=float(10 ** rng.uniform(-5, 5))) for _ in range(int(rng.integers(1, 3)))]
    nv = int(rng.integers(1, 5))
    vecs = [dict(seed=int(rng.integers(2 ** 31)), scale=float(10 ** rng.uniform(-6, 6)), zero=bool(rng.random() < .05)) for _ in range(nv)]
    ops, guess = [], False
    for _ in range(int(rng.integers(1, 3))):
        ops.append(["N", float(10 ** rng.uniform(-11, -1)), int(rng.choice([1, 2, 5, 1000, 5000, 10000]))])
        ops.append(["A", int(rng.integers(len(mats)))])
        guess = False
        for _ in range(int(rng.integers(1, 5))):
            if rng.random() < .2:
                ops.append(["A", int(rng.integers(len(mats)))])
            ops.append(["B", int(rng.integers(nv))])
            k = rng.integers(5)
            if k == 0:
                ops.append(["X", "random", int(rng.integers(2 ** 31))])
            elif k == 1:
                ops.append(["X", "solution", 0])
            elif k == 2:
                ops.append(["X", "near", int(rng.integers(2 ** 31))])
            if not guess and rng.random() < .5:
                guess = True
                ops.append(["G"])
            ops.append(["S"])
            if rng.random() < .2:
                ops.append(["S"])
    return dict(n=n, sizes=[int(s) for s in sizes], mats=mats, vecs=vecs, ops=ops)


def matrix(s, n):
    r = np.random.default_rng(s["seed"])
    k = s["kind"]
    if k == "diagonal":
        A = np.diag(r.uniform(.5, 3, n))
    elif k == "spd":
        Q = np.linalg.qr(r.normal(size=(n, n)))[0]
        A = (Q * r.uniform(1, 20, n)) @ Q.T
    elif k == "general":
        U, V = (np.linalg.qr(r.normal(size=(n, n)))[0] for _ in range(2))
        A = (U * r.uniform(1, 10, n)) @ V.T
    else:
        E = r.normal(size=(n, n))
        A = np.eye(n) - E * (r.uniform(.05, .8) / max(1e-300, np.linalg.norm(E, 2)))
    return A * s["scale"]


def test(case):
    n, sizes = case["n"], case["sizes"]
    P = len(sizes)
    mats = [matrix(s, n) for s in case["mats"]]
    V = [np.zeros(n) if v["zero"] else np.random.default_rng(v["seed"]).normal(size=n) * v["scale"] for v in case["vecs"]]
    lines, A, b = [], None, None
    vecs = list(V)
    for o in case["ops"]:
        if o[0] == "X":
            sol = np.linalg.solve(A, b)
            r = np.random.default_rng(o[2])
            x = sol if o[1] == "solution" else sol * (1 + 1e-4 * r.normal(size=n)) if o[1] == "near" else r.normal(size=n) * (np.linalg.norm(sol) + 1e-30) * 10 ** r.choice([0., 0., 3., 6., -3.])
            vecs.append(x)
            lines.append("X %d" % (len(vecs) - 1))
        else:
            lines.append(" ".join(repr(y) if isinstance(y, float) else str(y) for y in o))
            if o[0] == "A":
                A = mats[o[1]]
            elif o[0] == "B":
                b = V[o[1]]
    info = dict(nontrivial=n > 1 and P > 1, tags=["n%d" % n, "procs%d" % P, "empty" if 0 in sizes else "full"] + [s["kind"] for s in case["mats"]])
    with check.Workdir() as d:
        with open(os.path.join(d, "d"), "wb") as f:
            f.write(struct.pack("<Q%dQQ" % P, n, *sizes, len(mats)) + b"".join(m.astype("<f8").tobytes() for m in mats) + struct.pack("<Q", len(vecs)) +
                    b"".join(v.astype("<f8").tobytes() for v in vecs))
        with open(os.path.join(d, "s"), "w") as f:
            f.write("\n".join(lines) + "\n")
        r = run.mpirun(P, [B["k"], "d", "s", "o"], cwd=d, timeout=45)
        if r.timed_out or r.rc != 0:
            return "the solver did not finish: " + r.tail(500), info
        D = [dump.read(os.path.join(d, "o.%d" % p)) for p in range(P)]
    k, nx = 0, len(V)
    x = np.zeros(n)
    nrm = np.linalg.norm
    for o in case["ops"]:
        if o[0] == "N":
            rtol, lim, guess, x = o[1], o[2], False, np.zeros(n)
        elif o[0] == "A":
            A, mk = mats[o[1]], case["mats"][o[1]]["kind"]
        elif o[0] == "B":
            b = V[o[1]]
        elif o[0] == "X":
            x = vecs[nx]
            nx += 1
        elif o[0] == "G":
            guess = True
        else:
            w = "solve %d (%s, n=%d, rtol %.2g, limit %d, %s guess)" % (k, mk, n, rtol, lim, "with" if guess else "without")
            x0 = x if guess else np.zeros(n)
            x = np.concatenate([y["x%d" % k] for y in D])
            if (np.concatenate([y["b%d" % k] for y in D]) != b).any():
                return "%s: the right-hand side was changed" % w, info
            its = {int(y["it%d" % k][0]) for y in D}
            res = [float(y["res%d" % k][0]) for y in D]
            if len(its) > 1 or max(res) - min(res) > 1e-12 * max(res):
                return "%s: processes report different iterations or residuals: %s %s" % (w, its, res), info
            it = its.pop()
            if len(x) != n or not np.isfinite(x).all():
                return "%s: the solution is not finite" % w, info
            r0, r1 = nrm(b - A @ x0), nrm(b - A @ x)
            floor = 1e-13 * (nrm(A, 2) * max(nrm(x), nrm(x0)) + nrm(b)) * 10
            goal = max(rtol * (nrm(b) if nrm(b) > 0 else r0), 1e-50)          # PETSc's absolute tolerance
            if it > lim:
                return "%s: %d iterations" % (w, it), info
            if r1 > max(r0, goal) * (1 + 1e-8) + floor:
                return "%s: residual %.6g after %d iterations, %.6g before" % (w, r1, it, r0), info
            done = r1 <= goal * (1 + 1e-6) + floor
            if not done and it < lim:
                return "%s: stopped after %d iterations with residual %.6g, tolerance %.6g" % (w, it, r1, goal), info
            if abs(res[0] - r1) > 1e-5 * max(r1, res[0]) + floor:
                return "%s: residual norm %.9g reported, is %.9g" % (w, res[0], r1), info
            if r0 <= goal * (1 - 1e-6) - floor and (it > 0 or nrm(x - x0) > 1e-14 * nrm(x0)):
                return "%s: %d iterations made although the initial guess is within tolerance" % (w, it), info
            if not done and (n <= 27 and lim > n + 2 or lim >= 1000):
                return "%s: not solved within %d iterations (residual %.6g, tolerance %.6g)" % (w, it, r1, goal), info
            k += 1
    return None, info


def shrink(case):
    O = case["ops"]
    for j, o in enumerate(O):
        if o[0] in "SXG" or o[0] == "A" and O[j - 1][0] != "N" or o[0] == "B" and "B" in [p[0] for p in O[max(i for i in range(j) if O[i][0] == "N"):j]]:
            yield dict(case, ops=O[:j] + O[j + 1:])
    if len(case["sizes"]) > 1:
        yield dict(case, sizes=[case["n"]])


if __name__ == "__main__":
    check.main("C21", [check.Part("solve", gen, test, 500, shrink, prepare, thorough=20000, optional=True)],
               rule="a case is one or two operators (well-conditioned symmetric, general, diagonal, contraction; sizes 1 to 80; any block distribution, some blocks empty) and a "
                    "sequence of solver constructions, right-hand sides, initial guesses and solves; each returned vector is judged by its residual computed from the matrix. "
                    "Non-trivial: several unknowns on several processes.")
