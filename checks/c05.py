#!/usr/bin/env python3-vt
"""C05: each quadrature integrates the sphere exactly to its order."""
import math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
from vt import build, check, cli, dump, env, mesh as M, ref, run

B = {}
CACHE = {}
TOL = 2e-12      # the published table has 16 decimals: up to 4e-13 relative in the smallest weights


def prepare():
    B["q"] = build.harness("quad")


def table(n, fresh=False):
    """The quadrature of order n, or a string when it is refused."""
    if n not in CACHE or fresh:
        with check.Workdir() as d:
            r = run.run([B["q"], str(n), os.path.join(d, "o")], cwd=d)
            if r.rc == 0 and not r.timed_out:
                CACHE[n] = dump.read(os.path.join(d, "o.0"))
            else:
                CACHE[n] = "order %d: " % n + r.tail(300)
    return CACHE[n]


# ---------------------------------------------------------------- structure of the table
def gen_table(rng, i):
    return dict(n=2 + 2 * (i % 15))


def test_table(case):
    n = case["n"]
    q = table(n, True)
    info = dict(nontrivial=True, tags=["order%d" % n])
    if isinstance(q, str):
        return "a supported order is refused: " + q, info
    A = 2 * n * n
    if int(q["nAngles"][0]) != A:
        return "order %d has %d directions, expected %d" % (n, q["nAngles"][0], A), info
    om = q["omega"].reshape(A, 3)
    if not (np.array_equal(om[:, 0], q["xi"]) and np.array_equal(om[:, 1], q["eta"]) and np.array_equal(om[:, 2], q["mu"])):
        return "order %d: the direction vector is not (xi, eta, mu)" % n, info
    e = np.abs((om ** 2).sum(1) - 1).max()
    if not e < 1e-13:
        return "order %d: a direction is not of unit length (off by %g)" % (n, e), info
    if not (q["w"] > 0).all():
        return "order %d: a weight is not positive" % n, info
    if abs(q["w"].sum() - 4 * math.pi) > 1e-12:
        return "order %d: the weights sum to %.16g, not to 4 pi" % (n, q["w"].sum()), info
    rom, rw = ref.quadrature(n)
    d = np.abs(om - rom).max(1)
    # the polar sine amplifies the rounding of the tabulated cosines near the poles
    if (d > 1e-13).any():
        a = int(np.argmax(d))
        return "order %d, direction %d is %s, expected %s" % (n, a, om[a].tolist(), rom[a].tolist()), info
    d = np.abs(q["w"] - rw)
    if (d > TOL * rw).any():
        a = int(np.argmax(d / rw))
        return "order %d: weight %d is %.17g, expected %.17g" % (n, a, q["w"][a], rw[a]), info
    # sign changes of each coordinate permute the directions, with equal weights
    for k in range(3):
        f = om.copy()
        f[:, k] *= -1
        D = np.abs(f[:, None] - om[None]).max(2) if A <= 800 else None
        if D is None:
            j = np.array([int(np.argmin(np.abs(om - x).max(1))) for x in f])
            dist = np.abs(f - om[j]).max(1)
        else:
            j = D.argmin(1)
            dist = D[np.arange(A), j]
        if dist.max() > 1e-13 or len(set(j)) != A or np.abs(q["w"][j] - q["w"]).max() > 1e-13:
            return "order %d is not symmetric in coordinate %d" % (n, k), info
    return None, info


# ---------------------------------------------------------------- integration
def gen_poly(rng, i):
    n = int(rng.choice(np.arange(2, 31, 2)))
    deg = 2 * n - 1
    t = []
    for _ in range(int(rng.integers(1, 6))):
        k = int(rng.integers(0, deg + 1)) if rng.random() < .5 else int(rng.integers(max(0, deg - 2), deg + 1))
        if rng.random() < .5:
            a, b = sorted(int(x) for x in rng.integers(0, k + 1, 2))
            t.append(dict(kind="mono", p=[a, b - a, k - b], c=float(rng.normal())))
        else:
            v = rng.normal(size=3)
            v = v / np.linalg.norm(v)
            t.append(dict(kind="plane", v=[float(x) for x in v], k=k, c=float(rng.normal())))
    return dict(n=n, terms=t)


def dfact(k):
    return math.prod(range(k, 0, -2)) if k > 0 else 1


def exact(t):
    if t["kind"] == "mono":
        p = t["p"]
        if any(x % 2 for x in p):
            return 0.0
        num = dfact(p[0] - 1) * dfact(p[1] - 1) * dfact(p[2] - 1)
        return t["c"] * 4 * math.pi * (num / dfact(sum(p) + 1))
    if t["k"] % 2:
        return 0.0
    return t["c"] * 4 * math.pi / (t["k"] + 1) * float(np.linalg.norm(t["v"])) ** t["k"]


def test_poly(case):
    q = table(case["n"])
    info = dict(nontrivial=any(abs(exact(t)) > 0 for t in case["terms"]), tags=["order%d" % case["n"]])
    if isinstance(q, str):
        return "a supported order is refused: " + q, info
    om = q["omega"].reshape(-1, 3)
    got = want = size = 0.0
    for t in case["terms"]:
        v = np.prod(om ** np.array(t["p"]), axis=1) if t["kind"] == "mono" else (om @ np.array(t["v"])) ** t["k"]
        got += t["c"] * float(q["w"] @ v)
        want += exact(t)
        size += abs(t["c"]) * 4 * math.pi
    if not abs(got - want) <= 1e-12 * size * (1 + case["n"] / 8):
        return "order %d integrates a polynomial of degree <= %d to %.16g, exact value %.16g" % (case["n"], 2 * case["n"] - 1, got, want), info
    return None, info


def shrink_poly(case):
    for j in range(len(case["terms"])):
        if len(case["terms"]) > 1:
            yield dict(case, terms=[case["terms"][j]])


# ---------------------------------------------------------------- other orders
def gen_refuse(rng, i):
    while True:
        k = [0, 1, 3, 5, 31, 32, 34, 64, 2 ** 31, 2 ** 32 + 8, 2 ** 63][i] if i < 11 else int(rng.choice([rng.integers(0, 100), rng.integers(0, 2 ** 62)]))
        if not (2 <= k <= 30 and k % 2 == 0):
            return dict(n=k)
        i += 1


def test_refuse(case):
    with check.Workdir() as d:
        r = run.run([B["q"], str(case["n"]), os.path.join(d, "o")], cwd=d, timeout=30)
        if r.rc == 0 and not r.timed_out:
            return "order %d is accepted" % case["n"], dict(nontrivial=True, tags=["refused"])
    return None, dict(nontrivial=True, tags=["refused"])


# ---------------------------------------------------------------- the script that writes the tables
SCRIPT = os.path.join(env.REPO, "util", "CreateGaussLegendre.py")


def gen_script(rng, i):
    return dict(n=2 + 2 * (i % 15))


def legendre(n):
    """Nodes and weights by Newton's method in 40 digits."""
    import mpmath as mp
    with mp.workdps(40):
        x = []
        for k in range(n):
            t = mp.cos(mp.pi * (n - k - mp.mpf(1) / 4) / (n + mp.mpf(1) / 2))
            for _ in range(8):                              # p'(t) = n (p_{n-1} - t p_n) / (1 - t^2)
                t -= mp.legendre(n, t) * (1 - t * t) / (n * (mp.legendre(n - 1, t) - t * mp.legendre(n, t)))
            x.append(t)
        return [float(t) for t in x], [float(2 * (1 - t * t) / (n * mp.legendre(n - 1, t)) ** 2) for t in x]


def test_script(case):
    if not os.path.exists(SCRIPT):
        raise check.Skip()
    n = case["n"]
    info = dict(nontrivial=True, tags=["order%d" % n])
    with check.Workdir() as d:
        r = run.run([sys.executable, SCRIPT], cwd=d)
        if r.rc != 0 or r.timed_out:
            return "CreateGaussLegendre.py fails: " + r.tail(300), info
        txt = "".join(open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f)))
    want = dict(zip("nw", legendre(n)))
    for k in "nw":
        a = re.findall(r"(?m)^static (?:const )?double s_%s%d\[\d*\] = \{([^}]*)\};" % (k, n), txt)
        if len(a) != 1:
            return "CreateGaussLegendre.py writes %d tables s_%s%d" % (len(a), k, n), info
        v = [float(x) for x in a[0].split(",")]
        if len(v) != n or not (np.abs(np.array(v) - want[k]) < (1e-15 if k == "n" else TOL * np.array(want[k]))).all():
            return "CreateGaussLegendre.py: table s_%s%d is %s, expected %s" % (k, n, v[:4], want[k][:4]), info
    return None, info


if __name__ == "__main__":
    check.main("C05", [check.Part("table", gen_table, test_table, 15, None, prepare, thorough=15, weight=.3, optional=True),
                       check.Part("polynomials", gen_poly, test_poly, 20000, shrink_poly, prepare, thorough=1000000, optional=True),
                       check.Part("refuse", gen_refuse, test_refuse, 60, None, prepare, thorough=2000, weight=.4, optional=True),
                       check.Part("script", gen_script, test_script, 15, None, None, thorough=15, weight=.2)],
               rule="table: all 15 orders compared with Gauss-Legendre nodes computed by numpy, symmetry under sign changes, weights; polynomials: random "
                    "monomials and plane powers up to degree 2N-1 against closed-form integrals; refuse: other orders must be rejected; script: the tables that CreateGaussLegendre.py writes. "
                    "Non-trivial polynomial: non-zero integral.")
