"""Cases that run sweep.x from a mesh, a partition vector and a deck; and their reference solutions."""
import os, struct
import numpy as np
from . import build, env, mesh as M, ref, run
from .check import Skip, Workdir

DEFAULT_DECK = dict(snOrder=2, iterMax=100, errMax=1e-12, maxCellsPerStep=10, intraAngleP=0, interAngleP=0, nGroups=1,
                    sigmaT1=1.0, sigmaS1=0.0, sigmaT2=1.0, sigmaS2=0.0, OutputFile="true", OutputFilename="psi.out",
                    SourceIteration="true", MPIType="TychoTwoSided", DD_IterMax=100, DD_ErrMax=1e-12,
                    SweepType="TraverseGraph", GaussElim="Original")
SWEEPS = ["OriginalTycho1", "OriginalTycho2", "TraverseGraph"]          # one exact sweep
DDS = ["PBJ", "PBJOuter", "Schur", "SchurOuter", "PBJSI", "SchurKrylov"]
GAUSS = ["Original", "NoPivot", "CramerGlu", "CramerIntel"]
TIMEOUT = 30


def fmt(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return repr(v)
    return str(v)


def deck_text(deck):
    return "".join("%s %s\n" % (k, fmt(v)) for k, v in deck.items())


def full_deck(d):
    x = dict(DEFAULT_DECK)
    x.update(d)
    return x


# ------------------------------------------------------------------ generation
def gen_mesh(rng, lo=4, hi=90, kind=None, scale=None, face_shuffle=True):
    n = int(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    sc = scale if scale is not None else float(rng.choice([60.0, 60.0, 1.0, 8.0, 300.0]))
    m, k = M.gen(rng, n, kind, scale=sc)
    if face_shuffle:
        m.build_faces(rng)
        m = m.renumbered(rng)[0]
    return m, k


def gen_layout(rng, m, maxp=5):
    p = int(rng.choice([1, 2, 2, 3, 3, 4, 5][:maxp + 2]))
    p = min(p, maxp, m.nc)
    if maxp >= 4 and rng.random() < .05:                   # now and then more processes than usual
        p = min(int(rng.integers(5, 9)), m.nc)
    part, n = M.gen_partition(rng, m, p)
    return [int(x) for x in part], n


def gen_threads(rng, choices=(1, 1, 2, 3, 4)):
    """Mostly few threads, now and then more (for S2 more than there are directions)."""
    return int(rng.choice([5, 6, 7, 9])) if rng.random() < .06 else int(rng.choice(list(choices)))


def gen_parallel_mesh(rng, hi=60):
    """A regular grid of cubes cut into tetrahedra, with exactly representable coordinates: with S2,
    S6, S10 ... some faces are parallel to some directions."""
    n = int(rng.integers(1, max(2, hi // 6) + 1))
    b = n ** (1 / 3.)
    dims = [max(1, int(round(b * rng.uniform(.6, 1.5)))) for _ in range(3)]
    P, T = M._kuhn(*dims)
    h = float(rng.choice([1, 2, 4, 8, 16]))
    P = P * h
    P = P - P.mean(0).round() + 50
    m = M.Mesh(P, T)
    if rng.random() < .3 and m.nc > 6:
        m = m.subset(np.nonzero(rng.random(m.nc) < .8)[0])
    m.mats = rng.integers(1, 3, m.nc)
    return m.renumbered(rng)[0], "kuhn_parallel"


def tilt(rng, m, sn):
    """Turns the mesh until an interior face is nearly parallel to a direction of the quadrature."""
    om = np.asarray(ref.quadrature(sn)[0])
    fs = [f for f in range(len(m.faces)) if m.fcells[f][1] >= 0 and m.fcells[f][0] >= 0]
    if not fs:
        return m
    a, b, c = (m.nodes[int(v)] for v in m.faces[fs[rng.integers(len(fs))]])
    n = np.cross(b - a, c - a)
    n /= np.linalg.norm(n)
    o = om[rng.integers(len(om))]
    want = float(10 ** rng.uniform(np.log10(3e-9), -4)) * (1 if rng.random() < .5 else -1)
    ax = np.cross(n, o)
    s = np.linalg.norm(ax)
    if s < 1e-3:
        return m
    ax /= s
    t = np.arctan2(s, n @ o) - np.arccos(want)                # turn n about ax towards o by this angle
    K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    Q = np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K
    ce = (m.nodes.min(0) + m.nodes.max(0)) / 2
    m.nodes = (m.nodes - ce) @ Q.T + ce
    return m


def ok(pr, kind=None, eps=1e-9):
    """The mesh has no cyclic dependency and no shared face nearly (for grids: but not exactly)
    parallel to a direction."""
    return pr.acyclic and pr.min_an(parallel=(kind == "kuhn_parallel")) > eps


def usable(m, sn, kind=None, eps=1e-9):
    return ok(ref.Problem(m, sn, np.ones(m.nc)), kind, eps)


def tame(deck, m, nparts, threads, wide=False):
    """Bounds the cost of the schedule-driven sweeps, whose threads wait actively for each other:
    few steps, few processes x threads (wide: more of them, for a few of the cases)."""
    if deck.get("SweepType") in ("OriginalTycho1", "OriginalTycho2"):
        sn = int(deck["snOrder"])
        threads = max(1, min(threads, (16 if wide else 6) // nparts, 2 * sn * sn))
        most = 6 if wide else 4
        if deck["SweepType"] == "OriginalTycho2" and nparts * threads > most:
            threads = max(1, most // nparts)
        items = 2 * sn * sn * m.nc / float(threads)
        lim = 60 if nparts * threads > 2 else 400
        deck["maxCellsPerStep"] = max(int(deck["maxCellsPerStep"]), int(np.ceil(items / lim)))
    return threads


def gen_case(rng, sweeps=None, sns=(2, 2, 4, 4, 6, 8), lo=1, hi=150, scatter=False, cmax=.9, maxp=5, hat=.15, parallel=.15,
             kind=None, scale=None, work=40000, groups=(1, 1, 2, 3), tilted=.12, empty=.05):
    """A random valid case: mesh x numbering x partition x deck x source.  None when the mesh drawn has cyclic dependencies."""
    sn = int(rng.choice(list(sns)))
    top = max(lo + 1, min(hi, work // (2 * sn * sn)))
    if rng.random() < parallel:
        m, kd = gen_parallel_mesh(rng, min(top, 100))
        sn = int(rng.choice([2, 2, 2, 6, 6, 10] if max(sns) >= 10 else [2, 2, 6] if max(sns) >= 6 else [2]))
    else:
        m, kd = gen_mesh(rng, lo, top, kind, scale)
        if rng.random() < tilted:
            m, kd = tilt(rng, m, sn), kd + "_tilt"
    if m.nc < 1 or not usable(m, sn, kd):
        return None
    part, n = gen_layout(rng, m, maxp)
    if rng.random() < empty and n < maxp:                  # a partition without cells
        n += 1
        s = rng.permutation(n)
        part = [int(s[x]) for x in part]
    ext = float(np.ptp(m.nodes, axis=0).max())
    threads = gen_threads(rng)
    if n * threads > 16:
        threads = max(1, 16 // n)
    ng = int(rng.choice(list(groups)))
    if max(groups) > 1 and m.nc * sn * sn < 1500 and rng.random() < .03:
        ng = int(rng.choice([8, 11, 16, 17, 33]))
    deck = dict(snOrder=sn, nGroups=ng, SweepType=str(rng.choice(sweeps or SWEEPS)),
                GaussElim=str(rng.choice(GAUSS)), maxCellsPerStep=int(rng.choice([1, 2, 5, 20, 100, 1000, 2000000000])),
                intraAngleP=int(rng.integers(5)), interAngleP=int(rng.integers(3)),
                MPIType=str(rng.choice(["TychoTwoSided", "CapsaicinTwoSided"])), SourceIteration=bool(rng.random() < .8))
    source = gen_source(rng, hat)
    if source["kind"] != "hat" and scale is None and rng.random() < .12:
        f = 2.0 ** int(rng.integers(-30, 21))                  # other units of length; exact, so that parallel faces stay so
        m.nodes, ext = m.nodes * f, ext * f
    deck.update(gen_sigma(rng, scatter=scatter, scale=ext, cmax=cmax))
    threads = tame(deck, m, n, threads, rng.random() < .1 and not scatter)
    return dict(mesh=m.to_json(), kind=kd, part=part, nparts=n, threads=threads, deck=deck,
                lseed=int(rng.integers(1 << 31)) if rng.random() < .7 else None, flip=bool(rng.random() < .2), source=source)


def load(case):
    """(mesh, full deck, reference problem); raises Skip when the (shrunk) case is not usable any more."""
    m = M.Mesh.from_json(case["mesh"])
    deck = full_deck(case["deck"])
    pr = problem(m, deck)
    if not ok(pr, case.get("kind")):
        raise Skip()
    return m, deck, pr


def tags(case, deck):
    return [str(case.get("kind")), deck["SweepType"], deck["GaussElim"], "S%s" % deck["snOrder"], "parts%d" % case["nparts"],
            "threads%d" % case.get("threads", 1)]


def gen_sigma(rng, scatter=True, scale=1.0, cmax=0.9):
    """Cross sections for both materials, in units of 1/length (scale = mesh extent)."""
    out = {}
    for i in (1, 2):
        t = float(10 ** rng.uniform(-1.5, 1.6)) / (scale / 6.0)
        if rng.random() < 0.1:
            t = 0.0
        out["sigmaT%d" % i] = float("%.6g" % t)
        c = float(rng.choice([0.0, rng.uniform(0, cmax), cmax])) if scatter else 0.0
        out["sigmaS%d" % i] = float("%.6g" % (c * out["sigmaT%d" % i]))
    return out


def make_source(spec, m, sn, deck):
    """(C,A,4,G) array, or None for the program's own source."""
    if spec is None or spec.get("kind") == "hat":
        return None
    if spec.get("exp"):
        return make_source(dict(spec, exp=0), m, sn, deck) * 10.0 ** spec["exp"]
    A, G, C = 2 * sn * sn, int(deck["nGroups"]), m.nc
    r = np.random.default_rng(spec["seed"])
    k = spec["kind"]
    if k == "random":
        return r.uniform(-1, 1, (C, A, 4, G)) * spec.get("amp", 1.0)
    if k == "positive":
        return r.uniform(0.05, 1, (C, A, 4, G)) * spec.get("amp", 1.0)
    if k == "wide":
        return r.uniform(-1, 1, (C, A, 4, G)) * 10 ** r.uniform(-6, 6, (C, 1, 1, 1))
    if k == "sparse":
        q = np.zeros((C, A, 4, G))
        for _ in range(max(1, C // 5)):
            q[r.integers(C), r.integers(A), r.integers(4), r.integers(G)] = r.uniform(1, 2)
        return q
    if k == "iso":
        return np.broadcast_to(r.uniform(0, 1, (C, 1, 4, G)), (C, A, 4, G)).copy()
    if k == "const":
        return np.ones((C, A, 4, G)) * spec.get("amp", 1.0)
    raise ValueError(k)


def gen_source(rng, hat=0.15, kinds=("random", "positive", "wide", "sparse", "iso")):
    if rng.random() < hat:
        return dict(kind="hat")
    c = dict(kind=str(rng.choice(list(kinds))), seed=int(rng.integers(1 << 31)))
    if rng.random() < .3:                                        # very weak and very strong sources
        c["exp"] = int(rng.integers(-14, 15))
    return c


def sigma_cells(m, deck):
    t = np.where(m.mats == 1, float(deck["sigmaT1"]), float(deck["sigmaT2"]))
    s = np.where(m.mats == 1, float(deck["sigmaS1"]), float(deck["sigmaS2"]))
    return t, s


def problem(m, deck):
    t, s = sigma_cells(m, deck)
    return ref.Problem(m, int(deck["snOrder"]), t, s)


def ref_source(case, m, deck, pr=None):
    q = make_source(case.get("source"), m, int(deck["snOrder"]), deck)
    if q is None:
        t, s = sigma_cells(m, deck)
        om = pr.om if pr is not None else ref.quadrature(int(deck["snOrder"]))[0]
        q = ref.hat_source(m, om, t, s, int(deck["nGroups"]))
    return q


# ------------------------------------------------------------------ running
class Out:
    def __init__(self, res, psi, psi_raw, marked):
        self.res, self.psi, self.raw, self.marked = res, psi, psi_raw, marked
        self.psi_err = None


def write_inputs(d, case, m):
    deck = full_deck(case["deck"])
    deck["OutputFilename"] = case.get("outname", "psi.out")
    rng = np.random.default_rng(case["lseed"]) if case.get("lseed") is not None else None
    parts = M.split(m, case["part"], case["nparts"], rng, flip_nodes=bool(case.get("flip")))
    M.write_pmesh(parts, os.path.join(d, "m.pmesh"))
    with open(os.path.join(d, "in.deck"), "w") as f:
        f.write(case.get("deck_text") or deck_text(deck))
    return deck


def execute(binary, case, m=None, d=None, timeout=None, extra=None, keep_raw=False):
    """Runs one case; returns Out.  psi is (C,A,4,G) or None."""
    if d is None:
        with Workdir() as w:
            return execute(binary, case, m, w, timeout, extra, keep_raw)
    if m is None:
        m = M.Mesh.from_json(case["mesh"])
    deck = write_inputs(d, case, m)
    ex = dict(extra or {})
    ex.update(case.get("env") or {})
    src = make_source(case.get("source"), m, int(deck["snOrder"]), deck)
    mark = os.path.join(d, "marked")
    if src is not None:
        sp = os.path.join(d, "src.bin")
        src.astype("<f8").tofile(sp)
        ex.update(VT_SRC=sp, VT_MARK=mark)
    r = run.mpirun(case["nparts"], [binary, "m.pmesh", "in.deck"], threads=case.get("threads", 1), cwd=d,
                   timeout=timeout or TIMEOUT, extra=ex)
    psi, raw, perr = None, None, None
    p = os.path.join(d, deck["OutputFilename"])
    if os.path.exists(p):
        with open(p, "rb") as f:
            raw = f.read()
        try:
            h, psi = parse_psi(raw, m.nc, 2 * int(deck["snOrder"]) ** 2, int(deck["nGroups"]))
        except Exception as e:
            perr = str(e)
    o = Out(r, psi, raw if keep_raw else None, src is None or os.path.exists(mark))
    o.psi_err = perr
    return o


def parse_psi(b, C, A, G):
    n = C * A * 4 * G
    if len(b) != 64 + 8 * n:
        raise M.FormatError("psi file has %d bytes, expected %d" % (len(b), 64 + 8 * n))
    return b[:64], np.frombuffer(b, "<f8", n, 64).reshape(C, A, 4, G).copy()


def run_failure(o):
    """Text describing why a run that should succeed did not, or None."""
    if o.res.timed_out:
        return "run did not finish within the time limit: " + o.res.tail(300)
    if o.res.rc != 0:
        return "run of a valid input failed: " + o.res.tail(500)
    if o.psi is None:
        return "no usable psi output (%s): %s" % (o.psi_err, o.res.tail(300))
    if not np.isfinite(o.psi).all():
        return "psi output contains non-finite values"
    return None


def reldiff(a, b):
    """max |a-b| / max |b| per group, worst group."""
    s = np.abs(b).max(axis=(0, 1, 2))
    d = np.abs(a - b).max(axis=(0, 1, 2))
    return float(np.max(np.where(s > 0, d / np.where(s > 0, s, 1), np.where(d > 0, np.inf, 0))))


# ------------------------------------------------------------------ shrinking
def shrink_case(case, keys=("threads", "deck", "lseed", "part")):
    """Smaller cases of the standard shape."""
    def cp(**kw):
        c = dict(case)
        c.update(kw)
        return c

    m = M.Mesh.from_json(case["mesh"])
    part = case["part"]
    # fewer cells
    n = m.nc
    size = n // 2
    cuts = []
    while size >= 1 and len(cuts) < 40:
        for st in range(0, n, size):
            cuts.append((st, min(n, st + size)))
        size //= 2
    for a, b in cuts:
        keep = [c for c in range(n) if not (a <= c < b)]
        if not keep:
            continue
        yield relabel(cp(), m, keep)
    # fewer partitions
    if case["nparts"] > 1:
        for q in range(case["nparts"]):
            to = 0 if q != 0 else 1
            p2 = [to if x == q else x for x in part]
            used = sorted(set(p2))
            yield cp(part=[used.index(x) for x in p2], nparts=len(used))
    if case.get("threads", 1) > 1:
        yield cp(threads=1)
        yield cp(threads=case["threads"] - 1)
    d = case["deck"]
    if int(d.get("snOrder", 2)) > 2:
        yield cp(deck=dict(d, snOrder=int(d["snOrder"]) - 2))
    if int(d.get("nGroups", 1)) > 1:
        yield cp(deck=dict(d, nGroups=1))
    for k, v in DEFAULT_DECK.items():
        if k in d and d[k] != v and k not in ("snOrder", "nGroups", "iterMax", "errMax", "DD_IterMax", "DD_ErrMax"):
            if k.startswith("sigmaT") and float(d.get("sigmaS" + k[-1], 0)) > 0:
                continue                                         # scattering must stay less than the total
            yield cp(deck=dict(d, **{k: v}))
    if case.get("lseed") is not None:
        yield cp(lseed=None)
    if case.get("flip"):
        yield cp(flip=False)
    s = case.get("source")
    if s and s.get("exp"):
        yield cp(source=dict(s, exp=0))
    if s and s.get("kind") not in (None, "const", "hat"):
        yield cp(source=dict(kind="const", seed=0))


def relabel(case, m, keep):
    m2 = m.subset(keep)
    p = [case["part"][c] for c in keep]
    used = sorted(set(p))
    case["mesh"] = m2.to_json()
    case["part"] = [used.index(x) for x in p]
    case["nparts"] = len(used)
    return case
