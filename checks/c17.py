#!/usr/bin/env python3-vt
"""C17: iteration limits and tolerances are honoured and reported truthfully."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, mesh as M

BIN = None
ITER = re.compile(r"iteration: +(\d+) +error: +(\S+)")
REL = re.compile(r"^Relative error: +(\S+)", re.M)
PBJO = re.compile(r"^PBJ Iters: +(\d+)", re.M)
PBJI = re.compile(r"^ +PBJ Iters: +(\d+)", re.M)
SRC = re.compile(r"^Num source iterations:(.*)$", re.M)
NSRC = re.compile(r"^Num source iters: +(\d+)", re.M)


def prepare():
    global BIN
    BIN = build.sweep()


def gen(rng, i):
    c = cli.gen_case(rng, sweeps=cli.SWEEPS + ["PBJ", "PBJOuter", "PBJSI"] * 2, sns=(2, 2, 2, 4, 4), hi=80, scatter=True, work=2500,
                     cmax=.98)
    if c is None:
        return None
    if c["source"]["kind"] in ("wide", "hat"):
        c["source"] = dict(kind="positive", seed=int(rng.integers(1 << 31)))
    c["deck"].update(SourceIteration=True, iterMax=int(rng.choice([1, 2, 3, 5, 8, 15, 40])), errMax=float(10 ** rng.uniform(-8, -.3)),
                     DD_IterMax=int(rng.choice([1, 2, 3, 5, 8, 15])), DD_ErrMax=float(10 ** rng.uniform(-8, -.3)))
    return c


class Near(Exception):
    pass


def decide(err, tol, strict):
    """True when the iteration stops; Near when rounding could decide."""
    if not np.isfinite(err):
        raise Near()
    if abs(err - tol) < 1e-6 * tol + 1e-13:
        raise Near()
    return err < tol if strict else err <= tol


class Model:
    def __init__(self, pr, deck, Q, part):
        self.pr, self.Q = pr, Q
        self.imax, self.etol = int(deck["iterMax"]), float(deck["errMax"])
        self.dmax, self.dtol = int(deck["DD_IterMax"]), float(deck["DD_ErrMax"])
        part = np.asarray(part)
        nb = pr.topo.nb
        self.cut = (nb >= 0) & (part[np.maximum(nb, 0)] != part[:, None])
        self.out = dict(iters=[], rel=[], outer=[], inner=[], src=[], nsrc=[])

    def bound(self, psi):
        t = self.pr.topo
        C, A, _, G = psi.shape
        b = np.zeros((C, 4, A, 4, G))
        for c, k in np.argwhere(self.cut):
            for v in range(4):
                if v != k:
                    b[c, k, :, v] = psi[t.nb[c, k], :, t.nbv[c, k, v]]
        return b

    def fixed(self, sweep, psi):
        phi = self.pr.phi(psi)
        n = 0
        while n < self.imax:
            psi = sweep(psi, self.pr.total(self.Q, phi))
            new = self.pr.phi(psi)
            with np.errstate(all="ignore"):
                e = np.abs(new - phi).sum() / np.abs(new).sum()
            self.out["iters"].append((n, e))
            phi = new
            n += 1
            if n < self.imax and decide(e, self.etol, False):
                break
        return psi, n

    def local(self, q, b):
        return self.pr.sweep(q, b, self.cut)

    def change(self, a, b):
        with np.errstate(all="ignore"):
            return np.abs(a - b).sum() / np.abs(b).sum()

    def run(self, kind):
        Z = np.zeros_like(self.Q)
        if kind in cli.SWEEPS:
            return self.fixed(lambda psi, q: self.pr.sweep(q), Z)[0]
        if kind == "PBJ":
            st = dict(b=self.bound(Z), n=0)

            def sweep(psi, q):
                k = 0
                while k < self.dmax:
                    k += 1
                    st["n"] += 1
                    new = self.local(q, st["b"])
                    e = self.change(psi, new)
                    psi = new
                    if decide(e, self.dtol, True) and k < self.dmax:
                        break
                    st["b"] = self.bound(psi) if not decide(e, self.dtol, True) else st["b"]
                self.out["inner"].append(k)
                return psi
            psi = self.fixed(sweep, Z)[0]
            self.out["nsrc"].append(st["n"])
            return psi
        if kind == "PBJOuter":
            psi, b, k, old = Z, self.bound(Z), 0, Z
            while k < self.dmax:
                k += 1
                psi, its = self.fixed(lambda p, q: self.local(q, b), psi)
                self.out["src"].append(its)
                e = self.change(old, psi)
                self.out["rel"].append(e)
                old = psi
                if decide(e, self.dtol, True):
                    break
                b = self.bound(psi)
            self.out["outer"].append(k)
            return psi
        if kind == "PBJSI":
            psi, b, k = Z, self.bound(Z), 0
            phi = self.pr.phi(Z)
            while k < self.dmax:
                k += 1
                psi = self.local(self.pr.total(self.Q, phi), b)
                new = self.pr.phi(psi)
                b = self.bound(psi)
                e = self.change(phi, new)
                self.out["rel"].append(e)
                phi = new
                if decide(e, self.dtol, True):
                    break
            self.out["outer"].append(k)
            return psi


def same(what, got, want):
    if len(got) != len(want):
        return "%s: %d lines reported, %d iterations expected" % (what, len(got), len(want))
    for j, (g, w) in enumerate(zip(got, want)):
        if not abs(g - w) <= 2e-5 * abs(w) + 1e-12:
            return "%s number %d: reported %.6e, expected %.6e" % (what, j, g, w)
    return None


def test(case):
    m, deck, pr = cli.load(case)
    Q = cli.ref_source(case, m, deck, pr)
    kind = deck["SweepType"]
    mod = Model(pr, deck, Q, case["part"])
    try:
        want = mod.run(kind)
    except Near:
        raise check.Skip()
    x = mod.out
    o = cli.execute(BIN, case, m)
    info = dict(nontrivial=m.nc > 1, tags=[kind, "parts%d" % case["nparts"],
                "limit" if kind in cli.SWEEPS and len(x["iters"]) == int(deck["iterMax"]) else "tolerance" if kind in cli.SWEEPS else
                "dd_limit" if (x["outer"] or x["inner"])[-1] == int(deck["DD_IterMax"]) else "dd_tolerance"])
    f = cli.run_failure(o)
    if f:
        return f, info
    if not o.marked:
        raise check.Skip()
    t = o.res.out
    it = [(int(a), float(b)) for a, b in ITER.findall(t)]
    f = same("source iteration change", [e for _n, e in it], [e for _n, e in x["iters"]])
    if f is None and [n for n, _e in it] != [n for n, _e in x["iters"]]:
        f = "iteration numbers reported: %s, expected %s" % ([n for n, _e in it][:20], [n for n, _e in x["iters"]][:20])
    f = f or same("block Jacobi change", [float(v) for v in REL.findall(t)], x["rel"])
    if f is None and kind in ("PBJOuter", "PBJSI"):
        f = f or same("block Jacobi count", [int(v) for v in PBJO.findall(t)], x["outer"])
    if f is None and kind == "PBJ":
        f = f or same("inner block Jacobi count", [int(v) for v in PBJI.findall(t)], x["inner"])
        f = f or same("number of sweeps", [int(v) for v in NSRC.findall(t)], x["nsrc"])
    if f is None and kind == "PBJOuter":
        g = SRC.findall(t)
        f = same("source iteration count", [int(v) for v in (g[0].split() if g else [])], x["src"])
    if f is None:
        e = cli.reldiff(o.psi, want)
        if not e < 1e-8:
            f = "the flux differs from that of the last iterate by %.3e (relative)" % e
    return f, info


# ---------------------------------------------------------------- tolerances that are never met, or always
def gen_never(rng, i):
    c = gen(rng, i)
    if c is None:
        return None
    d = c["deck"]
    c["always"] = bool(rng.random() < .2)
    tol = float(rng.choice([0.0, 0.0, 1e-300, 1e-40, 1e-19])) if not c["always"] else float(rng.choice([1.5, 100.0, 1e20, 1e300]))
    d.update(errMax=tol, DD_ErrMax=tol)
    if c["always"]:
        d.update(iterMax=int(rng.choice([1, 2, 30])), DD_IterMax=int(rng.choice([1, 2, 30])))
    elif d["SweepType"] in cli.SWEEPS:
        d.update(iterMax=int(rng.choice([30, 60, 100, 200])))
    elif d["SweepType"] == "PBJSI":
        d.update(DD_IterMax=int(rng.choice([30, 60, 100, 200])))
    else:
        d.update(iterMax=int(rng.choice([2, 10, 40])), DD_IterMax=int(rng.choice([2, 10, 40])))
    c["threads"] = cli.tame(d, M.Mesh.from_json(c["mesh"]), c["nparts"], c["threads"])
    return c


def runs(it):
    """Splits the numbered lines into source iterations that start at 0."""
    out = []
    for n, e in it:
        if n == 0:
            out.append([])
        if not out or n != len(out[-1]):
            return None
        out[-1].append(e)
    return out


def test_never(case):
    m, deck, pr = cli.load(case)
    kind, tol = deck["SweepType"], float(deck["errMax"])
    imax, dmax = int(deck["iterMax"]), int(deck["DD_IterMax"])
    info = dict(nontrivial=False, tags=[kind, "always" if case["always"] else "never", "parts%d" % case["nparts"]])
    o = cli.execute(BIN, case, m)
    f = cli.run_failure(o)
    if f:
        return f, info
    if not o.marked or not np.abs(o.psi).max() > 0:
        raise check.Skip()
    info["nontrivial"] = True
    t = o.res.out

    def count(what, errs, limit):
        """One iteration: goes on while the reported change is above the tolerance, and below the limit."""
        if not errs or len(errs) > limit:
            return "%s: %d iterations reported, limit %d" % (what, len(errs), limit)
        if any(not np.isfinite(e) for e in errs):
            return None                                     # no flux, so no relative change
        if len(errs) < limit and not errs[-1] <= tol * (1 + 1e-6):
            return "%s: stopped after %d iterations of %d with a change of %g, tolerance %g" % (what, len(errs), limit, errs[-1], tol)
        for j, e in enumerate(errs[:-1]):
            if e < tol * (1 - 1e-6):
                return "%s: went on after iteration %d with a change of %g, tolerance %g" % (what, j, e, tol)
        return None
    rs = runs([(int(a), float(b)) for a, b in ITER.findall(t)])
    if rs is None:
        return "the numbers of the source iterations do not count from 0", info
    rel = [float(v) for v in REL.findall(t)]
    if kind != "PBJSI":
        for r in rs:
            f = f or count("source iteration", r, imax)
        if kind in cli.SWEEPS + ["PBJ"] and len(rs) != 1:
            f = f or "%d source iterations were started" % len(rs)
    if kind in ("PBJOuter", "PBJSI"):
        f = f or count("block Jacobi", rel, dmax)
        g = [int(v) for v in PBJO.findall(t)]
        if g != [len(rel)]:
            f = f or "block Jacobi count reported: %s, iterations: %d" % (g, len(rel))
    if kind == "PBJ":
        g = [int(v) for v in PBJI.findall(t)]
        if any(not 1 <= v <= dmax for v in g) or (tol == 0 and any(v != dmax for v in g)):
            f = f or "inner block Jacobi counts %s, limit %d, tolerance %g" % (g[:20], dmax, tol)
    return f, info


if __name__ == "__main__":
    check.main("C17", [check.Part("run", gen, test, 300, cli.shrink_case, prepare),
                       check.Part("never", gen_never, test_never, 160, cli.shrink_case, prepare)],
               rule="a case is a random scattering problem with random iteration limits and tolerances; the printed iteration numbers, "
                    "changes and counts and the flux are compared with those of a reference iteration. Cases in which rounding could decide "
                    "whether a tolerance is met are discarded. never: tolerances that no change can meet, down to zero, or that all meet; the reported iterations have to follow from the reported changes. Non-trivial: more than one cell.")
