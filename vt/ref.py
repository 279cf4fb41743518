"""Reference discretisation, written from the equations:  Omega.grad(psi) + sigT psi = q  with linear
discontinuous elements on tetrahedra, upwind fluxes and vacuum boundaries; isotropic scattering
q = Q + sigS/(4 pi) phi, phi = sum_a w_a psi_a."""
import numpy as np
from .mesh import FACE_OF


def quadrature(n):
    """Directions (2n^2,3) and weights, index = i*2n + k: polar node i (ascending), azimuth k."""
    x, w = np.polynomial.legendre.leggauss(n)
    om, wt = [], []
    for i in range(n):
        s = np.sqrt(1 - x[i] ** 2)
        for k in range(2 * n):
            ph = np.pi / n * (k + .5)
            om.append([s * np.cos(ph), s * np.sin(ph), x[i]])
            wt.append(w[i] * np.pi / n)
    return np.array(om), np.array(wt)


class Topo:
    """Neighbour cell and matching vertex tables."""

    def __init__(self, m):
        C = m.nc
        self.nb = -np.ones((C, 4), np.int64)
        self.nbv = -np.ones((C, 4, 4), np.int64)     # [c,k,local vertex of c] -> local vertex of neighbour
        d = {}
        for c in range(C):
            for k in range(4):
                key = tuple(sorted(int(m.cells[c][v]) for v in FACE_OF[k]))
                if key in d:
                    c2, k2 = d[key]
                    self.nb[c, k], self.nb[c2, k2] = c2, c
                    for v in FACE_OF[k]:
                        v2 = list(m.cells[c2]).index(m.cells[c][v])
                        self.nbv[c, k, v] = v2
                        self.nbv[c2, k2, v2] = v
                else:
                    d[key] = (c, k)


M4 = np.ones((4, 4)) + np.eye(4)
FM = np.zeros((4, 4, 4))
for _k in range(4):
    for _i in range(4):
        for _j in range(4):
            if _i != _k and _j != _k:
                FM[_k, _i, _j] = 2.0 if _i == _j else 1.0


class Problem:
    def __init__(self, m, sn, sigT, sigS=None, cut=False):
        """sigT, sigS per cell."""
        self.m, self.sn = m, sn
        self.om, self.wt = quadrature(sn)
        self.na = len(self.wt)
        self.vol, self.area, self.nrm = m.geometry()
        self.topo = Topo(m)
        self.sigT = np.asarray(sigT, float)
        self.sigS = np.zeros(m.nc) if sigS is None else np.asarray(sigS, float)
        self.an = np.einsum("ckd,ad->ack", self.nrm, self.om)          # (A,C,4) omega.n
        self.an[np.abs(self.an) < 1e-12] = 0.0                         # faces parallel to the direction
        # exactly antisymmetric across shared faces: take the value of the lower cell
        self._symmetrise()
        self.order = [self._levels(a) for a in range(self.na)]
        self.acyclic = all(o is not None for o in self.order)
        self._mats = None

    def _symmetrise(self):
        nb = self.topo.nb
        C = self.m.nc
        kk = {}
        for c in range(C):
            for k in range(4):
                if nb[c, k] > c:
                    c2 = nb[c, k]
                    k2 = list(nb[c2]).index(c)
                    kk[(c, k)] = (c2, k2)
        if kk:
            a = np.array(list(kk.keys()))
            b = np.array(list(kk.values()))
            self.an[:, b[:, 0], b[:, 1]] = -self.an[:, a[:, 0], a[:, 1]]
        self.pairs = kk

    def min_an(self, parallel=False):
        """Smallest |omega.n| over interior faces (distance from a face parallel to a direction);
        with parallel=True, over those that are not exactly parallel."""
        if not self.pairs:
            return 1.0
        a = np.array(list(self.pairs.keys()))
        x = np.abs(self.an[:, a[:, 0], a[:, 1]])
        if parallel:
            x = x[x > 0]
        return float(x.min()) if x.size else 1.0

    def _levels(self, a):
        """List of arrays of cells, level by level; None if cyclic."""
        C, nb = self.m.nc, self.topo.nb
        inc = (self.an[a] < 0) & (nb >= 0)
        need = inc.sum(1)
        ready = np.nonzero(need == 0)[0]
        need = need.copy()
        out, done = [], 0
        while len(ready):
            out.append(ready)
            done += len(ready)
            ch = nb[ready][(self.an[a][ready] > 0) & (nb[ready] >= 0)]
            np.subtract.at(need, ch, 1)
            cand = np.unique(ch)
            ready = cand[need[cand] == 0]
        return out if done == C else None

    def _setup(self):
        V, A = self.vol, self.area
        self._inv = np.empty((self.na, self.m.nc, 4, 4))
        self.cond = 0.0
        for a in range(self.na):
            aw = A * self.an[a]                                     # (C,4)
            M = np.einsum("cj,i->cji", aw, np.ones(4)) / 12.0 + (self.sigT * V / 20.0)[:, None, None] * M4
            M += np.einsum("ck,kji->cji", np.maximum(aw, 0) / 12.0, FM)
            self._inv[a] = np.linalg.inv(M)
            self.cond = max(self.cond, float(np.max(np.linalg.norm(M, axis=(1, 2)) * np.linalg.norm(self._inv[a], axis=(1, 2)))))
            if a == 0:
                pass
        self._mats = True

    def sweep(self, Q, psib=None, local=None):
        """One exact sweep: Q (C,A,4,G) total source.  psib: optional function/array of given inflow:
        psib[c,k,a,v,g] for faces cut by `local` (bool (C,4): treat this face as using psib)."""
        if self._mats is None:
            self._setup()
        C, G = self.m.nc, Q.shape[3]
        psi = np.zeros((C, self.na, 4, G))
        nb, nbv = self.topo.nb, self.topo.nbv
        for a in range(self.na):
            aw = np.minimum(self.area * self.an[a], 0)             # inflow weights (C,4)
            Qs = np.einsum("ij,cjg->cig", M4, Q[:, a]) * (self.vol / 20.0)[:, None, None]
            pa = psi[:, a]
            levels = self.order[a] if local is None else self._local_levels(a, local)
            for lv in levels:
                rhs = Qs[lv].copy()
                for k in range(4):
                    sel = aw[lv, k] < 0
                    if not sel.any():
                        continue
                    cs = lv[sel]
                    inner = nb[cs, k] >= 0
                    up = np.zeros((len(cs), 4, G))
                    if inner.any():
                        ci = cs[inner]
                        vv = nbv[ci, k]
                        val = pa[nb[ci, k][:, None], np.maximum(vv, 0)]
                        val[vv < 0] = 0
                        if local is not None:
                            cutm = local[ci, k]
                            if cutm.any():
                                val[cutm] = psib[ci[cutm], k, a]
                        up[inner] = val
                    rhs[sel] -= np.einsum("c,ij,cjg->cig", aw[cs, k] / 12.0, FM[k], up)
                pa[lv] = np.einsum("cij,cjg->cig", self._inv[a][lv], rhs)
        return psi

    def _local_levels(self, a, cutf):
        C, nb = self.m.nc, self.topo.nb
        act = (nb >= 0) & ~cutf
        need = ((self.an[a] < 0) & act).sum(1)
        ready = np.nonzero(need == 0)[0]
        out = []
        while len(ready):
            out.append(ready)
            ch = nb[ready][(self.an[a][ready] > 0) & act[ready]]
            np.subtract.at(need, ch, 1)
            cand = np.unique(ch)
            ready = cand[need[cand] == 0]
        return out

    def phi(self, psi):
        return np.einsum("a,cavg->cvg", self.wt, psi)

    def total(self, Q, phi):
        return Q + (self.sigS / (4 * np.pi))[:, None, None, None] * phi[:, None]

    def source_iteration(self, Q, iters=None, tol=0.0, maxit=5000):
        """Returns psi, list of relative L1 changes."""
        phi = np.zeros(Q.shape[:1] + Q.shape[2:])
        errs, psi = [], np.zeros_like(Q)
        n = maxit if iters is None else iters
        for it in range(n):
            psi = self.sweep(self.total(Q, phi))
            new = self.phi(psi)
            d, nn = np.abs(new - phi).sum(), np.abs(new).sum()
            errs.append(d / nn if nn > 0 else np.nan)
            phi = new
            if iters is None and errs[-1] <= tol:
                break
        return psi, errs

    def solve(self, Q, tol=1e-13):
        """Converged solution, by GMRES on the scalar flux with source-iteration operator."""
        if not (self.sigS > 0).any():
            return self.sweep(Q)
        from scipy.sparse.linalg import LinearOperator, gmres
        zero = np.zeros_like(Q)
        p0 = self.phi(self.sweep(Q))
        sh, n = p0.shape, p0.size

        def mv(x):
            return x - self.phi(self.sweep(self.total(zero, x.reshape(sh)))).ravel()
        x, info = gmres(LinearOperator((n, n), matvec=mv), p0.ravel(), rtol=tol, atol=0, restart=60, maxiter=20)
        psi = self.sweep(self.total(Q, x.reshape(sh)))
        # polish by source iteration
        for _ in range(3):
            psi = self.sweep(self.total(Q, self.phi(psi)))
        return psi

    def residual(self, psi, Q, noise=0.0):
        """Residual of the balance equations (relative, max norm per entry scale).  noise: what to add to the
        size of the source everywhere, for sources that are computed with cancellation."""
        tot = self.total(Q, self.phi(psi))
        V = self.vol
        out = np.zeros(self.na)
        nb, nbv = self.topo.nb, self.topo.nbv
        for a in range(self.na):
            aw = self.area * self.an[a]
            p = psi[:, a]
            s = p.sum(1)
            r = aw[:, :, None] / 12.0 * s[:, None, :] + np.einsum("c,ij,cjg->cig", self.sigT * V / 20.0, M4, p)
            mag = np.abs(aw)[:, :, None] / 12.0 * np.abs(p).sum(1)[:, None, :] + np.einsum("c,ij,cjg->cig", self.sigT * V / 20.0, M4, np.abs(p))
            r += np.einsum("ck,kij,cjg->cig", np.maximum(aw, 0) / 12.0, FM, p)
            mag += np.einsum("ck,kij,cjg->cig", np.maximum(aw, 0) / 12.0, FM, np.abs(p))
            # fluxes that only exist through the rounding of omega.n at several parallel faces in a row
            mag += 1e-23 * np.abs(p).max(initial=0) * self.area.sum(1)[:, None, None]
            for k in range(4):
                # omega.n itself is only known to rounding: negligible unless the face is (nearly) parallel
                # to the direction (1e-6 times the tolerance of 1e-9 used by the checks)
                ci = np.nonzero(nb[:, k] >= 0)[0]
                if len(ci):
                    mag[ci] += 1e-6 * self.area[ci, k][:, None, None] * np.abs(p[nb[ci, k]]).max(1)[:, None, :]
                ci = np.nonzero((aw[:, k] < 0) & (nb[:, k] >= 0))[0]
                if len(ci):
                    vv = nbv[ci, k]
                    val = p[nb[ci, k][:, None], np.maximum(vv, 0)].copy()
                    val[vv < 0] = 0
                    r[ci] += np.einsum("c,ij,cjg->cig", aw[ci, k] / 12.0, FM[k], val)
                    mag[ci] += np.einsum("c,ij,cjg->cig", -aw[ci, k] / 12.0, FM[k], np.abs(val))
            q = np.einsum("ij,cjg->cig", M4, tot[:, a]) * (V / 20.0)[:, None, None]
            mag += np.einsum("ij,cjg->cig", M4, np.abs(tot[:, a]) + noise) * (V / 20.0)[:, None, None]
            out[a] = np.max(np.abs(r - q) / (mag + 1e-300)) if r.size else 0
        return float(np.max(out))


def hat_source(m, om, sigT, sigS, G):
    x = m.nodes[m.cells] - 50.0                        # (C,4,3)
    c = np.sqrt((x ** 2).sum(2))
    inside = c <= 30.0
    cc = np.where(c > 0, c, 1.0)
    q = -np.einsum("cvd,ad->cav", x, om) / (30.0 * cc)[:, None, :] + ((sigT - sigS)[:, None] * (1 - c / 30.0))[:, None, :]
    q = np.where(inside[:, None, :], q, 0.0)
    return np.repeat(q[..., None], G, axis=3)
