"""Reference controller: what one control step must do, written from the
definition of regularised least squares and from the compact/full model fields.

It owns its *own* ModelParameters object (a pristine copy made before the code
under test ran) and never touches the one the code under test works on.
"""
import copy
import itertools
import numpy as np
import falco

DMS = (1, 2)


def dm(mp, i):
    return getattr(mp, 'dm%d' % i)


def mode_list(mp):
    """(sub-band, zernike, star, weight) in documented order: star outermost,
    then sub-band, then the Zernike list"""
    n = mp.Nsbp
    zerns = [int(z) for z in np.atleast_1d(mp.jac.zerns)]
    zc = np.atleast_1d(mp.jac.Zcoef)
    mid = int(mp.si_ref)
    w = {}
    for iz, z in enumerate(zerns):
        col = {}
        for s in range(n):
            if z == 1 or s in (0, mid, n - 1):
                col[s] = 1.
        if mp.estimator.lower() == 'perfect':
            for e in (0, n - 1):
                if e in col:
                    col[e] *= .5
        tot = sum(col.values())
        for s, v in col.items():
            if z == 1 or zc[iz] != 0:
                w[s, iz] = v / tot
    out = []
    for star in range(mp.compact.star.count):
        for s in range(n):
            for iz, z in enumerate(zerns):
                if (s, iz) in w:
                    out.append((s, z, star, w[s, iz]))
    return out


class Ref:
    def __init__(self, mp):
        self.mp = copy.deepcopy(mp)
        self.mp.flagParallel = False
        self.ties = {i: [tuple(int(x) for x in p) for p in np.atleast_2d(dm(mp, i).tied)] if np.size(dm(mp, i).tied) else [] for i in DMS}
        self.n = {i: int(dm(mp, i).NactTotal) for i in DMS}
        self.kept = {i: list(range(self.n[i])) for i in DMS}
        self.G = {}
        self.valid = {}          # mirrors covered by the latest re-linearisation
        self.prev_dms = None
        self.ambiguous = False

    # -- where we are
    def at(self, V, dms):
        for i in DMS:
            dm(self.mp, i).V = np.array(V[i], dtype=float)
        self.dms = sorted(int(x) for x in dms)
        self.mp.dm_ind = np.array(self.dms)
        falco.imaging.calc_psf_norm_factor(self.mp)
        falco.setup.falco_set_jacobian_modal_weights(self.mp)
        self.modes = mode_list(self.mp)
        self._old = None

    def V(self):
        return {i: dm(self.mp, i).V.copy() for i in DMS}

    # -- Jacobian of every actuator, ties applied here
    def relinearise(self):
        tied = {i: dm(self.mp, i).tied for i in DMS}
        for i in DMS:
            d = dm(self.mp, i)
            d.act_ele = np.arange(self.n[i])
            d.Nele = self.n[i] if i in self.dms else 0
            d.tied = np.zeros((0, 2), dtype=int)
        J = falco.model.jacobian(self.mp)
        for i in DMS:   # surfaces follow the ties
            dm(self.mp, i).tied = tied[i]
        for i in self.dms:
            G = np.array(getattr(J, 'G%d' % i))
            for a, b in self.ties[i]:
                G[:, a, :] = G[:, a, :] + G[:, b, :]
                G[:, b, :] = 0
            self.G[i] = G
        self.valid = set(self.dms)

    def cull(self):
        thr = float(self.mp.logGmin)
        for i in self.dms:
            p = (np.abs(self.G[i])**2).sum(axis=(0, 2))
            p = p / p.max()
            tied = {a for pr in self.ties[i] for a in pr}
            with np.errstate(divide='ignore'):
                lg = np.log10(p)
            # exact zeros are exact; anything else must not sit on the threshold
            if np.any(np.abs(lg - thr) < 1e-6):
                self.ambiguous = True
            self.kept[i] = [k for k in range(self.n[i]) if lg[k] >= thr or k in tied]

    def begin(self, k, relin):
        """what the loop does to Jacobian and culling in iteration k"""
        relin = relin or k == 0
        if relin:
            self.relinearise()
            if k == 0 or self.prev_dms != self.dms:
                self.cull()
        self.prev_dms = list(self.dms)

    # -- estimate of the perfect estimator: weighted mean field of the full model
    def estimate(self):
        mp = self.mp
        E = np.zeros((mp.Fend.corr.Npix, len(self.modes)), dtype=complex)
        for m, (s, z, star, w) in enumerate(self.modes):
            for wi in range(mp.Nwpsbp):
                mv = falco.config.ModelVariables()
                mv.whichSource = 'star'
                mv.sbpIndex, mv.wpsbpIndex, mv.zernIndex, mv.starIndex = s, wi, z, star
                F = falco.model.full(mp, mv)
                E[:, m] += mp.full.lambda_weights[wi] * F[mp.Fend.corr.maskBool]
        return E

    def solve(self, E, reg, dmfac):
        """change of command of every mirror (full maps)"""
        mp = self.mp
        W = np.asarray(mp.WspatialVec)
        rows, rhs = [], []
        for m, (s, z, star, w) in enumerate(self.modes):
            g = np.concatenate([self.G[i][:, self.kept[i], m] for i in self.dms], axis=1)
            g = W[:, star][:, None] * g
            e = W[:, star] * self.scaled(E[:, m], s, z, star)
            rows.append(np.sqrt(w) * np.vstack([g.real, g.imag]))
            rhs.append(np.sqrt(w) * np.concatenate([e.real, e.imag]))
        A = np.vstack(rows)
        b = np.concatenate(rhs)
        mu = 10.**reg * np.max((A**2).sum(axis=0))
        # minimise |A u + b|^2 + mu |u|^2 by an augmented least-squares problem
        n = A.shape[1]
        u = np.linalg.lstsq(np.vstack([A, np.sqrt(mu) * np.eye(n)]), np.concatenate([-b, np.zeros(n)]), rcond=None)[0] * dmfac
        out = {}
        pos = 0
        for i in DMS:
            d = np.zeros(self.n[i])
            if i in self.dms:
                k = self.kept[i]
                d[k] = dm(mp, i).weight * u[pos:pos + len(k)]
                pos += len(k)
            out[i] = d.reshape(dm(mp, i).V.shape)
        return out

    def scaled(self, e, s, z, star):
        if not self.mp.jac.minimizeNI:
            return e
        mv = falco.config.ModelVariables()
        mv.whichSource = 'star'
        mv.sbpIndex, mv.zernIndex, mv.starIndex = s, z, star
        P = falco.model.compact(self.mp, mv, useFPM=False)
        k = np.argmax(np.abs(P))
        return e / P.flat[k]

    # -- intensity a candidate is judged by
    def expected(self, E, dV):
        """mean dark-hole intensity (model based) after adding dV"""
        mp = self.mp
        V0 = self.V()
        if self._old is None:
            self._old = self._compact()
        fields = [self._old]
        for i in self.dms:
            dm(mp, i).V = V0[i] + dV[i]
        fields.append(self._compact())
        for i in DMS:
            dm(mp, i).V = V0[i]
        I = 0
        for m, (s, z, star, w) in enumerate(self.modes):
            if z == 1:
                I = I + mp.sbp_weights[s] * np.abs(E[:, m] + fields[1][s, star] - fields[0][s, star])**2
        return float(np.mean(I))

    def _compact(self):
        mp = self.mp
        out = {}
        for s in range(mp.Nsbp):
            for star in range(mp.compact.star.count):
                mv = falco.config.ModelVariables()
                mv.whichSource = 'star'
                mv.sbpIndex, mv.starIndex = s, star
                out[s, star] = falco.model.compact(mp, mv)[mp.Fend.corr.maskBool]
        return out

    def measured(self, dV):
        mp = self.mp
        V0 = self.V()
        for i in self.dms:
            dm(mp, i).V = V0[i] + dV[i]
        im = np.zeros((mp.Fend.Neta, mp.Fend.Nxi))
        for s in range(mp.Nsbp):
            for wi in range(mp.Nwpsbp):
                for star in range(mp.star.count):
                    mv = falco.config.ModelVariables()
                    mv.whichSource = 'star'
                    mv.sbpIndex, mv.wpsbpIndex, mv.starIndex = s, wi, star
                    im += mp.sbp_weights[s] * mp.full.lambda_weights[wi] * np.abs(falco.model.full(mp, mv))**2
        for i in DMS:
            dm(mp, i).V = V0[i]
        return im

    def score(self, E, dV):
        if self.mp.ctrl.flagUseModel:
            return self.expected(E, dV)
        return float(np.mean(self.measured(dV)[self.mp.Fend.corr.maskBool]))

    def grid(self, E, regs, facs):
        """list of (score, reg, fac, dV) of every combination"""
        out = []
        for reg, fac in itertools.product(regs, facs):
            dV = self.solve(E, reg, fac)
            out.append((self.score(E, dV), float(reg), float(fac), dV))
        return out

    def constrain(self, V, dV):
        """command after the step: ties copied, limits not to be reached here"""
        out = {}
        for i in DMS:
            v = V[i] + dV[i]
            if i in self.dms:
                f = v.reshape(-1).copy()
                for a, b in self.ties[i]:
                    f[b] = f[a]
                v = f.reshape(v.shape)
            out[i] = v
        return out
