"""P20: Jacobian mode weights and indices enumerate every controlled mode once."""
import copy
import itertools
import numpy as np
import falco
import tiny

ID = 'P20'
BOUNDS = {'quick': 'every ordered list of up to 3 Zernike modes out of {1,2,3,6} and a scalar, 4 coefficient patterns (including zero ones), Nsbp 1..7, 1..3 stars, perfect or probing estimator; lists without piston and with repeats; invalid after valid set-ups',
          'thorough': 'ordered lists of up to 4 modes, Nsbp 1..12, 1..4 stars'}
CHUNK = 1
Z = (1, 2, 3, 6)


def lists(th):
    out = []
    for n in range(1, 5 if th else 4):
        out += list(itertools.product(Z, repeat=n))
    return out


def cases(tier):
    th = tier == 'thorough'
    return [('m', nsbp, st, est, th) for nsbp in range(1, 13 if th else 8) for st in range(1, 5 if th else 4) for est in ('perfect', 'pwp-bp')]


def coefs(zs):
    n = len(zs)
    yield np.array([1e-9 * (k + 1) for k in range(n)])
    if n > 1:
        a = np.array([1e-9] * n)
        a[-1] = 0
        yield a
        b = np.array([2e-9] * n)
        b[0] = 0
        yield b
        yield np.zeros(n)


def run(case, r):
    _, nsbp, st, est, th = case
    stars = [(k * 1.0, -k * 0.5, 1.0 / (k + 1), 1.0) for k in range(st)]
    with tiny.quiet():
        mp0 = tiny.config(coro='VC', nsbp=nsbp, estimator=est, stars=stars, nact=2, nbeam=4)
        falco.setup.falco_set_spectral_properties(mp0)
    for zs in lists(th):
        for co in coefs(zs):
            mp = copy.deepcopy(mp0)
            mp.jac.zerns = list(zs) if len(zs) > 1 else zs[0]
            mp.jac.Zcoef = co.copy() if len(zs) > 1 else float(co[0])
            d = dict(zerns=zs, Zcoef=co, nsbp=nsbp, stars=st, est=est)
            r.execution()
            bad = 1 not in zs or len(set(zs)) != len(zs)
            try:
                falco.setup.falco_set_jacobian_modal_weights(mp)
                raised = None
            except ValueError as e:
                raised = e
            if bad:
                r.expect(raised is not None, 'invalid', 'an invalid list of modes is accepted', **d)
                r.step()
                continue
            if not r.expect(raised is None, 'rejected', 'a valid list of modes is rejected', err=raised, **d):
                continue
            J = mp.jac
            # reference: modes per star in (sub-band, listed mode) order
            W = {}
            for k, z in enumerate(zs):
                col = {}
                for s in range(nsbp):
                    if z == 1 or s in (0, nsbp - 1, nsbp // 2):
                        col[s] = 1.0
                if est == 'perfect':
                    for s in ({0, nsbp - 1} if nsbp > 1 else ()):
                        if s in col:
                            col[s] *= 0.5
                tot = sum(col.values())
                if z == 1 or co[k] != 0:
                    for s in col:
                        W[(s, k)] = col[s] / tot
            per = sorted(W)
            want = [(s, zs[k], star) for star in range(st) for s, k in per]
            ww = [W[m] for _ in range(st) for m in per]
            got = list(zip(np.ravel(J.sbp_inds).astype(int).tolist(), np.ravel(J.zern_inds).astype(int).tolist(), np.ravel(J.star_inds).astype(int).tolist()))
            r.expect(len(got) == len(set(got)) == int(J.Nmode) and set(got) == set(want), 'modes', 'the mode list does not contain every controlled mode exactly once', got=got, want=want, **d)
            gw = np.ravel(J.weights)
            lut = dict(zip(want, ww))
            r.expect(len(gw) == len(got) and all(abs(x - lut.get(m, -1)) <= 1e-12 for m, x in zip(got, gw)), 'weights', 'a mode has the wrong weight', got=dict(zip(got, gw)), want=lut, **d)
            r.expect(int(J.NmodePerStar) * st == len(want), 'perstar', 'number of modes per star is wrong', got=int(J.NmodePerStar), **d)
            # stars are contiguous blocks listing the same modes
            n = len(want) // st
            r.expect(all([m[:2] for m in got[k * n:(k + 1) * n]] == [m[:2] for m in got[:n]] and {m[2] for m in got[k * n:(k + 1) * n]} == {k} for k in range(st)), 'blocks', 'the modes of the stars are not listed alike', got=got, **d)
            wm = np.asarray(J.weightMat)
            full = np.zeros((nsbp, len(zs)))
            for (s, k), x in W.items():
                full[s, k] = x
            r.expect(wm.shape == full.shape and np.max(np.abs(wm - full)) <= 1e-12, 'matrix', 'the weight matrix is wrong', got=wm, want=full, **d)
            zc = np.ravel(J.Zcoef)
            wz = [1.0 if z == 1 else c for z, c in zip(zs, co)]
            r.expect(np.array_equal(zc, wz), 'coef', 'the mode coefficients changed', got=zc, want=wz, **d)
            r.step(len(want))
            r.state(zs, tuple(co), nsbp, st, est)
            r.outcome(nsbp, zs, len(want))
