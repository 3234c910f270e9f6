"""P14: the perfect estimator returns the model field for every mode.

Every estimate of the real estimator is compared, mode by mode, with fields of
the full model evaluated one wavelength at a time on pristine copies.
"""
import copy
import itertools
import numpy as np
import falco
import snap
import tiny

ID = 'P14'
BOUNDS = {'quick': 'Lyot, vortex and wavelength-dependent-mask coronagraphs and a PROPER prescription with 6 polarisation sets; 1..3 sub-bands x 1..3 wavelengths per sub-band x 4 lists of Zernike modes x {one, two} stars x {serial, parallel} at aberrated pupils and shaped mirrors, two consecutive estimates each; quick runs a fixed third (fifth for vortex and mask cubes) of the cross product',
          'thorough': '1..5 sub-bands x 1..4 wavelengths x 7 mode lists, three stars'}
CHUNK = 4
ZL = [(1,), (1, 2), (3, 1), (2, 1, 4), (1, 2, 3, 4, 5), (6, 1), (1, 11)]
ST = {1: None, 2: [(0, 0, 1.0, 1.0), (2.5, 1.0, 0.3, 0.4)], 3: [(0, 0, 1.0, 1.0), (2.5, 1.0, 0.3, 1.0), (-2., 2., 0.5, 2.)]}
POL = [(0,), (-2, -1, 1, 2), (10,), (-1, 1), (5,), (2, -2), (6,)]


def cases(tier):
    th = tier == 'thorough'
    out = []
    for coro in ('LC', 'VC', 'HLC'):
        for nsbp, nw, z, st, par in itertools.product(range(1, 6 if th else 4), range(1, 5 if th else 4), range(len(ZL) if th else 4), (1, 2, 3) if th else (1, 2), (0, 1)):
            if not th and (nsbp + nw + z + st + par) % (3 if coro == 'LC' else 5):
                continue
            out.append((coro, nsbp, nw, z, st, par, None))
    for p, par, nsbp, nw in itertools.product(POL, (0, 1), (1, 2), (1, 3)):
        out.append(('proper', nsbp, nw, 0, 1, par, p))
    return out


_B = {}


def base(coro, nsbp, nw, z, st, pol):
    k = (coro, nsbp, nw, z, st, pol)
    kw = dict(nact=4, nbeam=12, rin=2.0, rout=2.6, fov=3.0, nsbp=nsbp, nwpsbp=nw, frac_bw=0.2, zerns=ZL[z], zcoef=2e-9, vtoh=5e-9, stars=ST[st], aberr=0.3)
    if coro == 'proper':
        kw.update(nbeam=14)
        kw.pop('aberr')
        mp, _ = tiny.proper_config(pol=pol, **kw)
    else:
        mp, _ = tiny.build(coro=coro, layout='fpm_scale' if coro == 'HLC' else None, hlc_full=hlc(nsbp, nw) if coro == 'HLC' else None, **kw)
    mp.dm1.V = 1.3 * np.sin(np.arange(16.).reshape(4, 4))
    mp.dm2.V = 1.1 * np.cos(1.3 * np.arange(16.).reshape(4, 4))
    falco.imaging.calc_psf_norm_factor(mp)
    return mp


def hlc(nsbp, nw):
    # the cube holds the minimal set of masks (shared at sub-band edges)
    n = nsbp * (nw - 1) + 1 if nsbp > 1 and nw > 1 else max(nsbp, nw)
    return lambda cube: cube(n)


def run(case, r):
    coro, nsbp, nw, z, st, par, pol = case
    mp = base(coro, nsbp, nw, z, st, pol)
    mp0 = copy.deepcopy(mp)
    mp.flagParallel = bool(par)
    fresh = {'mask': copy.deepcopy(mp0.F3.full.mask)} if hasattr(mp0, 'F3') and hasattr(mp0.F3, 'full') and hasattr(mp0.F3.full, 'mask') else {}
    corr = [tuple(p) for p in np.argwhere(mp0.Fend.corr.maskBool)]
    lw = np.ones(nw)
    if nw > 1:
        lw[0] = lw[-1] = 0.5
    lw = lw / lw.sum()
    sw = np.ones(nsbp)
    if nw == 1 and nsbp > 1:
        sw[0] = sw[-1] = 0.5
    sw = sw / sw.sum()
    avg = None
    if pol:
        s = set(pol)
        avg = 10 if s in ({-2, -1, 1, 2}, {10}) else 5 if s in ({-1, 1}, {5}) else 6 if s in ({-2, 2}, {6}) else 0

    pol0 = getattr(mp0.full, 'polaxis', None)

    def sample(s, w, zern, star, p=None):
        m = mp0
        if pol:
            m.full.polaxis = pol0 if p is None else p
        for k, v in fresh.items():
            setattr(m.F3.full, k, v)
        mv = falco.config.ModelVariables()
        mv.sbpIndex, mv.wpsbpIndex, mv.zernIndex, mv.starIndex, mv.whichSource = s, w, zern, star, 'star'
        return falco.model.full(m, mv)
    modes = list(zip(np.ravel(mp0.jac.sbp_inds).tolist(), np.ravel(mp0.jac.zern_inds).tolist(), np.ravel(mp0.jac.star_inds).tolist()))
    r.expect(len(modes) == len(set(modes)) == mp0.jac.Nmode, 'modes', 'the mode list repeats a mode', modes=modes)
    want, cube = [], np.zeros((mp0.Fend.Neta, mp0.Fend.Nxi, nsbp))
    for s, zern, star in modes:
        E = sum(lw[w] * sample(s, w, zern, star, avg) for w in range(nw))
        want.append([E[p] for p in corr])
        if zern == 1:
            cube[:, :, s] += np.abs(E)**2
    want = np.array(want).T
    Im = 0
    for s in range(nsbp):
        for w in range(nw):
            for star in range(st):
                for p in (pol or (None,)):
                    Im = Im + sw[s] * lw[w] / len(pol or (1,)) * np.abs(sample(s, w, 1, star, p))**2
    ev = falco.config.Object()
    before = snap.take(mp)
    for itr in range(2):
        ev.Itr = itr
        falco.est.wrapper(mp, ev, None)
        E = np.asarray(ev.Eest)
        r.expect(E.shape == want.shape and np.all(np.isfinite(E)), 'shape', 'estimate has the wrong shape', got=E.shape, want=want.shape)
        for q in range(len(modes)):
            sc = np.max(np.abs(want[:, q]))
            r.expect(np.max(np.abs(E[:, q] - want[:, q])) <= 1e-9 * sc, 'field', 'the estimate of a mode is not the model field of that mode', mode=modes[q], itr=itr, err=float(np.max(np.abs(E[:, q] - want[:, q]))), scale=float(sc))
            r.step()
        r.expect(np.asarray(ev.IincoEst).shape == want.shape and not np.any(ev.IincoEst), 'incoherent', 'the incoherent estimate is not zero')
        A = np.asarray(ev.imageArray)
        r.expect(A.shape == cube.shape[:2] + (1, nsbp) and np.max(np.abs(A[:, :, 0, :] - cube)) <= 1e-9 * cube.max(), 'cube', 'the image cube is not consistent with the field', err=float(np.max(np.abs(A[:, :, 0, :] - cube))))
        r.expect(np.max(np.abs(ev.Im - Im)) <= 1e-9 * Im.max(), 'image', 'the image is not the band-averaged image of the same state', err=float(np.max(np.abs(ev.Im - Im))), scale=float(Im.max()))
    diff = [p for p in snap.changed(before, snap.take(mp)) if p not in ('full.polaxis', 'F3.full.mask')]
    r.expect(not diff, 'setting', 'a setting differs after the estimate', settings=diff[:6])
    r.state(case)
    r.outcome(coro, len(modes), par)
    r.execution(2)
