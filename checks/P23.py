"""P23: broadband images are the weighted incoherent sum of all their samples.

Samples are evaluated one by one with the real models on pristine copies and
summed with weights computed here; every image function and request order of the
real code has to reproduce that sum.
"""
import copy
import itertools
import numpy as np
import falco
import tiny

ID = 'P23'
BOUNDS = {'quick': 'Lyot, vortex, wavelength-dependent mask and a PROPER prescription with 4 polarisation sets; Nsbp 1..3 x Nwpsbp 1..3 x {1,2} stars x {serial, parallel}, every request order of up to 3 (large sets: 1) image requests over {broadband, each sub-band, off-axis, normalise}; detector noise with every outcome of a 3-valued noise source',
          'thorough': 'Nsbp 1..4 x Nwpsbp 1..4 x 1..3 stars, request orders of length 4'}
CHUNK = 1
ST = {1: None, 2: [(0, 0, 1.0, 1.0), (2.5, 1.0, 0.3, 0.4)], 3: [(0, 0, 0.7, 1.0), (2.5, 1.0, 0.3, 1.0), (-2., 2., 0.5, 2.)]}
POL = [(0,), (-2, -1, 1, 2), (10,), (1, -2)]


def cases(tier):
    th = tier == 'thorough'
    out = []
    for coro in ('LC', 'VC', 'HLC'):
        for nsbp, nw, st, par in itertools.product(range(1, 5 if th else 4), range(1, 5 if th else 4), (1, 2, 3) if th else (1, 2), (0, 1)):
            if not th and coro != 'LC' and (nsbp + nw + st + par) % 3:
                continue
            out.append(('img', coro, nsbp, nw, st, par, None, 4 if th else 3))
    for p, nsbp, nw, par in itertools.product(POL, (1, 2), (1, 3), (0, 1)):
        out.append(('img', 'proper', nsbp, nw, 1, par, p, 3 if th else 2))
    for nsbp, nexp, gain, dark, read in itertools.product((1, 2), (1, 2), (1.0, 2.5), (0., 3.), (0., 1.7)):
        out.append(('noise', nsbp, nexp, gain, dark, read))
    return out


def hlc(nsbp, nw):
    n = nsbp * (nw - 1) + 1 if nsbp > 1 and nw > 1 else max(nsbp, nw)
    return lambda cube: cube(n)


def weights(nsbp, nw):
    sw = np.ones(nsbp)
    if nw == 1 and nsbp > 1:
        sw[0] = sw[-1] = 0.5
    lw = np.ones(nw)
    if nw > 1:
        lw[0] = lw[-1] = 0.5
    return sw / sw.sum(), lw / lw.sum()


def img(case, r):
    _, coro, nsbp, nw, st, par, pol, depth = case
    zer = [(1,), (2, 1), (1, 3, 2)][(nsbp + nw) % 3]
    kw = dict(nact=3, nbeam=10, rin=2.0, rout=2.6, fov=2.6, nsbp=nsbp, nwpsbp=nw, frac_bw=0.2, zerns=zer, zcoef=2e-9, vtoh=6e-9, stars=ST[st], parallel=bool(par), aberr=0.3)
    if coro == 'proper':
        kw.update(nbeam=14)
        kw.pop('aberr')
        mp, _o = tiny.proper_config(pol=pol, **kw)
    else:
        mp, _o = tiny.build(coro=coro, layout='fpm_scale' if coro == 'HLC' else None, hlc_full=hlc(nsbp, nw) if coro == 'HLC' else None, **kw)
    mp.dm1.V = 1.3 * np.sin(np.arange(9.).reshape(3, 3))
    mp.dm2.V = 1.1 * np.cos(1.3 * np.arange(9.).reshape(3, 3))
    falco.imaging.calc_psf_norm_factor(mp)
    mp0 = copy.deepcopy(mp)
    sw, lw = weights(nsbp, nw)
    shape = (mp0.Fend.Neta, mp0.Fend.Nxi)
    S = {}
    for s, w, k, p in itertools.product(range(nsbp), range(nw), range(st), pol or (None,)):
        m = copy.deepcopy(mp0)
        if p is not None:
            m.full.polaxis = p
        mv = falco.config.ModelVariables()
        mv.sbpIndex, mv.wpsbpIndex, mv.zernIndex, mv.starIndex, mv.whichSource = s, w, 1, k, 'star'
        S[s, w, k, p] = np.abs(falco.model.full(m, mv))**2
    np_ = len(pol or (None,))

    def sub(s, fac=None):
        return sum((1 if fac is None else fac[k]) * lw[w] / np_ * S[s, w, k, p] for w in range(nw) for k in range(st) for p in pol or (None,))
    # mode weights of the piston mode for off-axis images
    ow = np.ones(nsbp)
    if nsbp > 1:
        ow[0] = ow[-1] = 0.5
    ow /= ow.sum()
    off = 0
    for s, k in itertools.product(range(nsbp), range(st)):
        m = copy.deepcopy(mp0)
        mv = falco.config.ModelVariables()
        mv.sbpIndex, mv.zernIndex, mv.starIndex, mv.whichSource, mv.x_offset, mv.y_offset = s, 1, k, 'offaxis', 2.1, -0.4
        off = off + ow[s] * np.abs(falco.model.compact(m, mv))**2
    want = {'B': sum(sw[s] * sub(s) for s in range(nsbp)), 'O': off}
    for s in range(nsbp):
        want[s] = sub(s)

    def ask(m, q):
        if q == 'B':
            return falco.imaging.get_summed_image(m)
        if q == 'O':
            return falco.imaging.get_sim_offaxis_image_compact(m, 2.1, -0.4)
        if q == 'N':
            falco.imaging.calc_psf_norm_factor(m)
            return None
        return falco.imaging.get_sbp_image(m, q)
    alphabet = ['B', 'O', 'N', nsbp - 1] + ([0] if nsbp > 1 else [])
    def compare(got, q, what, **d):
        W = want[q]
        ok = np.shape(got) == shape and np.all(np.isfinite(got)) and np.all(np.asarray(got) >= 0)
        if r.expect(ok, 'form', 'an image is negative, not finite or of the wrong shape', what=what, q=q, **d):
            r.expect(np.max(np.abs(got - W)) <= 1e-9 * np.max(W), 'sum', 'an image is not the weighted sum of its samples', what=what, q=q, err=float(np.max(np.abs(got - W)) / np.max(W)), **d)
        r.step()
    # prefix tree of request orders: every prefix executed once
    def rec(m, prefix, n):
        if n == 0:
            return
        for q in alphabet:
            c = copy.deepcopy(m)
            got = ask(c, q)
            r.execution()
            if q != 'N':
                compare(got, q, 'request order', order=prefix + (q,))
            r.state(case, prefix + (q,))
            rec(c, prefix + (q,), n - 1)
    rec(mp, (), depth if deep(case) else 2 if nsbp * nw * st * np_ <= 4 else 1)
    # one long order on the same object
    for q in ('B', nsbp - 1, 'O', 0, 'B', 'N', 'B'):
        got = ask(mp, q)
        if q != 'N':
            compare(got, q, 'long order')
    # star weights scale their star's contribution
    if st > 1:
        m = copy.deepcopy(mp0)
        fac = [1.0, 4.0, 0.0][:st]
        for o in (m, m.compact):
            o.star.weights = np.asarray(o.star.weights, float) * fac
        got = falco.imaging.get_summed_image(m)
        W = sum(sw[s] * sub(s, fac) for s in range(nsbp))
        r.expect(np.max(np.abs(got - W)) <= 1e-9 * np.max(W), 'star', 'the image does not scale with the star weights', err=float(np.max(np.abs(got - W)) / np.max(W)))
    r.outcome(coro, nsbp, nw, st, par, pol)


def deep(case):
    return case[1] == 'LC' and tuple(case[2:5]) in ((1, 1, 2), (2, 1, 1)) or case[7] == 4


def noise(case, r):
    """the noise source is the environment: each of its outcomes is explored"""
    _, nsbp, nexp, gain, dark, read = case
    mp, _o = tiny.build(nact=3, nbeam=10, rin=2.0, rout=2.4, fov=2.4, nsbp=nsbp, nwpsbp=1, frac_bw=0.2)
    mp.detector = falco.config.Object()
    mp.detector.gain, mp.detector.Nexp = gain, nexp
    mp.detector.darkCurrentRate, mp.detector.readNoiseStd = dark, read
    mp.detector.tExpVec = np.array([2.0, 5.0])[:nsbp]
    mp.detector.peakFluxVec = np.array([1e6, 3e5])[:nsbp]
    clean = [np.asarray(falco.imaging.get_sbp_image(mp, s)) for s in range(nsbp)]
    mp.flagImageNoise = True
    rp, rn = np.random.poisson, np.random.randn
    devs = (-1., 0., 1.)
    try:
        for par in (False, True):
            mp.flagParallel = par
            for dp, dn in itertools.product(itertools.product(devs, repeat=nexp), itertools.product(devs, repeat=nexp)):
                def run1(s):
                    cnt = {'p': 0, 'n': 0}

                    def poisson(lam, size=None):
                        k = min(cnt['p'] // 2, nexp - 1)
                        cnt['p'] += 1
                        return np.maximum(np.round(np.asarray(lam, float) + dp[k] * np.sqrt(lam)), 0)

                    def randn(*sh):
                        k = min(cnt['n'], nexp - 1)
                        cnt['n'] += 1
                        return np.full(sh, dn[k])
                    np.random.poisson, np.random.randn = poisson, randn
                    out = np.asarray(falco.imaging.get_sbp_image(mp, s))
                    return out
                tot = 0
                for s in range(nsbp):
                    got = run1(s)
                    cts = mp.detector.peakFluxVec[s] * mp.detector.tExpVec[s]
                    W = 0
                    for k in range(nexp):
                        e = np.maximum(np.round(gain * cts * clean[s] + dp[k] * np.sqrt(gain * cts * clean[s])), 0)
                        dk = max(np.round(dark * mp.detector.tExpVec[s] + dp[k] * np.sqrt(dark * mp.detector.tExpVec[s])), 0)
                        W = W + np.round((e + dk + read * dn[k]) / gain) / nexp
                    W = W / cts
                    # one count of slack where rounding is decided by the last bit
                    r.expect(got.shape == W.shape and np.max(np.abs(got - W)) <= 1.01 / cts and np.mean(np.abs(got - W) > 1e-12) < 0.02, 'noise', 'the noisy image is not the detector model of the sub-band image', s=s, dp=dp, dn=dn, par=par, err=float(np.max(np.abs(got - W)) * cts))
                    r.step()
                    r.execution()
                    r.state(case, dp, dn, s, par)
    finally:
        np.random.poisson, np.random.randn = rp, rn
    r.outcome(case)


def run(case, r):
    (img if case[0] == 'img' else noise)(case, r)
