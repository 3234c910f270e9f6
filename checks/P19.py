"""P19: spectral sampling and weights represent the requested band exactly.

Every spectral set-up within the bound is made with the real set-up code and
compared with a reference that lists the samples and weights directly; for a
smaller family the evaluation of every sample by the image code is counted.
"""
import itertools
import numpy as np
import falco
import tiny

ID = 'P19'
BOUNDS = {'quick': 'Nsbp 1..9 x Nwpsbp 1..9 x 14 bandwidths (0 to 0.5, including picometre-wide bands) x 3 central wavelengths x simulated or testbed mode; images of Nsbp 1..3 x Nwpsbp 1..4 x 2 polarisation sets with every sample evaluation counted',
          'thorough': 'Nsbp 1..21 x Nwpsbp 1..21; images of Nsbp 1..5 x Nwpsbp 1..5'}
BW = [0., 1e-9, 1e-7, 1e-6, 3e-6, 1e-5, 3e-5, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.5]
LAM = [550e-9, 1.6e-6, 632.8e-9]
CHUNK = 1


def cases(tier):
    th = tier == 'thorough'
    n = 21 if th else 9
    out = [('spec', nsbp, li, sim, n) for nsbp in range(1, n + 1) for li in range(3) for sim in (1, 0)]
    m = 5 if th else 3
    out += [('count', nsbp, nw, pol, par) for nsbp in range(1, m + 1) for nw in range(1, (5 if th else 4) + 1) for pol in ((0,), (-2, 1)) for par in (0, 1)]
    return out


def reference(lam0, bw, nsbp, nw, sim):
    """[(sub-band centre, weight)], [[(wavelength, weight)] per sub-band]"""
    if nw == 1 and sim:
        if nsbp == 1:
            c, w = [lam0], [1.0]
        else:
            c = [lam0 * (1 - bw / 2 + bw * k / (nsbp - 1)) for k in range(nsbp)]
            w = [1.0] * nsbp
            w[0] = w[-1] = 0.5
    else:
        c = [lam0 * (1 + bw * ((k + 0.5) / nsbp - 0.5)) for k in range(nsbp)]
        w = [1.0] * nsbp
    w = [x / sum(w) for x in w]
    if nw == 1:
        f, v = [0.], [1.]
    else:
        f = [(k / (nw - 1) - 0.5) * bw / nsbp for k in range(nw)]
        v = [1.0] * nw
        v[0] = v[-1] = 0.5
        v = [x / sum(v) for x in v]
    return c, w, [[x + lam0 * y for y in f] for x in c], v


def same_distribution(A, B, tol=1.05e-12):
    """cumulative spectral weights agree up to a wavelength shift of tol"""
    def F(P, x):
        return sum(w for lam, w in P if lam <= x)
    return all(F(Q, x - tol) - 1e-12 <= F(P, x) <= F(Q, x + tol) + 1e-12 for P, Q in ((A, B), (B, A)) for x, _ in P)


def spec(case, r):
    _, nsbp, li, sim, nmax = case
    lam0 = LAM[li]
    for nw, bw in itertools.product(range(1, nmax + 1), BW):
        with tiny.quiet():
            mp = tiny.config(coro='VC', nact=2, nbeam=4, nsbp=nsbp, nwpsbp=nw, frac_bw=bw)
            mp.lambda0 = lam0
            mp.flagSim = bool(sim)
            falco.setup.falco_set_spectral_properties(mp)
        c, w, L, v = reference(lam0, bw, nsbp, nw, sim)
        got = np.ravel(np.asarray(mp.sbp_centers, float))
        gw = np.ravel(np.asarray(mp.sbp_weights, float))
        d = dict(nsbp=nsbp, nw=nw, bw=bw, lam0=lam0, sim=sim)
        r.expect(got.shape == (nsbp,) and np.max(np.abs(got - c)) <= 1e-12 * lam0, 'centres', 'sub-band centres are wrong', got=got, want=c, **d)
        r.expect(gw.shape == (nsbp,) and np.max(np.abs(gw - w)) <= 1e-12, 'sbpweights', 'sub-band weights are wrong', got=gw, want=w, **d)
        M = np.asarray(mp.full.lambdasMat)
        r.expect(M.shape == (nsbp, nw) and np.max(np.abs(M - np.array(L))) <= 1e-12 * lam0, 'samples', 'wavelength samples are wrong', got=M, want=L, **d)
        lw = np.ravel(np.asarray(mp.full.lambda_weights, float))
        r.expect(lw.shape == (nw,) and np.max(np.abs(lw - v)) <= 1e-12, 'weights', 'weights within a sub-band are wrong', got=lw, want=v, **d)
        lam = np.ravel(mp.full.lambdas)
        wa = np.ravel(mp.full.lambda_weights_all)
        n = int(mp.full.NlamUnique)
        inds = np.ravel(mp.full.indsLambdaUnique).astype(int)
        im = np.asarray(mp.full.indsLambdaMat).astype(int)
        r.expect(len(lam) == len(wa) == len(inds) == n and np.all(wa >= 0) and abs(wa.sum() - 1) <= 1e-12, 'total', 'weights of the distinct wavelengths do not add up to one', total=float(wa.sum()), n=(len(lam), len(wa), len(inds), n), **d)
        r.expect(sorted(map(tuple, im)) == [(a, b) for a in range(nsbp) for b in range(nw)], 'indices', 'the sample list does not contain every sample once', got=im, **d)
        if len(inds) == len(lam):
            for k in range(len(lam)):
                a, b = im[inds[k]]
                if not r.expect(abs(L[a][b] - lam[k]) <= 0.51e-12 + 1e-12 * lam0, 'index', 'a distinct wavelength points to a sample at another wavelength', k=k, lam=lam[k], sample=L[a][b], **d):
                    break
        A = [(L[a][b], w[a] * v[b]) for a in range(nsbp) for b in range(nw)]
        B = list(zip(lam.tolist(), wa.tolist()))
        r.expect(same_distribution(A, B), 'merge', 'merged wavelengths do not carry the weight of their samples', got=B[:6], want=A[:6], **d)
        if bw * lam0 > 4e-12 * nsbp * nw:
            # each sub-band edge is evaluated once (a float-rounding split of one edge is harmless)
            want = nsbp * (nw - 1) + 1 if nw > 1 else nsbp
            r.expect(want <= n <= nsbp * nw, 'distinct', 'number of distinct wavelengths is wrong', n=n, want=want, **d)
        r.state(nsbp, nw, bw, lam0, sim)
        r.outcome(n, round(float(wa.max()), 6))
        r.step()
        r.execution()


def count(case, r):
    """every (sub-band, wavelength, polarisation) is evaluated with its weight:
    the image of a model whose sample intensities are linearly independent
    constants is the weighted sum; adding up identifies each sample's weight"""
    _, nsbp, nw, pol, par = case
    mp, _o = tiny.build(nact=3, nbeam=10, rin=2.0, rout=2.4, fov=2.4, nsbp=nsbp, nwpsbp=nw, frac_bw=0.2, parallel=bool(par))
    mp.full.pol_conds = np.array(pol)
    mp.full.polaxis = pol[0]
    c, w, L, v = reference(mp.lambda0, 0.2, nsbp, nw, True)
    flat = [L[a][b] for a in range(nsbp) for b in range(nw)]
    lams = sorted(set(round(x * 1e13) for x in flat))
    real = falco.model.full
    shape = (mp.Fend.Neta, mp.Fend.Nxi)
    target = [None]

    def fake(m, mv, *a, **k):
        lam = round(float(getattr(mv, 'wvl', m.full.lambdasMat[mv.sbpIndex, mv.wpsbpIndex])) * 1e13)
        near = min(lams, key=lambda x: abs(x - lam))
        hit = abs(near - lam) <= 2 and (near, int(m.full.polaxis)) == target[0]
        return np.full(shape, 1.0 if hit else 0.0, dtype=complex)
    falco.model.full = fake
    falco.model.models.full = fake
    try:
        tot = 0
        for lam in lams:
            for p in pol:
                target[0] = (lam, p)
                want = sum(w[a] * v[b] / len(pol) for a in range(nsbp) for b in range(nw) if abs(L[a][b] * 1e13 - lam) <= 2)
                got = np.asarray(falco.imaging.get_summed_image(mp))
                r.expect(got.shape == shape and np.max(np.abs(got - want)) <= 1e-12, 'image', 'a sample enters the image with the wrong weight', got=float(got.flat[0]), want=want, lam=lam, pol=p)
                sb = sum(w[a] * np.asarray(falco.imaging.get_sbp_image(mp, a)) for a in range(nsbp))
                r.expect(np.max(np.abs(sb - want)) <= 1e-12, 'subband', 'a sample enters the sub-band images with the wrong weight', got=float(sb.flat[0]), want=want, lam=lam, pol=p)
                tot += want
                r.step()
                r.execution()
    finally:
        falco.model.full = real
        falco.model.models.full = real
    r.expect(abs(tot - 1) < 1e-12, 'harness', 'reference weights do not add up')
    r.state(case)
    r.outcome(case[1:3])


def run(case, r):
    (spec if case[0] == 'spec' else count)(case, r)
