"""P24: normalisation makes the unocculted star peak one and models agree."""
import copy
import itertools
import numpy as np
import falco
import tiny

ID = 'P24'
BOUNDS = {'quick': 'coronagraphs {Lyot, apodised Lyot, vortex, hard-edged focal mask (two names), hybrid cube} x 17 layout options (centring, relays, rotation flag, DM distance, stops, DM wavefront error, apodiser, stars, sub-bands, Zernikes, single mirrors, mask scaled with wavelength, source offset, chromatic vortex charge, pupil errors, tilted mirror) x 3 commands x every sub-band, wavelength, star and mode',
          'thorough': 'also pairs of options'}
CHUNK = 1
CORO = ('LC', 'APLC', 'VC', 'Vortex', 'FLC', 'SPLC', 'HLC')
STARS = [(0, 0, 1.0, 1.0), (2.5, 1.0, 0.3, 0.4)]


def wfe(mp):
    mp.flagDMwfe = True
    for dm, s in ((mp.dm1, 1.), (mp.dm2, -.7)):
        n = 14
        x = (np.arange(n) - n // 2) / 10.
        X, Y = np.meshgrid(x, x)
        w = s * 2e-8 * (np.cos(2 * np.pi * X) + np.sin(2 * np.pi * (X + 2 * Y)))
        dm.wfe = w
        dm.compact = falco.config.Object()
        dm.compact.wfe = w.copy()


def xc(mp):
    if mp.coro in ('VC', 'Vortex'):
        mp.F3.VortexCharge = np.array([4., 4.5, 6.])
        mp.F3.VortexCharge_lambdas = np.array([500e-9, 550e-9, 600e-9])


def srcoff(mp):
    mp.source_x_offset_norm = 2.
    mp.source_y_offset_norm = -2.5


def hmi(mp):
    mp.thput_metric = 'HMI'
    mp.thput_eval_x, mp.thput_eval_y = -2.0, 1.5


def pupE(mp):
    n = 12
    x = (np.arange(n) - n // 2) / 10.
    X, Y = np.meshgrid(x, x)
    ph = 0.4 * np.cos(2 * np.pi * (2.3 * X + 1.1 * Y)) + 0.1 * X
    a = 1 + 0.1 * np.sin(2 * np.pi * Y)
    nsbp, nw = mp.Nsbp, mp.Nwpsbp
    mp.P1.compact.E = np.stack([a * np.exp(1j * ph * (1 + .1 * s)) for s in range(nsbp)], axis=2)
    mp.P1.full.E = np.stack([mp.P1.compact.E] * nw, axis=2)


OPT = {
    'base': {}, 'inter': dict(centering='interpixel'), 'relay': dict(relays=(2, 1, 2), nrelayfend=1), 'relay2': dict(relays=(1, 2, 1)), 'norot': dict(flag_rotation=False, relays=(2, 2, 3)),
    'dist': dict(d_P2_dm1=0.1, d_dm1_dm2=0.3), 'stops': dict(dm1stop=True, dm2stop=True, d_dm1_dm2=1e-3), 'wfe': dict(extra=wfe), 'apod': dict(apod=True),
    'stars': dict(stars=STARS, nsbp=2), 'zern': dict(zerns=(2, 1, 6), zcoef=2e-9, nsbp=2), 'bands': dict(nsbp=3, nwpsbp=3), 'bands2': dict(nsbp=2, nwpsbp=1, frac_bw=.2),
    'dm1': dict(dm_ind=(1,)), 'dm2': dict(dm_ind=(2,)), 'scale': dict(layout='fpm_scale', nsbp=2), 'src': dict(extra=srcoff, thput='x'), 'chrom': dict(extra=xc, nsbp=3),
    'hmi': dict(extra=hmi, nsbp=2), 'pupE': dict(extra=pupE, nsbp=2), 'tilt': dict(ytilt=12., nact=4), 'odd': dict(nbeam=11, asym_pupil=False),
}


def cases(tier):
    out = [(c, o) for c in CORO for o in OPT]
    if tier == 'thorough':
        for a, b in itertools.combinations([o for o in OPT if o != 'base'], 2):
            if set(OPT[a]) & set(OPT[b]):
                continue
            out += [(c, a + '+' + b) for c in ('LC', 'VC', 'FLC', 'HLC')]
    return out


def sh(a, n):
    return a[:n, :n] if a.shape[0] >= n else np.pad(a, ((0, n - a.shape[0]),) * 2, mode='edge')


def run(case, r):
    coro, opt = case
    kw = dict(nact=3, nbeam=10, rin=2.0, rout=2.8, fov=3., vtoh=6e-9)
    for o in opt.split('+'):
        kw.update(OPT[o])
    kw.pop('thput', None)
    nsbp, nw = kw.get('nsbp', 1), kw.get('nwpsbp', 1)
    if coro == 'HLC':
        kw.setdefault('layout', 'fpm_scale')
        if nsbp > 1 and nw > 1:
            kw['hlc_full'] = lambda cube: cube(nsbp)[:, :, [min(k // (nw - 1), nsbp - 1) for k in range(nsbp * (nw - 1) + 1)]]
    mp, _o = tiny.build(coro=coro, **kw)
    mp.thput_radius = 0.73
    n = kw['nact']
    d = dict(case=case)
    norm0 = [np.array(x, copy=True) for x in (mp.Fend.compact.I00, mp.Fend.eval.I00, mp.Fend.full.I00, mp.sumPupil)]
    rel = []
    for ic in range(3):
        A = np.arange(float(n * n)).reshape(n, n)
        mp.dm1.V = [0 * A, 1.5 * np.sin(A), 2 * np.cos(2 * A)][ic]
        mp.dm2.V = [0 * A, 0 * A, 1.7 * np.sin(A + 1)][ic]
        for rep in range(2):
            falco.imaging.calc_psf_norm_factor(mp)
            now = [np.array(x, copy=True) for x in (mp.Fend.compact.I00, mp.Fend.eval.I00, mp.Fend.full.I00, mp.sumPupil)]
            if ic == 0 or rep:
                r.expect(all(np.allclose(a, b, rtol=1e-13, atol=0) for a, b in zip(now, norm0)), 'idempotent', 'normalising again changes the normalisation', before=norm0, after=now, command=ic, **d)
            norm0 = now
        r.expect(now[0].shape == (nsbp,) and now[1].shape == (nsbp,) and now[2].shape == (nsbp, nw) and all(np.all(x > 0) for x in now), 'form', 'normalisation has the wrong shape or sign', **d)
        pris = copy.deepcopy(mp)

        def mv(s, w=None, z=1, star=0, src='star', xy=None):
            m = falco.config.ModelVariables()
            m.sbpIndex, m.zernIndex, m.starIndex, m.whichSource = s, z, star, src
            if w is not None:
                m.wpsbpIndex = w
            if xy:
                m.x_offset, m.y_offset = xy
            return m
        so = (mp.source_x_offset_norm, mp.source_y_offset_norm)
        vort = coro in ('VC', 'Vortex')

        def peak(kind, s, w=None):
            m = copy.deepcopy(pris)
            if vort:
                # the mask is removed to normalise a vortex
                if kind == 'full':
                    E = falco.model.full(m, mv(s, w), isNorm=False) / np.sqrt(m.Fend.full.I00[s, w])
                elif kind == 'eval':
                    E = falco.model.compact(m, mv(s), isNorm=False, isEvalMode=True) / np.sqrt(m.Fend.eval.I00[s])
                else:
                    E = falco.model.compact(m, mv(s), isNorm=False) / np.sqrt(m.Fend.compact.I00[s])
            else:
                if kind == 'full':
                    E = falco.model.full(m, mv(s, w, src='offaxis', xy=so))
                elif kind == 'eval':
                    E = falco.model.compact(m, mv(s, src='offaxis', xy=so), isEvalMode=True)
                else:
                    E = falco.model.compact(m, mv(s, src='offaxis', xy=so))
            return float(np.max(np.abs(E)**2))
        for s in range(nsbp):
            for kind in ('compact', 'eval'):
                p = peak(kind, s)
                r.expect(abs(p - 1) < 1e-9, 'peak', 'the normalised unocculted star does not peak at one', model=kind, s=s, peak=p, command=ic, **d)
            for w in range(nw):
                p = peak('full', s, w)
                r.expect(abs(p - 1) < 1e-9, 'peak', 'the normalised unocculted star does not peak at one', model='full', s=s, w=w, peak=p, command=ic, **d)
        # full and compact models predict the same field
        for s, z, star in itertools.product(range(nsbp), kw.get('zerns', (1,)), range(len(kw['stars']) if kw.get('stars') else 1)):
            for w in ([nw // 2] if nw % 2 else []):
                Ef = falco.model.full(copy.deepcopy(pris), mv(s, w, z, star))
                Ec = falco.model.compact(copy.deepcopy(pris), mv(s, None, z, star))
                ok = Ef.shape == Ec.shape == (mp.Fend.Neta, mp.Fend.Nxi)
                e = np.max(np.abs(Ef - Ec)) / np.max(np.abs(Ec)) if ok else 9.
                r.expect(e < 1e-9, 'models', 'the full and the compact model predict different fields', err=float(e), s=s, z=z, star=star, command=ic, **d)
                # stored normalisation is what is divided by
                m = copy.deepcopy(pris)
                m.Fend.compact.I00 = m.Fend.compact.I00 * 4
                m.Fend.full.I00 = m.Fend.full.I00 * 9
                r.expect(np.max(np.abs(falco.model.compact(m, mv(s, None, z, star)) * 2 - Ec)) < 1e-9 * np.max(np.abs(Ec)) and np.max(np.abs(falco.model.full(m, mv(s, w, z, star)) * 3 - Ef)) < 1e-9 * np.max(np.abs(Ef)), 'scale', 'fields do not scale with the stored normalisation', **d)
                r.step()
                r.execution(4)
        # throughput
        th, im = falco.imaging.calc_thput(mp)
        ow = np.ones(nsbp)
        if nsbp > 1:
            ow[0] = ow[-1] = 0.5
        ow /= ow.sum()
        I = 0
        for s, star in itertools.product(range(nsbp), range(len(kw['stars']) if kw.get('stars') else 1)):
            m = copy.deepcopy(pris)
            I = I + ow[s] * np.abs(falco.model.compact(m, mv(s, None, 1, star, 'offaxis', (mp.thput_eval_x, mp.thput_eval_y)), isEvalMode=True))**2
        r.expect(np.shape(im) == np.shape(I) and np.max(np.abs(im - I)) < 1e-9 * np.max(I), 'thputimage', 'the throughput image is wrong', command=ic, **d)
        x = (np.arange(mp.Fend.eval.Nxi) - mp.Fend.eval.Nxi // 2 + (0.5 if mp.centering == 'interpixel' else 0)) / mp.Fend.eval.res
        y = (np.arange(mp.Fend.eval.Neta) - mp.Fend.eval.Neta // 2 + (0.5 if mp.centering == 'interpixel' else 0)) / mp.Fend.eval.res
        X, Y = np.meshgrid(x - mp.thput_eval_x, y - mp.thput_eval_y)
        if mp.thput_metric.lower() == 'hmi':
            sel = I >= 0.5 * I.max()
        else:
            sel = np.hypot(X, Y) <= mp.thput_radius
        P = mp.P1.compact.mask * falco.util.pad_crop(np.mean(mp.P1.compact.E, axis=2), mp.P1.compact.mask.shape)
        want = I[sel].sum() * np.mean(mp.Fend.eval.I00) / np.sum(np.abs(P)**2)
        r.expect(abs(th - want) <= 1e-9 * abs(want), 'throughput', 'the throughput is wrong', got=float(th), want=float(want), command=ic, **d)
        r.state(case, ic)
        r.outcome(case, ic, round(float(th), 9))
