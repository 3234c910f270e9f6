"""P06: every control Jacobian column is the derivative of the compact model.

For every enumerated optical configuration and every actuator of every
controlled DM, the column returned by falco.model.jacobian is compared with the
central difference of falco.model.compact (the deciding oracle is the
implementation's own forward model, so model and code cannot drift apart).
"""
import numpy as np
import falco
import tiny

ID = 'P06'
BOUNDS = {'quick': 'every actuator of two 4x4 DMs (every second/fourth in multi-mode configurations), every sub-band x Zernike x star mode, for 6 coronagraph types x 2 centrings x {zero, non-zero commands} and 30 single-option variations (relays, rotation, stops, distances, stars, Zernikes, FPM scaling, normalisation of the peak, DM subsets, tilts, gain maps, WFE, aberrations, Lyot sampling)',
          'thorough': 'every coronagraph type x every option x 2 centrings x 3 command sets, 3x3, 4x4 and 5x5 DMs, and all pairs of options'}
CASE_TIMEOUT = 600
COROS = {'LC': {}, 'APLC': dict(apod=True), 'FLC': {}, 'SPLC': dict(apod=True),
         'HLC': dict(layout='fpm_scale'), 'VC': {},}
OPTS = {
    'none': {},
    'norot': dict(flag_rotation=False),
    'relay211': dict(relays=(2, 1, 1)),
    'relay121': dict(relays=(1, 2, 1)),
    'relay112f1': dict(relays=(1, 1, 2), nrelayfend=1),
    'stops': dict(dm1stop=True, dm2stop=True, d_P2_dm1=0.1),
    'stop2': dict(dm2stop=True),
    'P2dm1': dict(d_P2_dm1=-0.15),
    'negd': dict(d_dm1_dm2=-0.2),
    'conj': dict(d_dm1_dm2=0.2, d_P2_dm1=-0.2),
    'zern': dict(zerns=(1, 2, 5), nsbp=2),
    'stars': dict(stars=[(0, 0, 1., 1.), (1.2, -0.7, 0.3, 0.4)]),
    'star1': dict(stars=[(0.9, 0.4, 0.6, 1.)], nsbp=2),
    'minni': dict(minimize_ni=True),
    'minnistar': dict(minimize_ni=True, stars=[(1.0, -0.5, 1., 1.)]),
    'minnirelay': dict(minimize_ni=True, relays=(1, 2, 1), nrelayfend=1),
    'minnistop': dict(minimize_ni=True, dm2stop=True, apod=True),
    'dm1': dict(dm_ind=(1,)),
    'dm2': dict(dm_ind=(2,)),
    'scale': dict(layout='fpm_scale', nsbp=2),
    'sbp3': dict(nsbp=3, frac_bw=0.2),
    'tilt': dict(ytilt=10.),
    'vneg': dict(vtoh=-2e-9),
    'n5': dict(nbeam=20, nact=5),
    'n3': dict(nact=3, nbeam=15),
    'gains': {}, 'poly2': {}, 'dmwfe': {}, 'cE': dict(nsbp=2), 'lyot12': {}, 'weight': {}, 'res': dict(res=2.5, fov=3.6, sides='right'),
    'amp': dict(fpm_amp=0.3),
}
QUICK = ['norot', 'relay121', 'relay112f1', 'stops', 'P2dm1', 'negd', 'zern', 'stars', 'minni', 'minnistar', 'dm1', 'dm2', 'scale',
         'tilt', 'gains', 'dmwfe', 'cE']
ONLYLC = ['poly2', 'weight', 'relay211', 'stop2', 'conj', 'star1', 'minnirelay', 'minnistop', 'sbp3', 'vneg', 'n5', 'n3', 'lyot12', 'res', 'amp']


def cases(tier):
    out = []
    if tier == 'quick':
        for c in COROS:
            for cen in ('pixel', 'interpixel'):
                for base in ((0, 1) if cen == 'pixel' else (1,)):
                    out.append((c, ('none',), cen, base))
        alt = ['FLC', 'VC', 'HLC', 'APLC', 'SPLC']
        for i, o in enumerate(QUICK):
            out.append(('LC', (o,), 'pixel', 1))
            c = alt[i % len(alt)]
            if o == 'scale' and c in ('HLC', 'VC'):
                c = 'FLC'
            out.append((c, (o,), 'interpixel' if i % 2 else 'pixel', 1))
        for o in ONLYLC:
            out.append(('LC', (o,), 'interpixel' if o in ('relay211', 'minnirelay') else 'pixel', 1))
        for o in ('minni', 'stars', 'dmwfe'):
            out.append(('VC', (o,), 'pixel', 1))
        out.append(('HLC', ('minni',), 'pixel', 1))
        out.append(('HLC', ('sbp3',), 'interpixel', 1))
    else:
        opts = list(OPTS)
        for c in COROS:
            for o in opts:
                for cen in ('pixel', 'interpixel'):
                    for base in ((0, 1, 2) if o == 'none' else (1,)):
                        out.append((c, (o,), cen, base))
        for i, a in enumerate(opts[1:], 1):
            for b in opts[i + 1:]:
                ka, kb = set(OPTS[a]), set(OPTS[b])
                if ka & kb or (a, b) in (('gains', 'poly2'),):
                    continue
                out.append((('LC', 'FLC', 'HLC')[(i + len(b)) % 3], (a, b), 'pixel', 1))
    return sorted(out, key=lambda c: -any(o in ('zern', 'n5', 'sbp3', 'stars', 'minnistar') for o in c[1]))


def make(case):
    coro, opts, cen, base = case
    kw = dict(COROS[coro], coro=coro, centering=cen)
    for o in opts:
        kw.update(OPTS[o])
    if coro == 'HLC':
        kw['layout'] = 'fpm_scale'

    def extra(mp):
        for dm, k in ((mp.dm1, 1), (mp.dm2, 2)):
            n = dm.Nact
            g = np.arange(n * n).reshape(n, n)
            if 'gains' in opts:
                dm.VtoH = 1e-9 * (1 + 0.4 * np.cos(1.7 * g + k))
            if 'poly2' in opts:
                dm.fitType = 'poly2'
                dm.p1 = 5e-12 * (1 + 0.3 * np.sin(g))
                dm.p2 = 1.1e-9 * np.ones((n, n))
                dm.p3 = 1e-9 * np.ones((n, n))
            if 'weight' in opts:
                dm.weight = (0.7, 1.3)[k - 1]
        if 'lyot12' in opts:
            nb = 12
            mp.P4.compact.Nbeam = nb
            mp.P4.compact.mask = tiny._circ(nb, nb + 2, 0.8)
    mp, _ = tiny.build(extra=extra, **kw)
    if 'cE' in opts:
        n = mp.P1.compact.E.shape[0]
        x = (np.arange(n) - n // 2) / 16.
        X, Y = np.meshgrid(x, x)
        for i in range(mp.P1.compact.E.shape[2]):
            mp.P1.compact.E[:, :, i] = (1 + 0.2 * X) * np.exp(1j * (0.3 + 0.1 * i) * np.cos(7 * X + 3 * Y))
    if 'dmwfe' in opts:
        mp.flagDMwfe = True
        N = int(mp.compact.NdmPad)
        x = (np.arange(N) - N / 2) / 16.
        X, Y = np.meshgrid(x, x)
        mp.dm1.compact.wfe = 15e-9 * np.cos(5 * X - 2 * Y)
        mp.dm2.compact.wfe = 20e-9 * np.sin(3 * X + 4 * Y + 1)
    n = mp.dm1.Nact
    g = np.arange(n * n).reshape(n, n)
    amp = (0., 20., 45.)[base]
    mp.dm1.V = amp * np.sin(g + 1.)
    mp.dm2.V = amp * np.cos((2 + (base == 2)) * g + 0.3)
    for dm in (mp.dm1, mp.dm2):
        falco.dm.update_gain_map(dm)
    return mp


def field(mp, im, peak):
    mv = falco.config.ModelVariables()
    mv.whichSource = 'star'
    mv.sbpIndex, mv.zernIndex, mv.starIndex = mp.jac.sbp_inds[im], mp.jac.zern_inds[im], mp.jac.star_inds[im]
    E = falco.model.compact(mp, mv)[mp.Fend.corr.maskBool]
    if not mp.jac.minimizeNI:
        return E, peak
    U = falco.model.compact(mp, mv, useFPM=False)
    if peak is None:
        peak = np.argmax(np.abs(U))
    return E / U.flat[peak], peak


def run(case, r):
    mp = make(case)
    js = falco.model.jacobian(mp)
    r.execution()
    mod = mp.jac.Nmode
    star = mp.compact.star.count
    # the mode list is every sub-band x Zernike (x star) once
    keys = set(zip(map(int, mp.jac.sbp_inds), map(int, mp.jac.zern_inds), map(int, mp.jac.star_inds)))
    r.expect(len(keys) == mod, 'modes', 'control modes are not distinct', keys=keys)
    vc = case[0] in ('VC',)
    tol = 0.03 if vc else 2e-3
    h = 0.1
    for idm, dm, G in ((1, mp.dm1, js.G1), (2, mp.dm2, js.G2)):
        if idm not in mp.dm_ind:
            r.expect(not np.any(G), 'unused', 'a mirror that is not controlled has non-zero columns', dm=idm)
            continue
        n = dm.Nact
        if not r.expect(G.shape == (mp.Fend.corr.Npix, n * n, mod), 'shape', 'Jacobian shape', shape=G.shape):
            continue
        V0 = dm.V.copy()
        for im in range(mod):
            _, pk = field(mp, im, None)
            D = np.zeros_like(G[:, :, im])
            for a in range(n * n):
                if mod > 1 and (a + im) % (2 if mod == 2 else 4):
                    D[:, a] = np.nan
                    continue
                for s in (1, -1):
                    V = V0.copy()
                    V.flat[a] += s * h
                    dm.V = V
                    D[:, a] += s * field(mp, im, pk)[0] / (2 * h)
                r.step(2)
            dm.V = V0
            D *= dm.weight
            ok = ~np.isnan(D[0])
            err = np.linalg.norm(D - G[:, :, im], axis=0)[ok]
            ref = np.linalg.norm(D[:, ok], axis=0)
            r.state(case, idm, im)
            r.outcome('ok', case[0])
            scale = ref.max()
            if not r.expect(scale > 0, 'zero', 'compact model does not respond to the DM', dm=idm, mode=im):
                continue
            r.expect(np.all(err <= tol * scale), 'jacobian', 'Jacobian column differs from the derivative of the compact model',
                     dm=idm, mode=im, star=int(mp.jac.star_inds[im]), actuators=np.nonzero(ok)[0][err > tol * scale][:6].tolist(), rel=(err / scale).max())
    if case[0] == 'LC' and case[1] == ('none',):
        r.outcome('pix', mp.Fend.corr.Npix, star)
