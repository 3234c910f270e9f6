"""Driver of the stored look-up tables (run in a scratch copy of the package)."""
import contextlib
import io
import itertools
import json
import logging
import os
import sys
import traceback
import numpy as np

ROOT, A, TH = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
out = sys.stdout
logging.disable(logging.CRITICAL)
import falco                                              # noqa: E402
import film                                               # noqa: E402
assert os.path.realpath(falco.__file__).startswith(os.path.realpath(ROOT))

BASE = dict(sub='FS', die='PMGI', lam=550e-9, bw=0.10, nsbp=2, nwp=1, aoi=5.5, ti=3., met=(0., 50., 100.), dmet=50., diel=(0., 300.), ddiel=300., d0=4., refl=False)
CONF = [{}, dict(sub='N-BK7'), dict(die='MgF2'), dict(lam=550.3e-9), dict(bw=0.1003), dict(nsbp=3), dict(nwp=3), dict(aoi=5.53), dict(ti=3.04),
        dict(met=(0., 40., 100.)), dict(diel=(0., 300., 300.001), ddiel=300.), dict(d0=5.), dict(refl=True), dict(nwp=3, refl=True, bw=0.1003),
        dict(nwp=3, aoi=5.53), dict(met=(0., 50., 100.04))]


def config(k):
    c = dict(BASE, **CONF[k])
    mp = falco.config.ModelParameters()
    mp.F3.substrate, mp.F3.metal, mp.F3.dielectric, mp.F3.d0fac = c['sub'], 'Ni', c['die'], c['d0']
    mp.lambda0, mp.fracBW, mp.Nsbp, mp.Nwpsbp, mp.aoi, mp.t_Ti_nm = c['lam'], c['bw'], c['nsbp'], c['nwp'], c['aoi'], c['ti']
    mp.t_metal_nm_vec, mp.dt_metal_nm = np.array(c['met']), c['dmet']
    mp.t_diel_nm_vec, mp.dt_diel_nm = np.array(c['diel']), c['ddiel']
    mp.full = falco.config.Object()
    mp.estimator = 'perfect'
    mp.flagSim = True
    falco.setup.falco_set_spectral_properties(mp)
    return c, mp


WANT = {}


def want(c, mp, lams, key):
    if key not in WANT:
        s = 'fs' if c['sub'] == 'FS' else 'bk7'
        W = np.zeros((len(c['diel']), len(c['met']), len(lams)), complex)
        for (i, d), (j, m), (k, l) in itertools.product(enumerate(c['diel']), enumerate(c['met']), enumerate(lams)):
            W[i, j, k] = film.mask_point(s, c['die'].lower(), l, c['aoi'], c['ti'] * 1e-9, m * 1e-9, d * 1e-9, c['d0'] * l, 2, False, ROOT)[int(c['refl'])]
        WANT[key] = W
    return WANT[key]


def clean():
    d = os.path.join(ROOT, 'data', 'material')
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))


nb = 0
ks = range(len(CONF))
for h in ([(A, b, c) for b in ks for c in ks] if TH else [(A, b, A) for b in ks]):
    clean()
    for n, k in enumerate(h):
        c, mp = config(k)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                comp, full = falco.thinfilm.gen_complex_trans_table(mp, flagRefl=c['refl'])
        except Exception:
            key, msg = 'raises', traceback.format_exc()[-800:]
        else:
            w1 = want(c, mp, list(mp.sbp_centers), (k, 0))
            w2 = want(c, mp, list(np.ravel(mp.full.lambdas)), (k, 1))
            key = None
            if comp.shape != w1.shape or not np.allclose(comp, w1, rtol=0, atol=1e-9):
                key, msg = 'compact', 'the table of the compact model is not that of the layers'
            elif full.shape[:2] != w2.shape[:2] or (full.shape[2] == w2.shape[2] and not np.allclose(full, w2, rtol=0, atol=1e-9)):
                key, msg = 'full', 'the table of the full model is not that of the layers'
        if key and nb < 5:
            nb += 1
            out.write('BAD ' + json.dumps(dict(key=key, msg=msg, detail=dict(history=[dict(BASE, **CONF[x]) for x in h[:n + 1]]))) + '\n')
    out.write('STATE %r\n' % (h,))
    out.write('OUT %d\n' % len(os.listdir(os.path.join(ROOT, 'data', 'material'))))
out.write('DONE\n')
