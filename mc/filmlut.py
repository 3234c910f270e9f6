"""Driver of the look-ups of focal-plane masks (run in a scratch copy of the package)."""
import contextlib
import io
import itertools
import json
import logging
import os
import sys
import traceback
import numpy as np

ROOT, NSBP, NWP, MODEL = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
out = sys.stdout
logging.disable(logging.CRITICAL)
import falco                                              # noqa: E402
import film                                               # noqa: E402
assert os.path.realpath(falco.__file__).startswith(os.path.realpath(ROOT))
mp = falco.config.ModelParameters()
mp.full, mp.compact = falco.config.Object(), falco.config.Object()
mp.lambda0, mp.fracBW, mp.Nsbp, mp.Nwpsbp, mp.aoi, mp.t_Ti_nm = 550e-9, 0.2, NSBP, NWP, 5.5, 3.
mp.estimator, mp.flagSim = 'perfect', True
mp.F3.substrate, mp.F3.metal, mp.F3.dielectric, mp.F3.d0fac = 'FS', 'Ni', 'PMGI', 4.
MET, DIE = [0., 40., 80.], [100., 200., 300.]
mp.t_metal_nm_vec, mp.dt_metal_nm = np.array(MET), 40.
mp.t_diel_nm_vec, mp.dt_diel_nm = np.array(DIE), 100.
mp.t_diel_bias_nm = 100.
nb = 0


def bad(key, msg, **d):
    global nb
    nb += 1
    if nb <= 3:
        out.write('BAD ' + json.dumps(dict(key=key, msg=msg, detail={k: repr(v)[:500] for k, v in d.items()})) + '\n')


def dm(heights):
    """one 'actuator' per pixel of a 1 x n row, in a square array"""
    n = len(heights)
    d = falco.config.Object()
    d.compact = falco.config.Object()
    for o, k in ((d, 1), (d.compact, 1)):
        o.NdmPad, o.Nbox = n, 1
        o.inf_datacube = np.full((1, 1, n), 2.)
        o.xy_box_lowerLeft = np.array([range(n), [n - 1] * n])
    d.NactTotal = n
    d.VtoH = np.full(n, 0.5e-9)
    d.V = np.array(heights, float)
    return d


try:
    with contextlib.redirect_stdout(io.StringIO()):
        falco.setup.falco_set_spectral_properties(mp)
        mp.complexTransCompact, mp.complexTransFull = falco.thinfilm.gen_complex_trans_table(mp)
    h8, h9 = (-5., 0., 19., 21., 41., 79., 200.), (-5., 0., 49., 51., 99., 201., 500.)
    n8, n9 = (0, 0, 0, 1, 1, 2, 2), (0, 0, 0, 1, 1, 2, 2)
    full = MODEL == 'full'
    memo = {}

    def want(k8, k9, lam):
        if (k8, k9, lam) not in memo:
            memo[k8, k9, lam] = film.mask_point('fs', 'pmgi', lam, 5.5, 3e-9, MET[k8] * 1e-9, DIE[k9] * 1e-9, 4 * lam, 2, False, ROOT)[0]
        return memo[k8, k9, lam]
    for a, b in itertools.product(range(7), repeat=2):
        for c, e in ((0, 0), (4, 5), (6, 1)):
            mp.dm8, mp.dm9 = dm([h8[a], h8[c]]), dm([h9[b], h9[e]])
            # rows without material: no metal, and the bias of dielectric only
            base = (0, 0)
            for si, wi in itertools.product(range(NSBP), range(NWP) if full else (-1,)):
                lam = float(mp.full.lambdasMat[si, wi]) if full else float(mp.sbp_centers[si])
                m = falco.hlc.gen_fpm_from_LUT(mp, si, wi, MODEL)
                w = np.array([[want(*base, lam)] * 2, [want(n8[a], n9[b], lam), want(n8[c], n9[e], lam)]])
                if m.shape != w.shape or not np.allclose(m, w, rtol=0, atol=1e-9):
                    bad('lookup', 'the mask is not that of its layers at the wavelength of the sample', heights=(h8[a], h9[b], h8[c], h9[e]), sample=(si, wi), got=m, want=w, model=MODEL)
                out.write('STATE %r\n' % ((a, b, c, e, si, wi),))
            cube, s8, s9 = falco.hlc.gen_fpm_cube_from_LUT(mp, MODEL)
            lams = list(np.ravel(mp.full.lambdas)) if full else list(mp.sbp_centers)
            w = np.array([[[want(*base, l) for l in lams]] * 2, [[want(n8[a], n9[b], l) for l in lams], [want(n8[c], n9[e], l) for l in lams]]])
            if cube.shape != w.shape or not np.allclose(cube, w, rtol=0, atol=1e-9):
                bad('cube', 'the masks of all wavelengths are not those of the layers', heights=(h8[a], h9[b], h8[c], h9[e]), model=MODEL)
            out.write('OUT %r\n' % (np.round(cube.sum(), 6),))
except Exception:
    bad('raises', traceback.format_exc()[-800:])
out.write('DONE\n')
