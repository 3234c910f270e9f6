"""P29: coating stacks."""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from falco import thinfilm
import core
import film

ID = 'P29'
BOUNDS = {'quick': 'solver: 2 incident media x every stack of 0..2 layers out of 5 materials x 4 thicknesses x 4 substrates x 4 angles x 2 polarisations; masks: all names of all materials x 4 wavelengths x 3 angles x 3 polarisations x 2 phase conventions x 3 titanium thicknesses x metal and dielectric thicknesses; maps: every 2x2 pattern of thicknesses; tables: every sequence A, B, A of 16 configurations sharing the stored files; look-ups: every 1x2 pattern of 3 metal x 3 dielectric heights (and each out of range) x 1..3 sub-bands x 1..3 samples x both models',
          'thorough': 'stacks of up to 3 layers; every sequence of 3 of the configurations; maps of 2x3'}
LAM = 0.55
MATS = [1., 1.5, 1.38 - 0.02j, 2.4 - 3.2j, 2.3]
THICK = [0., 0.07, 0.31, 1.9]
SUBS = [1., 1.5, 1.9 - 0.4j, 2.2]
INC = [1., 1.5]
ANG = [0., 12., 45., 80.]
SUBN = {'fs': ('FS', 'fs', 'FUSEDSILICA', 'fused_silica'), 'bk7': ('N-BK7', 'n-bk7', 'NBK7', 'bk7')}
DIEL = {'pmgi': ('PMGI', 'pmgi'), 'mgf2': ('MgF2', 'mgf2')}
NCONF = 16


def cases(tier):
    th = tier == 'thorough'
    out = [('stack', i, s, m, 3 if th else 2) for i in range(len(INC)) for s in range(len(SUBS)) for m in range(-1, len(MATS))]
    out += [('mask', s, d, l) for s in SUBN for d in DIEL for l in (400., 412.7, 700., 1300.)]
    out += [('map', th, k) for k in range(3)]
    out += [('table', a, th) for a in range(NCONF)]
    out += [('lut', a, b, c) for a in (1, 2, 3) for b in (1, 2, 3) for c in ('compact', 'full')]
    return out


def run(case, r):
    globals()['do_' + case[0]](case, r)


def do_stack(case, r):
    _, i, s, first, depth = case
    layers = [(m, t) for m in MATS for t in THICK]
    heads = [()] if first < 0 else [((MATS[first], t),) for t in THICK]
    tails = [()] if first < 0 else [x for n in range(depth) for x in itertools.product(layers, repeat=n)]
    for head, tail in itertools.product(heads, tails):
        st = head + tail
        n = np.array([INC[i]] + [m for m, _ in st] + [SUBS[s]], dtype=complex)
        d0 = np.array([t * LAM for _, t in st])
        if len(st) == 3 and len({m for m, _ in st}) == 1 and st[0][0] == 1.:
            continue                                      # merging is decided by two layers
        for a in ANG:
            th = np.radians(a)
            for tm in (False, True):
                nc, dc = n.copy(), d0.copy()
                R, T, rr, tt = thinfilm.solver(n, d0, th, LAM, tm)
                wr, wt, wR, wT = film.coefficients(n, d0, th, LAM, tm)
                d = dict(n=n, d=d0, angle=a, tm=tm, got=(R, T, rr, tt), want=(wR, wT, wr, wt))
                r.step()
                r.execution()
                r.expect(np.array_equal(n, nc) and np.array_equal(d0, dc), 'argument', 'the arguments are changed', **d)
                ok = abs(R - wR) < 1e-9 and abs(T - wT) < 1e-9 and abs(rr - wr) < 1e-9 and abs(tt - wt) < 1e-9
                r.expect(ok, 'coefficients', 'the coefficients are not those of the stack', **d)
                if np.isrealobj(np.real_if_close(n)):
                    r.expect(abs(R + T - 1) < 1e-9, 'energy', 'a lossless stack does not conserve energy', **d)
                r.expect(R + T <= 1 + 1e-9 and R >= 0 and T >= -1e-12, 'passive', 'the stack produces light', **d)
                if not st:
                    n1, n2 = n
                    c1 = np.cos(th)
                    c2 = np.sqrt(1 - (n1 * np.sin(th) / n2)**2 + 0j)
                    c2 = -c2 if (n2 * c2).imag > 0 or (n1.imag == 0 == n2.imag and c2.imag > 0) else c2
                    f = (n1 * c2 - n2 * c1) / (n1 * c2 + n2 * c1) if tm else (n1 * c1 - n2 * c2) / (n1 * c1 + n2 * c2)
                    r.expect(abs(rr - f) < 1e-9, 'fresnel', 'a bare interface does not reflect by the Fresnel formula', formula=f, **d)
                if a == 0. and not tm:
                    q = thinfilm.solver(n, d0, th, LAM, True)
                    r.expect(all(abs(x - y) < 1e-9 for x, y in zip((R, T, rr, tt)[:4 if n[-1].imag == 0 else 3], q)), 'normal', 'the polarisations differ at normal incidence', other=q, **d)
                r.state(i, s, st, a, tm)
                r.outcome(round(float(R), 6), round(float(T), 6))
                if r.viol:
                    return


METAL = [0., 5e-11, 95e-9, 30.5e-9]
DT = [0., 100e-9, 612.3e-9]


def do_mask(case, r):
    _, s, q, lnm = case
    lam = lnm * 1e-9
    for k, (sub, die) in enumerate(itertools.product(SUBN[s], DIEL[q])):
        for aoi, pol, opd, ti, d0 in itertools.product((0, 5.5, 40.), (0, 1, 2), (False, True), (0., 3e-9, 21e-9), (4, 5.3)):
            if k and (aoi, d0) != (5.5, 4):
                continue                                  # other names of the same materials
            met, dts = list(METAL), list(DT)
            t, rc = thinfilm.calc_complex_trans_matrix(sub, 'Ni' if k % 2 else 'nickel', die, lam, aoi, ti, met, dts, d0 * lam, pol, opd)
            d = dict(substrate=sub, dielectric=die, lam=lam, aoi=aoi, pol=pol, opd=opd, ti=ti, d0=d0)
            r.execution()
            if not r.expect(t.shape == (len(DT), len(METAL)) == rc.shape, 'shape', 'the table has the wrong shape', got=t.shape, **d):
                return
            r.expect(met == METAL and dts == DT, 'argument', 'the thicknesses given are changed', **d)
            for a, dm in enumerate(DT):
                for b, m in enumerate(METAL):
                    w = film.mask_point(s, q, lam, aoi, ti, m, dm, d0 * lam, pol, opd, core.REPO)
                    r.step()
                    r.state(case, sub, die, aoi, pol, opd, ti, d0, a, b)
                    r.expect(abs(t[a, b] - w[0]) < 1e-9 and abs(rc[a, b] - w[1]) < 1e-9, 'mask', 'the coefficient is not that of the layers', metal=m, thickness=dm, got=(t[a, b], rc[a, b]), want=w, **d)
                    r.outcome(np.round(w[0], 6))
                    if r.viol:
                        return
    for args in [('glass', 'ni', 'pmgi'), ('fs', 'gold', 'pmgi'), ('fs', 'ni', 'air')]:
        try:
            thinfilm.calc_complex_trans_matrix(*args, lam, 0, 0., [0.], [0.], lam, 0)
            r.bad('unknown', 'an unknown material is accepted', names=args)
        except ValueError:
            pass


def do_map(case, r):
    _, th, k = case
    shape = (2, 3) if th else (2, 2)
    ms, ds = (0., 95e-9, 94.9999999e-9), (0., 300e-9)
    pts = list(itertools.product(ms, ds))
    npix = shape[0] * shape[1]
    ti, pol, opd = [(0., 0, False), (3e-9, 1, True), (3e-9, 2, False)][k]
    lam, d0 = 520e-9, 4 * 520e-9
    ref = {p: film.mask_point('fs', 'pmgi', lam, 5.5, ti, p[0], p[1], d0, pol, opd, core.REPO) for p in pts}
    for pat in itertools.product(range(len(pts)), repeat=npix):
        if npix == 6 and pat[4:] not in ((0, 3), (5, 5), (1, 0)):
            continue
        M = np.array([pts[p][0] for p in pat]).reshape(shape)
        D = np.array([pts[p][1] for p in pat]).reshape(shape)
        m0, d0_ = M.copy(), D.copy()
        out = thinfilm.calc_complex_occulter('FS', 'Nickel', 'PMGI', lam, 5.5, ti, M, D, d0, pol, opd)
        w = np.array([ref[pts[p]][0] for p in pat]).reshape(shape)
        r.step()
        r.execution()
        r.state(case, pat)
        r.expect(out.shape == shape and np.allclose(out, w, rtol=0, atol=1e-9), 'map', 'a pixel has not the transmission of its own layers', metal=M, dielectric=D, ti=ti, pol=pol, got=out, want=w)
        r.expect(np.array_equal(M, m0) and np.array_equal(D, d0_), 'argument', 'the maps given are changed', metal=M)
        r.outcome(len(set(pat)))
        if r.viol:
            return


def do_lut(case, r):
    """masks looked up in the table: every pixel has the transmission of its layers at the sample's own wavelength"""
    _, nsbp, nwp, model = case
    scratch(r, 'filmlut.py', str(nsbp), str(nwp), model)


def do_table(case, r):
    """stored tables: the real code, run from a scratch copy since it stores files beside itself"""
    _, a, th = case
    scratch(r, 'filmtab.py', str(a), str(int(th)))


def scratch(r, driver, *args):
    tmp = tempfile.mkdtemp(prefix='vP29_')
    try:
        shutil.copytree(os.path.join(core.REPO, 'falco'), os.path.join(tmp, 'falco'), ignore=shutil.ignore_patterns('__pycache__', '*.pkl', '*.so', 'ws', 'brief'))
        os.makedirs(os.path.join(tmp, 'data', 'material'))
        env = dict(os.environ, PYTHONPATH=tmp + os.pathsep + os.path.join(core.VERIF, 'mc'), VERIF_REPO=tmp, PYTHONDONTWRITEBYTECODE='1', HOME=tmp)
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(core.VERIF, 'mc', driver), tmp] + list(args), cwd=tmp, env=env, capture_output=True, text=True)
        if p.returncode or 'DONE' not in p.stdout:
            raise core.HarnessError('table driver: ' + p.stderr[-1500:])
        for l in p.stdout.splitlines():
            if l.startswith('BAD '):
                v = json.loads(l[4:])
                r.bad(v['key'], v['msg'], **v['detail'])
            elif l.startswith('STATE '):
                r.state(l)
                r.step(3)
                r.execution(3)
            elif l.startswith('OUT '):
                r.outcome(l)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
