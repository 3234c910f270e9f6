"""P37: Zernike modes and the sensitivities computed with them.

Modes: every mode of the bound, on every pixel, against Noll's definition
(circle) and against an orthogonalisation done here (annulus).  Sensitivities:
every configuration against perturbed models evaluated one at a time here.
"""
import copy
import itertools
import math
import numpy as np
import falco
import falco.proper as proper
import tiny
import stubrx

ID = 'P37'
BOUNDS = {'quick': 'Noll modes 1..36 singly and in sets, 2 centrings, 4 pupil widths; annular modes 1..22 for 5 obscurations; phase, amplitude and map-only application; sensitivities for Lyot, vortex and PROPER-type models x sub-bands x wavelengths x polarisation sets x mode lists x annuli x dark-hole shapes, clocked, shifted and of two zones, serial and multiprocessing, with Zernike modes already set in the PROPER model',
          'thorough': 'Noll modes 1..66, 8 pupil widths, 9 obscurations; every combination of two options for the sensitivities'}
CASE_TIMEOUT = 600
CHUNK = 1

OPT = {
    'none': dict(), 'bands': dict(nsbp=3, frac_bw=0.2), 'wvl': dict(nsbp=2, nwpsbp=3, frac_bw=0.2), 'wvl1': dict(nsbp=1, nwpsbp=3),
    'inter': dict(centering='interpixel'), 'aberr': dict(aberr=0.3), 'left': dict(sides='left'), 'clock': dict(_fend=dict(clockAngDeg=30.), ang=100.),
    'shift': dict(_fend=dict(xiOffset=0.7, etaOffset=-0.4)), 'shape': dict(_fend=dict(shape='D')), 'rect': dict(_fend=dict(shape='rect', clockAngDeg=20.), fov=4.),
    'zones': dict(_zones=True), 'fov': dict(_fend=dict(xiFOV=5., etaFOV=4.)), 'par': dict(parallel=True, nsbp=2, frac_bw=0.2),
    'full': dict(full_nbeam=16), 'stars': dict(stars=[(0.4, -0.3, 0.8, 1.0), (2.5, 1.0, 0.3, 0.4)]), 'rms': dict(_rms=3e-9), 'jac': dict(zerns=(1, 4), zcoef=2e-9),
}
MODES = ((2, 3), (4,), (11, 2, 8), (1, 5))
ANN = (((2., 3.),), ((1., 2.), (2., 3.5), (2.5, 3.)))
POL = ((0,), (-2, -1, 1, 2), (5, 6))
PRE = ('none', 'empty', 'same', 'other', 'zval', 'data')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for c in ('pixel', 'interpixel'):
        for nb in (8, 9.6, 15, 32) if not th else (8, 9.6, 11, 15, 20.3, 32, 47, 64):
            out.append(('noll', c, nb, 66 if th else 36))
    for e in (0.1, 0.25, 0.5, 0.7, 0.9) if not th else (0.05, 0.1, 0.2, 0.25, 0.4, 0.5, 0.7, 0.8, 0.9):
        for fn in ('falco', 'proper'):
            out.append(('annular', e, fn))
    for coro in ('LC', 'VC'):
        for o in OPT:
            for m, a in ((0, 1), (2, 0)) if not th else itertools.product(range(4), range(2)):
                out.append(('sens', coro, (o,), m, a))
        if th:
            for o in itertools.combinations(OPT, 2):
                out.append(('sens', coro, o, 2, 1))
    for p in range(len(POL)):
        for pre in PRE:
            for o in ('none', 'bands', 'par', 'wvl') if th or pre in ('none', 'other') else ('none', 'par'):
                out.append(('prop', p, pre, o, 2 if pre != 'same' else 0))
    return out


# ------------------------------------------------------------- Noll's definition
def noll(j):
    """(n, m, kind): kind 'c', 's' or '0'"""
    n = 0
    k = j
    while k > n + 1:
        k -= n + 1
        n += 1
    ms = []
    for m in range(n % 2, n + 1, 2):
        ms += [m] if m == 0 else [m, m]
    m = ms[k - 1]
    return n, m, '0' if m == 0 else 'c' if j % 2 == 0 else 's'


def radial(n, m):
    """coefficients by power"""
    c = {}
    for s in range((n - m) // 2 + 1):
        c[n - 2 * s] = (-1) ** s * math.factorial(n - s) / (math.factorial(s) * math.factorial((n + m) // 2 - s) * math.factorial((n - m) // 2 - s))
    return c


def zmap(j, X, Y, coef=None):
    n, m, kind = noll(j)
    R, T = np.hypot(X, Y), np.arctan2(Y, X)
    c = coef or radial(n, m)
    v = sum(a * R ** p for p, a in c.items())
    if kind == '0':
        return math.sqrt(n + 1) * v
    return math.sqrt(2 * (n + 1)) * v * (np.cos(m * T) if kind == 'c' else np.sin(m * T))


def annular(n, m, e):
    """radial part of the annular mode: powers m, m+2, .. n orthogonalised on [e, 1], same normalisation as on the circle"""
    def dot(a, b):
        return sum(x * y * (1 - e ** (p + q + 2)) / (p + q + 2) for p, x in a.items() for q, y in b.items())
    basis = []
    for p in range(m, n + 1, 2):
        v = {p: 1.}
        for _ in range(2):
            for b in basis:
                d = dot(v, b)
                v = {q: v.get(q, 0.) - d * b.get(q, 0.) for q in set(v) | set(b)}
        s = math.sqrt(dot(v, v))
        basis.append({q: x / s for q, x in v.items()})
    v = basis[-1]
    # mean of R^2 over the annulus = 1/(n+1) for the normalisation sqrt(n+1) (or sqrt(2(n+1)) with cos/sin)
    s = math.sqrt((1 - e * e) / 2 / (n + 1))
    return {q: x * s for q, x in v.items()}


def grid(c, n, nb):
    x = (np.arange(n) - n / 2 + (0.5 if c == 'interpixel' else 0.)) / (nb / 2.)
    return np.meshgrid(x, x)


def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def run(case, r):
    {'noll': do_noll, 'annular': do_annular, 'sens': do_sens, 'prop': do_prop}[case[0]](case, r)


def do_noll(case, r):
    _, c, nb, top = case
    sets = [[j] for j in range(1, top + 1)] + [[4, 2, 11], [3, 3], list(range(1, top + 1, 5)), [22, 5, 1, 9]]
    for s in sets:
        for form in ((np.array(s),) if len(s) > 1 else (np.array(s), s[0])):
            Z = falco.zern.gen_norm_zern_maps(nb, c, form)
            n = Z.shape[0]
            r.execution()
            r.step(Z.size)
            r.expect(Z.shape == (n, n, len(s)) and n % 2 == 0 and n >= nb, 'shape', 'wrong array size', shape=Z.shape)
            X, Y = grid(c, n, nb)
            for q, j in enumerate(s):
                r.state(c, nb, j, len(s))
                r.expect(near(Z[:, :, q], zmap(j, X, Y), 1e-8), 'mode', 'mode differs from its definition', mode=j, centering=c, nbeam=nb)
            r.outcome(n)
    # applied to a wavefront: phase, amplitude, radius
    for j, amp, rad in itertools.product((2, 4, 7, 13), (False, True), (None, 0.3)):
        wf = proper.prop_begin(1., 0.6e-6, 32, 0.5)
        kw = dict(AMPLITUDE=True) if amp else {}
        if rad:
            kw['RADIUS'] = rad
        a0 = wf.wfarr.copy()
        k = 1e-7 if not amp else 0.3
        for lst in ([j], [j, 5]):
            for fn in ('falco', 'proper'):
                w = copy.deepcopy(wf)
                vals = np.array([k, -2 * k][:len(lst)])
                if fn == 'falco':
                    d = falco.zern.propcustom_zernikes(w, np.array(lst), vals, CENTERING='pixel', **kw)
                else:
                    d = proper.prop_zernikes(w, np.array(lst), vals, **kw)
                x = (np.arange(32) - 16) * proper.prop_get_sampling(w) / (rad or 0.5)
                X, Y = np.meshgrid(x, x)
                want = sum(v * zmap(q, X, Y) for v, q in zip(vals, lst))
                r.expect(near(d / k, want / k, 1e-8), 'map', 'aberration map differs from its modes', modes=lst, fn=fn)
                W = np.fft.ifftshift(want)
                r.expect(near(w.wfarr, a0 * (W if amp else np.exp(2j * np.pi / 0.6e-6 * W)), 1e-8), 'apply', 'modes are not applied to the wavefront as asked', modes=lst, amplitude=amp, fn=fn)
                r.state('apply', j, amp, rad, fn, len(lst))


def do_annular(case, r):
    _, e, fn = case
    wf = proper.prop_begin(2., 0.6e-6, 48, 0.7)
    x = (np.arange(48) - 24) * proper.prop_get_sampling(wf)
    X, Y = np.meshgrid(x, x)
    R = np.hypot(X, Y)
    inside = (R <= 1) & (R >= e)
    for j in range(1, 23):
        n, m, kind = noll(j)
        want = zmap(j, X, Y, annular(n, m, e))
        for extra in ([], [5]):
            w = copy.deepcopy(wf)
            f = falco.zern.propcustom_zernikes if fn == 'falco' else proper.prop_zernikes
            d = f(w, np.array([j] + extra), np.array([1e-7, -3e-8][:1 + len(extra)]), e)
            t = 1e-7 * want + sum(-3e-8 * zmap(5, X, Y, annular(2, 2, e)) for _ in extra)
            r.execution()
            r.step(int(inside.sum()))
            r.state(e, fn, j, len(extra))
            r.expect(near(d[inside] / 1e-7, t[inside] / 1e-7, 1e-6), 'annular', 'annular mode differs from the orthogonal mode', mode=j, eps=e, fn=fn)
    r.outcome(fn, e)
    try:
        f(copy.deepcopy(wf), np.array([23]), np.array([1e-7]), e)
        r.bad('range', 'an annular mode beyond the table was accepted', fn=fn)
    except ValueError:
        pass


# ------------------------------------------------------------- sensitivities
def region(fend, rin, rout, centering, nx, ny):
    """own dark-hole region: union over zones"""
    x = (np.arange(nx) - nx / 2 + (0.5 if centering == 'interpixel' else 0)) / fend.res
    y = (np.arange(ny) - ny / 2 + (0.5 if centering == 'interpixel' else 0)) / fend.res
    X, Y = np.meshgrid(x, y)
    at = lambda name, q, d: np.atleast_1d(getattr(fend, name))[q] if hasattr(fend, name) else d
    out = np.zeros(X.shape, bool)
    unsure = np.zeros(X.shape, bool)
    for q in range(np.size(fend.corr.ang)):
        side, shape = at('sides', q, 'both'), str(at('shape', q, 'circle')).lower()
        c0 = {'left': np.pi, 'right': 0., 'leftright': 0., 'both': 0., 'top': np.pi / 2, 'bottom': -np.pi / 2}[side] + np.radians(at('clockAngDeg', q, 0.))
        U, V = X - at('xiOffset', q, 0.), Y - at('etaOffset', q, 0.)
        A, B = U * np.cos(c0) + V * np.sin(c0), -U * np.sin(c0) + V * np.cos(c0)
        R = np.hypot(A, B)
        half = np.radians(np.atleast_1d(fend.corr.ang)[q]) / 2
        ang = np.abs(np.arctan2(B, A))
        ang2 = np.abs(np.arctan2(B, -A))
        edge = np.zeros(X.shape, bool)

        def lim(v, b):
            nonlocal edge
            edge = edge | (np.abs(v - b) < 1e-9)
            return v >= b
        if shape == 'circle':
            m = lim(R, rin) & ~(lim(R, rout) & (np.abs(R - rout) >= 1e-9))
        elif shape == 'd':
            m = lim(np.abs(A), rin) & ~(lim(R, rout) & (np.abs(R - rout) >= 1e-9))
        elif shape == 'rect':
            m = lim(np.abs(A), rin) & ~lim(np.abs(A), rout) & ~lim(np.abs(B), rout)
        w = ang <= half
        edge |= (np.abs(ang - half) < 1e-9)
        if side in ('leftright', 'both'):
            w |= ang2 <= half
            edge |= (np.abs(ang2 - half) < 1e-9)
        full = half >= np.pi / 2 - 1e-12 and side in ('leftright', 'both')
        if full:
            w = np.ones(X.shape, bool)
        if shape == 'circle':
            # on-grid radii are inside by convention
            edge &= ~((np.abs(R - rin) < 1e-9) | (np.abs(R - rout) < 1e-9)) | ((not full) & ((np.abs(ang - half) < 1e-9) | (np.abs(ang2 - half) < 1e-9)))
        out |= m & w
        unsure |= edge & (R > 1e-9) & (not (full and shape == "circle"))
    return out, unsure & ~out | unsure


def expected(mp, fields, modes, ann, r):
    """fields(j) -> list of fields over wavelengths and polarisations; j=None: unperturbed"""
    E0 = fields(None)
    lo = np.zeros((len(modes), len(ann)))
    hi = lo.copy()
    for a, j in enumerate(modes):
        d2 = np.mean([np.abs(p - q) ** 2 for p, q in zip(fields(j), E0)], axis=0)
        for b, (x, y) in enumerate(ann):
            m, u = region(mp.Fend, x, y, mp.centering, mp.Fend.Nxi, mp.Fend.Neta)
            sure = d2[m & ~u]
            un = np.sort(d2[u])
            # pixels exactly on an edge of the region may or may not count
            if un.size == 0:
                lo[a, b] = hi[a, b] = sure.mean()
            else:
                s, n = sure.sum(), sure.size
                lo[a, b] = min((s + un[:k].sum()) / (n + k) for k in range(un.size + 1) if n + k)
                hi[a, b] = max((s + un[::-1][:k].sum()) / (n + k) for k in range(un.size + 1) if n + k)
    return lo, hi


def deep(o):
    out = {}

    def walk(v, p):
        if isinstance(v, np.ndarray):
            out[p] = (v.shape, v.tobytes() if v.dtype != object else repr(v))
        elif hasattr(v, '__dict__') and not callable(v) and not isinstance(v, type):
            for k in sorted(vars(v)):
                walk(vars(v)[k], p + (k,))
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                walk(v[k], p + (str(k),))
        else:
            out[p] = repr(v)
    walk(o, ())
    return out


def judge(mp, modes, ann, fields, r, what):
    before = deep(mp)
    S = falco.zern.calc_zern_sens(mp)
    r.execution()
    r.step(len(modes) * len(ann))
    after = deep(mp)
    diff = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and p[-1] != 'polaxis']
    r.expect(not diff, 'settings', 'computing sensitivities changed the settings', changed=['.'.join(p) for p in diff][:6], **what)
    lo, hi = expected(mp, fields, modes, ann, r)
    S = np.asarray(S)
    if not r.expect(S.shape == lo.shape, 'shape', 'wrong shape', got=S.shape, **what):
        return
    tol = 1e-6
    r.expect(np.all(S >= lo * (1 - tol) - 1e-300) and np.all(S <= hi * (1 + tol) + 1e-300), 'sens', 'sensitivity differs from that of the perturbed model', got=S.tolist(), low=lo.tolist(), high=hi.tolist(), **what)
    r.outcome(np.round(np.log10(S + 1e-300)).tolist())


def build(o, modes, ann, proper_pol=None, pre=None):
    kw = {}
    for name in o:
        for k, v in OPT[name].items():
            kw[k] = v
    fend, zones, rms = kw.pop('_fend', {}), kw.pop('_zones', False), kw.pop('_rms', None)

    def extra(mp):
        for k, v in fend.items():
            setattr(mp.Fend, k, v)
        if zones:
            for g in (mp.Fend.corr, mp.Fend.score):
                g.Rin, g.Rout, g.ang = np.array([1.5, 2.0]), np.array([3.0, 3.5]), np.array([120., 80.])
            mp.Fend.sides = ['left', 'top']
        if mp.centering == 'interpixel':
            # a pupil inside the beam, centred between pixels
            for p in (mp.P1.full, mp.P1.compact):
                X, Y = grid('interpixel', p.mask.shape[0], p.Nbeam)
                p.mask = ((np.hypot(X, Y) <= 1) & ~((X > 0.2) & (X < 0.5) & (Y > 0.1) & (Y < 0.6))).astype(float)
        mp.eval.indsZnoll = np.array(modes)
        mp.eval.Rsens = np.array(ann)
        if rms:
            mp.full.ZrmsVal = rms
        if pre == 'empty':
            mp.full.zindex, mp.full.zval_m = np.array([]), np.array([])
        elif pre == 'same':
            mp.full.zindex, mp.full.zval_m = np.array([3, 6]), np.array([4e-9, -2e-9])
        elif pre == 'other':
            mp.full.zindex, mp.full.zval_m = np.array([6, 9]), np.array([4e-9, -2e-9])
        elif pre == 'zval':
            mp.full.zindex, mp.full.zval_m, mp.full.zval = np.array([6]), np.array([4e-9]), np.array([4e-9])
        elif pre == 'data':
            mp.full['zindex'], mp.full['zval_m'] = np.array([6, 2]), np.array([4e-9, 1e-9])
    args = dict(dict(nact=4, nbeam=12, rin=1.5, rout=3.0, fov=3.6), **kw)
    if proper_pol:
        return tiny.proper_config(pol=proper_pol, extra=extra, **dict(args, nbeam=14))[0]
    coro = args.pop('coro', 'LC')
    return coro, args, extra


def distinct(mp):
    """(sub-band, wavelength) pairs, one for each distinct wavelength"""
    out = []
    for si, wi in itertools.product(range(mp.Nsbp), range(mp.Nwpsbp)):
        l = mp.full.lambdasMat[si, wi]
        if not any(abs(l - mp.full.lambdasMat[q]) < 1e-14 for q in out):
            out.append((si, wi))
    return out


def do_sens(case, r):
    _, coro, o, im, ia = case
    modes, ann = MODES[im], ANN[ia]
    if 'zones' in o and {'clock', 'shift', 'shape', 'rect', 'left', 'fov'} & set(o) or {'shape', 'rect'} <= set(o) or {'clock', 'rect'} <= set(o) or {'stars', 'full'} <= set(o):
        r.outcome('combination without meaning here')
        return
    _, args, extra = build(o, modes, ann)
    mp, _ = tiny.build(coro=coro, extra=extra, **args)
    mp.dm1.V = 2 * np.sin(np.arange(16.)).reshape(4, 4)
    a = mp.full.ZrmsVal
    pts = distinct(mp)
    n = mp.P1.full.Narr
    X, Y = grid(mp.centering, n, mp.P1.full.Nbeam)

    def fields(j):
        m = copy.deepcopy(mp)
        out = []
        for si, wi in pts:
            if j is not None:
                m.P1.full.E = np.array(mp.P1.full.E, dtype=complex)
                m.P1.full.E[:, :, wi, si] *= np.exp(2j * np.pi * a / mp.full.lambdasMat[si, wi] * zmap(j, X, Y))
            mv = falco.config.ModelVariables()
            mv.sbpIndex, mv.wpsbpIndex, mv.starIndex, mv.zernIndex, mv.whichSource = si, wi, 0, 1, 'star'
            out.append(falco.model.full(m, mv))
        return out
    r.state(case)
    judge(mp, modes, ann, fields, r, dict(coro=coro, options=o, modes=modes))


def do_prop(case, r):
    _, ip, pre, o, im = case
    pol, modes, ann = POL[ip], MODES[im], ANN[1]
    mp = build((o,), modes, ann, pol, pre)
    a = mp.full.ZrmsVal
    pts = distinct(mp)
    have = {'same': {3: 4e-9, 6: -2e-9}, 'other': {6: 4e-9, 9: -2e-9}, 'zval': {6: 4e-9}, 'data': {6: 4e-9, 2: 1e-9}}.get(pre, {})

    def fields(j):
        out = []
        for si, wi in pts:
            lam = mp.full.lambdasMat[si, wi]
            for p in pol:
                z = dict(have)
                if j is not None:
                    z[j] = z.get(j, 0.) + a
                out.append(prescribed(mp, lam, p, z, si, wi))
        return out
    r.state(case)
    judge(mp, modes, ann, fields, r, dict(pol=pol, present=pre, options=o, modes=modes))


def prescribed(mp, lam, pol, z, si, wi):
    """the prescription run directly with the settings it should be given"""
    pv = {k: v for k, v in mp.full.as_dict().items() if k not in ('zindex', 'zval_m', 'zval', 'polaxis')}
    pv['polaxis'] = pol
    if z:
        pv['zindex'], pv['zval_m'] = np.array(sorted(z)), np.array([z[k] for k in sorted(z)])
    for i in (1, 2):
        if i in list(mp.dm_ind):
            pv['use_dm%d' % i] = True
            dm = getattr(mp, 'dm%d' % i)
            pv['dm%d' % i] = dm.V * dm.VtoH + getattr(mp.full, 'dm%dFlatMap' % i)
    E, _ = stubrx.stubrx(lam, mp.P1.full.Narr, pv)
    return E / np.sqrt(mp.Fend.full.I00[si, wi])
