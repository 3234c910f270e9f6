"""P21: dark-hole regions contain exactly the pixels of the requested geometry."""
import itertools
import numpy as np
import falco
import tiny

ID = 'P21'
BOUNDS = {'quick': '4 shapes x 7 sides x 4 radius pairs x 3 opening angles x 3 rotations x 4 offset pairs x 2 resolutions x 2 centrings, with and without an explicit field of view, correction and scoring regions of different radii; unions of two zones in 60 combinations',
          'thorough': 'all side synonyms, 7 rotations, 4 resolutions, 6 radius pairs; unions of two and three zones'}
CHUNK = 1
SIDES = {'r': 'right', 'right': 'right', 'l': 'left', 'left': 'left',
         't': 'top', 'top': 'top', 'u': 'top', 'up': 'top', 'b': 'bottom', 'bottom': 'bottom', 'd': 'bottom', 'down': 'bottom',
         'lr': 'lr', 'rl': 'lr', 'leftright': 'lr', 'rightleft': 'lr', 'both': 'lr',
         'tb': 'tb', 'bt': 'tb', 'ud': 'tb', 'du': 'tb', 'topbottom': 'tb', 'bottomtop': 'tb', 'updown': 'tb', 'downup': 'tb'}
SHAPES = ('circle', 'square', 'rect', 'd')
RAD = [(1.5, 3.5), (0., 3.), (2.25, 2.75), (1., 4.), (0.4, 2.2), (3., 3.)]
ANG = [180., 90., 65.]
OFF = [(0., 0.), (1.5, 0.), (0., -2.), (-1.25, 2.5)]


def cases(tier):
    th = tier == 'thorough'
    out = []
    for shape, side in itertools.product(SHAPES, sorted(SIDES) if th else ('r', 'left', 't', 'bottom', 'lr', 'both', 'tb')):
        for cent in ('pixel', 'interpixel'):
            for fov in (None, 6.5):
                out.append(('one', shape, side, cent, fov, th))
    n = 60
    for k in range(n if not th else 240):
        out.append(('zones', k, 3 if th and k % 2 else 2, k % 2))
    return out


EPS = 1e-9


def member(x, y, z):
    """(certainly inside, possibly inside) for pixel coordinates, reference geometry"""
    X, Y = x - z['off'][0], y - z['off'][1]
    side = SIDES[z['side']]
    axis = {'right': 0., 'lr': 0., 'left': 180., 'top': 90., 'tb': 90., 'bottom': 270.}[side] + z['clock']
    u = X * np.cos(np.radians(axis)) + Y * np.sin(np.radians(axis))
    v = -X * np.sin(np.radians(axis)) + Y * np.cos(np.radians(axis))
    rho = np.hypot(X, Y)
    ri, ro = z['rin'], z['rout']

    def test(e):
        # e > 0 grows the closed region by e, e < 0 shrinks it
        if z['shape'] == 'circle':
            m = (rho >= ri - e) & (rho <= ro + e)
        elif z['shape'] == 'square':
            m = (np.abs(u) <= ro + e) & (np.abs(v) <= ro + e) & (rho >= ri - e)
        elif z['shape'] == 'rect':
            m = (np.abs(u) <= ro + e) & (np.abs(v) <= ro + e) & (np.abs(u) >= ri - e)
        else:
            m = (np.abs(u) >= ri - e) & (rho <= ro + e)
        th = np.degrees(np.abs(np.arctan2(v, u)))
        a = th <= z['ang'] / 2 + np.sign(e) * 1e-7
        if side in ('lr', 'tb'):
            a |= 180 - th <= z['ang'] / 2 + np.sign(e) * 1e-7
        # the direction of the centre itself is undefined
        a = np.where(rho < EPS, e > 0, a)
        return m & a
    return test(-EPS), test(EPS)


def radial_edge(x, y, z):
    """pixels exactly on the outer or inner radius of an annulus (a closed region) and well inside its sector"""
    if z['shape'] != 'circle':
        return np.zeros(np.broadcast(x, y).shape, bool)
    rho = np.hypot(x - z['off'][0], y - z['off'][1])
    inner = dict(z, rin=z['rin'] - 0.1, rout=z['rout'] + 0.1)
    return ((np.abs(rho - z['rin']) < 1e-15) | (np.abs(rho - z['rout']) < 1e-15)) & member(x, y, inner)[0]


def make(zones, cent, res, fov, score):
    mp = tiny.config(coro='VC', nact=2, nbeam=4, centering=cent, res=res)
    F = mp.Fend
    del F.FOV
    if fov:
        F.FOV = fov
    many = len(zones) > 1
    g = (lambda k: [z[k] for z in zones]) if many else (lambda k: zones[0][k])
    F.corr.Rin, F.corr.Rout, F.corr.ang = g('rin'), g('rout'), g('ang')
    F.score.Rin, F.score.Rout, F.score.ang = ([s[k] for s in score] if many else score[0][k] for k in ('rin', 'rout', 'ang'))
    F.sides, F.shape, F.clockAngDeg = g('side'), g('shape'), g('clock')
    F.xiOffset = [z['off'][0] for z in zones] if many else zones[0]['off'][0]
    F.etaOffset = [z['off'][1] for z in zones] if many else zones[0]['off'][1]
    if not any(z['off'][0] for z in zones) and not any(z['off'][1] for z in zones) and not many:
        del F.xiOffset
        del F.etaOffset
    F.eval = falco.config.Object()
    F.eval.res = 5
    with tiny.quiet():
        falco.setup.falco_configure_dark_hole_region(mp)
    return mp


def check(r, mp, zones, score, cent, res, fov, d):
    F = mp.Fend
    xs, es = np.asarray(F.xisDL), np.asarray(F.etasDL)
    for nm, a, n in (('xi', xs, F.Nxi), ('eta', es, F.Neta)):
        o = 0.5 if cent == 'interpixel' else 0.
        r.expect(len(a) == n and n % 2 == 0 and np.max(np.abs(a - (np.arange(n) - n // 2 + o) / res)) < 1e-12, 'axis', 'focal-plane axis is wrong', axis=nm, got=a, **d)
    X, Y = np.meshgrid(xs, es)
    for nm, reg, zz in (('corr', F.corr, zones), ('score', F.score, score)):
        m = np.asarray(reg.maskBool)
        if not r.expect(m.shape == X.shape and m.dtype == bool, 'shape', 'region has the wrong shape', region=nm, got=m.shape, want=X.shape, **d):
            return
        sure, poss = np.zeros(X.shape, bool), np.zeros(X.shape, bool)
        for z in zz:
            a, b = member(X, Y, z)
            sure |= a | radial_edge(X, Y, z)
            poss |= b
        r.expect(not np.any(sure & ~m), 'missing', 'a pixel of the region is missing', region=nm, pix=[(float(X[tuple(p)]), float(Y[tuple(p)])) for p in np.argwhere(sure & ~m)[:4]], **d)
        r.expect(not np.any(m & ~poss), 'extra', 'a pixel outside the region is included', region=nm, pix=[(float(X[tuple(p)]), float(Y[tuple(p)])) for p in np.argwhere(m & ~poss)[:4]], **d)
        r.expect(int(reg.Npix) == int(m.sum()), 'count', 'pixel count is wrong', region=nm, **d)
        # nothing of the region lies outside the array unless the user limited the field of view
        if fov is None and nm == 'corr':
            ex = (np.arange(-round(11 * res), round(11 * res) + 1) + (0.5 if cent == 'interpixel' else 0.)) / res
            GX, GY = np.meshgrid(ex, ex)
            out = (GX < xs[0] - 1e-9) | (GX > xs[-1] + 1e-9) | (GY < es[0] - 1e-9) | (GY > es[-1] + 1e-9)
            for z in zz:
                a, _b = member(GX, GY, z)
                r.expect(not np.any(a & out), 'truncated', 'the array does not hold the whole region', n=int(np.sum(a & out)), **d)
    sic = np.asarray(F.scoreInCorr)
    pts = np.argwhere(F.corr.maskBool)
    r.expect(sic.shape == (len(pts),) and all(bool(sic[k]) == bool(F.score.maskBool[tuple(p)]) for k, p in enumerate(pts)), 'index', 'the scoring pixels are not at their place in the correction vector', **d)
    R = np.hypot(X, Y)
    r.expect(np.max(np.abs(np.asarray(F.RHOS) - R)) < 1e-12, 'rhos', 'separations are wrong', **d)
    E = F.eval
    EX, EY = np.meshgrid(np.asarray(E.xisDL) - mp.thput_eval_x, np.asarray(E.etasDL) - mp.thput_eval_y)
    ok = len(E.xisDL) == E.Nxi and len(E.etasDL) == E.Neta and np.shape(E.RHOS) == EX.shape and np.max(np.abs(E.RHOS - np.hypot(EX, EY))) < 1e-12
    r.expect(ok and np.max(np.abs(np.diff(E.xisDL) - 1 / E.res)) < 1e-12 and E.Nxi / E.res >= F.Nxi / res - 1e-9 and E.Neta / E.res >= F.Neta / res - 1e-9, 'eval', 'the evaluation grid is wrong', **d)
    r.state(d)
    r.outcome(int(F.corr.Npix), int(F.score.Npix))
    r.step()
    r.execution()


def run(case, r):
    if case[0] == 'one':
        _, shape, side, cent, fov, th = case
        for (ri, ro), ang, clock, off, res in itertools.product(RAD if th else RAD[:4], ANG, (0., 30., 60., 45., -90., 90., 200.) if th else (0., 30., 60.), OFF, (2., 3.3, 1., 4.) if th else (2., 3.3)):
            z = [dict(shape=shape, side=side, rin=ri, rout=ro, ang=ang, clock=clock, off=off)]
            s = [dict(z[0], rin=ri + 0.2, rout=max(ro - 0.5, ri + 0.2), ang=ang * 0.8)]
            mp = make(z, cent, res, fov, s)
            check(r, mp, z, s, cent, res, fov, dict(zone=z[0], cent=cent, res=res, fov=fov))
    else:
        _, k, nz, c = case
        cent = ('pixel', 'interpixel')[c]
        sides = ('r', 'left', 'top', 'lr', 'tb')
        zs = []
        for i in range(nz):
            q = k * 7 + i * 13
            ri, ro = RAD[(k // 3 + i) % 4]
            zs.append(dict(shape=SHAPES[(k + i * (1 + k // 4)) % 4], side=sides[(k // 2 + 2 * i) % 5], rin=ri, rout=ro, ang=ANG[(k + i) % 3], clock=(0., 30., 45.)[q % 3], off=OFF[(k // 5 + i) % 4]))
        s = [dict(z, rin=z['rin'] + 0.2, rout=max(z['rout'] - 0.5, z['rin'] + 0.2)) for z in zs]
        for fov in (None, 6.5):
            mp = make(zs, cent, 2., fov, s)
            check(r, mp, zs, s, cent, 2., fov, dict(zones=zs, cent=cent, fov=fov))
