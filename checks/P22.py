"""P22: spatial weights map one-to-one onto dark-hole pixels."""
import itertools
import numpy as np
import falco
import tiny

ID = 'P22'
BOUNDS = {'quick': 'every list of 0..3 zones out of 8 (overlapping, empty, zero-weight, outside the dark hole) x 4 region shapes/offsets x 3 lists of star weights x 2 centrings',
          'thorough': 'every list of up to 4 zones out of 10'}
CHUNK = 1
ZON = [(0., 2.5, 4.), (2.5, 9., 0.25), (2., 3., 0.), (3., 2., 7.), (0., 9., 2.), (2.5, 3., 9.), (20., 30., 5.), (1.5, 2.5, 1.), (0., 1.5, 3.), (3., 3.5, 0.5)]
REG = [dict(shape='circle', sides='lr'), dict(shape='rect', sides='r'), dict(shape='d', sides='top', xiOffset=1., etaOffset=-1.), dict(shape='square', sides='tb')]
STARS = [(1.,), (1., 0.3), (0.5, 0., 2.)]


def cases(tier):
    th = tier == 'thorough'
    return [(q, s, c, first, th) for q in range(4) for s in range(3) for c in ('pixel', 'interpixel') for first in (None,) + tuple(range(10 if th else 8))]


def run(case, r):
    q, s, cent, first, th = case
    sw = STARS[s]
    nz = 10 if th else 8
    rest = [()]
    if first is not None:
        rest = [t for n in range(0, 4 if th else 3) for t in itertools.product(range(nz), repeat=n)]
    mp = tiny.config(coro='VC', nact=2, nbeam=4, centering=cent, res=2., rin=1.5, rout=3.5, fov=4., stars=[(k, 0., 1., w) for k, w in enumerate(sw)])
    for k, v in REG[q].items():
        setattr(mp.Fend, k, v)
    mp.Fend.eval = falco.config.Object()
    mp.Fend.eval.res = 4
    with tiny.quiet():
        falco.setup.falco_configure_dark_hole_region(mp)
    m = np.asarray(mp.Fend.corr.maskBool)
    pts = np.argwhere(m)
    for t in rest:
        zones = ([] if first is None else [ZON[first]]) + [ZON[k] for k in t]
        forms = [np.array(zones, dtype=float)]
        if len(zones) == 1:
            forms.append(list(zones[0]))
        if not zones:
            forms = [[], np.array([]), None]
        for f in forms:
            if f is None:
                if hasattr(mp, 'WspatialDef'):
                    del mp.WspatialDef
            else:
                mp.WspatialDef = f
            falco.setup.falco_set_spatial_weights(mp)
            W = np.asarray(mp.WspatialVec)
            d = dict(zones=zones, region=REG[q], stars=sw, cent=cent)
            r.execution()
            if not r.expect(W.shape == (len(pts), len(sw)), 'shape', 'weight vector has the wrong shape', got=W.shape, want=(len(pts), len(sw)), **d):
                continue
            ok = True
            for k, (i, j) in enumerate(pts):
                rho = np.hypot(mp.Fend.xisDL[j], mp.Fend.etasDL[i])
                w = 1.0
                for a, b, v in zones:
                    if abs(rho - a) < 1e-12 or abs(rho - b) < 1e-12:
                        # half-open zones [inner, outer): decided on exact values
                        w *= np.sqrt(v) if a <= rho < b else 1.
                    elif a < rho < b:
                        w *= np.sqrt(v)
                for st, x in enumerate(sw):
                    ok &= abs(W[k, st] - x * w) <= 1e-12 * max(1, x * w)
                if not ok:
                    break
            r.expect(ok, 'value', 'a pixel has the wrong spatial weight', pixel=(int(i), int(j)), got=W[k], want=w, **d)
            M = np.asarray(mp.Wspatial)
            r.expect(M.shape == m.shape and not np.any(M[~m]) and np.all(M >= 0), 'map', 'the weight map is not confined to the dark hole', **d)
            r.step(len(pts))
            r.state(q, s, cent, first, t, f is None)
            r.outcome(round(float(W.sum()), 9))
