"""P36: apertures and obscurations are drawn where and as large as asked.

Every shape x size x rotation x position (inside, across and beyond every edge
of the grid) x units x darkness is drawn and every pixel compared with the area
of the shape inside that pixel, computed here from the outline."""
import itertools
import numpy as np
import falco.proper as proper
from shapes import corners, cover, ellipse_chord, erode, poly_chord

ID = 'P36'
BOUNDS = {'quick': 'ellipses, rectangles, 3..8-gons, irregular convex polygons (open, closed, every starting vertex, both directions), rounded rectangles and segmented hexagonal apertures on grids of 20 and 21 pixels: 5 sizes from below a pixel to beyond the grid x 6 rotations x 25 positions inside, across and beyond each edge x 2 units x dark/clear x antialiasing 1, 5, 11; radii, 8th-order masks, hexagonal Zernikes 1..22',
          'thorough': '9 sizes x 14 rotations x 64 positions, antialiasing up to 21'}
CHUNK = 2
CASE_TIMEOUT = 600
DX0, DIAM = 0.05, 0.8


def cases(tier):
    th = tier == 'thorough'
    ns = (20, 21) if not th else (20, 21, 33)
    rots = (0., 17., 45., 90., 133., -60.) if not th else (0., 17., 30., 45., 60., 77., 90., 133., 180., 225., -17., -60., -90., 301.)
    subs = (1, 5, 11) if not th else (1, 3, 5, 11, 21)
    out = []
    for kind, n in itertools.product(('ellipse', 'rectangle'), ns):
        for rot, sub in itertools.product(rots, subs):
            if th or sub == 5 or rot == 17.:
                out.append((kind, n, rot, sub, th))
    for nv, n in itertools.product(range(3, 9), ns):
        for rot in rots:
            out.append(('polygon', n, rot, 5, th, nv))
        if th:
            out += [('polygon', n, rots[1], s, th, nv) for s in subs]
    for i, n in itertools.product(range(len(IRREG)), ns):
        for sub in subs:
            out.append(('irregular', n, 0., sub, th, i))
    for n in ns:
        out.append(('rounded', n, 0., 11, th))
        for sub in subs if n % 2 == 0 else ():     # wavefronts have an even number of pixels
            out.append(('wrapper', n, sub))
        for nr in (0, 1, 2) if not th else (0, 1, 2, 3):
            for rot in rots:
                out.append(('hexwf', 4 * n, rot, nr, th))
        out.append(('radius', n))
        for k in range(3):
            out.append(('eighth', 6 * n, k))
        out.append(('hexzern', n, th))
    out.append(('aa',))
    return out


IRREG = (((0., -.9), (.8, -.3), (.5, .7), (-.6, .6), (-.9, -.2)),
         ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5)),
         ((0., 0.), (1., .01), (1., .05), (.02, .06)),
         ((-.9, -.9), (.9, -.9), (0., .9)),
         ((.9, .9), (-.9, .9), (0., -.9)),
         tuple((.7 * np.cos(a), .7 * np.sin(a)) for a in np.arange(40) * np.pi / 20 + .01),
         ((-.8, -.2), (-.79, -.21), (-.78, -.215), (.78, -.215), (.79, -.21), (.8, -.2), (.8, .2), (-.8, .2)))


def wavefront(n, focus=False):
    wf = proper.prop_begin(DIAM, 1e-6, n, DIAM / (n * DX0))
    if focus:      # a plane where neither the beam radius nor the sampling are those of the pupil
        proper.prop_lens(wf, 10.)
        proper.prop_propagate(wf, 4.)
    return wf


def positions(n, size, th):
    """pixel offsets of the centre: inside, across and beyond every edge"""
    h = n / 2
    v = [0., .37, -h + .4, h + .2 + size, -h - size - 1.6] if not th else [0., .37, -.5, -h + .4, h - .6, h + .2 + size, -h - size - 1.6, 3 * h + size]
    return list(itertools.product(v, v))


def compare(r, key, im, want, tol, sub, dark, what):
    n = want.shape[0]
    if not r.expect(isinstance(im, np.ndarray) and im.shape == (n, n) and np.all(np.isfinite(im)), key + ':image', 'an n by n image of finite numbers is drawn', **what):
        return
    w = 1 - want if dark else want
    r.expect(im.min() > -1e-9 and im.max() < 1 + 1e-9, key + ':range', 'transmission is between 0 and 1', got=(im.min(), im.max()), **what)
    full, none = want > 1 - 1e-9, want < 1e-9
    bad = (full | none) & (np.abs(im - w) > 1e-9)
    # a pixel the outline only grazes may take one row or point of the subsampling
    bad &= np.abs(im - w) > tol
    r.expect(not bad.any(), key + ':interior', 'pixels inside the outline are filled and those outside are empty', pixels=np.argwhere(bad)[:3].tolist(), **what)
    inner = erode(full)
    outer = erode(none)
    r.expect(np.all(np.abs(im - w)[inner | outer] < 1e-9), key + ':exact', 'pixels away from the outline are exactly filled or empty', **what)
    e = np.abs(im - w)
    k = np.unravel_index(e.argmax(), e.shape)
    r.expect(e[k] <= tol, key + ':edge', 'edge pixels hold the share of their area inside the outline', pixel=[int(q) for q in k], got=im[k], want=w[k], **what)
    edge = ~(full | none)
    lim = .1 + (.6 if sub > 1 else 1.) * edge.sum() / sub
    r.expect(abs(im.sum() - w.sum()) <= lim, key + ':area', 'the area is that of the shape', got=im.sum(), want=w.sum(), lim=lim, **what)


def units(wf, norm, *pix):
    """pixels to what the caller gives"""
    s = wf.dx
    if norm:
        s = s / proper.prop_get_beamradius(wf)
    return [p * s for p in pix]


def do_simple(case, r):
    kind, n, rot, sub, th = case[:5]
    proper.prop_set_antialiasing(sub)
    sizes = (.45, 1.3, 4.7, 8.21, 1.4 * n) if not th else (.2, .45, 1., 1.3, 3., 4.7, 8.21, 12.5, 1.4 * n)
    for (i, a), focus in itertools.product(enumerate(sizes), (False, True)):
        wf = wavefront(n, focus)
        for b in (a, .37 * a) if kind != 'polygon' else (a,):
            for k, (x, y) in enumerate(positions(n, a, th)):
                if focus and (k + i) % 4:
                    continue
                draw(case, r, wf, n, kind, a, b, rot, sub, x, y, focus)


def draw(case, r, wf, n, kind, a, b, rot, sub, x, y, focus):
    c = n // 2
    t = np.radians(rot)
    proper.prop_set_antialiasing(sub)
    if kind == 'ellipse':
        chord = ellipse_chord(a, b, -t, c + x, c + y)      # its rotation is clockwise (falco.mask relies on that)
        fn, dims = proper.prop_ellipse, (a, b)
        tol = 1.1 / sub if sub > 1 else 1.
    elif kind == 'rectangle':
        chord = poly_chord(*corners(2 * a, 2 * b, t, c + x, c + y))
        fn, dims = proper.prop_rectangle, (2 * a, 2 * b)
        tol = 1.05 / sub
    elif kind == 'polygon':
        nv = case[5]
        ang = t + np.arange(nv) * 2 * np.pi / nv
        chord = poly_chord(c + x + a * np.cos(ang), c + y + a * np.sin(ang))
        fn, dims = (lambda w, rad, xc, yc, **kw: proper.prop_polygon(w, nv, rad, xc, yc, **kw)), (a,)
        tol = 1.05 / sub
    want = cover(n, chord)
    tol = min(tol + .02, 1.)
    got = {}
    for norm, dark in itertools.product((False, True), repeat=2):
        kw = {}
        if norm:
            kw['NORM'] = True
        if dark:
            kw['DARK'] = True
        if rot:
            kw['ROTATION'] = rot
        u = units(wf, norm, *dims, x, y)
        what = dict(kind=kind, n=n, dims=dims, rot=rot, at=(x, y), norm=norm, dark=dark, sub=sub, other_plane=focus)
        im = fn(wf, *u, **kw)
        r.step()
        compare(r, kind, im, want, tol, sub, dark, what)
        got[norm, dark] = im
    r.state(kind, n, a, b, rot, sub, x, y, focus, case[5:])
    if all(g.shape == (n, n) for g in got.values()):
        for norm in (False, True):
            r.expect(np.allclose(got[norm, False] + got[norm, True], 1., atol=1e-12), kind + ':complement', 'the obscuration is the exact complement of the aperture', n=n, rot=rot, at=(x, y), size=(a, b))
        r.expect(np.abs(got[True, False] - got[False, False]).max() <= tol, kind + ':units', 'the shape does not depend on the units it is given in', n=n, rot=rot, at=(x, y), size=(a, b))
    r.outcome(kind, want.any(), want.all())


def do_irregular(case, r):
    _, n, _, sub, th, i = case
    proper.prop_set_antialiasing(sub)
    c = n // 2
    v = np.array(IRREG[i])
    for size, focus in itertools.product((1.2, 6.1, 1.5 * n) if not th else (.4, 1.2, 3.3, 6.1, 9.7, 1.5 * n), (False, True)):
        wf = wavefront(n, focus)
        for k, (x, y) in enumerate(positions(n, size, th)):
            p = v * size + (x, y)
            want = cover(n, poly_chord(p[:, 0] + c, p[:, 1] + c))
            starts = range(len(v)) if len(v) < 9 else range(0, len(v), 7)
            for j, (s, way, closed) in enumerate(itertools.product(starts, (1, -1), (False, True))):
                if not th and (j + k) % 3:
                    continue
                q = np.roll(p, s, 0)[::way]
                if closed:
                    q = np.vstack([q, q[:1]])
                first = None
                for norm, dark in ((False, False), (True, True)) if (j + k) % 2 else ((True, False), (False, True)):
                    kw = dict(NORM=norm, DARK=dark)
                    xs, ys = units(wf, norm, q[:, 0], q[:, 1])
                    what = dict(polygon=i, n=n, size=size, at=(x, y), start=s, direction=way, closed=closed, norm=norm, dark=dark, sub=sub, other_plane=focus)
                    im = proper.prop_irregular_polygon(wf, xs, ys, **kw)
                    r.step()
                    compare(r, 'irregular', im, want, min(1.05 / sub + .02, 1.), sub, dark, what)
                r.state(case, size, focus, k, j)
    r.outcome('irregular', i)


def do_rounded(case, r):
    _, n, _, sub, th = case
    proper.prop_set_antialiasing(sub)
    c = n // 2
    for w, h, rad, focus in itertools.product((5., 11.3, 1.6 * n), (4.2, 12.), (2.1, 3.4), (False, True)):
        if 2 * rad > min(w, h):
            continue
        wf = wavefront(n, focus)
        for x, y in positions(n, max(w, h), th):
            x0, y0 = c + x, c + y

            def chord(xx):
                d = np.abs(xx - x0)
                e = np.clip(d - (w / 2 - rad), 0, rad)
                hh = h / 2 - rad + np.sqrt(rad**2 - e**2)
                ok = d < w / 2
                return np.where(ok, y0 - hh, np.inf), np.where(ok, y0 + hh, -np.inf)
            want = cover(n, chord)
            u = units(wf, False, rad, w, h, x, y)
            im = proper.prop_rounded_rectangle(wf, *u)
            r.step()
            what = dict(n=n, width=w, height=h, corner=rad, at=(x, y), other_plane=focus)
            # its straight edges are cut where the circles begin, to the pixel
            compare(r, 'rounded', im, want, 1.1 / sub + .02 + .2 / rad, 3, False, what)
            r.state(n, w, h, rad, focus, x, y)
    r.outcome('rounded')


def field(n):
    yy, xx = np.mgrid[:n, :n]
    return np.exp(1j * (.3 * xx + .11 * yy)) * (1 + .1 * xx)


def do_wrapper(case, r):
    _, n, sub = case
    proper.prop_set_antialiasing(sub)
    c = n // 2
    W = (('circular', ('ellipse', 1)), ('elliptical', ('ellipse', 2)), ('rectangular', ('rectangle', 2)))
    for (name, (shape, nd)), dark, norm, rot, focus in itertools.product(W, (False, True), (False, True), (0., 33.), (False, True)):
        if nd == 1 and rot:
            continue
        for x, y in ((0., 0.), (1.3, -2.4), (-8., 6.)):
            wf = wavefront(n, focus)
            E = field(n)
            wf.wfarr = proper.prop_shift_center(E)
            dims = (4.3, 2.2)[:nd]
            u = units(wf, norm, *dims, x, y)
            kw = dict(NORM=norm)
            if rot:
                kw['ROTATION'] = rot
            before = wf.wfarr.copy()
            getattr(proper, 'prop_%s_%s' % (name, 'obscuration' if dark else 'aperture'))(wf, *u, **kw)
            a, b = dims * 2 if nd == 1 else dims
            t = np.radians(rot)
            chord = ellipse_chord(a, b, -t, c + x, c + y) if shape == 'ellipse' else poly_chord(*corners(a, b, t, c + x, c + y))
            want = cover(n, chord)
            want = 1 - want if dark else want
            # pixel of the optical axis is the first one of the array
            got = np.real(wf.wfarr / before)
            got = np.roll(got, (c, c), (0, 1))
            r.step()
            r.expect(np.abs(got - want).max() <= min(1.1 / sub + .02, 1.), name + ':applied', 'the wavefront is multiplied by the shape drawn about the optical axis', dark=dark, norm=norm, rot=rot, at=(x, y), n=n, other_plane=focus)
            r.expect(np.abs(wf.wfarr - before * np.real(wf.wfarr / before)).max() < 1e-12, name + ':phase', 'an aperture does not change the phase')
            r.state(n, sub, name, dark, norm, rot, focus, x, y)
    r.outcome('wrapper')


def do_radius(case, r):
    _, n = case
    for focus in (False, True):
        wf = wavefront(n, focus)
        yy, xx = np.mgrid[:n, :n] - n // 2
        w = np.hypot(xx, yy) * wf.dx
        r.expect(np.allclose(proper.prop_radius(wf), w, rtol=1e-12), 'radius:metres', 'prop_radius is the distance from the axis')
        r.expect(np.allclose(proper.prop_radius(wf, NORM=True), w / proper.prop_get_beamradius(wf), rtol=1e-12), 'radius:norm', 'prop_radius NORM is in beam radii')
        r.step(2)
        r.state(n, focus)
    r.outcome('radius')


def do_eighth(case, r):
    _, n, k = case
    wf = proper.prop_begin(DIAM, 1e-6, n, .25)
    proper.prop_lens(wf, 10.)
    proper.prop_propagate(wf, 10.)
    unit = proper.prop_get_fratio(wf) * proper.prop_get_wavelength(wf)      # lambda/D in metres
    c = n // 2
    q = wf.dx / unit
    yy, xx = (np.mgrid[:n, :n] - n / 2.) * q
    for hw, metres, (lo, hi) in itertools.product((2., 3.5, 5.), (False, True), ((0., 1.), (.01, .9))):
        for kw, R in ((dict(CIRCULAR=True), np.hypot(xx, yy)), (dict(ELLIPTICAL=.6), np.hypot(xx, yy / .6)), (dict(ELLIPTICAL=1.7), np.hypot(xx, yy / 1.7)))[k:k + 1] if k else ((dict(), np.abs(xx)), (dict(Y_AXIS=True), np.abs(yy))):
            wf.wfarr = proper.prop_shift_center(field(n))
            before = wf.wfarr.copy()
            kw = dict(kw, METERS=True) if metres else kw
            m = proper.prop_8th_order_mask(wf, hw * unit if metres else hw, lo, hi, **kw)
            r.step()
            what = dict(n=n, hwhm=hw, limits=(lo, hi), options=kw)
            # 1 - sinc^3 (x/3) form of Kuchner, Crepp & Ge (2005), l = 3, m = 1
            e = 1.788 / hw
            f = (2 / 3 - np.sinc(R * e / 3)**3 + np.sinc(R * e) / 3)**2
            f = (f - f.min()) / (f.max() - f.min()) * (hi - lo) + lo
            r.expect(np.allclose(m**2, f, atol=1e-9), 'eighth:profile', 'the occulter has the 8th-order profile about the axis', **what)
            inner = R < .1 * hw
            r.expect(np.all(m[inner]**2 <= lo + 1e-6), 'eighth:centre', 'transmission is least about the axis', **what)
            near = np.abs(R - hw) < .02 * hw
            if near.any() and n * q / 2 > 2.5 * hw:
                mid = (m[near]**2 - lo) / (hi - lo)
                r.expect(np.all(np.abs(mid - .5) < .06), 'eighth:hwhm', 'half the intensity is transmitted at the stated radius', got=mid, **what)
            r.expect(abs((m**2).max() - hi) < 1e-9 and abs((m**2).min() - lo) < 1e-9, 'eighth:limits', 'transmission reaches the stated limits', **what)
            r.expect(np.allclose(wf.wfarr, before * np.roll(m, (-c, -c), (0, 1))), 'eighth:applied', 'the wavefront is multiplied by the amplitude of the occulter', **what)
            r.state(case, hw, metres, lo, sorted(kw))
    r.outcome('eighth', k)


# ------------------------------------------------------- segmented hexagonal apertures
def seg_centres(nr, sep):
    """segments in the order of the library: columns from the centre outwards, right before left, bottom to top"""
    out = []
    for col in range(nr + 1):
        for i in range(2 * nr - col + 1):
            x, y = col * sep * np.sqrt(3) / 2, (-nr + col / 2 + i) * sep
            out.append((x, y))
            if col:
                out.append((-x, y))
    return out


def do_hexwf(case, r):
    _, n, rot, nr, th = case
    proper.prop_set_antialiasing(5)
    t = np.radians(rot)
    c = n // 2
    ns = 3 * nr * (nr + 1) + 1
    rad = .38 * n / (2 * nr + 1)
    for gap, (x, y), sub in itertools.product((1.2, 4.), ((0., 0.), (2.3, -5.1), (.45 * n, .1 * n)), range(4)):
        sep = rad * np.sqrt(3) + gap
        omit = ([], [0], [ns - 1, ns // 2], [])[sub]
        dark = sub == 3
        P = [(a * np.cos(t) - b * np.sin(t) + x, a * np.sin(t) + b * np.cos(t) + y) for a, b in seg_centres(nr, sep)]
        centre = int(np.argmin([np.hypot(a, b) for a, b in seg_centres(nr, sep)]))
        seg = []
        for a, b in P:
            ang = t + np.arange(6) * np.pi / 3
            seg.append(cover(n, poly_chord(c + a + rad * np.cos(ang), c + b + rad * np.sin(ang))))
        seg = np.array(seg)
        drawn = [i for i in range(ns) if i not in omit and not (dark and i == centre)]
        want = seg[drawn].sum(axis=0) if drawn else np.zeros((n, n))
        for zern, apply in ((False, True), (True, True), (True, False)):
            wf = wavefront(n)
            wf.wfarr = proper.prop_shift_center(field(n))
            before = wf.wfarr.copy()
            kw = dict(XCENTER=x * wf.dx, YCENTER=y * wf.dx) if x or y else {}
            if rot:
                kw['ROTATION'] = rot
            if omit:
                kw['OMIT'] = omit
            if dark:
                kw['DARKCENTER'] = True
            if not apply:
                kw['NO_APPLY'] = True
            zv = np.zeros((22, ns))
            for i in range(ns):
                zv[0, i], zv[1, i], zv[2, i], zv[3, i] = (i + 1) * 3e-9, (i % 3 - 1) * 5e-9, (i % 4) * 4e-9, -(i % 2) * 2e-9
            out = proper.prop_hex_wavefront(wf, nr, rad * wf.dx, sep * wf.dx, *((zv,) if zern else ()), **kw)
            r.step()
            what = dict(n=n, rings=nr, gap=gap, rot=rot, at=(x, y), omit=omit, darkcenter=dark, zernikes=zern, apply=apply)
            ap = out[0] if zern else out
            # overlapping edge rows add up
            r.expect(np.abs(ap - want).max() < .25, 'hexwf:aperture', 'the segments of the aperture are where the geometry puts them', at_pixel=np.unravel_index(np.abs(ap - want).argmax(), ap.shape), **what)
            sure = (want > 1 - 1e-9) | (want < 1e-9)
            sure = erode(want > 1 - 1e-9) | erode(want < 1e-9)
            r.expect(np.abs(ap - want)[sure].max() < 1e-9, 'hexwf:interior', 'segments are filled and gaps are empty', **what)
            ph = np.zeros((n, n))
            if zern:
                yy, xx = np.mgrid[:n, :n] - c
                for i in drawn:
                    m = seg[i] > .999
                    dx_, dy_ = (xx - P[i][0]) / rad, (yy - P[i][1]) / rad
                    u, v = dx_ * np.cos(t) + dy_ * np.sin(t), -dx_ * np.sin(t) + dy_ * np.cos(t)
                    z = zv[0, i] + zv[1, i] * 2 * np.sqrt(6 / 5) * u + zv[2, i] * 2 * np.sqrt(6 / 5) * v + zv[3, i] * np.sqrt(5 / 43) * (12 * (u * u + v * v) - 5)
                    ph[m] = z[m]
                    r.expect(np.allclose(out[1][m], z[m], atol=1e-14), 'hexwf:phase', 'every segment has the Zernike errors given for it', segment=i, **what)
            full = erode(want > 1 - 1e-9)
            w = (ap * field(n) * np.exp(2j * np.pi * (ph if zern else 0) / 1e-6)) if apply else field(n)
            got = np.roll(wf.wfarr, (c, c), (0, 1))
            sel = full | (np.abs(ap) < 1e-12) if apply else np.ones((n, n), bool)
            r.expect(np.allclose(got[sel], w[sel], atol=1e-9), 'hexwf:applied', 'aperture and phase are applied to the wavefront unless told not to', **what)
            r.state(case, gap, x, y, sub, zern, apply)
    r.outcome('hexwf', nr, rot)


def do_hexzern(case, r):
    """orthonormal over the hexagon, superposed, rotated, placed and clipped"""
    _, n, th = case
    N, R = 241, 100.4
    dx = 1.
    ang = np.arange(6) * np.pi / 3
    hexa = cover(N, poly_chord(N // 2 + R * np.cos(ang), N // 2 + R * np.sin(ang)))
    area = hexa.sum()
    Z = np.array([proper.prop_hex_zernikes([j], [1.], N, dx, R) for j in range(1, 23)])
    G = np.einsum('iyx,jyx,yx->ij', Z, Z, hexa) / area
    for i in range(22):
        r.expect(abs(G[i, i] - 1) < .01, 'hexzern:rms', 'every hexagonal Zernike mode has unit RMS over the hexagon', mode=i + 1, got=G[i, i])
        for j in range(i):
            r.expect(abs(G[i, j]) < .01, 'hexzern:orthogonal', 'hexagonal Zernike modes are orthogonal over the hexagon', modes=(i + 1, j + 1), got=G[i, j])
        r.state(case, i)
    rng = np.arange(22)
    co = np.sin(rng + 1.) * 1e-8
    a = proper.prop_hex_zernikes(rng + 1, co, N, dx, R)
    r.expect(np.allclose(a, np.einsum('i,iyx->yx', co, Z), atol=1e-20), 'hexzern:sum', 'a set is the sum of its modes')
    # placement and clipping on a small grid
    big, rad = 4 * n + 1, 5.3
    c, C = n // 2, 2 * n
    for x, y in positions(n, rad, th):
        for rot in (0., 40.):
            kw = dict(ROTATION=rot) if rot else {}
            s = proper.prop_hex_zernikes([2, 3, 8], [1., .3, .2], n, .01, rad * .01, x * .01, y * .01, **kw)
            yy, xx = np.mgrid[:n, :n] - c
            u, v = (xx - x) / rad, (yy - y) / rad
            q, t = np.hypot(u, v), np.arctan2(v, u) - np.radians(rot)
            w = 2 * np.sqrt(6 / 5) * q * (np.cos(t) + .3 * np.sin(t)) + .2 * 4 * np.sqrt(42 / 3685) * (25 * q**3 - 14 * q) * np.cos(t)
            inside = q <= 1
            r.step()
            r.expect(np.allclose(s[inside], w[inside], atol=1e-9), 'hexzern:place', 'the modes are centred and turned as asked, also across the edge of the grid', n=n, at=(x, y), rot=rot)
    r.outcome('hexzern')


def do_aa(case, r):
    for s in (1, 3, 5, 21):
        proper.prop_set_antialiasing(s)
        r.expect(proper.antialias_subsampling == s, 'aa:set', 'the subsampling factor is the one set')
        r.state(s)
    for s in (2, 10, 0):
        old = proper.antialias_subsampling
        try:
            proper.prop_set_antialiasing(s)
            r.bad('aa:even', 'an even subsampling factor is rejected', got=s)
        except ValueError:
            r.outcome('rejected')
        r.expect(proper.antialias_subsampling == old, 'aa:kept', 'a rejected factor changes nothing')
        r.state(s)
    r.step(7)


def run(case, r):
    k = case[0]
    {'ellipse': do_simple, 'rectangle': do_simple, 'polygon': do_simple, 'irregular': do_irregular, 'rounded': do_rounded, 'wrapper': do_wrapper,
     'radius': do_radius, 'eighth': do_eighth, 'hexwf': do_hexwf, 'hexzern': do_hexzern, 'aa': do_aa}[k](case, r)
    proper.prop_set_antialiasing(11)
    r.execution()
