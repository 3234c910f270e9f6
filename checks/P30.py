"""P30: generated masks follow their specification.

Every generator x specification in the bound; every pixel compared with the
area of the specified outline inside it, computed here, or with an eight times
finer mask of the nominal specification that is moved, turned and scaled here."""
import itertools
import numpy as np
import falco
import falco.mask as fm
import falco.proper as proper
from shapes import corners, cover, ellipse_chord, erode, poly_chord, wedge

ID = 'P30'
BOUNDS = {'quick': 'annular and bow-tie focal-plane masks, bow-tie Lyot stops, simple, custom hexagonal, Roman (2), LUVOIR A and B pupils, ellipses, DM stops, vortices, software masks of 4 shapes and down-sampled pupils over 2 centrings x samplings x radii x clockings x offsets x magnifications x struts x transmissions, before and after other masks were made',
          'thorough': 'more samplings, clockings and every combination of two changes of the pupils'}
CHUNK = 1
CASE_TIMEOUT = 800
CEN = ('pixel', 'interpixel')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for c in CEN:
        for p in (2., 3.7) if not th else (2., 3., 3.7, 5.5):
            out += [('annular', c, p), ('bowtie', c, p, th)]
        for n in (24, 27.3) if not th else (16, 24, 27.3, 41):
            out += [('lyotbow', c, n, th), ('simple', c, n, th), ('hyper', c, n), ('ellipse', c, n, th)]
        out.append(('dmstop', c))
        for sh in ('circle', 'square', 'rect', 'd'):
            for p in (2., 3.3) if not th else (1.5, 2., 3.3, 6.):
                out.append(('sw', c, sh, p, th))
    for nr in (1, 2) if not th else (1, 2, 3):
        out.append(('hex', nr, th))
    out.append(('vortex',))
    for rot in (0., 30., 90., -17.):
        out.append(('down', rot, th))
    for name in PUPILS:
        out.append(('nominal', name, th))
        ch = changes(name, th)
        for c, nb in itertools.product(CEN, (40, 33.4)):
            for k in range(0, len(ch), 6):
                out.append(('pupil', name, c, nb, k, th))
        out.append(('history', name))
    for name in GENS:
        out.append(('history', name))
    return out


def half(c):
    return .5 if c == 'interpixel' else 0.


def close(r, key, got, parts, tol, what, sense='the mask has in every pixel the share of it that is inside the outline'):
    """parts: the shares of every component of the mask; where they only overlap on one edge the product is exact"""
    n = got.shape[0]
    if not r.expect(got.ndim == 2 and got.shape == (n, n) and np.all(np.isfinite(got)), key + ':image', 'a square image of finite numbers is made', shape=got.shape, **what):
        return
    want = np.prod(parts, axis=0)
    edge = np.sum([(p > 1e-9) & (p < 1 - 1e-9) for p in parts], axis=0)
    e = np.abs(got - want)
    lim = tol * np.maximum(edge, 1)
    k = np.unravel_index((e - lim).argmax(), e.shape)
    r.expect(e[k] <= lim[k], key + ':pixels', sense, pixel=[int(q) for q in k], got=got[k], want=want[k], **what)
    calm = erode(edge == 0)
    r.expect(not calm.any() or e[calm].max() < 1e-9, key + ':interior', 'pixels away from every outline are exactly filled or empty', **what)


def size(r, key, n, want, what):
    r.expect(n % 2 == 0 and n in (ceil_even(want - 1e-9), ceil_even(want + 1e-9)), key + ':size', 'the array is the smallest even one that holds the mask', got=n, want=want, **what)


def ceil_even(x):
    return int(2 * np.ceil(.5 * x - 1e-12))


def disc(n, rad, x, y):
    return cover(n, ellipse_chord(rad, rad, 0., x, y))


# --------------------------------------------------------------- focal-plane masks
def do_annular(case, r):
    _, cen, p = case
    for rin, rout, (x, y), amp, extra in itertools.product((.9, 2.4), (4.3, 7., np.inf), ((0., 0.), (.7, -1.3)), (0., .4, 1.), (0, 4)):
        o = max(abs(x), abs(y))
        big = rin if np.isinf(rout) else rout
        n1 = 2 * p * (big + o) + (cen == 'pixel')
        n0 = ceil_even(n1)
        d = dict(pixresFPM=p, rhoInner=rin, rhoOuter=rout, centering=cen, FPMampFac=amp)
        if o:
            d.update(xOffset=x, yOffset=y)
        if extra:
            d['Narray'] = n0 + extra
        m = fm.gen_annular_fpm(dict(d))
        r.step()
        n = m.shape[0]
        if not extra:
            size(r, 'annular', n, n1, d)
        else:
            r.expect(n == n0 + extra, 'annular:Narray', 'the array has the size asked for', got=n, **d)
        c = n / 2 - half(cen)
        inner = 1 - (1 - amp) * disc(n, rin * p, c + x * p, c + y * p)
        outer = disc(n, rout * p, c + x * p, c + y * p) if np.isfinite(rout) else np.ones((n, n))
        close(r, 'annular', m, [outer, inner], .03, d)
        r.state(case, rin, rout, x, amp, extra)
    r.outcome('annular')


def do_bowtie(case, r):
    _, cen, p, th = case
    for rin, rout, ang, (x, y), clock, extra in itertools.product((1.1, 2.6), (5.2, 7.), (35., 65., 90., 140., 180.) if not th else (10., 35., 65., 90., 120., 140., 170., 180.), ((0., 0.), (.7, -1.3)), (0., 25., -70., 90.), (0, 4)):
        o = max(abs(x), abs(y))
        n1 = 2 * p * (rout + o) + (cen == 'pixel')
        n0 = ceil_even(n1)
        d = dict(pixresFPM=p, rhoInner=rin, rhoOuter=rout, centering=cen, ang=ang)
        if o:
            d.update(xOffset=x, yOffset=y)
        if clock:
            d['clocking'] = clock
        if extra:
            d['Narray'] = n0 + extra
        m = fm.gen_bowtie_fpm(dict(d))
        r.step()
        n = m.shape[0]
        if not extra:
            size(r, 'bowtie', n, n1, d)
        else:
            r.expect(n == n0 + extra, 'bowtie:Narray', 'the array has the size asked for', got=n, **d)
        c = n / 2 - half(cen)
        parts = [disc(n, rout * p, c + x * p, c + y * p), 1 - disc(n, rin * p, c + x * p, c + y * p)]
        if ang < 180:
            for s in (90., -90.):
                parts.append(1 - cover(n, poly_chord(*wedge(np.radians(clock + s), np.radians(90 - ang / 2), c + x * p, c + y * p))))
        close(r, 'bowtie', m, parts, .11, d)
        r.state(case, rin, rout, ang, x, clock, extra)
    r.outcome('bowtie')


def do_lyotbow(case, r):
    _, cen, nb, th = case
    for ID, OD, ang, (x, y), clock, mag in itertools.product((.15, .4), (.8, .97), (60., 90., 115., 180.) if not th else (40., 60., 90., 115., 150., 180.), ((0., 0.), (.1, -.04)), (0., 30., -90.), (1., .8, 1.15)):
        d = dict(Nbeam=nb, ID=ID, OD=OD, ang=ang, centering=cen)
        if x:
            d.update(xShear=x, yShear=y)
        if clock:
            d['clocking'] = clock
        if mag != 1:
            d['magfac'] = mag
        m = fm.gen_bowtie_lyot_stop(dict(d))
        r.step()
        n = m.shape[0]
        size(r, 'lyotbow', n, mag * nb + 2 * nb * max(abs(x), abs(y)) + (cen == 'pixel'), d)
        X, Y = (n / 2 - half(cen) + q * nb for q in (x, y))
        parts = [disc(n, OD / 2 * nb * mag, X, Y), 1 - disc(n, ID / 2 * nb * mag, X, Y)]
        if ang < 180:
            for s in (0., 180.):
                parts.append(1 - cover(n, poly_chord(*wedge(np.radians(clock + s), np.radians(90 - ang / 2), X, Y))))
        close(r, 'lyotbow', m, parts, .11, d)
        r.state(case, ID, OD, ang, x, clock, mag)
    r.outcome('lyotbow')


# --------------------------------------------------------------------- pupils
def strut(n, ang, length, width, X, Y, nb):
    a = np.radians(ang)
    return 1 - cover(n, poly_chord(*corners(length * nb, width * nb, a, X + length / 2 * nb * np.cos(a), Y + length / 2 * nb * np.sin(a))))


def do_simple(case, r):
    _, cen, nb, th = case
    n = 40
    for ID, OD, st, clock, (x, y), (w, angs) in itertools.product((0., .3), (1., .85), (1., .8), (0., 35.) if not th else (0., 35., -110., 90.), ((0., 0.), (.12, -.07)), ((0., ()), (.06, (90., 210.)), (.1, (0.,)), (.05, 45.))):
        d = dict(Nbeam=nb, Npad=n, OD=OD, centering=cen)
        if ID:
            d['ID'] = ID
        if st != 1:
            d['xStretch'] = st
        if clock:
            d['clocking'] = clock
        if x:
            d.update(xShear=x, yShear=y)
        if w:
            d.update(wStrut=w, angStrut=angs)
        m = fm.falco_gen_pupil_Simple(dict(d))
        r.step()
        r.expect(m.shape == (n, n), 'simple:size', 'the array has the size asked for', got=m.shape)
        X, Y = (n / 2 - half(cen) + q * nb for q in (x, y))
        t = np.radians(clock)
        parts = [cover(n, ellipse_chord(st * OD / 2 * nb, OD / 2 * nb, t, X, Y))]
        if ID:
            parts.append(1 - cover(n, ellipse_chord(st * ID / 2 * nb, ID / 2 * nb, t, X, Y)))
        for a in np.atleast_1d(angs):
            parts.append(strut(n, a + clock, .6, w, X, Y, nb))
        close(r, 'simple', m, parts, .03, d)
        r.state(case, ID, OD, st, clock, x, w)
    for bad, exc in ((dict(ID=.9, OD=.5), ValueError), (dict(OD=1., wStrut=-.1), TypeError), (dict(OD=1., flagHG=1), TypeError), (dict(OD=1., centering='x'), ValueError)):
        try:
            fm.falco_gen_pupil_Simple(dict(dict(Nbeam=nb, Npad=n, centering=cen), **bad))
            r.bad('simple:error', 'an impossible pupil is refused', given=bad)
        except exc:
            r.outcome('refused')
        r.step()


def do_hyper(case, r):
    """hyper-Gaussian edges: sharp to a hundredth, so pixel centres decide"""
    _, cen, nb = case
    n = 40
    yy, xx = np.mgrid[:n, :n] - (n / 2 - half(cen))
    for ID, OD, st, (w, angs) in itertools.product((0., .3), (1., .85), (1., .8), ((0., ()), (.08, (90., 210.)), (.15, (0.,)))):
        if st != 1 and w:
            continue
        d = dict(Nbeam=nb, Npad=n, OD=OD, ID=ID, centering=cen, xStretch=st, flagHG=True, wStrut=w, angStrut=angs)
        m = fm.falco_gen_pupil_Simple(dict(d))
        r.step()
        rho = np.hypot(xx / st, yy) / nb * 2
        want = (rho <= OD) & (rho >= ID)
        near = (np.abs(rho / OD - 1) < .01) | (np.abs(rho - ID) < .01 * ID)
        hg_strut(want, near, xx, yy, w * nb / 2, angs)
        r.expect(m.shape == (n, n) and np.all(np.isfinite(m)) and np.abs(m - want)[~near].max() < 1e-3, 'hyper', 'the pupil with hyper-Gaussian edges has the same outline', **d)
        r.expect(m.min() >= 0 and m.max() <= 1, 'hyper:range', 'transmission is between 0 and 1', **d)
        r.state(case, ID, OD, st, w)
    r.outcome('hyper')


def hg_strut(want, near, xx, yy, hw, angs):
    for a in angs:
        along = xx * np.cos(np.radians(a)) + yy * np.sin(np.radians(a))
        across = np.abs(yy * np.cos(np.radians(a)) - xx * np.sin(np.radians(a)))
        want &= ~((along > 0) & (across < hw))
        near |= (np.abs(along) < 1e-9) | ((np.abs(across / hw - 1) < .08) & (along > -1e-9))


def hex_centres(nr):
    """segments of each ring, starting at +y and going round by -x, in units of the separation"""
    out = [(0., 0.)]
    for k in range(1, nr + 1):
        cor = [(k * np.cos(np.radians(90 + 60 * i)), k * np.sin(np.radians(90 + 60 * i))) for i in range(7)]
        for i in range(6):
            for j in range(k):
                out.append(tuple(np.array(cor[i]) + (np.array(cor[i + 1]) - cor[i]) * j / k))
    return out


def do_hex(case, r):
    _, nr, th = case
    C = hex_centres(nr)
    ns = len(C)
    r.expect(falco.hexsegmirror.count_segments(nr) == ns == 3 * nr * (nr + 1) + 1, 'hex:count', 'the number of segments is that of the rings')
    for nb, gap, miss, phase, (w, angs), n, (ID, OD) in itertools.product((44., 61.5), (0., 1.7), (None, (0,), (1, ns - 1), (2, 4)), (False, True), ((0., ()), (.06, (90., 200.))), (64, 72), ((.2, 1.), (0., .8))):
        if not th and phase and n == 72 and w:
            continue
        d = dict(Npad=n, Nbeam=nb, OD=OD, ID=ID, numRings=nr, wGap=gap, wStrut=w, angStrut=angs)
        if miss is not None:
            d['missingSegments'] = np.array([0. if i in miss else 1. for i in range(ns)])
        if phase:
            d.update(pistons=np.sin(np.arange(ns)) * .3, tiltxs=np.cos(np.arange(ns)), tiltys=np.sin(2. * np.arange(ns)))
        m = fm.falco_gen_pupil_customHex(dict(d))
        r.step()
        yy, xx = np.mgrid[:n, :n] - n // 2
        flat = (nb - nr * 2 * gap) / (2 * nr + 1)
        sep = flat + gap
        want = np.zeros((n, n), complex)
        near = np.zeros((n, n), bool)
        for i, (cx, cy) in enumerate(C):
            X, Y = xx - cx * sep, yy - cy * sep
            q = np.max([np.abs(Y), np.abs(X * np.cos(np.pi / 6) + Y * .5), np.abs(X * np.cos(np.pi / 6) - Y * .5)], axis=0) / (flat / 2)
            near |= np.abs(q - 1) < .01
            if miss is not None and i in miss:
                continue
            inside = q < 1
            want[inside] = np.exp(2j * np.pi * (d['pistons'][i] + d['tiltxs'][i] * X[inside] / nb + d['tiltys'][i] * Y[inside] / nb)) if phase else 1.
        rho = np.hypot(xx, yy) / nb * 2
        near |= (np.abs(rho / OD - 1) < .01) | (np.abs(rho - ID) < .01 * ID)
        ok = (rho <= OD) & (rho >= ID)
        hg_strut(ok, near, xx, yy, w * nb / 2, angs)
        want = want * ok
        what = {k: v for k, v in d.items() if k not in ('pistons', 'tiltxs', 'tiltys')}
        e = np.where(near, 0, np.abs(m - want)) if m.shape == (n, n) else np.array([[9.]])
        k = np.unravel_index(e.argmax(), e.shape)
        r.expect(e[k] < 1e-3, 'hex', 'the segmented pupil has its segments, phases and struts where they are specified', got=m.flat[e.argmax()], want=want.flat[e.argmax()], npix=int((e > 1e-3).sum()), pixel=[int(v) for v in k], phase=phase, **what)
        r.state(case, nb, gap, miss, phase, w, n, ID)
    r.outcome('hex')


def do_ellipse(case, r):
    _, cen, nb, th = case
    n = 40
    for a, b, t, (x, y), mag in itertools.product((.5, .2), (.5, .31, .08), (0., 20., 45., 90., -60.), ((0., 0.), (.12, -.07)), (1., .7, 1.3)):
        d = dict(Nbeam=nb, Narray=n, radiusX=a, radiusY=b, centering=cen)
        if t:
            d['clockingDegrees'] = t
        if x:
            d.update(xShear=x, yShear=y)
        if mag != 1:
            d['magFac'] = mag
        m = fm.gen_ellipse(dict(d))
        r.step()
        X, Y = (n / 2 - half(cen) + q * nb for q in (x, y))
        close(r, 'ellipse', m, [cover(n, ellipse_chord(a * nb * mag, b * nb * mag, np.radians(t), X, Y))], .03, d)
        r.state(case, a, b, t, x, mag)
    r.outcome('ellipse')


def do_dmstop(case, r):
    _, cen = case
    for dx, diam in itertools.product((1e-3, .37e-3), (7.3e-3, 12e-3, .02)):
        m = fm.falco_gen_DM_stop(dx, diam, cen)
        r.step()
        n = m.shape[0]
        r.expect(n % 2 == 0, 'dmstop:size', 'the array is even', got=n)
        c = n / 2 - half(cen)
        r.expect(0 <= c - diam / dx / 2 + .5 + 1e-9 and n - diam / dx < 4, 'dmstop:fit', 'the array is cropped to the stop', got=n, diameter=diam / dx)
        close(r, 'dmstop', m, [disc(n, diam / dx / 2, c, c)], .11, dict(dx=dx, diam=diam, centering=cen))
        r.state(case, dx, diam)
    r.outcome('dmstop')


def do_vortex(case, r):
    for q, n in itertools.product((1, 2, 4, 6, -2, 8), (8, 10, 32)):
        m = fm.falco_gen_vortex_mask(q, n)
        yy, xx = np.mgrid[:n, :n] - n // 2
        t = np.angle(xx + 1j * yy)
        off = (xx != 0) | (yy != 0)
        r.expect(m.shape == (n, n) and np.allclose(np.abs(m), 1), 'vortex:phase', 'a vortex only changes the phase')
        r.expect(np.allclose(m[off], np.exp(1j * q * t)[off], atol=1e-9), 'vortex', 'the phase winds by the charge about the centre pixel', charge=q, n=n)
        r.step()
        r.state(q, n)
    for q, n in ((1j, 8), ('2', 8), (2, 8.5), (2, 0), (2, -4)):
        try:
            fm.falco_gen_vortex_mask(q, n)
            r.bad('vortex:error', 'an impossible vortex is refused', charge=q, n=n)
        except TypeError:
            r.outcome('refused')
        r.step()


# ---------------------------------------------------------------- software masks
SIDE = {'r': 0, 'right': 0, 'lr': 0, 'rl': 0, 'leftright': 0, 'rightleft': 0, 'both': 0, 'l': 180, 'left': 180,
        't': 90, 'top': 90, 'u': 90, 'up': 90, 'tb': 90, 'bt': 90, 'ud': 90, 'du': 90, 'topbottom': 90, 'bottomtop': 90, 'updown': 90, 'downup': 90,
        'b': 270, 'bottom': 270, 'd': 270, 'down': 270}
TWO = {'both', 'lr', 'rl', 'leftright', 'rightleft', 'tb', 'bt', 'ud', 'du', 'topbottom', 'bottomtop', 'updown', 'downup'}


def do_sw(case, r):
    _, cen, sh, p, th = case
    names = {'circle': ('circle', 'annulus', None), 'square': ('square',), 'rect': ('rect', 'rectangle'), 'd': ('d', 'D')}[sh]
    sides = list(SIDE)
    i = 0
    for rin, rout, ang, clock, (x, y), fov in itertools.product((0., 2.), (4., 5.3), (60., 120., 180.), (0., 30., -75., 90.), ((0., 0.), (1.5, -.7)), (None, 'FOV', 'xiFOV', 'N')):
        i += 1
        for side in sides if th else sides[i % 5::5]:
            name = names[(i + len(side)) % len(names)]
            d = dict(pixresFP=p, rhoInner=rin, rhoOuter=rout, angDeg=ang, whichSide=side, centering=cen)
            if name:
                d['shape'] = name
            if clock:
                d['clockAngDeg'] = clock
            if x:
                d.update(xiOffset=x, etaOffset=y)
            if fov == 'FOV':
                d['FOV'] = rout * 1.2
            elif fov == 'xiFOV':
                d.update(xiFOV=6.1, etaFOV=3.3)
            elif fov == 'N':
                d.update(Nxi=30, Neta=26)
            m, xi, eta = fm.falco_gen_SW_mask(dict(d))
            r.step()
            nx, ny = len(xi), len(eta)
            ok = m.shape == (ny, nx) and nx % 2 == 0 and ny % 2 == 0 and set(np.unique(m)) <= {0, 1}
            r.expect(ok, 'sw:binary', 'a software mask is binary, even-sized and has an axis value per row and column', got=m.shape, **d)
            h = half(cen)
            r.expect(np.allclose(xi, (np.arange(nx) - nx / 2 + h) / p) and np.allclose(eta, (np.arange(ny) - ny / 2 + h) / p), 'sw:axes', 'the axes are those of the centring and sampling', **d)
            if not ok:
                continue
            w, tie = sw(xi, eta, d)
            r.expect(np.all((m == w) | tie), 'sw', 'a pixel is in the mask exactly when its centre is in the region', n=int(((m != w) & ~tie).sum()), **d)
            if fov in (None, 'FOV'):
                K = int((1.5 * rout + 4) * p)     # beyond the corners of every region
                big = (np.arange(-K, K) + h) / p
                W, T = sw(big, big, d)
                need = (W & ~T).sum()
                r.expect(m.sum() >= need, 'sw:fov', 'the field of view holds the whole region', got=int(m.sum()), want=int(need), **d)
            if fov == 'xiFOV':
                r.expect(nx == ceil_even(2 * (6.1 * p + (.5 if not h else 0))) and ny == ceil_even(2 * (3.3 * p + (.5 if not h else 0))), 'sw:size', 'the field of view is the one asked for', got=(nx, ny), **d)
            if fov == 'N':
                r.expect((nx, ny) == (30, 26), 'sw:N', 'the array has the size asked for', got=(nx, ny))
            r.state(sorted((k, str(v)) for k, v in d.items()))
    r.outcome('sw', sh)
    for bad in (dict(whichSide='x'), dict(shape='star'), dict(centering='odd')):
        try:
            fm.falco_gen_SW_mask(dict(dict(pixresFP=2., rhoInner=1., rhoOuter=3., angDeg=90., whichSide='both'), **bad))
            r.bad('sw:error', 'an unknown side, shape or centring is refused', given=bad)
        except ValueError:
            r.outcome('refused')
        r.step()


def sw(xi, eta, d):
    X, Y = np.meshgrid(np.asarray(xi) - d.get('xiOffset', 0.), np.asarray(eta) - d.get('etaOffset', 0.))
    t = np.radians(SIDE[d['whichSide']] + d.get('clockAngDeg', 0.))
    u, v = X * np.cos(t) + Y * np.sin(t), Y * np.cos(t) - X * np.sin(t)
    rho = np.hypot(u, v)
    a, b = d['rhoInner'], d['rhoOuter']
    sh = (d.get('shape') or 'circle').lower()
    e = 1e-9
    ge = lambda q, lim: (q >= lim - 1e-12, np.abs(q - lim) < e)
    le = lambda q, lim: (q <= lim + 1e-12, np.abs(q - lim) < e)
    if sh in ('circle', 'annulus'):
        c = [ge(rho, a), le(rho, b)]
    elif sh == 'square':
        c = [ge(rho, a), le(np.abs(u), b), le(np.abs(v), b)]
    elif sh in ('rect', 'rectangle'):
        c = [ge(np.abs(u), a), le(np.abs(u), b), le(np.abs(v), b)]
    else:
        c = [ge(np.abs(u), a), le(rho, b)]
    w = np.all([q[0] for q in c], axis=0)
    tie = np.any([q[1] for q in c], axis=0)
    th = np.abs(np.arctan2(v, u))
    if d['whichSide'] in TWO:
        th = np.minimum(th, np.pi - th)
    o = np.radians(d['angDeg']) / 2
    return w & (th <= o), tie | (np.abs(th - o) < e) | (rho < e)


# ------------------------------------------------------------- down-sampled pupils
def do_down(case, r):
    _, rot, th = case
    for nin, nout, (x, y), odd in itertools.product((160, 133.), (20, 26.5), ((0., 0.), (1.5, -2.25), (3., 0.)), (False, True)):
        N = 2 * int(nin * .55) + (1 if odd else 2)
        c = N // 2
        yy, xx = np.mgrid[:N, :N] - c
        u, v = (xx - .1 * nin) / (.36 * nin), (yy + .05 * nin) / (.22 * nin)
        src = (u * u + v * v <= 1).astype(float)
        out = fm.rotate_shift_downsample_pupil_mask(src, nin, nout, x, y, rot)
        r.step()
        n = out.shape[0]
        what = dict(nin=nin, nout=nout, offset=(x, y), rot=rot, odd=odd)
        if not r.expect(out.shape == (n, n) and n % 2 == 0 and np.all(np.isfinite(out)), 'down:size', 'the array is square and even', shape=out.shape, **what):
            continue
        t = np.radians(rot)
        cx, cy = .1 * nout, -.05 * nout
        X, Y = n // 2 + cx * np.cos(t) - cy * np.sin(t) + x, n // 2 + cx * np.sin(t) + cy * np.cos(t) + y
        yy, xx = np.mgrid[:n, :n]
        du, dv = (xx - X) * np.cos(t) + (yy - Y) * np.sin(t), (yy - Y) * np.cos(t) - (xx - X) * np.sin(t)
        q = np.hypot(du / (.36 * nout), dv / (.22 * nout))
        lo, hi = np.hypot(du / (.36 * nout - 1.), dv / (.22 * nout - 1.)) < 1, np.hypot(du / (.36 * nout + 1.), dv / (.22 * nout + 1.)) > 1
        r.expect(np.abs(out[lo] - 1).max() < .02 and np.abs(out[hi]).max() < .02, 'down', 'the pupil is turned, shifted and scaled as asked', **what)
        w = cover(n, ellipse_chord(.36 * nout, .22 * nout, t, X, Y))
        r.expect(abs(out.sum() / w.sum() - 1) < .02, 'down:area', 'the area is kept', got=out.sum(), want=w.sum(), **what)
        r.expect(np.abs(out - w).max() < .3, 'down:edge', 'the edge is where it should be', got=np.abs(out - w).max(), **what)
        r.state(case, nin, nout, x, y, odd)
    for a, b in ((20., 20.), (20., 30.)):
        try:
            fm.rotate_shift_downsample_pupil_mask(np.ones((31, 31)), a, b, 0., 0., 0.)
            r.bad('down:error', 'up-sampling is refused')
        except ValueError:
            r.outcome('refused')
        r.step()


# --------------------------------------------------------------- telescope pupils
def roman(nb, cen, ch):
    return fm.falco_gen_pupil_Roman_CGI_20200513(nb, cen, dict(ch))


def wfirst(nb, cen, ch):
    return fm.falco_gen_pupil_WFIRST_CGI_180718(nb, cen, dict(ch))


def ren(ch):
    d = dict(ch)
    if 'flagRot180' in d:
        d['flagRot180deg'] = d.pop('flagRot180')
    return d


def luvoira(nb, cen, ch):
    return fm.falco_gen_pupil_LUVOIR_A_final(dict(ren(ch), Nbeam=nb, centering=cen))


def luvoirb(nb, cen, ch):
    return fm.falco_gen_pupil_LUVOIR_B(dict(ren(ch), Nbeam=nb, centering=cen))


PUPILS = {'roman': roman, 'wfirst': wfirst, 'luvoira': luvoira, 'luvoirb': luvoirb,
          'romanlyot': lambda nb, cen, ch: roman(nb, cen, dict(ch, flagLyot=True, ID=.5, OD=.8, wStrut=.036)),
          'luvoiralyot': lambda nb, cen, ch: luvoira(nb, cen, dict(ch, flagLyot=True, ID=.3, OD=.85))}
F = 8


def changes(name, th):
    one = [dict(xShear=.1), dict(yShear=-.075), dict(clock_deg=90.), dict(clock_deg=180.), dict(clock_deg=-90.), dict(clock_deg=33.), dict(clock_deg=-77.), dict(clock_deg=140.), dict(magFac=.8), dict(magFac=1.1), dict(flagRot180=True)]
    two = [dict(), dict(xShear=.1, yShear=.05, clock_deg=30.), dict(xShear=-.1, magFac=.9), dict(clock_deg=50., magFac=1.1), dict(flagRot180=True, xShear=.1, yShear=-.075), dict(flagRot180=True, clock_deg=33.), dict(flagRot180=True, clock_deg=20., magFac=.9, xShear=.05)]
    if th:
        two += [dict(a, **b) for a, b in itertools.combinations(one, 2)]
    return one + two


_fine = {}


def fine(name, nb):
    """the nominal pupil on an eight times finer grid, as a function of position in pixels of the coarse one"""
    k = (name, nb)
    if k not in _fine:
        a = PUPILS[name](F * nb, 'pixel', {})
        _fine.clear()
        _fine[k] = a
    return _fine[k]


def look(a, x, y):
    c = a.shape[0] // 2
    ix, iy = np.rint(x * F).astype(int) + c, np.rint(y * F).astype(int) + c
    ok = (ix >= 0) & (iy >= 0) & (ix < a.shape[1]) & (iy < a.shape[0])
    out = np.zeros(x.shape)
    out[ok] = a[iy[ok], ix[ok]]
    return out


def do_pupil(case, r):
    _, name, cen, nb, k0, th = case
    a = fine(name, nb)
    for ch in changes(name, th)[k0:k0 + 6]:
        m = PUPILS[name](nb, cen, ch)
        r.step()
        what = dict(pupil=name, centering=cen, nbeam=nb, changes=ch)
        n = m.shape[0]
        if not r.expect(m.shape == (n, n) and n % 2 == 0 and np.all(np.isfinite(m)) and m.min() > -1e-9 and m.max() < 1 + 1e-9, 'pupil:image', 'a pupil is a square even-sized array of transmissions', shape=m.shape, **what):
            continue
        g = (np.arange(16) + .5) / 16 * 2 - 1        # over the pixel and half a pixel around it
        i = np.arange(n) - n / 2 + half(cen)
        sx, sy = ch.get('xShear', 0.) * nb, ch.get('yShear', 0.) * nb
        ax = (i[:, None] + g[None]).ravel()
        X, Y = np.meshgrid(ax, ax)
        if ch.get('flagRot180'):
            X, Y = -X, -Y
        X, Y = X - sx, Y - sy
        t = np.radians(ch.get('clock_deg', 0.))
        mag = ch.get('magFac', 1.)
        U, V = (X * np.cos(t) + Y * np.sin(t)) / mag, (Y * np.cos(t) - X * np.sin(t)) / mag
        L = look(a, U, V).reshape(n, 16, n, 16)
        lo, hi = L.min(axis=(1, 3)), L.max(axis=(1, 3))
        calm = hi - lo < 1e-9
        want = L[:, 4:12, :, 4:12].mean(axis=(1, 3))
        e = np.abs(m - want)
        tol = .06 if name.startswith('luvoir') else 1e-6      # gaps far below a pixel
        r.expect(not calm.any() or e[calm].max() < tol, 'pupil:interior', 'the pupil is the nominal one moved, turned and scaled as asked', pixels=np.argwhere(calm & (e > tol))[:4].tolist(), **what)
        q = np.unravel_index(e.argmax(), e.shape)
        r.expect(e[q] < (.55 if name in ('roman', 'wfirst') else .22),     # the small tabs have hard edges
                  'pupil:edge', 'edges of the pupil are moved, turned and scaled as asked', pixel=[int(v) for v in q], got=m[q], want=want[q], **what)
        r.expect(abs(m.sum() - want.sum()) < .012 * want.sum(), 'pupil:area', 'the area scales with the magnification', got=m.sum(), want=want.sum(), **what)
        # nothing is cut off by the array
        r.expect(np.sum(a) / F**2 * mag**2 - m.sum() < .012 * m.sum(), 'pupil:fit', 'the array holds the whole pupil', got=m.sum(), want=np.sum(a) / F**2 * mag**2, **what)
        r.state(case, sorted(ch.items()))
    r.outcome('pupil', name)


def do_nominal(case, r):
    """the geometry itself"""
    _, name, th = case
    for nb, cen in ((60, 'pixel'), (47., 'interpixel')) if not th else itertools.product((60, 47.), CEN):
        h = half(cen)
        if name in ('roman', 'romanlyot'):
            for ch in (dict(), dict(pad_all=.006), dict(pad_strut=.01), dict(pad_COBS=.015), dict(pad_COBStabs=.01), dict(pad_OD=.02), dict(wStrut=.05), dict(wStrutVec=np.linspace(.02, .06, 6)), dict(pad_strut=.005, pad_all=.004, pad_OD=-.004)):
                if name == 'romanlyot' and 'wStrut' in ch:
                    continue
                m = PUPILS[name](nb, cen, ch)
                r.step()
                n = m.shape[0]
                close_away(r, name, m, roman_parts(n, nb, n / 2 - h, ch, name == 'romanlyot'), dict(nbeam=nb, centering=cen, changes=ch))
                r.state(name, nb, cen, sorted(ch))
        elif name == 'wfirst':
            nom = wfirst(nb, cen, {})
            r.step()
            for ch, sign in ((dict(pad_all=.01), -1), (dict(pad_strut=.01), -1), (dict(pad_COBS=.02), -1), (dict(pad_COBStabs=.03), -1), (dict(pad_OD=.02), -1), (dict(wStrut=.06), -1), (dict(wStrut=.02), 1), (dict(ID=.4), -1), (dict(ID=.25), 1), (dict(OD=.9), -1)):
                m = wfirst(nb, cen, ch)
                r.step()
                r.expect(m.shape == nom.shape and np.all(sign * (m - nom) > -1e-9) and np.abs(m - nom).max() > .05, 'wfirst:pad', 'widening a part of the obscuration only blocks more', changes=ch, centering=cen)
                r.state(name, nb, cen, sorted(ch))
            c = nom.shape[0] / 2 - h
            yy, xx = np.mgrid[:nom.shape[0], :nom.shape[0]] - c
            rho = np.hypot(xx, yy) / nb
            r.expect(np.all(nom[rho > .5 + 1.5 / nb] == 0) and np.all(nom[rho < .13] < 1e-9), 'wfirst:outline', 'the pupil is one beam wide with the secondary in its middle')
            r.expect(.72 < nom.sum() / (np.pi / 4 * nb * nb) < .82, 'wfirst:area', 'the obscured share of the pupil', got=nom.sum() / (np.pi / 4 * nb * nb))
        else:
            for ch in (dict(), dict(wGap_m=.06), dict(wGap_m=0.)) + ((dict(wStrut=.02), dict(wStrut=0.)) if name == 'luvoira' else ()):
                if name == 'luvoiralyot' and 'wStrut' in ch:
                    continue
                m = PUPILS[name](nb, cen, ch)
                r.step()
                n = m.shape[0]
                close(r, name, m, luvoir_parts(name, n, nb, n / 2 - h, ch), .06 if ch.get('wGap_m', 1) else .06, dict(nbeam=nb, centering=cen, changes=ch))
                r.state(name, nb, cen, sorted(ch))
    r.outcome('nominal', name)


def close_away(r, name, m, pa, what):
    parts, tabs = pa
    if tabs is None:
        close(r, name, m, parts, .05, what)
        return
    # the small tabs where struts meet the secondary may block more, but only within their ellipses
    want = np.prod(parts, axis=0)
    m2 = np.where(tabs > 0, np.where(m > want, m, want), m)
    close(r, name, m2, parts, .05, what)


def roman_parts(n, nb, c, ch, lyot):
    """the Roman pupil of 2020-05-13 as drawn, in units of its longer diameter"""
    D = 8054.5
    s = nb / D
    pa = ch.get('pad_all', 0.)
    ps, pc, pt, po = (ch.get(k, 0.) + pa for k in ('pad_strut', 'pad_COBS', 'pad_COBStabs', 'pad_OD'))
    w = np.array([257., 259., 258., 258., 259., 257.]) / D
    if lyot:
        w = np.full(6, .036)
    if 'wStrut' in ch:
        w = np.full(6, ch['wStrut'])
    if 'wStrutVec' in ch:
        w = ch['wStrutVec']
    ends = (((843.9, 550.85), (1579.9, 3866.85)), ((728., 580.35), (3988., -511.65)), ((47.5, -970.65), (2429.7, -3214.65)), ((-192., -1097.15), (-2484., -3256.15)), ((-676., 605.55), (-3988., -504.45)), ((-816.65, 458.85), (-1572.65, 3866.85)))
    parts = []
    for (p, q), wi in zip(ends, w):
        p, q = np.array(p) * s, np.array(q) * s
        t = np.arctan2(*(q - p)[::-1])
        parts.append(1 - cover(n, poly_chord(*corners(.55 * nb, (wi + 2 * ps) * nb, t, *((p + q) / 2 + c)))))
    if lyot:
        return parts + [disc(n, .4 * nb, c, c), 1 - disc(n, .25 * nb, c, c)], None
    parts.append(cover(n, ellipse_chord((3990. / D - po) * nb, (4027.25 / D - po) * nb, 0., c, c)))
    parts.append(1 - cover(n, ellipse_chord((1209.65 / D + pc) * nb, (1220. / D + pc) * nb, 0., c, c - 2.95 * s)))
    tabs = np.max([cover(n, ellipse_chord((a / D + pt) * nb, (b / D + pt) * nb, 0., c, c + y * s)) for a, b, y in ((1343., 1353., 53.85), (1364., 1374., 67.6))], axis=0)
    return parts, tabs


def luvoir_parts(name, n, nb, c, ch):
    gap = ch.get('wGap_m', .006)
    parts = []
    if name == 'luvoirb':
        nr, flat = 4, .955
        D = 2 * nr * flat + (2 * nr - 1) * gap
        nb = .96075 * nb
    else:
        nr, flat = 6, 1.2225
        D = 12 * flat + 11 * gap
    px = nb / D
    sep = flat + gap
    if name != 'luvoiralyot':
        each = []
        for x, y in hex_centres(nr):
            if abs(np.hypot(x, y) - nr) < 1e-6 or (name == 'luvoira' and np.hypot(x, y) < 1e-6):
                continue       # corner segments, and in design A the central one, are missing
            a = np.arange(6) * np.pi / 3
            R = flat / np.sqrt(3) * px
            each.append(cover(n, poly_chord(c + x * sep * px + R * np.cos(a), c + y * sep * px + R * np.sin(a))))
        segs = np.sum(each, axis=0)
        parts.append(np.where((segs > 1 - 1e-9) & (np.sum([q > 0 for q in each], axis=0) > 1), 1 - 1e-8, np.minimum(segs, 1)))     # shared pixels count as edges
    else:
        parts += [disc(n, .425 * D * px, c, c), 1 - disc(n, .15 * D * px, c, c)]
    if name != 'luvoirb':
        w = ch['wStrut'] * D if 'wStrut' in ch else .15
        R = flat / np.sqrt(3)
        if w > 0:
            parts.append(1 - cover(n, poly_chord(*corners(w * px, 7 * flat * px, 0., c, c + D / 4 * px))))
            for sg in (1, -1):
                parts.append(1 - cover(n, poly_chord(*corners(w * px, (np.sqrt(93) + .5) * R * px, np.radians(12.7 * sg), c + 1.5 * R * sg * px, c - 11 * np.sqrt(3) / 4 * R * px))))
    return parts


# --------------------------------------------------------------------- history
GENS = {'annular': lambda: fm.gen_annular_fpm(dict(pixresFPM=3.7, rhoInner=2., rhoOuter=5.)),
        'bowtie': lambda: fm.gen_bowtie_fpm(dict(pixresFPM=3.7, rhoInner=2., rhoOuter=5., ang=70.)),
        'lyotbow': lambda: fm.gen_bowtie_lyot_stop(dict(Nbeam=30., ID=.3, OD=.9, ang=100.)),
        'simple': lambda: fm.falco_gen_pupil_Simple(dict(Nbeam=30., Npad=36, OD=1., ID=.3, wStrut=.05, angStrut=[0., 100.])),
        'dmstop': lambda: fm.falco_gen_DM_stop(1e-3, .0233, 'pixel'),
        'ellipse': lambda: fm.gen_ellipse(dict(Nbeam=30., Narray=36, radiusX=.4, radiusY=.3))}


def do_history(case, r):
    """a mask does not depend on the masks made before it, nor change what PROPER draws afterwards"""
    name = case[1]
    make = GENS[name] if name in GENS else lambda: PUPILS[name](24, 'pixel', {})

    def probe():
        return proper.prop_ellipse(proper.prop_begin(1., 1e-6, 16, .5), .21, .17, .01, .02)
    proper.prop_set_antialiasing(11)
    first, p0 = make(), None
    proper.prop_set_antialiasing(11)
    p0 = probe()
    for other in list(GENS) + list(PUPILS):
        proper.prop_set_antialiasing(11)
        GENS[other]() if other in GENS else PUPILS[other](24, 'pixel', {})
        again = make()
        r.step(2)
        r.expect(np.array_equal(first, again), 'history', 'a mask does not depend on the masks made before it', mask=name, after=other, diff=np.abs(first - again).max() if first.shape == again.shape else None)
        r.expect(np.array_equal(probe(), p0), 'history:proper', 'making a mask does not change what PROPER draws afterwards', mask=name, after=other)
        r.state(name, other)
    r.outcome('history', name)


def run(case, r):
    proper.prop_set_antialiasing(11)
    globals()['do_' + case[0]](case, r)
    r.execution()
