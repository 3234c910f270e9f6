"""P35: maps written to files read back to the same map and are applied once."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np
import falco
import falco.proper as proper

ID = 'P35'
BOUNDS = {'quick': 'maps of 8 shapes (even, odd, not square, smaller and larger than the grid) x 6 data types x 3 kinds x {sampling, beam radius, both}; resampling at ratios 1, 2, 1/2 with every whole-pixel shift and centre within 3 pixels; every combination of kind, unit, factor, rotation by quarter turns, magnification and override of the sampling when applying a map; all sequences of 3 applications; PSD maps over kind x shape x limit x rotation x file reuse',
          'thorough': 'more grid sizes, sequences of 4 applications'}
CHUNK = 4
SHAPES = ((8, 8), (9, 9), (7, 7), (16, 16), (20, 20), (21, 17), (12, 16), (6, 10))
TYPES = ('float64', 'float32', 'int16', 'int32', 'int64', 'uint8')
KINDS = ('AMPLITUDE', 'MIRROR', 'WAVEFRONT', None)
LAM = 0.5e-6


def cases(tier):
    th = tier == 'thorough'
    out = [('file', s, t) for s in SHAPES for t in TYPES]
    out += [('read', n, s) for n in ((8, 16, 12) if th else (8, 16)) for s in SHAPES]
    out += [('apply', k, u) for k in ('MIRROR_SURFACE', 'WAVEFRONT', 'AMPLITUDE') for u in (None, 'NM', 'MICRONS')]
    out += [('seq', 4 if th else 3, i) for i in range(len(STEPS))]
    out += [('psd', k, tpf, mx, rot) for k in ('WAVEFRONT', 'MIRROR', 'AMPLITUDE') for tpf in (0, 1) for mx in (None, 3.) for rot in (None, (0., 30.), (40., 0.), (40., 30.))]
    out += [('rot', n) for n in ((7, 8, 12, 13) if th else (7, 8))] + [('errors',)]
    out += [('pixellate', n, k) for n in (64, 48) for k in (1.5, 2., 2.7, 3.)]
    return out


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='p35_')
        proper.print_it = False
        return self

    def p(self, name='map.fits'):
        return os.path.join(self.d, name)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def run(case, r):
    with warnings.catch_warnings(), Scratch() as sc, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        globals()['do_' + case[0]](case, r, sc)


def image(shape, dtype='float64'):
    y, x = np.mgrid[:shape[0], :shape[1]]
    a = (3 * y + 7 * x + (y * x) % 5) % 23
    if dtype.startswith('float'):
        a = (a - 9) * 0.37
    return a.astype(dtype)


def wavefront(n, lens=False):
    wf = proper.prop_begin(1.0, LAM, n, 0.5)
    if lens:
        proper.prop_lens(wf, 7.)
        proper.prop_propagate(wf, 2.)
    return wf


def do_file(case, r, sc):
    """what is written is what is read"""
    _, shape, dt = case
    a = image(shape, dt)
    for prev in (None, (5, 5)):
        for kind in KINDS:
            for how in ('SAMPLING', 'RADIUS_PIX', 'both'):
                keep = a.copy()
                fn = sc.p()
                if prev:
                    proper.prop_fits_write(fn, np.ones(prev))      # is replaced
                kw = {} if kind is None else {kind: True}
                if how != 'RADIUS_PIX':
                    kw['SAMPLING'] = 0.0123
                if how != 'SAMPLING':
                    kw['RADIUS_PIX'] = 3.25
                proper.prop_writemap(a, fn, **kw)
                b, h = proper.prop_fits_read(fn, header=True)
                c = proper.prop_fits_read(fn)
                r.step(2)
                r.execution()
                r.state(case, prev, kind, how)
                d = dict(shape=shape, dtype=dt, kind=kind, given=how)
                r.expect(np.array_equal(a, keep) and a.dtype == keep.dtype, 'input', 'writing changes the map', **d)
                r.expect(b.shape == a.shape and np.array_equal(b, a.astype(float)) and np.array_equal(b, c) and b.dtype == np.float64, 'values', 'the map read differs from the one written', **d)
                r.expect(str(h['MAPTYPE']).strip() == (kind or 'WAVEFRONT').lower(), 'type', 'the type of the map is not kept', got=h['MAPTYPE'], **d)
                if how == 'SAMPLING':
                    r.expect(h.get('PIXSIZE') == 0.0123 and 'RADPIX' not in h, 'sampling', 'the sampling is not kept', **d)
                else:
                    r.expect(h.get('RADPIX') == 3.25, 'radius', 'the beam radius is not kept', **d)
                r.expect((h['XC_PIX'], h['YC_PIX']) == (shape[1] // 2, shape[0] // 2), 'centre', 'the recorded centre is not that of the map', **d)
        head = {'AAA': (3, 'c1'), 'BBB': (2.5, 'c2'), 'CCC': ('text', '')}
        proper.prop_fits_write(sc.p('w.fits'), a, HEADER=head)
        b, h = proper.prop_fits_read(sc.p('w.fits'), header=True)
        r.step()
        r.expect(np.array_equal(a.astype(float), b) and all(h[k] == v[0] for k, v in head.items()), 'header', 'an array or its header does not survive the file')


def lookup(a, n, ratio, xc, yc, sx, sy):
    """value of map pixel that lands on each grid pixel, NaN where it has none
    (ratio: grid spacing over map spacing; shifts in grid pixels)"""
    out = np.full((n, n), np.nan)
    for j in range(n):
        for i in range(n):
            y = (j - n // 2 - sy) * ratio + yc
            x = (i - n // 2 - sx) * ratio + xc
            if y == int(y) and x == int(x) and 0 <= y < a.shape[0] and 0 <= x < a.shape[1]:
                out[j, i] = a[int(y), int(x)]
    return out


def do_read(case, r, sc):
    _, n, shape = case
    a = image(shape)
    fn = sc.p()
    for lens in (False, True):
        wf = wavefront(n, lens)
        dx = proper.prop_get_sampling(wf)
        E = wf.wfarr.copy()
        for ratio in (1., 2., 0.5):
            for how in ('SAMPLING', 'RADIUS_PIX', 'override'):
                pix = dx / ratio
                if how == 'SAMPLING':
                    proper.prop_writemap(a, fn, SAMPLING=pix)
                elif how == 'override':
                    proper.prop_writemap(a, fn, SAMPLING=9 * pix)
                else:
                    proper.prop_writemap(a, fn, RADIUS_PIX=proper.prop_get_beamradius(wf) / pix, SAMPLING=3 * pix)
                for sx, sy in itertools.product((0, 2, -3), repeat=2):
                    for c in (None, (shape[1] // 2 + 1, shape[0] // 2 - 2)):
                        if how != 'SAMPLING' and (sx, sy) not in ((0, 0), (2, -3)):
                            continue
                        kw = {} if c is None else {'XC_MAP': c[0], 'YC_MAP': c[1]}
                        if how == 'override':
                            kw['SAMPLING'] = pix
                        m = proper.prop_readmap(wf, fn, sx * dx, sy * dx, **kw)
                        m = proper.prop_shift_center(m)
                        w = lookup(a, n, ratio, *(c or (shape[1] // 2, shape[0] // 2)), sx, sy)
                        ok = np.isfinite(w)
                        r.step()
                        r.execution()
                        r.state(case, lens, ratio, how, sx, sy, c)
                        # at the very edge rounding decides what lies outside
                        r.expect(m.shape == (n, n) and np.allclose(m[ok], w[ok], atol=1e-6), 'resample', 'the map on the grid differs from the map at the same places', grid=n, map=shape, ratio=ratio, shift=(sx, sy), centre=c, given=how)
                        if r.viol:
                            return
                # fractions of a pixel: a plane stays a plane
        y, x = np.mgrid[:24, :24]
        proper.prop_writemap(0.7 * x - 0.4 * y, fn, SAMPLING=dx)
        for sx, sy in itertools.product((0, 0.25, -0.5), repeat=2):
            m = proper.prop_shift_center(proper.prop_readmap(wf, fn, sx * dx, sy * dx))
            j, i = np.mgrid[:n, :n] - n // 2 + 12.
            w = 0.7 * (i - sx) - 0.4 * (j - sy)
            q = slice(n // 4, 3 * n // 4)
            r.step()
            r.state(case, lens, 'plane', sx, sy)
            r.expect(np.allclose(m[q, q], w[q, q], atol=2e-3), 'fraction', 'the shift by a fraction of a pixel is wrong', shift=(sx, sy), grid=n)
        r.expect(np.array_equal(E, wf.wfarr), 'readonly', 'reading a map changes the wavefront')


def turned(a, q):
    """quarter turns about the centre pixel, counter-clockwise"""
    n = len(a)
    out = np.zeros_like(a)
    c = n // 2
    for j in range(n):
        for i in range(n):
            y, x = j - c, i - c
            for _ in range(q % 4):
                y, x = -x, y
            if 0 <= y + c < n and 0 <= x + c < n:
                out[j, i] = a[y + c, x + c]
    return out


def do_apply(case, r, sc):
    """the effect on the wavefront, for every combination of options"""
    _, kind, unit = case
    n = 16
    fac = {None: 1., 'NM': 1e-9, 'MICRONS': 1e-6}[unit]
    base = image((n, n))
    a = base * (20e-9 / fac if kind != 'AMPLITUDE' else 1.)
    fn = sc.p()
    bad = kind == 'AMPLITUDE' and unit
    for lens in (False, True):
        for mult in (None, 0.5, -2.):
            for rot in (None, 0, 90, 180, 270, -90, 360):
                for over in (None, 'SAMPLING', 'centre', 'all'):
                    for sh in ((0, 0), (1, -2)):
                        wf = wavefront(n, lens)
                        dx = proper.prop_get_sampling(wf)
                        proper.prop_writemap(a, fn, SAMPLING=dx * (4 if over in ('SAMPLING', 'all') else 1))
                        kw = {kind: True}
                        if unit:
                            kw[unit] = True
                        if mult is not None:
                            kw['MULTIPLY'] = mult
                        if rot is not None:
                            kw['ROTATEMAP'] = rot
                        if over in ('SAMPLING', 'all'):
                            kw['SAMPLING'] = dx
                        cx = cy = n // 2
                        if over in ('centre', 'all'):
                            cx, cy = cx + 1, cy - 1
                            kw.update(XC_MAP=cx, YC_MAP=cy)
                        E0 = wf.wfarr.copy()
                        r.outcome(kind, unit, lens, mult, rot, over, sh)
                        d = dict(options=kw, shift=sh)
                        err = m = None
                        try:
                            m = proper.prop_errormap(wf, fn, sh[0] * dx, sh[1] * dx, **kw)
                        except (SystemExit, ValueError) as e:
                            err = e
                        r.step()
                        r.execution()
                        r.state(case, lens, mult, rot, over, sh)
                        if bad:
                            r.expect(err is not None and np.array_equal(E0, wf.wfarr), 'units', 'units are accepted for an amplitude map', **d)
                            continue
                        if err is not None:
                            r.bad('raises', 'applying the map raises %s: %s' % (type(err).__name__, err), **d)
                            return
                        w = lookup(a, n, 1., cx, cy, *sh)
                        if rot is not None:
                            w = turned(w, rot // 90 % 4)
                        w = w * fac * (1 if mult is None else mult)
                        # judge where the map and its surroundings are known
                        ok = np.zeros((n, n), bool)
                        ok[5:-5, 5:-5] = True
                        ok &= np.isfinite(w)
                        s = np.nanmax(np.abs(w))
                        r.expect(np.allclose(m[ok], w[ok], atol=2e-3 * s), 'map', 'the map handed back is not the map in the file with the options applied', **d)
                        eff = {'AMPLITUDE': m, 'WAVEFRONT': np.exp(2j * np.pi * m / LAM), 'MIRROR_SURFACE': np.exp(-4j * np.pi * m / LAM)}[kind]
                        want = E0 * proper.prop_shift_center(eff)
                        r.expect(np.allclose(wf.wfarr, want, rtol=1e-9, atol=1e-12), 'effect', 'the wavefront is not changed by exactly the map', **d)
                        if r.viol:
                            return


STEPS = ('W', 'M', 'A', 'phase', 'mult', 'div', 'add', 'scalar')


def do_seq(case, r, sc):
    """maps and arrays applied one after the other"""
    _, depth, first = case
    n = 8
    dx = proper.prop_get_sampling(wavefront(n))
    A = np.abs(image((n, n))) * 0.1 + 0.5
    M = image((n, n)) * 1e-8
    proper.prop_writemap(M, sc.p('w.fits'), SAMPLING=dx)
    proper.prop_writemap(M, sc.p('m.fits'), SAMPLING=dx, MIRROR=True)
    proper.prop_writemap(A, sc.p('a.fits'), SAMPLING=dx, AMPLITUDE=True)
    B = A.T * (1 + 0.2j)
    for seq in itertools.product(STEPS, repeat=depth - 1):
        seq = (STEPS[first],) + seq
        wf = wavefront(n)
        E = np.ones((n, n), complex)
        for s in seq:
            a0, m0, b0 = A.copy(), M.copy(), B.copy()
            if s == 'W':
                proper.prop_errormap(wf, sc.p('w.fits'), WAVEFRONT=True)
                E = E * np.exp(2j * np.pi * M / LAM)
            elif s == 'M':
                proper.prop_errormap(wf, sc.p('m.fits'), MIRROR_SURFACE=True)
                E = E * np.exp(-4j * np.pi * M / LAM)
            elif s == 'A':
                proper.prop_errormap(wf, sc.p('a.fits'), AMPLITUDE=True)
                E = E * A
            elif s == 'phase':
                proper.prop_add_phase(wf, M)
                E = E * np.exp(2j * np.pi * M / LAM)
            elif s == 'mult':
                proper.prop_multiply(wf, B)
                E = E * B
            elif s == 'div':
                proper.prop_divide(wf, A)
                E = E / A
            elif s == 'add':
                proper.prop_add_wavefront(wf, B)
                E = E + B
            else:
                proper.prop_multiply(wf, 2)
                proper.prop_add_phase(wf, 3e-8)
                proper.prop_divide(wf, 4.)
                E = E * 0.5 * np.exp(2j * np.pi * 3e-8 / LAM)
            r.step()
            r.expect(np.array_equal(A, a0) and np.array_equal(M, m0) and np.array_equal(B, b0), 'argument', 'an operation changes the array it is given', steps=seq)
        r.state(seq)
        r.execution()
        d = dict(steps=seq)
        r.expect(np.allclose(proper.prop_get_wavefront(wf), E, rtol=1e-8, atol=1e-10), 'sequence', 'the wavefront is not the product of what was applied', **d)
        r.expect(np.allclose(proper.prop_get_amplitude(wf), np.abs(E), rtol=1e-8, atol=1e-10), 'amplitude', 'the amplitude is not that of the wavefront', **d)
        ph = proper.prop_get_phase(wf)
        r.expect(np.allclose(np.abs(E) * np.exp(1j * ph), E, rtol=1e-7, atol=1e-9) and np.all(np.abs(ph) <= np.pi + 1e-12), 'phase', 'the phase is not that of the wavefront', **d)
        if r.viol:
            return


def do_psd(case, r, sc):
    _, kind, tpf, mx, rot = case
    n = 16
    amp, b, c = 1e-18, 2., 3.
    seeds = iter(range(100))
    real = np.random.uniform

    def fixed(low=0., high=1., size=None):
        y, x = np.mgrid[:size[0], :size[1]]
        return low + (high - low) * ((0.37 * y * y + 0.61 * x + 0.2 * x * y + 0.13 * next(seeds)) % 1.)
    home = os.environ.get('HOME')
    os.environ['HOME'] = sc.d
    open(sc.p('.proper_use_fftw'), 'w').write('x')
    np.random.uniform = fixed
    fftw = proper.use_fftw
    try:
        for rms in (0, 1):
            for noap in (0, 1):
                fn = sc.p('psd%d%d.fits' % (rms, noap))
                maps = []
                for k in range(3):
                    wf = wavefront(n)
                    dx = proper.prop_get_sampling(wf)
                    E0 = wf.wfarr.copy()
                    kw = {'FILE': fn}
                    if kind == 'AMPLITUDE':
                        kw['AMPLITUDE'] = 0.9
                    elif kind == 'MIRROR':
                        kw['MIRROR'] = True
                    if tpf:
                        kw['TPF'] = True
                    if mx:
                        kw['MAX_FREQUENCY'] = mx
                    if rms:
                        kw['RMS'] = True
                    if noap:
                        kw['NO_APPLY'] = True
                    if rot:
                        kw['INCLINATION'], kw['ROTATION'] = rot
                    A = 2e-8 if rms else amp
                    if kind == 'AMPLITUDE':
                        A = 0.02
                    m = proper.prop_psd_errormap(wf, A, b, c, **kw)
                    maps.append(m)
                    r.step()
                    r.execution()
                    r.state(case, rms, noap, k)
                    d = dict(options=kw, use=k)
                    r.expect(m.shape == (n, n) and np.all(np.isfinite(m)) and np.std(m) > 0, 'map', 'no proper map is made', **d)
                    r.expect(np.allclose(m, maps[0], rtol=1e-6, atol=1e-9 * np.max(np.abs(m))), 'reuse', 'using the file again gives another map', **d)
                    eff = {'WAVEFRONT': np.exp(2j * np.pi * m / LAM), 'MIRROR': np.exp(4j * np.pi * m / LAM), 'AMPLITUDE': m}[kind]
                    want = E0 if noap else E0 * proper.prop_shift_center(eff)
                    r.expect(np.allclose(wf.wfarr, want, rtol=1e-9, atol=1e-12), 'effect', 'the wavefront is not changed by exactly the map', **d)
                    r.expect(proper.use_fftw == fftw and os.path.exists(sc.p('.proper_use_fftw')), 'fft', 'making a map changes the choice of the FFT library', **d)
                if kind == 'AMPLITUDE':
                    r.expect(abs(np.max(maps[0]) - 0.9) < 1e-9, 'peak', 'the largest amplitude is not the requested one', **d)
                # its spectrum is the requested one
                y, x = np.mgrid[:n, :n] - n // 2
                th, inc = (0., 0.) if not rot else (-np.radians(rot[1]), -np.radians(rot[0]))
                u = x * np.cos(th) - y * np.sin(th)
                v = (x * np.sin(th) + y * np.cos(th)) * np.cos(inc)
                k = np.hypot(u, v) / (n * dx)
                P = amp / (1 + (k / b)**c) if tpf else amp / (1 + (k / b)**2)**((c + 1) / 2)
                if mx:
                    P = np.where(k <= mx, P, 0)
                P[n // 2, n // 2] = 0
                if kind != 'AMPLITUDE':
                    want = 2e-8 if rms else None
                    if want:
                        r.expect(abs(np.std(maps[0]) / want - 1) < 1e-6, 'rms', 'the map has not the requested RMS', got=np.std(maps[0]), **d)
                    elif not mx:
                        w = np.sqrt(np.sum(P)) / (n * dx)
                        r.expect(abs(np.std(maps[0]) / w - 1) < 1e-6, 'rms', 'the map has not the RMS of its spectrum', got=np.std(maps[0]), want=w, **d)
                # taking the real part mixes each frequency with its opposite; none beyond the limit may appear
                F = np.abs(np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(maps[0] - np.mean(maps[0])))))[1:, 1:]
                t = np.roll(P[::-1, ::-1], (1, 1), (0, 1))
                z = ((P + t) == 0)[1:, 1:]
                r.outcome(case, rms, noap, int(np.sum(z)))
                if mx:
                    r.expect(np.all(F[z] <= 1e-6 * np.max(F)), 'limit', 'the map contains frequencies above the limit', **d)
                if r.viol:
                    return
    finally:
        np.random.uniform = real
        if home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = home
    spectrum(case, r)


def spectrum(case, r):
    """with known phases the whole map is known up to its scale"""
    _, kind, tpf, mx, rot = case
    n = 16
    b, c = 2., 3.
    y, x = np.mgrid[:n, :n]
    ph = (0.37 * y * y + 0.61 * x + 0.2 * x * y) % 1.
    real = np.random.uniform
    calls = []

    def fixed(low=0., high=1., size=None):
        calls.append(size)
        return low + (high - low) * ph
    np.random.uniform = fixed
    try:
        wf = wavefront(n)
        dx = proper.prop_get_sampling(wf)
        kw = {'NO_APPLY': True, 'RMS': True}
        if kind == 'MIRROR':
            kw['MIRROR'] = True
        if tpf:
            kw['TPF'] = True
        if mx:
            kw['MAX_FREQUENCY'] = mx
        if rot:
            kw['INCLINATION'], kw['ROTATION'] = rot
        m = proper.prop_psd_errormap(wf, 1e-8, b, c, **kw)
    finally:
        np.random.uniform = real
    if len(calls) != 1 or tuple(np.atleast_1d(calls[0])) != (n, n):
        return                                  # phases drawn in another way
    y, x = np.mgrid[:n, :n] - n // 2
    th, inc = (0., 0.) if not rot else (-np.radians(rot[1]), -np.radians(rot[0]))
    u = x * np.cos(th) - y * np.sin(th)
    v = (x * np.sin(th) + y * np.cos(th)) * np.cos(inc)
    k = np.hypot(u, v) / (n * dx)
    P = 1 / (1 + (k / b)**c) if tpf else 1 / (1 + (k / b)**2)**((c + 1) / 2)
    if mx:
        P = np.where(k <= mx, P, 0)
    P[n // 2, n // 2] = 0
    w = np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(np.sqrt(P) * np.exp(1j * (2 * np.pi * ph - np.pi)))).real)
    w *= 1e-8 / np.std(w)
    r.step()
    r.state(case, 'spectrum')
    r.expect(np.allclose(m, w, rtol=1e-6, atol=1e-6 * np.max(np.abs(w))), 'spectrum', 'the map has not the requested power spectrum', kind=kind, tpf=tpf, limit=mx, rotation=rot)


def do_rot(case, r, sc):
    """rotation and magnification of images"""
    n = case[1]
    a = image((n, n))
    for cplx in (0, 1):
        b = a * (1 + 0.5j) if cplx else a
        keep = b.copy()
        for th in range(-360, 361, 90):
            for sh in ((0, 0), (1, -2)):
                kw = {} if sh == (0, 0) else {'XSHIFT': sh[0], 'YSHIFT': sh[1]}
                for miss in (None, 7.):
                    if miss is not None:
                        kw['MISSING'] = miss
                    m = proper.prop_rotate(b, th, **kw)
                    w = turned(b, th // 90 % 4)
                    s = np.zeros_like(w)
                    for j in range(n):
                        for i in range(n):
                            if 0 <= j - sh[1] < n and 0 <= i - sh[0] < n:
                                s[j, i] = w[j - sh[1], i - sh[0]]
                    q = slice(3, -3)
                    r.step()
                    r.execution()
                    r.state(case, cplx, th, sh, miss)
                    r.expect(m.shape == b.shape and np.allclose(m[q, q], s[q, q], atol=1e-6), 'rotate', 'a quarter turn is not exact', angle=th, shift=sh, complex=cplx)
                    r.expect(np.array_equal(b, keep), 'argument', 'rotating changes the image it is given')
        m = proper.prop_magnify(b, 1., n, QUICK=True)
        r.expect(np.allclose(m, b, atol=1e-9), 'magnify', 'magnifying by one changes the image', complex=cplx)
        if not cplx:
            for k in (2., 0.5, 3.):
                w = lookup(b, n, 1 / k, n // 2, n // 2, 0, 0)
                ok = np.isfinite(w)
                for cons in (None, 'CONSERVE', 'AMP_CONSERVE'):
                    kw = {} if cons is None else {cons: True}
                    m = proper.prop_magnify(b, k, n, QUICK=True, **kw)
                    f = {None: 1, 'CONSERVE': k * k, 'AMP_CONSERVE': k}[cons]
                    r.step()
                    r.state(case, k, cons)
                    r.expect(np.allclose(m[ok], w[ok] / f, atol=1e-6), 'magnify', 'magnifying does not keep the pixels about the centre', factor=k, conserve=cons)
    # the sinc interpolator keeps samples as well, away from the edge
    c = image((24, 24))
    for z in (c, c * (1 - 0.3j)):
        for k in (1., 2.):
            m = proper.prop_magnify(z, k, 24)
            w = lookup(z.real, 24, 1 / k, 12, 12, 0, 0)
            q = np.zeros((24, 24), bool)
            q[8:-8, 8:-8] = True
            q &= np.isfinite(w)
            r.step()
            r.state(case, 'sinc', k)
            r.expect(np.allclose(m[q].real, w[q], atol=1e-9), 'sinc', 'magnifying does not keep the pixels about the centre', factor=k)


def do_pixellate(case, r, sc):
    """a Gaussian spot, integrated over the detector pixels in closed form"""
    from math import erf
    _, n, k = case
    for sig, (cx, cy), n_out in itertools.product((2.5, 3.5), ((0., 0.), (1.7, -.6)), (0, 9, 10, 14)):
        x = np.arange(n) - n // 2
        im = np.exp(-((x - cx)[None]**2 + (x - cy)[:, None]**2) / 2 / sig**2)
        out = proper.prop_pixellate(im, 2e-6, 2e-6 * k, *((n_out,) if n_out else ()))
        r.step()
        m = n_out or int(n / k)
        what = dict(n=n, ratio=k, sigma=sig, centre=(cx, cy), n_out=n_out)
        r.state(case, sig, cx, n_out)
        if not r.expect(out.shape == (m, m), 'pixellate:size', 'the detector image does not have the size asked for', got=out.shape, **what):
            continue
        e = (np.arange(m + 1) - m // 2 - .5) * k
        F = lambda c: np.diff([erf((v - c) / sig / 2**.5) for v in e]) * sig * (np.pi / 2)**.5
        w = np.outer(F(cy), F(cx))
        pos = (np.arange(m) - m // 2) * k
        ok = (np.abs(pos) < n / 2 - 8)
        q = np.ix_(ok, ok)
        r.expect(np.abs(out - w)[q].max() < .01 * w.max(), 'pixellate', 'a detector pixel does not hold the light that falls on it', **what)
    r.outcome('pixellate')


def do_errors(case, r, sc):
    n = 8
    a = image((n, n)) * 1e-8
    fn = sc.p()

    def fails(name, f):
        r.step()
        r.execution()
        r.state(name)
        try:
            f()
        except (Exception, SystemExit):
            return
        r.bad('accepted:' + name, 'the call is accepted')
    wf = wavefront(n)
    dx = proper.prop_get_sampling(wf)
    fails('no sampling', lambda: proper.prop_writemap(a, fn))
    proper.prop_fits_write(fn, a)
    fails('file without sampling', lambda: proper.prop_readmap(wf, fn))
    r.expect(np.allclose(proper.prop_shift_center(proper.prop_readmap(wf, fn, SAMPLING=dx)), a), 'given', 'a map without sampling cannot be used with a given one')
    proper.prop_writemap(a, fn, SAMPLING=dx)
    fails('kind missing', lambda: proper.prop_errormap(wf, fn))
    fails('two units', lambda: proper.prop_errormap(wf, fn, WAVEFRONT=True, NM=True, MICRONS=True))
    fails('file missing', lambda: proper.prop_errormap(wf, sc.p('none.fits'), WAVEFRONT=True))
    r.expect(np.array_equal(wf.wfarr, np.ones((n, n))), 'unchanged', 'a rejected map changes the wavefront')
