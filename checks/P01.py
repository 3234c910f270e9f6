"""Array recentring: pad / crop / recentre / bin keep every sample at its coordinate."""
import itertools
import math
import numpy as np
import falco
from falco import util

ID = 'P01'
BOUNDS = {'quick': 'all input shapes and output shapes with sides 1..6 (chains of two: sides 1..5), 5 dtypes, 3 fill values, all crop centres within 3 pixels outside the array, all axis lengths 1..40, downsampling factors 1..4, integer-rounding helpers on a dense rational grid',
          'thorough': 'all input shapes and output shapes with sides 1..9 (chains: sides 1..7), 5 dtypes, 3 fill values, all crop centres within 5 pixels outside the array, all axis lengths 1..200, downsampling factors 1..6'}
DT = ['float64', 'complex128', 'int64', 'float32', 'bool']


def coord(n):
    return {i - n // 2: i for i in range(n)}


def model(a, out, fill):
    res = np.full(out, fill, dtype=a.dtype)
    cy, cx = coord(a.shape[0]), coord(a.shape[1])
    oy, ox = coord(out[0]), coord(out[1])
    for y in oy:
        for x in ox:
            if y in cy and x in cx:
                res[oy[y], ox[x]] = a[cy[y], cx[x]]
    return res


def arr(sh, dt='float64'):
    a = np.arange(1, sh[0] * sh[1] + 1).reshape(sh)
    if dt == 'complex128':
        return a * (1 + 2j)
    if dt == 'bool':
        return (a % 3 != 0)
    return a.astype(dt)


def cases(tier):
    m = 6 if tier == 'quick' else 9
    c = 5 if tier == 'quick' else 7
    out = [['pc', h, w, m] for h in range(1, m + 1) for w in range(1, m + 1)]
    out += [['chain', h, c] for h in range(1, c + 1)]
    out += [['oc', h, w, 3 if tier == 'quick' else 5, 5 if tier == 'quick' else 7]
            for h in range(1, 5 if tier == 'quick' else 7) for w in range(1, 5 if tier == 'quick' else 7)]
    out += [['axis', 40 if tier == 'quick' else 200], ['ints'], ['bin', 4 if tier == 'quick' else 6],
            ['square', m], ['grids', 9 if tier == 'quick' else 21]]
    return out


def run(case, r):
    k = case[0]
    if k == 'pc':
        h, w, m = case[1:]
        for dt in DT:
            a = arr((h, w), dt)
            a0 = a.copy()
            fills = (0, 3, -2) if dt != 'bool' else (0,)
            for oh, ow, f in itertools.product(range(1, m + 1), range(1, m + 1), fills):
                forms = [(oh, ow)]
                if dt == 'float64' and f == 0:
                    forms += [[oh, ow], np.array([oh, ow])]
                    if oh == ow:
                        forms += [oh, np.int64(oh)]
                for form in forms:
                    got = util.pad_crop(a, form, f) if f else util.pad_crop(a, form)
                    r.step(); r.execution()
                    want = model(a, (oh, ow), f)
                    ok = got.shape == want.shape and np.array_equal(got, want)
                    r.expect(ok, 'pad_crop:value', 'pad_crop misplaced samples',
                             shape=(h, w), out=form, fill=f, got=got, want=want)
                    r.expect(got.dtype == a.dtype, 'pad_crop:dtype', 'output type differs from input type %s -> %s' % (a.dtype, got.dtype))
                    r.expect(not np.shares_memory(got, a), 'pad_crop:alias', 'output aliases the input array')
                    r.state('pc', h, w, oh, ow, dt, f)
                    r.outcome(got.tobytes())
            r.expect(np.array_equal(a, a0), 'pad_crop:mutate', 'input array modified')
    elif k == 'chain':
        h, c = case[1:]
        rng = range(1, c + 1)
        for w in rng:
            a = arr((h, w))
            for s1 in itertools.product(rng, rng):
                b = util.pad_crop(a, s1)
                for s2 in itertools.product(rng, rng):
                    got = util.pad_crop(b, s2)
                    r.step(2); r.execution()
                    # a chain equals the direct call with everything outside the intermediate window zeroed
                    want = model(model(a, s1, 0), s2, 0)
                    r.expect(np.array_equal(got, want), 'pad_crop:chain', 'chained pad/crop lost registration',
                             shape=(h, w), s1=s1, s2=s2)
                    if all(s1[i] >= min((h, w)[i], s2[i]) for i in (0, 1)) and \
                            set(coord(min(h, s2[0]))) <= set(coord(s1[0])) | set() and \
                            not _loses(h, s1[0], s2[0]) and not _loses(w, s1[1], s2[1]):
                        r.expect(np.array_equal(got, util.pad_crop(a, s2)), 'pad_crop:transitive',
                                 'chaining changed the final result', shape=(h, w), s1=s1, s2=s2)
                    r.state('chain', h, w, s1, s2)
    elif k == 'oc':
        h, w, ext, no = case[1:]
        a = arr((h, w))
        cpl = a * (1 - 1j)
        for cr, cc in itertools.product(range(-ext, h + ext), range(-ext, w + ext)):
            for oh, ow in itertools.product(range(1, no + 1), range(1, no + 1)):
                want = np.zeros((oh, ow))
                for i in range(oh):
                    for j in range(ow):
                        y, x = i - oh // 2 + cr, j - ow // 2 + cc
                        if 0 <= y < h and 0 <= x < w:
                            want[i, j] = a[y, x]
                got = util.offcenter_crop(a, cr, cc, oh, ow)
                r.step(); r.execution()
                r.expect(got.shape == (oh, ow) and np.array_equal(got, want), 'offcenter_crop:value',
                         'off-centre crop wrong', shape=(h, w), center=(cr, cc), out=(oh, ow), got=got, want=want)
                r.state('oc', h, w, cr, cc, oh, ow)
            for d in (0.3, -0.3):
                got = util.offcenter_crop(cpl, cr + d, cc - d, 3, 3)
                r.expect(np.array_equal(got, util.offcenter_crop(cpl, cr, cc, 3, 3)), 'offcenter_crop:round',
                         'fractional centre not rounded to nearest', center=(cr + d, cc - d))
    elif k == 'axis':
        for n in range(1, case[1] + 1):
            for step in (1.0, 0.25, 3):
                for cen in ('pixel', 'interpixel'):
                    got = util.create_axis(n, step, cen)
                    if cen == 'interpixel':
                        want = (np.arange(n) - (n - 1) / 2) * step
                    else:
                        want = (np.arange(n) - n // 2) * step
                    r.step(); r.execution(); r.state('axis', n, step, cen)
                    r.expect(np.allclose(got, want, rtol=0, atol=1e-12), 'create_axis', 'axis coordinates wrong',
                             n=n, step=step, centering=cen, got=got)
            got = util.create_axis(n, 0.5)
            r.expect(np.allclose(got, (np.arange(n) - n // 2) * .5), 'create_axis:default', 'default axis is not pixel centred', n=n)
    elif k == 'ints':
        for q in range(-80, 641):
            x = q / 8
            e, o = util.ceil_even(x), util.ceil_odd(x)
            r.step(2); r.execution(); r.state('int', q)
            r.expect(isinstance(e, int) and e % 2 == 0 and e >= x and e - 2 < x, 'ceil_even', 'ceil_even(%r)=%r' % (x, e))
            r.expect(isinstance(o, int) and o % 2 == 1 and o >= x and o - 2 < x, 'ceil_odd', 'ceil_odd(%r)=%r' % (x, o))
            if x > 0:
                p = util.nextpow2(x)
                r.expect(isinstance(p, int) and 2.0 ** p >= x and 2.0 ** (p - 1) < x, 'nextpow2', 'nextpow2(%r)=%r' % (x, p))
                r.expect(util.nextpow2(-x) == p, 'nextpow2:neg', 'nextpow2 must use the magnitude')
        for p in range(0, 40):
            for d, want in ((0, p), (1, p + 1)):
                n = 2 ** p + d
                if p == 0 and d == 1:
                    want = 1
                r.step(); r.state('pow', p, d)
                r.expect(util.nextpow2(n) == want, 'nextpow2:exact', 'nextpow2(%d)=%d' % (n, util.nextpow2(n)))
        r.expect(util.nextpow2(0) == 0, 'nextpow2:zero', 'nextpow2(0)')
    elif k == 'bin':
        m = case[1]
        for f in range(1, m + 1):
            for nh, nw in itertools.product(range(1, 4), range(1, 4)):
                a = arr((nh * f, nw * f)).astype(float)
                got = util.bin_downsample(a, f)
                want = a.reshape(nh, f, nw, f).mean(axis=(1, 3))
                r.step(); r.execution(); r.state('bin', f, nh, nw)
                r.expect(got.shape == want.shape and np.allclose(got, want), 'bin:value', 'binning is not the block mean', f=f, shape=a.shape)
                if f > 1:
                    for dh, dw in ((1, 0), (0, 1), (1, 1)):
                        b = arr((nh * f + dh, nw * f + dw)).astype(float)
                        try:
                            util.bin_downsample(b, f)
                            r.bad('bin:indivisible', 'a size that is not divisible by the factor was silently truncated', shape=b.shape, f=f)
                        except ValueError:
                            pass
                        r.step()
    elif k == 'square':
        for h, w in itertools.product(range(1, case[1] + 1), repeat=2):
            a = arr((h, w))
            got = util.pad_to_even_square(a)
            n = max(h, w) + max(h, w) % 2
            r.step(); r.execution(); r.state('sq', h, w)
            r.expect(got.shape == (n, n) and np.array_equal(got, model(a, (n, n), 0)), 'even_square', 'padding to even square wrong', shape=(h, w))
    elif k == 'grids':
        for n in range(1, case[1] + 1):
            ax = (np.arange(n) - n // 2) * 0.7
            for xs, ys in itertools.product((1., 2., 0.5), repeat=2):
                X, Y = np.meshgrid(ax, ax)
                R2 = (X / xs) ** 2 + (Y / ys) ** 2
                r.step(3); r.execution(); r.state('grid', n, xs, ys)
                r.expect(np.allclose(util.radial_grid(ax, xs, ys), np.sqrt(R2)), 'radial_grid', 'radial grid wrong', n=n, xs=xs, ys=ys)
                r.expect(np.allclose(util.radial_grid_squared(ax, xs, ys), R2), 'radial_grid_squared', 'squared radial grid wrong', n=n, xs=xs, ys=ys)
                r.expect(np.allclose(util.azimuthal_grid(ax, xs, ys), np.arctan2(Y / ys, X / xs)), 'azimuthal_grid', 'azimuthal grid wrong', n=n, xs=xs, ys=ys)


def _loses(n, mid, out):
    """does the intermediate window drop a coordinate that both ends share?"""
    return not (set(coord(n)) & set(coord(out))) <= set(coord(mid))
