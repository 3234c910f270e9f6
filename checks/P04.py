"""P04: DM surface = superposition of the actuators' influence functions; both code paths agree."""
import copy
import itertools
import numpy as np
import falco
from astropy.io import fits

ID = 'P04'
BOUNDS = {'quick': 'square DMs of 2..4 actuators; every actuator; 8 orientations x 2 centrings; 10 tilt/clocking settings in both rotation orders; 3 optical-axis offsets; both signs; 2 influence functions; samplings 3.5 and 4 pixels per actuator; 4 quantisation rules x 3 steps; constraint states (dead, pinned, railed, tied)',
          'thorough': 'as quick with DMs of 2..6 actuators, three influence functions, samplings 3, 3.5, 4, 5.25 and all tilts crossed with orientations and offsets'}
TILTS = [(0, 0, 0), (25, 0, 0), (0, 30, 0), (0, 0, 20), (0, 0, -35), (0, 0, 90), (20, 30, 0), (20, 0, 40), (0, 30, 40), (15, -25, 30)]
ORIENT = ['rot0', 'rot90', 'rot180', 'rot270', 'flipxrot0', 'flipxrot90', 'flipxrot180', 'flipxrot270']
INF = {'xin': falco.INFLUENCE_XINETICS, 'bmc': falco.INFLUENCE_BMC_2K, 'kilo': falco.INFLUENCE_BMC_KILO}
OFFS = [(0, 0), (0.3, -0.6), (-1.0, 0.25)]


def cases(tier):
    th = tier == 'thorough'
    out = []
    cen = ('pixel', 'interpixel')
    nacts = (2, 3, 4, 5, 6) if th else (2, 3, 4)
    infs = ('xin', 'bmc', 'kilo') if th else ('xin', 'bmc')
    pps = (3, 3.5, 4, 5.25) if th else (3.5, 4)
    for n, c, i, s in itertools.product(nacts, cen, infs, '+-'):
        for pp in pps:
            out.append(('geom', n, c, i, s, pp, (0, 0, 0), False, (0, 0), None))
    for c, t, z in itertools.product(cen, TILTS[1:], (False, True)):
        for o in (OFFS if th else OFFS[1:2]):
            for orr in ((None, 'rot90', 'flipxrot90') if th else (None,)):
                out.append(('geom', 3, c, 'xin', '+', 4, t, z, o, orr))
    for c, orr, n in itertools.product(cen, ORIENT, (2, 3, 4) if th else (3, 4)):
        out.append(('geom', n, c, 'xin', '+', 4, (0, 0, 0), False, (0, 0), orr))
    for c, o in itertools.product(cen, OFFS):
        out.append(('geom', 4, c, 'bmc', '-', 4, (0, 0, 0), False, o, None))
    for m in ('round', 'floor', 'ceil', 'fix', None):
        for step in (1e-9, 7.3e-10, 0.25):
            out.append(('quant', m, step))
    for k in range(6):
        out.append(('stored', k))
    return out


def mkdm(n, c, inf, sign, pp, tilt=(0, 0, 0), zyx=False, off=(0, 0), orient=None, vtoh=None):
    mp = falco.config.ModelParameters()
    dm = mp.dm1
    dm.centering = c
    dm.Nact = n
    g = np.arange(n * n, dtype=float).reshape(n, n)
    dm.VtoH = 1e-9 * (1 + 0.1 * g) if vtoh is None else vtoh
    dm.xtilt, dm.ytilt, dm.zrot = tilt
    if zyx:
        dm.flagZYX = True
    dm.xc = n / 2 - 1 / 2 + off[0]
    dm.yc = n / 2 - 1 / 2 + off[1]
    dm.edgeBuffer = 1
    dm.fitType = 'linear'
    dm.dead = []
    dm.pinned = np.array([])
    dm.Vpinned = np.array([])
    dm.tied = np.zeros((0, 2))
    dm.Vmin, dm.Vmax = 0, 100
    dm.dVnbrLat = dm.dVnbrDiag = 100
    dm.biasMap = 50. * np.ones((n, n))
    dm.facesheetFlatmap = dm.biasMap
    dm.inf_fn = INF[inf]
    dm.dm_spacing = 400e-6
    dm.inf_sign = sign
    if orient:
        dm.orientation = orient
    h = fits.getheader(dm.inf_fn)
    dm.inf0 = np.squeeze(fits.getdata(dm.inf_fn)) * (1. if sign == '+' else -1.)
    dm.dx_inf0 = dm.dm_spacing * h['P2PDX_M'] / h['C2CDX_M']
    mp.centering = c
    mp.dm_ind = np.array([1])
    mp.sbp_centers = np.array([575e-9])
    mp.d_P2_dm1, mp.d_dm1_dm2 = 0., 1e-3
    dm.V = np.zeros((n, n))
    dx = dm.dm_spacing / pp
    return mp, dm, dx


def unpermute(orient, n):
    """position (row, col) of command element [r, c] on the mirror, from the orientation's meaning"""
    pos = np.empty((n, n), dtype=object)
    for r in range(n):
        for c in range(n):
            a = np.zeros((n, n))
            a[r, c] = 1
            if orient and orient.startswith('flipx'):
                a = a[:, ::-1]
            k = 0 if not orient else {'0': 0, '90': 1, '180': 2, '270': 3}[orient.split('rot')[1]]
            for _ in range(k):    # counter-clockwise in array display, i.e. [i, j] -> [n-1-j, i]
                b = np.zeros_like(a)
                for i in range(n):
                    for j in range(n):
                        b[n - 1 - j, i] = a[i, j]
                a = b
            rr, cc = np.argwhere(a == 1)[0]
            pos[r, c] = (rr, cc)
    return pos


def centroid(S, dx, centering):
    n = S.shape[0]
    ax = (np.arange(n) - (n // 2 if centering == 'pixel' else (n - 1) / 2)) * dx
    w = np.where(np.abs(S) > 0.3 * np.abs(S).max(), np.abs(S), 0)
    X, Y = np.meshgrid(ax, ax)
    return (w * X).sum() / w.sum(), (w * Y).sum() / w.sum()


def run(case, r):
    if case[0] == 'geom':
        return geom(case, r)
    if case[0] == 'quant':
        return quant(case, r)
    return stored(case, r)


def geom(case, r):
    _, n, c, inf, sign, pp, tilt, zyx, off, orient = case
    mp, dm, dx = mkdm(n, c, inf, sign, pp, tilt, zyx, off, orient)
    span = n + 2 * (abs(off[0]) + abs(off[1])) + (26 if inf == 'xin' else 16)
    N = falco.util.ceil_even(pp * span)
    S = np.zeros((n * n, N, N))
    for a in range(n * n):
        V = np.zeros(n * n)
        V[a] = 1.
        dm.V = V.reshape(n, n)
        S[a] = falco.dm.gen_surf_from_act(dm, dx, N)
        r.step()
        r.state(case[1:], a)
        r.expect(np.array_equal(dm.V.ravel(), V), 'stored', 'making a surface changed the stored command')
    # superposition, on two generic commands that separate every coefficient
    for V in (np.arange(1, n * n + 1) * 0.7 - 3., np.cos(np.arange(n * n) * 1.7) * 11.):
        dm.V = V.reshape(n, n)
        tot = falco.dm.gen_surf_from_act(dm, dx, N)
        r.step()
        want = np.tensordot(V, S, axes=1)
        r.expect(np.max(np.abs(tot - want)) < 1e-9 * np.abs(S).max() * 10, 'superposition', 'surface is not the sum of the single-actuator surfaces', err=float(np.max(np.abs(tot - want)) / np.abs(S).max()))
    # gain and sign per actuator
    pk = np.array([s.ravel()[np.abs(s).argmax()] for s in S])
    g = np.asarray(dm.VtoH).ravel()
    # the gain belongs to the command element, before reorientation
    if orient:
        pass
    rel = pk / g
    r.expect(np.all(rel * (1 if sign == '+' else -1) > 0), 'sign', 'surface sign differs from the influence-function sign', pk=pk)
    r.expect(rel.std() / abs(rel.mean()) < 0.08, 'gain', 'peak height is not proportional to the actuator gain', rel=rel)
    # placement
    pos = unpermute(orient, n)
    simple = tilt[2] == 0 and (tilt[0] == 0 or tilt[1] == 0) or (tilt[0] == 0 and tilt[1] == 0)
    if simple:
        ca, cb, zr = np.cos(np.radians(tilt[0])), np.cos(np.radians(tilt[1])), np.radians(tilt[2])
        for a in range(n * n):
            rr, cc = pos[a // n, a % n]
            x, y = (cc - dm.xc) * dm.dm_spacing, (rr - dm.yc) * dm.dm_spacing
            x, y = x * cb, y * ca
            # left-handed clocking about z
            x, y = x * np.cos(zr) + y * np.sin(zr), -x * np.sin(zr) + y * np.cos(zr)
            gx, gy = centroid(S[a], dx, c)
            if not r.expect(np.hypot(gx - x, gy - y) < 0.2 * dx, 'placement', 'actuator poke is not where row/column/offset/clocking put it',
                            act=a, got_px=(gx / dx, gy / dx), want_px=(x / dx, y / dx)):
                break
    # poke cube path
    dm.compact = dm
    falco.dm.gen_poke_cube(dm, mp, dx)
    cube = dm.inf_datacube
    r.step()
    Npad = int(dm.NdmPad)
    Nbox = int(dm.Nbox)
    for a in range(n * n):
        full = np.zeros((Npad, Npad))
        x0, y0 = int(dm.xy_box_lowerLeft[0, a]), int(dm.xy_box_lowerLeft[1, a])
        full[y0:y0 + Nbox, x0:x0 + Nbox] = cube[:, :, a] * g[a]
        b = falco.util.pad_crop(full, N)
        err = np.max(np.abs(b - S[a])) / np.abs(S[a]).max()
        r.state('cube', case[1:], a)
        if not r.expect(err < 0.005, 'cube', 'influence cube disagrees with the surface of a single actuator', act=a, err=float(err)):
            break
    r.execution(n * n)
    r.outcome(np.round(pk * 1e12).tobytes())


def quant(case, r):
    _, method, step = case
    n = 3
    rng = np.linspace(-4, 4, n * n)
    for vt in (np.ones((n, n)) * (1e-9 if step < 1e-3 else 1.), (1 + 0.3 * np.arange(n * n).reshape(n, n)) * (1e-9 if step < 1e-3 else 1.)):
        for shift in (0, 0.25, 0.5, -0.499999):
            mp, dm, dx = mkdm(n, 'pixel', 'bmc', '+', 4, vtoh=vt)
            dm.V = (rng + shift).reshape(n, n)
            V0 = dm.V.copy()
            dm.HminStep = step
            if method:
                dm.HminStepMethod = method
            N = 64
            surf = falco.dm.gen_surf_from_act(dm, dx, N)
            h = vt * V0 / step
            f = {'round': np.round, 'floor': np.floor, 'ceil': np.ceil, 'fix': np.trunc, None: np.round}[method]
            hq = f(h) * step
            r.expect(np.array_equal(dm.V, V0), 'stored', 'quantisation changed the stored command')
            mp2, dm2, dx2 = mkdm(n, 'pixel', 'bmc', '+', 4, vtoh=vt)
            dm2.V = hq / vt
            ref = falco.dm.gen_surf_from_act(dm2, dx2, N)
            scale = max(np.abs(ref).max(), step)
            r.expect(np.max(np.abs(surf - ref)) < 1e-6 * scale, 'quantised', 'quantised surface is not the surface of the quantised heights', method=method, step=step)
            q = falco.dm.discretize_surf(dm, method or 'round')
            r.expect(np.allclose(q.Vquantized * vt, hq, atol=1e-6 * step, rtol=1e-9), 'quantised', 'heights are not multiples of the step under the stated rule', method=method)
            r.state(method, step, shift, vt.sum())
            r.step(3)
            r.execution()
            r.outcome(hq.tobytes())


def snap(dm):
    return {k: copy.deepcopy(getattr(dm, k)) for k in ('V', 'dead', 'pinned', 'Vpinned', 'tied', 'biasMap', 'VtoH', 'Vmin', 'Vmax', 'facesheetFlatmap')}


def same(a, b):
    return all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)


def stored(case, r):
    """surface of an inadmissible command = surface of the constrained command; nothing stored changes; bias is not part of the surface"""
    k = case[1]
    n = 3
    V = np.array([[1., -2, 3], [80, 5, -70], [0.5, 2, -1]])
    for bias in (0., 50.):
        for use in ('none', 'dead', 'pinned', 'tied', 'all'):
            def make():
                mp, dm, dx = mkdm(n, 'pixel', 'bmc', '+', 4)
                dm.biasMap = bias * np.ones((n, n))
                dm.Vmin, dm.Vmax = (-60., 70.) if bias == 0 else (0., 100.)
                if use in ('dead', 'all'):
                    dm.dead = [k]
                if use in ('pinned', 'all'):
                    dm.pinned, dm.Vpinned = np.array([(k + 1) % 9]), np.array([7.])
                if use in ('tied', 'all'):
                    dm.tied = np.array([[(k + 2) % 9, (k + 3) % 9]])
                return dm, dx
            dm, dx = make()
            dm.V = np.roll(V.ravel(), k).reshape(3, 3).copy()
            before = snap(dm)
            s1 = falco.dm.gen_surf_from_act(dm, dx, 64)
            r.step()
            r.expect(same(before, snap(dm)), 'stored', 'making a surface changed the stored mirror state', use=use, bias=bias)
            s2 = falco.dm.gen_surf_from_act(dm, dx, 64)
            r.expect(np.array_equal(s1, s2), 'repeat', 'the same command gives two different surfaces')
            d2, _ = make()
            d2.V = dm.V.copy()
            d2 = falco.dm.enforce_constraints(d2)
            d3, _ = make()
            d3.V = d2.V.copy()
            d3.dead, d3.pinned, d3.Vpinned, d3.tied = [], np.array([]), np.array([]), np.zeros((0, 2))
            s3 = falco.dm.gen_surf_from_act(d3, dx, 64)
            r.expect(np.allclose(s1, s3, atol=1e-18, rtol=1e-9), 'constrained', 'surface is not that of the constrained command', use=use, bias=bias)
            # bias voltage does not appear in the surface of an admissible command
            d4, _ = make()
            d4.V = 0.01 * dm.V
            sa = falco.dm.gen_surf_from_act(d4, dx, 64)
            d4.biasMap = d4.biasMap + 1.
            d4.facesheetFlatmap = d4.facesheetFlatmap + 2.
            sb = falco.dm.gen_surf_from_act(d4, dx, 64)
            r.expect(np.allclose(sa, sb, atol=1e-18, rtol=1e-9), 'bias', 'the bias voltage shifts the surface')
            r.state(k, bias, use)
            r.step(4)
            r.execution()
            r.outcome(np.round(s1 * 1e15).tobytes())
