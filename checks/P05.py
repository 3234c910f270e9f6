"""P05: fitting a surface inverts surface generation; the gain map is the local slope of the height relation."""
import copy
import itertools
import numpy as np
import falco
import P04

ID = 'P05'
BOUNDS = {'quick': 'square DMs of 3..5 actuators: every unit command (complete basis) x 8 orientations x 2 centrings x 2 signs x 2 influence functions for the least-squares fit, smooth commands for 7 tilt/clocking/offset settings; influence matrices for all grids up to 4x4; 7 names of 3 height relations x 3^2 voltages per actuator x update histories of length 3, every missing coefficient',
          'thorough': 'as quick with DMs of 2..7 actuators, three influence functions and every tilt x orientation x offset'}
NAMES = {'linear': 0, 'poly1': 0, 'LINEAR': 0, 'quadratic': 2, 'poly2': 2, 'Quadratic': 2, 'fourier2': 4, 'Fourier2': 4}


def cases(tier):
    th = tier == 'thorough'
    out = []
    cen = ('pixel', 'interpixel')
    for n, inf, s, c in itertools.product((2, 3, 4, 5, 6, 7) if th else (3, 4, 5), ('bmc', 'xin', 'kilo') if th else ('bmc', 'xin'), '+-', cen):
        out.append(('basis', n, inf, s, c, None, 'lsq'))
        if n >= 4 and s == '+':
            out.append(('basis', n, inf, s, c, None, 'proper'))
    for o, c, n in itertools.product(P04.ORIENT, cen, (3, 4, 5) if th else (4,)):
        out.append(('basis', n, 'bmc', '+', c, o, 'lsq'))
        out.append(('basis', 5, 'bmc', '+', c, o, 'proper'))
    geo = [((0, 0, 0), (0.3, -0.6)), ((0, 0, 20), (0, 0)), ((20, 0, 0), (0, 0)), ((0, 25, 0), (0, 0)),
           ((0, 0, 90), (0, 0)), ((0, 0, 0), (1, 0)), ((10, 5, 15), (0.25, 0.5))]
    for (t, off), c, z in itertools.product(geo, cen, (False, True)):
        for o in (P04.ORIENT if th else (None, 'flipxrot90')):
            out.append(('smooth', 6, 'bmc', c, t, off, z, o))
    for nr, nc in itertools.product(range(1, 6 if th else 5), repeat=2):
        out.append(('matrix', nr, nc))
    for nm in NAMES:
        for form in ('scalar', 'map'):
            out.append(('gain', nm, form))
    out.append(('gainbad',))
    return out


def _dm(n, c, inf, s, tilt=(0, 0, 0), zyx=False, off=(0, 0), orient=None, m='lsq'):
    mp, dm, dx = P04.mkdm(n, c, inf, s, 4, tilt, zyx, off, orient)
    dm.surfFitMethod = m
    dm.ppact = dm.dm_spacing / dm.dx_inf0
    dm.dx = dx
    dm.Vmin, dm.Vmax = -1e3, 1e3
    return dm, dx, (76 if c == 'interpixel' else 75)


def snap(dm):
    return {k: copy.deepcopy(v) for k, v in vars(dm).items() if k not in ('act_prefilter', 'data')}, \
        {k: copy.deepcopy(v) for k, v in getattr(dm, 'data', {}).items() if k != 'act_prefilter'}


def same(a, b):
    return all(set(x) == set(y) and all(np.array_equal(np.asarray(x[k]), np.asarray(y[k])) for k in x) for x, y in zip(a, b))


def run(case, r):
    globals()['_' + case[0]](case, r)


def _basis(case, r):
    _, n, inf, s, c, o, m = case
    dm, dx, N = _dm(n, c, inf, s, orient=o, m=m)
    T = np.zeros((n * n, n * n))
    fits = []
    for k in range(n * n):
        V = np.zeros(n * n)
        V[k] = 1 + 0.25 * k
        dm.V = V.reshape(n, n)
        S = falco.dm.gen_surf_from_act(dm, dx, N)
        S0 = S.copy()
        before = snap(dm)
        F = falco.dm.fit_surf_to_act(dm, S)
        r.expect(same(before, snap(dm)), 'fit-changes-dm', 'fitting a surface changed the DM settings or command', case=case)
        r.expect(np.array_equal(S, S0), 'fit-changes-surface', 'fitting changed the given surface', case=case)
        r.expect(F.shape == (n, n), 'fit-shape', 'fit has shape %s' % (F.shape,), case=case)
        T[:, k] = F.ravel() / V[k]
        fits.append((S, F))
        r.state('basis', n, inf, s, c, o, m, k)
        r.step()
        r.execution()
        r.outcome(k)
    if m == 'lsq':
        tol = 0.03 if c == 'pixel' else 0.06
        err = np.abs(T - np.eye(n * n)).max()
        r.expect(err < tol, 'roundtrip', 'fit of the surface of a unit command is off by %.3f' % err, case=case,
                 worst=[int(i) for i in np.unravel_index(np.abs(T - np.eye(n * n)).argmax(), T.shape)])
    else:
        for k in range(n * n):
            row = T[:, k] / np.sqrt(1)
            g = row * dm.VtoH.ravel() / dm.VtoH.ravel()[k]    # heights
            r.expect(np.argmax(np.abs(g)) == k and 0.6 < g[k] < 1.35 and np.abs(np.delete(g, k)).max() < 0.4,
                     'roundtrip-proper', 'fit of one actuator poke is not that poke: peak %.2f at %d for %d, rest %.2f'
                     % (g[k], np.argmax(np.abs(g)), k, np.abs(np.delete(g, k)).max()), case=case)
    # linear in the surface: every pair of basis surfaces (bounded set of coefficient pairs)
    for (S1, F1), (S2, F2) in [] if m != 'lsq' else list(itertools.combinations(fits, 2))[::max(1, len(fits))]:
        F = falco.dm.fit_surf_to_act(dm, 2 * S1 - 0.5 * S2)
        d = np.abs(F - (2 * F1 - 0.5 * F2)).max() / max(np.abs(F1).max(), np.abs(F2).max())
        r.expect(d < 1e-6, 'fit-linear', 'fit is not linear in the surface (%.2e)' % d, case=case)
        r.step()


def _smooth(case, r):
    _, n, inf, c, t, off, z, o = case
    x = np.linspace(-1, 1, n)
    X, Y = np.meshgrid(x, x)
    dm, dx, N = _dm(n, c, inf, '+', t, z, off, o)
    for k, M in enumerate([np.ones((n, n)), X, Y, X * Y, 1 + 0.3 * X - 0.7 * Y + 0.4 * X * X, Y * Y - 0.5 * X]):
        V = M / (dm.VtoH / 1e-9)
        dm.V = V
        S = falco.dm.gen_surf_from_act(dm, dx, N)
        F = falco.dm.fit_surf_to_act(dm, S)
        err = np.abs((F - V) * dm.VtoH).max() / np.abs(V * dm.VtoH).max()
        r.expect(err < 0.12, 'roundtrip-smooth', 'fit of a surface the DM made is off by %.3f' % err, case=case, shape=k)
        dm.V = F
        S2 = falco.dm.gen_surf_from_act(dm, dx, N)
        err = np.abs(S2 - S).max() / np.abs(S).max()
        r.expect(err < 0.1, 'resurface', 'surface made from the fit is off by %.3f' % err, case=case, shape=k)
        r.state(case, k)
        r.step(2)
        r.execution()
        r.outcome(k)
    # a gain of zero never yields an infinite command; wrong sizes and method names are refused
    dm2 = copy.copy(dm)
    dm2.VtoH = dm.VtoH.copy()
    dm2.VtoH[1, 2] = 0
    F2 = falco.dm.fit_surf_to_act(dm2, S)
    m = np.ones((n, n), bool)
    m[1, 2] = False
    dm3 = copy.copy(dm)
    r.expect(not np.isinf(F2).any() and F2[1, 2] == 0, 'zero-gain', 'unresponsive actuator gets a non-zero command', case=case)
    r.expect(np.allclose(F2[m], falco.dm.fit_surf_to_act(dm3, S)[m]), 'zero-gain-others', 'one unresponsive actuator changes the others', case=case)
    for bad in (np.zeros((n - 1, n - 1)), np.zeros((2, 2))):
        try:
            falco.dm.fit_surf_to_act(dm, bad)
            r.bad('accepts-small', 'a surface smaller than the DM was accepted', case=case)
        except ValueError:
            pass
    dm4 = copy.copy(dm)
    dm4.surfFitMethod = 'nonsense'
    try:
        falco.dm.fit_surf_to_act(dm4, S)
        r.bad('accepts-method', 'unknown fit method accepted', case=case)
    except ValueError:
        pass


def _matrix(case, r):
    """influence matrix: entry (i, j) is the height at actuator i of a unit poke of actuator j"""
    _, nr, nc = case
    for nin, ppa in ((3, 1), (5, 1), (7, 1)):
        x = np.arange(nin) - nin // 2
        inf = np.exp(-0.8 * (x[:, None] ** 2 + 1.5 * x[None, :] ** 2)) * (1 + 0.05 * x[:, None] - 0.08 * x[None, :])
        A = falco.dm.build_prefilter(nr, nc, inf, ppa)
        D = np.asarray(A.todense())
        h = nin // 2
        for i, j in itertools.product(range(nr * nc), repeat=2):
            ri, ci, rj, cj = i // nc, i % nc, j // nc, j % nc
            a, b = ri - rj + h, ci - cj + h
            e = inf[a, b] if 0 <= a < nin and 0 <= b < nin else 0.
            r.expect(abs(D[i, j] - e) < 1e-12, 'influence-matrix', 'entry (%d,%d) is %.4f, expected %.4f' % (i, j, D[i, j], e), case=case)
            r.step()
        r.state('matrix', nr, nc, nin)
        r.execution()
        for j in range(nr * nc):
            x0 = np.zeros(nr * nc)
            x0[j] = 1
            sol = falco.dm.fit_surf_with_dm_lsq((D @ x0).reshape(nr, nc), A)
            r.expect(np.allclose(sol.ravel(), x0, atol=1e-8), 'lsq-solve', 'least-squares fit does not invert the influence matrix', case=case)
            r.outcome(nr, nc, j)
    for pin, pout, n0 in itertools.product((2, 3, 4), (1, 2, 3), (5, 9, 13, 21)):
        x = (np.arange(n0) - n0 // 2) / pin
        inf = np.exp(-0.6 * (x[:, None] ** 2 + x[None, :] ** 2))
        out = falco.dm.resample_inf_func(inf, pin, pout)
        m = out.shape[0]
        xo = (np.arange(m) - m // 2) / pout
        ref = np.exp(-0.6 * (xo[:, None] ** 2 + xo[None, :] ** 2))
        r.expect(m % 2 == 1 and out.shape == (m, m), 'resample-shape', 'resampled influence function has shape %s' % (out.shape,), case=case)
        tol = 0.03 if pin == 2 else 0.01
        inside = np.abs(xo) <= np.abs(x).max() + 1e-9       # within the sampled extent
        out, ref = out[np.ix_(inside, inside)], ref[np.ix_(inside, inside)]
        r.expect(np.abs(out - ref).max() < tol, 'resample', 'resampled influence function off by %.3f (%d->%d, %d)' % (np.abs(out - ref).max(), pin, pout, n0), case=case)
        r.step()


def _gain(case, r):
    _, name, form = case
    kind = NAMES[name]
    n = 2
    mk = (lambda v: v) if form == 'scalar' else (lambda v: v * (1 + 0.2 * np.arange(n * n).reshape(n, n)))
    for bias in (0., 30., np.array([[10., 20.], [0., 45.]])):
        for hist in itertools.product(range(4), repeat=3):
            mp = falco.config.ModelParameters()
            dm = mp.dm1
            dm.Nact = n
            dm.fitType = name
            dm.VtoH = np.array([[1., 2.], [3., 4.]]) * 1e-9
            dm.biasMap = bias * np.ones((n, n))
            co = dict(p1=mk(2e-12), p2=mk(3e-9), p3=mk(5e-9))
            cf = dict(a0=mk(1e-9), a1=mk(4e-8), a2=mk(-1e-8), b1=mk(6e-8), b2=mk(3e-9), w=mk(0.02))
            for k, v in (co if kind == 2 else cf if kind == 4 else {}).items():
                setattr(dm, k, v)
            for h in hist:
                dm.V = [np.zeros((n, n)), np.array([[1., -2.], [30., 7.]]), -20. * np.ones((n, n)), np.array([[70., 0.5], [0., 12.]])][h]
                before = snap(dm)
                prev = np.array(dm.VtoH, copy=True)
                out = falco.dm.update_gain_map(dm)
                r.expect(out is dm or out is None, 'gain-returns', 'update_gain_map returned another object', case=case)
                after = snap(dm)
                for d in before + after:
                    d.pop('VtoH', None)
                r.expect(same(before, after), 'gain-side-effect', 'gain update changed something other than the gain map', case=case, hist=hist)
                U = dm.V + dm.biasMap
                if kind == 0:
                    ref = prev
                else:
                    if kind == 2:
                        hfun = lambda u: co['p1'] * u * u + co['p2'] * u + co['p3']
                    else:
                        hfun = lambda u: (cf['a0'] + cf['a1'] * np.cos(u * cf['w']) + cf['b1'] * np.sin(u * cf['w'])
                                          + cf['a2'] * np.cos(2 * u * cf['w']) + cf['b2'] * np.sin(2 * u * cf['w']))
                    e = 1e-3
                    ref = (8 * (hfun(U + e) - hfun(U - e)) - (hfun(U + 2 * e) - hfun(U - 2 * e))) / (12 * e)
                d = np.abs(np.asarray(dm.VtoH) - ref).max()
                r.expect(np.shape(dm.VtoH) == (n, n) and d < 1e-6 * np.abs(ref).max() + 1e-20, 'gain-slope',
                         'gain is not the slope of the height relation at the total voltage (off by %.2e)' % d, case=case, hist=hist)
                r.step()
                r.state(name, form, np.asarray(bias).tolist(), h)
            r.execution()
            r.outcome(hist)


def _gainbad(case, r):
    for name in ('cubic', '', 'fourier', 'poly3', 'lin'):
        dm = falco.config.ModelParameters().dm1
        dm.V = np.zeros((2, 2))
        dm.biasMap = np.zeros((2, 2))
        dm.VtoH = np.ones((2, 2))
        dm.fitType = name
        for a in ('p1', 'p2', 'p3', 'a0', 'a1', 'a2', 'b1', 'b2', 'w'):
            setattr(dm, a, 1.)
        try:
            falco.dm.update_gain_map(dm)
            r.bad('unknown-fit', 'unknown height relation %r accepted' % name)
        except ValueError:
            pass
        r.state(name)
        r.execution()
        r.step()
    for name, need in (('quadratic', ['p1', 'p2', 'p3']), ('fourier2', ['a0', 'a1', 'a2', 'b1', 'b2', 'w'])):
        for k in range(len(need)):
            for miss in itertools.combinations(need, k + 1):
                dm = falco.config.ModelParameters().dm1
                dm.V = np.zeros((2, 2))
                dm.biasMap = np.zeros((2, 2))
                dm.VtoH = np.ones((2, 2))
                dm.fitType = name
                for a in need:
                    if a not in miss:
                        setattr(dm, a, 1.)
                try:
                    falco.dm.update_gain_map(dm)
                    r.bad('missing-coeff', '%s accepted without %s' % (name, miss))
                except ValueError:
                    pass
                r.expect(np.array_equal(dm.VtoH, np.ones((2, 2))), 'missing-changes', 'gain changed although coefficients are missing')
                r.state(name, miss)
                r.step()
                r.outcome(miss)
