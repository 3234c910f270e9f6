"""P28: the differentiable deformable-mirror model and its reverse pass.

The forward operator is evaluated on its complete basis (every actuator) and
compared with the ordinary surface model; the reverse operator is evaluated on
its complete basis (every output pixel) and compared element by element with
the transpose of the forward one.  Every history of changing the sampling,
geometry and command of one mirror is compared with a freshly made mirror.
"""
import importlib.util
import itertools
import os
import numpy as np
import falco

_s = importlib.util.spec_from_file_location('P04', os.path.join(os.path.dirname(__file__), 'P04.py'))
P04 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(P04)

ID = 'P28'
BOUNDS = {'quick': 'every actuator and every output pixel (every 13th for tilted mirrors, plus 16 smooth modes) of 3x3 to 6x6 mirrors for 2 influence functions, both signs, both centrings, 4 samplings, 6 offsets, 10 tilts/clockings in both rotation orders, 8 orientations, 4 array sizes; all histories of up to 3 of 8 changes of one mirror',
          'thorough': 'the cross product of size, centring, sampling and offset; tilts with every centring and sampling; all histories of up to 4 of 8 changes'}
CASE_TIMEOUT = 600
TILTS = [(8, 0, 0), (0, 8, 0), (0, 0, 15), (0, 0, 90), (6, -9, 0), (5, 0, 10), (0, 5, -20), (4, 6, 8), (0, 0, -45), (12, 10, 44)]
OFFS = [(0, 0), (0.3, -0.25), (1, 0), (0, 1), (-0.5, 0.5), (0.13, 0)]
PPS = [4, 3.5, 5.43, 10]
HIST = ['cmd', 'cmd2', 'dx', 'nout', 'tilt', 'cen', 'xc', 'orient']


def cases(tier):
    out = []

    def add(n=4, c='pixel', inf='x', sign='+', pp=4, tilt=(0, 0, 0), zyx=False, off=(0, 0), orient=None, N=24):
        out.append(('op', n, c, inf, sign, pp, tilt, zyx, off, orient, N))
    infs = sorted(P04.INF)
    for c in ('pixel', 'interpixel'):
        for n in (3, 4, 5, 6):
            add(n=n, c=c, inf=infs[n % len(infs)])
        for pp in PPS:
            for N in (20, 21) + ((32,) if pp == 10 else ()):
                add(c=c, pp=pp, N=N, inf=infs[N % len(infs)])
        for off in OFFS:
            add(c=c, off=off, inf=infs[0])
        for i, t in enumerate(TILTS):
            for z in (False, True):
                add(c=c, tilt=t, zyx=z, inf=infs[i % len(infs)], n=4 + i % 2, off=OFFS[i % 3], N=30)
        for o in P04.ORIENT:
            add(c=c, orient=o, inf=infs[0], n=4 if c == 'pixel' else 3)
        for inf in infs:
            for sign in '+-':
                add(c=c, inf=inf, sign=sign)
    if tier == 'thorough':
        for n, c, pp, off, inf in itertools.product((3, 4, 5, 6, 7), ('pixel', 'interpixel'), PPS + [2.2, 6], OFFS, infs):
            add(n=n, c=c, pp=pp, off=off, inf=inf)
        for t, z, c, pp in itertools.product(TILTS, (False, True), ('pixel', 'interpixel'), PPS):
            add(tilt=t, zyx=z, c=c, pp=pp, inf=infs[0], N=falco.util.ceil_even(16 * pp))
    L = 3 if tier == 'quick' else 4
    for first in itertools.product(HIST, repeat=2):
        out.append(('hist', first, L))
    return list(dict.fromkeys(out))



def op(case, r):
    _, n, c, inf, sign, pp, tilt, zyx, off, orient, N = case
    g = np.arange(n * n).reshape(n, n)
    vtoh = 1e-9 * (1 + 0.1 * np.cos(g))
    _, dm, dx = P04.mkdm(n, c, inf, sign, pp, tilt, zyx, off, orient, vtoh=vtoh)
    NA = n * n
    S, D = np.zeros((NA, N, N)), np.zeros((NA, N, N))
    for a in range(NA):
        V = np.zeros((n, n))
        V.flat[a] = 1.
        dm.V = V
        dm.useDifferentiableModel = False
        S[a] = falco.dm.gen_surf_from_act(dm, dx, N)
        dm.useDifferentiableModel = True
        D[a] = falco.dm.gen_surf_from_act(dm, dx, N)
        r.step(2)
        r.state(case, a)
    r.execution()
    peak = np.abs(S).max()
    e = np.abs(S - D).max(axis=(1, 2)) / peak
    if os.environ.get('P28_SHOW'):
        print('SURF', e.max(), case)
    tilted = any(tilt)
    r.outcome('op', tilted)
    r.expect(np.all(e <= (0.01 if tilted else 0.005)), 'surface', 'surface of one actuator differs from the ordinary model',
             actuators=np.nonzero(e > 0.005)[0][:6].tolist(), rel=e.max())
    # linear, and the stored command is left alone
    V = 10 * np.sin(1.3 * g + 0.2)
    dm.V = V.copy()
    T = falco.dm.gen_surf_from_act(dm, dx, N)
    r.expect(np.array_equal(dm.V, V), 'command', 'the stored command was changed')
    r.expect(np.abs(T - np.tensordot(V.ravel(), D, 1)).max() <= 1e-10 * np.abs(T).max(), 'linear',
             'surface is not the sum of the surfaces of the actuators')
    m = dm.differentiableModel
    # reverse pass, in terms of the heights given to the model
    A = D / vtoh.ravel()[:, None, None]

    def rev(y, wfe=False):
        y0 = y.copy()
        b = m.render_backprop(y, wfe=wfe)
        r.expect(np.array_equal(y, y0), 'argument', 'the gradient handed in was changed', wfe=wfe)
        r.step()
        return (orient_inv(b, orient)).ravel()
    tol = 1e-6 if tilted else 1e-9
    pix = np.arange(n, N * N, 13) if tilted and not case[10] % 2 else np.arange(N * N)
    Y = []
    for p in pix:
        y = np.zeros((N, N))
        y.flat[p] = 1.
        Y.append(y)
    x = (np.arange(N) + 0.5) / N
    C = [np.cos(np.pi * k * x) for k in range(4)]
    Y = np.array(Y + [np.outer(a, b) / N for a in C for b in C])
    want = Y.reshape(len(Y), -1) @ A.reshape(NA, -1).T
    got = np.array([rev(y) for y in Y])
    err = np.abs(got - want).max(axis=0) / np.abs(want).max()
    if os.environ.get('P28_SHOW'):
        print('ADJ', err.max(), case)
    r.expect(np.all(err <= tol), 'adjoint', 'reverse pass is not the adjoint of the forward pass',
             actuators=np.nonzero(err > tol)[0][:6].tolist(), rel=err.max())
    # as a wavefront error instead of a surface both are scaled alike
    y = np.cos(0.3 * np.arange(N * N)).reshape(N, N)
    s0, w0 = m.render(Nout=N, wfe=False), m.render(Nout=N, wfe=True)
    k = np.vdot(s0, w0) / np.vdot(s0, s0)
    r.expect(np.abs(w0 - k * s0).max() <= 1e-10 * np.abs(w0).max() and 0 < k <= 2 + 1e-12, 'wfe', 'wavefront error is not a multiple of the surface', k=k)
    b0, b1 = rev(y), rev(y, True)
    r.expect(np.abs(b1 - k * b0).max() <= 1e-10 * np.abs(b1).max(), 'wfeadjoint', 'the reverse pass of the wavefront error is scaled differently', k=k)
    # a copy does not share its command
    m2 = m.copy()
    m2.update(np.ones((n, n)))
    r.expect(np.array_equal(m.render(Nout=N, wfe=False), s0), 'copy', 'changing a copy changes the model')


def orient_inv(b, orient):
    """undo the documented change of orientation (flip in x first, then rotate)"""
    if not orient:
        return b
    k = int(orient.replace('flipx', '').replace('rot', '')) // 90
    b = np.rot90(b, -k)
    return b[:, ::-1] if orient.startswith('flipx') else b


def hist(case, r):
    _, first, L = case

    def fresh():
        _, dm, dx = P04.mkdm(4, 'pixel', sorted(P04.INF)[0], '+', 4, vtoh=1e-9 * np.ones((4, 4)))
        dm.useDifferentiableModel = True
        dm.orientation = 'rot0'
        return dm, dx

    g = np.arange(16).reshape(4, 4)

    def apply(st, a):
        st = dict(st)
        if a == 'cmd':
            st['V'] = 1
        elif a == 'cmd2':
            st['V'] = 2
        else:
            st[a] = not st[a]
        return st

    def config(dm, dx, st):
        dm.V = (0., 7., -11.)[st['V']] * np.sin(g * st['V'] + 1) + 1.
        dm.xtilt = 6. if st['tilt'] else 0.
        dm.centering = 'interpixel' if st['cen'] else 'pixel'
        dm.xc = 1.8 if st['xc'] else 1.5
        dm.orientation = 'rot90' if st['orient'] else 'rot0'
        return dx * (1.25 if st['dx'] else 1.), (30 if st['nout'] else 24)

    st0 = dict(V=0, dx=False, nout=False, tilt=False, cen=False, xc=False, orient=False)
    for rest in itertools.product(HIST, repeat=L - len(first)):
        dm, dx = fresh()
        st = st0
        d, N = config(dm, dx, st)
        falco.dm.gen_surf_from_act(dm, d, N)
        for a in first + rest:
            st = apply(st, a)
            d, N = config(dm, dx, st)
            got = falco.dm.gen_surf_from_act(dm, d, N)
            key = tuple(sorted(st.items()))
            if key not in _fresh:
                dm2, dx2 = fresh()
                d2, N2 = config(dm2, dx2, st)
                y = np.cos(0.2 * np.arange(N2 * N2)).reshape(N2, N2)
                _fresh[key] = (falco.dm.gen_surf_from_act(dm2, d2, N2), dm2.differentiableModel.render_backprop(y, wfe=False))
            y = np.cos(0.2 * np.arange(N * N)).reshape(N, N)
            b = dm.differentiableModel.render_backprop(y, wfe=False)
            r.step()
            r.state('hist', key, a)
            r.outcome('hist', a)
            w = _fresh[key]
            r.expect(got.shape == w[0].shape and np.abs(got - w[0]).max() <= 1e-12 * np.abs(w[0]).max(), 'history',
                     'surface depends on what the mirror was used for before', history=first + rest, at=a)
            r.expect(np.abs(b - w[1]).max() <= 1e-9 * np.abs(w[1]).max(), 'historyback',
                     'reverse pass depends on what the mirror was used for before', history=first + rest, at=a)
        r.execution()


_fresh = {}


def run(case, r):
    (op if case[0] == 'op' else hist)(case, r)
