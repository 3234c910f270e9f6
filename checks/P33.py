"""P33: PROPER propagation keeps energy, distance and beam bookkeeping consistent.

Every sequence of lenses and propagations over a small alphabet is applied to a
real wavefront that carries a decentred, tilted Gaussian field, and compared
with the complex-beam-parameter (ABCD) automaton, which knows the exact field."""
import itertools
import numpy as np
import falco
import falco.proper as proper

ID = 'P33'
LAM, D, N, BR = 1e-6, 1e-4, 64, 0.2
ZR = np.pi * (D / 2)**2 / LAM
# p: propagate by that many Rayleigh distances, q: the same ending on a planar reference; f: to the waist; L: lens of that focal length; C: collimating lens
OPS = (('p', 0.413), ('p', 2.531), ('p', -0.727), ('p', -3.071), ('f',), ('q', 1.637), ('L', 1.519), ('L', -2.113), ('L', 0.307), ('C',))
BOUNDS = {'quick': 'every sequence of 4 operations over {propagate by 4 distances on both sides of the Rayleigh distance and to the waist, propagate to a planar reference, lenses of 3 focal lengths, collimating lens}; after each, every split of the last propagation at 3 points, the way back, and the same with the phase offset',
          'thorough': 'every sequence of 5 operations'}
CHUNK = 4
PARTS = 1


def cases(tier):
    n = 5 if tier == 'thorough' else 4
    k = 3 if tier == 'thorough' else 2
    return [(n,) + c for c in itertools.product(range(len(OPS)), repeat=k)] + [('table', n) + c for c in itertools.product(range(len(OPS)), repeat=2)]


class Beam:
    """pilot beam and a decentred tilted Gaussian, by the ABCD law"""

    def __init__(self):
        self.z = 0.
        self.q = -1j * ZR                 # pilot: z - z_waist - i z_R
        w = 0.4 * D
        self.g = -1j * np.pi * w**2 / LAM
        self.c = np.array([0.08 * D, -0.05 * D])     # centre (y, x)
        self.t = np.array([1e-4, -2e-4])  # tilt (y, x)
        self.fratio = 1.e9
        self.fscale = 0.

    def copy(self):
        b = Beam.__new__(Beam)
        b.__dict__.update(self.__dict__)
        return b

    def go(self, d):
        b = self.copy()
        b.z += d
        b.q = self.q + d
        b.g = self.g + d
        b.c = self.c + self.t * d
        return b

    def lens(self, f):
        b = self.copy()
        b.q = 1 / (1 / self.q - 1 / f)
        b.g = 1 / (1 / self.g - 1 / f)
        b.t = self.t - self.c / f
        b.fratio = abs(b.q.real) / (2 * self.w())
        b.fscale = abs(b.q) / (2 * self.w())
        return b

    def w(self):
        return np.sqrt(-LAM / (np.pi * (1 / self.q).imag)) if (1 / self.q).imag < 0 else np.sqrt(LAM / (np.pi * (1 / self.q).imag))

    def w0(self):
        return np.sqrt(-self.q.imag * LAM / np.pi)

    def radius(self):
        """radius of curvature of the pilot's phase front"""
        return self.q.real + self.q.imag**2 / self.q.real if self.q.real else np.inf

    def gw(self):
        return np.sqrt(LAM / (np.pi * (1 / self.g).imag))

    def field(self, x):
        k = 2 * np.pi / LAM
        e = [np.exp(1j * k * ((x - c)**2 / (2 * self.g) + t * (x - c))) for c, t in zip(self.c, self.t)]
        return np.outer(e[0], e[1])

    def sampled(self, dx, ref):
        """can a grid of this sampling represent the field?"""
        w, lim = self.gw(), N * dx / 2
        curv = (1 / self.g).real - (1 / ref if ref else 0)
        ok = True
        for c, t in zip(self.c, self.t):
            ok &= lim - abs(c) > 3.3 * w
            slope = abs(t - (c / ref if ref else 0)) + abs(curv) * 3 * w + 3 * LAM / (np.pi * w)
            ok &= slope < 0.95 * LAM / (2 * dx)
        return bool(ok)


def start():
    proper.print_it = False
    proper.verbose = False
    proper.do_table = False
    proper.phase_offset = False
    proper.print_total_intensity = False
    wf = proper.prop_begin(D, LAM, N, BR)
    b = Beam()
    x = (np.arange(N) - N // 2) * wf.dx
    proper.prop_multiply(wf, b.field(x))
    return wf, b


def snapshot(wf):
    c = proper.prop_begin(D, LAM, N, BR)
    for k, v in vars(wf).items():
        setattr(c, k, v.copy() if isinstance(v, np.ndarray) else v)
    return c


def apply(wf, b, op):
    """-> the automaton's state after op; None if op has no meaning here"""
    if op[0] in 'pq':
        d = op[1] * ZR
        if op[0] == 'p':
            proper.prop_propagate(wf, d)
        else:
            proper.prop_propagate(wf, d, TO_PLANE=True)
        return b.go(d)
    if op[0] == 'f':
        d = -b.q.real
        proper.prop_propagate(wf, proper.prop_get_distancetofocus(wf))
        return b.go(d)
    if op[0] == 'C':
        f = b.radius()
        if not np.isfinite(f) or abs(f) > 1e3 * ZR:
            return None
        proper.prop_lens(wf, f)
        return b.lens(f)
    f = op[1] * ZR
    proper.prop_lens(wf, f)
    return b.lens(f)


def physical(wf):
    """the field in the middle-centred grid, without its reference surface"""
    E = proper.prop_get_wavefront(wf)
    x = (np.arange(N) - N // 2) * wf.dx
    if wf.reference_surface == 'SPHERI':
        R = wf.z - wf.z_w0
        ph = np.exp(1j * np.pi * x**2 / (LAM * R))
        E = E * np.outer(ph, ph)
    return E, x


def close(a, b, tol=1e-9, scale=None):
    return abs(a - b) <= tol * max(abs(a), abs(b), scale or 0)


def beam_ok(r, wf, b, d, planar):
    zs = max(abs(b.z), abs(b.q), ZR * 1e-3)
    r.expect(close(proper.prop_get_z(wf), b.z, scale=ZR), 'distance', 'the distance is not the sum of the segments', got=wf.z, want=b.z, **d)
    r.expect(close(wf.w0, b.w0(), 1e-7), 'waist', 'the waist radius does not follow the beam equations', got=wf.w0, want=b.w0(), **d)
    r.expect(close(proper.prop_get_distancetofocus(wf), -b.q.real, 1e-7, zs), 'waist position', 'the distance to the waist does not follow the beam equations', got=wf.z_w0 - wf.z, want=-b.q.real, **d)
    r.expect(close(wf.z_Rayleigh, -b.q.imag, 1e-7), 'rayleigh', 'the Rayleigh distance does not follow the beam equations', got=wf.z_Rayleigh, want=-b.q.imag, **d)
    r.expect(close(proper.prop_get_beamradius(wf), b.w(), 1e-7), 'radius', 'the beam radius does not follow the beam equations', got=proper.prop_get_beamradius(wf), want=b.w(), **d)
    r.expect(close(proper.prop_get_fratio(wf), b.fratio, 1e-6, b.fscale), 'fratio', 'the focal ratio is not that of the last lens', got=wf.current_fratio, want=b.fratio, **d)
    r.expect(close(proper.prop_get_refradius(wf), b.q.real, 1e-7, zs), 'refradius', 'the reference radius is wrong', **d)
    x = abs(b.q.real) / -b.q.imag
    if abs(x - 1) > 1e-6 and not planar:
        r.expect((wf.reference_surface == 'SPHERI') == (x > 1), 'reference', 'the reference surface does not follow from the Rayleigh distance', got=wf.reference_surface, ratio=x, **d)


def do_seq(seq, wf, b, r, legal, prev):
    """judge the state after seq"""
    d = dict(operations=[OPS[i] for i in seq])
    op = OPS[seq[-1]]
    beam_ok(r, wf, b, d, op[0] == 'q')
    e = float(np.sum(np.abs(wf.wfarr)**2))
    e0 = float(np.sum(np.abs(prev.wfarr)**2))
    r.expect(close(e, e0, 1e-9), 'energy', 'energy is not conserved', before=e0, after=e, **d)
    if op[0] in 'LC':
        r.expect(wf.dx == prev.dx, 'sampling', 'a lens changed the sampling', **d)
    if not (np.isfinite(e) and wf.dx > 0):
        r.bad('finite', 'the field or its sampling is not finite', dx=wf.dx, **d)
        return False
    E, x = physical(wf)
    ref = wf.z - wf.z_w0 if wf.reference_surface == 'SPHERI' else None
    legal = legal and b.sampled(wf.dx, ref)
    if legal:
        want = b.field(x)
        # field up to a constant: overlap with the exact one is complete
        r.execution()
        n1, n2 = np.linalg.norm(E), np.linalg.norm(want)
        ov = abs(np.vdot(want, E)) / (n1 * n2)
        r.outcome(round(float(np.log2(wf.dx)), 0), wf.reference_surface)
        r.expect(ov > 1 - 2e-4, 'field', 'the field is not that of the propagated Gaussian', overlap=ov, **d)
    return legal


def same_field(r, key, a, b, d, msg, piston=1.):
    ok = close(a.dx, b.dx) and a.reference_surface == b.reference_surface and close(a.z, b.z, 1e-9, ZR)
    s = np.linalg.norm(a.wfarr)
    r.expect(ok and np.linalg.norm(a.wfarr * piston - b.wfarr) < 1e-7 * s, key, msg, sampling=(a.dx, b.dx), reference=(a.reference_surface, b.reference_surface), **d)


def variants(seq, prev, pb, wf, r):
    """other ways to do the last operation"""
    op = OPS[seq[-1]]
    d = dict(operations=[OPS[i] for i in seq])
    if op[0] in 'pf':
        dist = wf.z - prev.z
        for fr in (0.3, -0.5, 1.4):
            w = snapshot(prev)
            proper.prop_propagate(w, fr * dist)
            proper.prop_propagate(w, dist - fr * dist)
            r.step()
            same_field(r, 'split', wf, w, dict(split=fr, **d), 'two propagations differ from one over the whole distance')
        if len(seq) < 2 or OPS[seq[-2]][0] != 'q':
            w = snapshot(wf)
            proper.prop_propagate(w, -dist)
            r.step()
            same_field(r, 'back', prev, w, d, 'propagating back does not restore the field')
        proper.phase_offset = True
        w = snapshot(prev)
        proper.prop_propagate(w, dist)
        proper.phase_offset = False
        r.step()
        same_field(r, 'offset', wf, w, d, 'the phase offset is not that of the distance', np.exp(2j * np.pi * dist / LAM))
    elif op[0] in 'LC' and (len(seq) < 2 or OPS[seq[-2]][0] != 'q'):
        f = op[1] * ZR if op[0] == 'L' else pb.radius()
        w = snapshot(wf)
        proper.prop_lens(w, -f)
        r.step()
        same_field(r, 'unlens', prev, w, d, 'a lens and its opposite do not cancel')


def run(case, r):
    if case[0] == 'table':
        return do_table(case, r)
    n, first = case[0], case[1:]
    wf, b = start()
    legal = b.sampled(wf.dx, None)
    stack = [((), wf, b, legal)]
    judged = 0
    while stack:
        seq, wf, b, legal = stack.pop()
        if r.viol:
            return
        for i in range(len(OPS)):
            if len(seq) < len(first) and i != first[len(seq)]:
                continue
            w = snapshot(wf)
            nb = apply(w, b, OPS[i])
            if nb is None:
                continue
            s = seq + (i,)
            r.step()
            r.state(s)
            # stop where the beam has left the regime any grid can hold
            if not (1e-3 * D < nb.w() < 1e3 * D and abs(nb.q) < 1e4 * ZR):
                continue
            lg = do_seq(s, w, nb, r, legal, wf)
            variants(s, wf, b, w, r)
            r.execution()
            if r.viol:
                return
            if len(s) < n:
                stack.append((s, w, nb, lg))


def do_table(case, r):
    """the printed table lists what happened"""
    _, n, i, j = case
    for k in range(len(OPS)):
        seq = [OPS[x] for x in (i, j, k)]
        wf, b = start()
        proper.do_table = True
        try:
            proper.action_num = 0
            for nm in ('lens_fl_list', 'lens_eff_fratio_list', 'beam_diam_list', 'distance_list', 'sampling_list'):
                setattr(proper, nm, np.zeros(1500))
            proper.surface_name_list = np.zeros(1500, dtype='S25')
            rows = []
            for op in seq:
                nb = apply(wf, b, op)
                if nb is None:
                    break
                lens = op[0] in 'LC'
                rows.append((nb.z - b.z, wf.dx, 2 * nb.w(), (op[1] * ZR if op[0] == 'L' else b.radius()) if lens else 0., nb.fratio if lens else 0.))
                b = nb
            got = [tuple(float(getattr(proper, nm)[q]) for nm in ('distance_list', 'sampling_list', 'beam_diam_list', 'lens_fl_list', 'lens_eff_fratio_list')) for q in range(proper.action_num)]
            r.state('table', tuple(seq))
            r.step(len(rows))
            r.execution()
            ok = len(got) == len(rows) and all(close(x, y, 1e-6, 1e-9 if c < 4 else b.fscale) for g, w in zip(got, rows) for c, (x, y) in enumerate(zip(g, w)))
            r.expect(ok, 'table', 'the table of surfaces does not list the distances, samplings, beam diameters and lenses of the run', operations=seq, got=got, want=rows)
        finally:
            proper.do_table = False
