"""Independent reference for coating stacks: recursion over interfaces."""
import os
import numpy as np

TI = [(397, 2.08, 2.95), (413, 2.14, 2.98), (431, 2.21, 3.01), (451, 2.27, 3.04), (471, 2.3, 3.1), (496, 2.36, 3.19), (521, 2.44, 3.2), (549, 2.54, 3.43), (582, 2.6, 3.58), (617, 2.67, 3.74), (659, 2.76, 3.84), (704, 2.86, 3.96), (756, 3., 4.01), (821, 3.21, 4.01), (892, 3.29, 3.96), (984, 3.35, 3.97), (1088, 3.5, 4.02), (1216, 3.62, 4.15)]
FS = ((0.68374049400, 0.00460352869), (0.42032361300, 0.01339688560), (0.58502748000, 64.49327320000))
BK7 = ((1.03961212, 0.00600069867), (0.231792344, 0.0200179144), (1.01046945, 103.560653))


def coefficients(n, d, theta, lam, tm):
    """reflection (of the electric field) and transmission of a stack; fields vary as exp(+i w t),
    absorbing media have n - ik"""
    n = np.asarray(n, complex)
    kx = 2 * np.pi * n[0] * np.sin(theta) / lam
    kz = np.sqrt((2 * np.pi * n / lam)**2 - kx * kx)
    kz = np.where((kz.imag > 0) | ((kz.imag == 0) & (kz.real < 0)), -kz, kz)      # waves leave or decay
    q = kz / n**2 if tm else kz
    j = len(n) - 2
    r = (q[j] - q[j + 1]) / (q[j] + q[j + 1])
    t = 2 * q[j] / (q[j] + q[j + 1])
    while j > 0:
        f = np.exp(-1j * kz[j] * d[j - 1])
        j -= 1
        rij = (q[j] - q[j + 1]) / (q[j] + q[j + 1])
        tij = 2 * q[j] / (q[j] + q[j + 1])
        den = 1 + rij * r * f * f
        r, t = (rij + r * f * f) / den, tij * f * t / den
    P = np.real(q[-1] / q[0])
    return (-r if tm else r), t * np.sqrt(max(P, 0.)), abs(r)**2, P * abs(t)**2


def _interp(x, tab):
    xs = [t[0] for t in tab]
    if x <= xs[0]:
        return tab[0][1:]
    if x >= xs[-1]:
        return tab[-1][1:]
    k = max(i for i in range(len(xs)) if xs[i] <= x)
    w = (x - xs[k]) / (xs[k + 1] - xs[k])
    return tuple(a + w * (b - a) for a, b in zip(tab[k][1:], tab[k + 1][1:]))


_TAB = {}


def _table(repo, name, scale):
    if name not in _TAB:
        t = []
        for l in open(os.path.join(repo, 'falco', 'data', name)):
            l = l.split('#')[0].split()
            if l:
                t.append((float(l[0]) * scale, float(l[1]), float(l[2])))
        _TAB[name] = t
    return _TAB[name]


def index(kind, lam, repo):
    um2 = (lam * 1e6)**2
    if kind in ('fs', 'bk7'):
        return complex(np.sqrt(1 + sum(b * um2 / (um2 - c) for b, c in (FS if kind == 'fs' else BK7))))
    if kind == 'pmgi':
        return complex(1.524 + 5.176e-03 / um2 + 2.105e-4 / um2**2)
    if kind == 'ti':
        n, k = _interp(lam * 1e9, TI)
    elif kind == 'ni':
        n, k = _interp(lam * 1e9, _table(repo, 'nickel_data_from_Palik_via_Bala_wvlNM_n_k.txt', 1.))
    elif kind == 'mgf2':
        n, k = _interp(lam * 1e9, _table(repo, 'MgF2_data_from_Rodriguez-deMarcos_wvlUM_n_k.txt', 1e3))
    return n - 1j * k


def mask_point(sub, diel, lam, aoi, ti, metal, dm, d0, pol, opd, repo):
    """transmission and reflection of one place of the mask"""
    if metal < 1e-10:
        ti = 0.
    n = [1, 1, index(diel, lam, repo), index('ni', lam, repo), index('ti', lam, repo), index(sub, lam, repo)]
    d = [d0 - dm - metal - ti, dm, metal, ti]
    v = [coefficients(n, d, np.radians(aoi), lam, p)[:2] for p in ((False, True) if pol == 2 else (bool(pol),))]
    r, t = (np.mean([x[k] for x in v]) for k in (0, 1))
    return (t, r) if opd else (np.conj(t), np.conj(r))
