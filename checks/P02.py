"""Fourier propagation operators, checked on a complete basis of inputs."""
import itertools
import numpy as np
import falco
from falco import prop

ID = 'P02'
BOUNDS = {'quick': 'all single-pixel (basis) fields on grids of side 2..6 (linearity extends the verdict to every field), every combination of output size 1..5 x 1..5, centring, unequal focal sampling, wavelength, relay counts -3..5, propagation distances over 5 signs/magnitudes and all pairs',
          'thorough': 'as quick with grid sides 2..9 and output sizes 1..8'}


def axis(n, d, cen):
    a = (np.arange(n) - (n // 2 if (cen == 'pixel' or n % 2) else (n - 1) / 2)) * d
    return a


def cases(tier):
    hi = 6 if tier == 'quick' else 9
    ho = 5 if tier == 'quick' else 8
    out = []
    for cen in ('pixel', 'interpixel'):
        for n in range(2, hi + 1):
            out += [['p2f', n, ho, cen], ['f2p', n, ho, cen], ['relay', n, hi, cen]]
            out += [['round', n, cen]]
    out += [['ptp', n] for n in range(2, hi + 3)]
    out += [['fft', n, hi] for n in range(1, hi + 1)]
    return out


def basis(sh):
    for i, j in itertools.product(range(sh[0]), range(sh[1])):
        e = np.zeros(sh, dtype=complex)
        e[i, j] = 1
        yield (i, j), e


def close(a, b, tol=1e-11):
    return a.shape == b.shape and np.max(np.abs(a - b)) < tol * max(1, np.max(np.abs(b)))


def run(case, r):
    k = case[0]
    if k in ('p2f', 'f2p'):
        n, ho, cen = case[1:]
        fl, D = 2.0, 0.004
        dx = D / n
        for lam, (rx, ry) in itertools.product((5e-7, 6.5e-7), ((1.3, 1.3), (1.3, 0.7))):
            dxi, deta = rx * fl * 5e-7 / D, ry * fl * 5e-7 / D
            sizes = itertools.product(range(1, ho + 1), repeat=2)
            for nx, ny in sizes:
                if k == 'p2f':
                    x = axis(n, dx, cen)
                    xi, eta = axis(nx, dxi, cen), axis(ny, deta, cen)
                    sc = np.sqrt(dx * dx * dxi * deta) / (lam * fl)
                    for (i, j), e in basis((n, n)):
                        want = sc * np.exp(-2j * np.pi / (lam * fl) * (eta[:, None] * x[i] + xi[None, :] * x[j]))
                        got = prop.mft_p2f(e, fl, lam, dx, dxi, nx, deta, ny, centering=cen)
                        r.step()
                        if not r.expect(close(got, want), 'mft_p2f', 'pupil-to-focus transform is not the sampled Fourier integral',
                                        n=n, out=(ny, nx), pixel=(i, j), cen=cen, d=(dxi, deta)):
                            return
                    r.execution(); r.state(k, n, nx, ny, cen, lam, rx, ry)
                else:
                    # focal array (ny, nx) -> pupil n x n
                    xi, eta = axis(nx, dxi, cen), axis(ny, deta, cen)
                    x = axis(n, dx, cen)
                    sc = np.sqrt(dx * dx * dxi * deta) / (lam * fl)
                    for (i, j), e in basis((ny, nx)):
                        want = sc * np.exp(-2j * np.pi / (lam * fl) * (eta[i] * x[:, None] + xi[j] * x[None, :]))
                        got = prop.mft_f2p(e, fl, lam, dxi, deta, dx, n, centering=cen)
                        r.step()
                        if not r.expect(close(got, want), 'mft_f2p', 'focus-to-pupil transform is not the sampled Fourier integral',
                                        n=n, inp=(ny, nx), pixel=(i, j), cen=cen, d=(dxi, deta)):
                            return
                    r.execution(); r.state(k, n, nx, ny, cen, lam, rx, ry)
    elif k == 'round':
        # critically sampled: p2f then f2p is exactly one 180-degree relay, and energy is conserved
        n, cen = case[1:]
        fl, lam, D = 1.5, 5e-7, 0.003
        dx = D / n
        dxi = lam * fl / (n * dx)
        for (i, j), e in basis((n, n)):
            e = e * (0.6 + 0.8j)
            f = prop.mft_p2f(e, fl, lam, dx, dxi, n, dxi, n, centering=cen)
            p = prop.mft_f2p(f, fl, lam, dxi, dxi, dx, n, centering=cen)
            r.step(2); r.execution(); r.state('round', n, cen, i, j)
            r.expect(abs(np.sum(np.abs(f) ** 2) - 1) < 1e-10, 'energy', 'transform changed the total energy', n=n, cen=cen)
            if n % 2 == 0 or cen == 'pixel':
                want = prop.relay(e, 1, cen) if n % 2 == 0 else e[::-1, ::-1]
                r.expect(close(p, want, 1e-10), 'roundtrip', 'pupil -> focus -> pupil is not a 180 degree rotation',
                         n=n, cen=cen, pixel=(i, j))
    elif k == 'relay':
        n, hi, cen = case[1:]
        for m in range(2, hi + 1):
            a = (np.arange(n * m).reshape(n, m) + 1) * (1 + 0.5j)
            a0 = a.copy()
            for k1 in range(-3, 6):
                b = prop.relay(a, k1, cen)
                r.step(); r.execution(); r.state('relay', n, m, k1, cen)
                want = a.copy()
                if k1 % 2:
                    for i, j in itertools.product(range(n), range(m)):
                        if cen == 'pixel':
                            want[(-i) % n, (-j) % m] = a[i, j]
                        else:
                            want[n - 1 - i, m - 1 - j] = a[i, j]
                r.expect(close(b, want), 'relay', 'relay is not a centred 180 degree rotation', shape=(n, m), N=k1, cen=cen)
                for k2 in range(-2, 3):
                    r.expect(close(prop.relay(b, k2, cen), prop.relay(a, k1 + k2, cen)), 'relay:group',
                             'relays do not compose', shape=(n, m), N=(k1, k2), cen=cen)
                    r.step()
            r.expect(np.array_equal(a, a0), 'relay:mutate', 'relay modified its input')
    elif k == 'ptp':
        n = case[1]
        lam, W = 6e-7, 0.01
        D = np.array([0., 0.3, -0.3, 2.0, -1.1, 25.])
        f = np.array([(i if i < (n + 1) // 2 else i - n) for i in range(n)]) / W
        F2 = f[:, None] ** 2 + f[None, :] ** 2
        for (i, j), e in basis((n, n)):
            e = e * (0.8 - 0.6j)
            for z in D:
                got = prop.ptp(e, W, lam, float(z))
                want = np.fft.ifft2(np.fft.fft2(e) * np.exp(-1j * np.pi * lam * z * F2))
                r.step(); r.execution(); r.state('ptp', n, i, j, z)
                if not r.expect(close(got, want), 'ptp', 'free-space propagation differs from the angular spectrum operator', n=n, z=z, pixel=(i, j)):
                    return
                r.expect(abs(np.sum(np.abs(got) ** 2) - 1) < 1e-10, 'ptp:energy', 'propagation changed the energy', n=n, z=z)
                for z2 in D:
                    r.step()
                    r.expect(close(prop.ptp(got, W, lam, float(z2)), prop.ptp(e, W, lam, float(z + z2)), 1e-10), 'ptp:additive',
                             'propagating z1 then z2 differs from z1+z2', n=n, z=(z, z2))
        try:
            prop.ptp(np.ones((n, n + 1)), W, lam, 1.0)
            r.bad('ptp:square', 'non-square field accepted')
        except ValueError:
            pass
    elif k == 'fft':
        n, hi = case[1:]
        for m in range(1, hi + 1):
            u = (np.arange(n) - n // 2)[:, None]
            v = (np.arange(m) - m // 2)[None, :]
            for (i, j), e in basis((n, m)):
                want = np.exp(-2j * np.pi * (u * (i - n // 2) / n + v * (j - m // 2) / m)) / np.sqrt(n * m)
                got = prop.fft2d(e)
                r.step(2); r.execution(); r.state('fft', n, m, i, j)
                r.expect(close(got, want), 'fft2d', 'centred unitary DFT wrong', shape=(n, m), pixel=(i, j))
                r.expect(close(prop.ifft2d(got), e), 'ifft2d', 'inverse transform does not undo the forward transform', shape=(n, m), pixel=(i, j))
