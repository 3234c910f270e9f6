"""A tiny PROPER prescription: the 'truth' model of the PROPER-type layouts in
the checks.  Its field depends on the wavelength and on every setting that the
full model passes (polarisation state, source offset, mirror maps, Zernikes)."""
import numpy as np

HOOK = [None]          # called with a label before every read of a setting


def stubrx(lam_m, gridsize, PASSVALUE={}):
    def get(k, d):
        if HOOK[0] is not None:
            HOOK[0](k)
        return PASSVALUE.get(k, d)
    n = get('nout', 8)
    x = (np.arange(n) - n // 2) / 4.0
    X, Y = np.meshgrid(x, x)
    u = lam_m / 550e-9
    xo, yo = get('xoffset', 0.) or 0., get('yoffset', 0.) or 0.
    E = 1e-2 * np.exp(-((X - 0.3)**2 + Y**2) / (4 * u**2)) * np.exp(1j * (X + 0.5 * Y) / u)
    E = E + 1e-3 * np.cos(X * u) * (1 + 0.5j)
    if abs(xo) + abs(yo) > 0:
        E = E + 3.0 / u * np.exp(-(X**2 + Y**2))
    p = get('polaxis', 0)
    E = E + 2e-3 * p * np.exp(1j * (0.7 * p + X * p / 3.)) / (1 + abs(p))
    for i, s in ((1, 1.0), (2, 1j)):
        if get('use_dm%d' % i, False):
            m = np.asarray(get('dm%d' % i, 0.))
            k = 2 * np.pi / lam_m
            for (a, b), h in np.ndenumerate(m):
                if h:
                    E = E + s * 1e-2 * (np.exp(1j * k * h) - 1) * np.exp(1j * (X * (a - 1) + Y * (b - 1)))
    zi = np.atleast_1d(get('zindex', []))
    zv = np.atleast_1d(get('zval_m', []))
    for a, v in zip(zi, zv):
        E = E + 1j * 2 * np.pi * v / lam_m * 0.1 * np.exp(-(X - float(a) / 5)**2 - Y**2)
    if get('polaxis', 0) != p:
        raise RuntimeError('a setting changed during the propagation')
    return E, 1e-5
