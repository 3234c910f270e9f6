"""Share of every pixel inside a shape, from its outline."""
import itertools
import numpy as np

K = 96


def cover(n, chord):
    """share of every pixel inside {(x, y): lo(x) <= y <= hi(x)}, in pixels from the corner pixel"""
    x = (np.arange(n * K) + .5) / K - .5
    lo, hi = chord(x)
    out = np.zeros((n, n))
    some = hi > lo
    if not some.any():
        return out
    for j in range(max(0, int(np.floor(lo[some].min() + .5))), min(n - 1, int(np.ceil(hi[some].max() + .5))) + 1 if hi[some].max() > -1 else 0):
        w = np.clip(np.minimum(hi, j + .5) - np.maximum(lo, j - .5), 0, None)
        out[j] = w.reshape(n, K).mean(axis=1)
    return out


def poly_chord(xv, yv):
    """lower and upper limit of a convex polygon at every x"""
    xv, yv = np.asarray(xv, float), np.asarray(yv, float)

    def chord(x):
        lo, hi = np.full(x.shape, np.inf), np.full(x.shape, -np.inf)
        for i in range(len(xv)):
            x0, y0, x1, y1 = xv[i - 1], yv[i - 1], xv[i], yv[i]
            if x0 == x1:
                continue
            m = (x >= min(x0, x1)) & (x <= max(x0, x1))
            y = y0 + (y1 - y0) * (x[m] - x0) / (x1 - x0)
            lo[m], hi[m] = np.minimum(lo[m], y), np.maximum(hi[m], y)
        return lo, hi
    return chord


def ellipse_chord(a, b, t, xc, yc):
    """ellipse turned counter-clockwise by t"""
    c, s = np.cos(t), np.sin(t)
    A, B, C = (c / a)**2 + (s / b)**2, c * s * (1 / a**2 - 1 / b**2), (s / a)**2 + (c / b)**2

    def chord(x):
        d = x - xc
        disc = (B * d)**2 - C * (A * d * d - 1)
        q = np.sqrt(np.clip(disc, 0, None))
        lo, hi = yc + (-B * d - q) / C, yc + (-B * d + q) / C
        return np.where(disc > 0, lo, np.inf), np.where(disc > 0, hi, -np.inf)
    return chord


def corners(w, h, t, xc, yc):
    x = np.array([-w, w, w, -w]) / 2
    y = np.array([-h, -h, h, h]) / 2
    return x * np.cos(t) - y * np.sin(t) + xc, x * np.sin(t) + y * np.cos(t) + yc


def erode(m):
    p = np.pad(m, 1, mode='edge')
    out = m.copy()
    for dy, dx in itertools.product((0, 1, 2), repeat=2):
        out &= p[dy:dy + m.shape[0], dx:dx + m.shape[1]]
    return out


def wedge(ang0, half, x, y, far=1e3):
    """corners of the sector of all directions within half of ang0 (radians, half < pi/2) seen from (x, y)"""
    a = ang0 + np.linspace(-half, half, 7)
    return np.concatenate([[x], x + far * np.cos(a)]), np.concatenate([[y], y + far * np.sin(a)])
