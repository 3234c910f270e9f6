"""Memoises scipy's scattered-data interpolation (a pure function of its arguments,
not code under test): every generated mirror interpolates the same few influence
functions, which otherwise dominates the cost of building a configuration."""
import hashlib
import pickle

import numpy as np
import scipy.interpolate as _si

_real = _si.griddata
_memo = {}


def griddata(*args, **kw):
    try:
        key = hashlib.blake2b(pickle.dumps((args, sorted(kw.items())), protocol=4), digest_size=16).digest()
    except Exception:
        return _real(*args, **kw)
    if key not in _memo:
        if len(_memo) > 400:
            _memo.clear()
        _memo[key] = _real(*args, **kw)
    return np.array(_memo[key], copy=True)


def install():
    if _si.griddata is _real:
        _si.griddata = griddata
