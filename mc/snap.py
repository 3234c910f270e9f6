"""Deep snapshots of configuration objects (raw storage, nothing evaluated)."""
import types
import numpy as np


def _walk(o, path, out, seen, depth):
    if depth > 12:
        return
    if isinstance(o, np.ndarray):
        out[path] = ('array', str(o.dtype), o.shape, o.tobytes() if o.dtype != object else repr(o.tolist()))
    elif isinstance(o, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        out[path] = (type(o).__name__, repr(o))
    elif isinstance(o, (list, tuple)):
        out[path] = (type(o).__name__, len(o))
        for i, v in enumerate(o):
            _walk(v, path + (i,), out, seen, depth + 1)
    elif isinstance(o, dict):
        for k in o:
            _walk(o[k], path + (str(k),), out, seen, depth + 1)
    elif isinstance(o, (types.FunctionType, type, types.ModuleType, types.BuiltinFunctionType)):
        out[path] = ('callable',)
    elif hasattr(o, '__dict__'):
        if id(o) in seen:
            return
        seen = seen | {id(o)}
        d = dict(vars(o))
        data = d.pop('data', None)
        if isinstance(data, dict):
            for k in data:
                if k not in d:
                    d[k] = data[k]
        elif data is not None:
            d['data'] = data
        for k in d:
            _walk(d[k], path + (str(k),), out, seen, depth + 1)
    else:
        out[path] = (type(o).__name__, repr(o)[:200])


def take(o):
    """path -> value record of every setting"""
    out = {}
    _walk(o, (), out, frozenset(), 0)
    return out


def changed(before, after, new=False):
    """paths of settings that existed before and have another value (or vanished)"""
    out = []
    for p, v in before.items():
        w = after.get(p)
        if w == v:
            continue
        if w is not None and v[0] == 'array' and w[0] == 'array' and v[2] == w[2]:
            a = np.frombuffer(v[3], dtype=v[1]) if isinstance(v[3], bytes) else None
            b = np.frombuffer(w[3], dtype=w[1]) if isinstance(w[3], bytes) else None
            if a is not None and b is not None and np.array_equal(a, b):
                continue            # same values, other number type
        if w is not None and v[0] != 'array' and w[0] != 'array' and len(v) == len(w) == 2 and v[1] == w[1]:
            continue
        # scalar 10 vs np.int64(10) etc.
        if w is not None and _num(v) is not None and _num(v) == _num(w):
            continue
        out.append('.'.join(map(str, p)))
    if new:
        out += ['+' + '.'.join(map(str, p)) for p in after if p not in before]
    return out


def _num(v):
    if v[0] == 'array' or len(v) != 2 or not isinstance(v[1], str):
        return None
    s = v[1]
    if s.startswith('np.') and s.endswith(')'):
        s = s[s.index('(') + 1:-1]
    try:
        return complex(s)
    except ValueError:
        return None
