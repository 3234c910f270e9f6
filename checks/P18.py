"""P18: configuration objects behave as faithful nested records.

Breadth-first search over all operation sequences on the real object: the
concrete state (what is stored where) is abstracted only by its repr, every
operation is applied in every reachable state, and a plain dictionary is the
reference record."""
import copy
import itertools
import pickle
import sys
import types
import numpy as np
import falco
from falco.config import Object, Eval, Probe, ProbeSchedule, ModelVariables, ModelParameters
import tiny

ID = 'P18'
BOUNDS = {'quick': 'all operation sequences (attribute and item writes of 5 kinds of value, nested writes, merges, deletes, shallow and deep copies, pickling) over 2 names from 5 starting kinds of object, to depth 4; all constructor keyword pairs of every configuration class; every split of the full-model options between constructor and attribute',
          'thorough': 'depth 6, 3 names'}
CHUNK = 1
STARTS = ('empty', 'kw', 'attr', 'probe', 'yaml')


def VAL(k, depth=0):
    """(real value, model value)"""
    if k == 0:
        return 1, 1
    if k == 1:
        return [1], [1]
    if k == 2:
        return {'k': 1}, {'k': 1}
    if k == 3:
        return Object(k=1), ('obj', {'k': 1})
    o = Object()
    o.k = 2
    return o, ('obj', {'k': 2})


def names(th):
    return ('a', 'b', 'c') if th else ('a', 'b')


def start(kind):
    if kind == 'empty':
        return Object(), {}
    if kind == 'kw':
        return Object(a=1, b=Object(k=5)), {'a': 1, 'b': ('obj', {'k': 5})}
    if kind == 'attr':
        o = Object()
        o.a = [7]
        return o, {'a': [7]}
    if kind == 'probe':
        o = Probe(Npairs=9, a=3)
        return o, {'a': 3, 'Npairs': 9, 'radius': 12}
    o = ModelParameters.from_yaml('a: {k: 3}\nb: [1, 2]\n').a
    o.b = 4
    return o, {'k': 3, 'b': 4}


def model_merge(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k in b:
            out[k] = model_merge(a[k], b[k]) if k in a else b[k]
        return out
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    return b


def ops(th):
    out = []
    for n in names(th):
        for v in range(5):
            out.append(('set', n, v))
            out.append(('item', n, v))
        for v in range(3):
            out.append(('merge', n, v))
        out += [('del', n), ('delitem', n), ('nest', n, 'attr'), ('nest', n, 'item')]
    out += [('merge2',), ('copy',), ('deepcopy',), ('pickle',), ('rebuild',)]
    return out


def apply(o, m, op):
    """returns (object, model) or None when the operation is not defined there"""
    k = op[0]
    if k in ('set', 'item'):
        rv, mv = VAL(op[2])
        if k == 'set':
            setattr(o, op[1], rv)
        else:
            o[op[1]] = rv
        m[op[1]] = mv
    elif k == 'merge':
        rv, mv = VAL(op[2])
        cur = m.get(op[1])
        if isinstance(cur, list) and len(cur) > 2:
            return None
        o.merge(**{op[1]: rv})
        m[op[1]] = model_merge(cur, mv) if op[1] in m else mv
    elif k == 'merge2':
        o.merge(a=8, b={'z': 1})
        m['a'] = 8
        m['b'] = model_merge(m['b'], {'z': 1}) if 'b' in m else {'z': 1}
    elif k in ('del', 'delitem'):
        if op[1] not in m:
            return None
        if k == 'del':
            delattr(o, op[1])
        else:
            del o[op[1]]
        del m[op[1]]
    elif k == 'nest':
        cur = m.get(op[1])
        if isinstance(cur, dict):
            (getattr(o, op[1]) if op[2] == 'attr' else o[op[1]])['k'] = 6
            cur['k'] = 6
        elif isinstance(cur, tuple):
            if op[2] == 'attr':
                getattr(o, op[1]).k = 6
            else:
                o[op[1]]['k'] = 6
            cur[1]['k'] = 6
        else:
            return None
    elif k == 'copy':
        # a shallow copy is a record of its own
        old = o
        o = copy.copy(old)
        if type(o) is not type(old) or o is old:
            raise AssertionError('not a copy')
        for n in ('a', 'b', 'c', 'k', 'Npairs', 'new'):
            if n in m:
                setattr(old, n, 'old') if n < 'b' else old.__setitem__(n, 'old')
            elif n == 'new':
                old.new = 1
                old['new2'] = 1
        if hasattr(o, 'new') or hasattr(o, 'new2'):
            m['<leak>'] = 1
    elif k == 'deepcopy':
        old = o
        o = copy.deepcopy(old)
        scribble(old)
    elif k == 'pickle':
        old = o
        o = pickle.loads(pickle.dumps(old))
        scribble(old)
    elif k == 'rebuild':
        o = Object(sub=o).sub
    return o, m


def scribble(o):
    """change everything reachable from the object that was copied"""
    for n in ('a', 'b', 'c', 'k', 'Npairs'):
        if hasattr(o, n):
            v = getattr(o, n)
            if isinstance(v, list):
                v.append('old')
            elif isinstance(v, dict):
                v['k'] = 'old'
            elif isinstance(v, Object):
                scribble(v)
            else:
                setattr(o, n, 'old')


def same(v, mv):
    if isinstance(mv, tuple):
        return isinstance(v, Object) and all(same(getattr(v, k), mv[1][k]) and same(v[k], mv[1][k]) for k in mv[1])
    return type(v) is type(mv) and v == mv


def twin(m, how):
    d = {k: (twin(v[1], how) if isinstance(v, tuple) else copy.deepcopy(v)) for k, v in m.items()}
    if how == 'kw':
        return Object(**d)
    o = Object()
    for k in d:
        setattr(o, k, d[k])
    return o


def cmodel(m):
    return {k: (('obj', cmodel(v[1])) if isinstance(v, tuple) else copy.deepcopy(v)) for k, v in m.items()}


def storage(o):
    """where everything is stored, as the identity of a concrete state"""
    if isinstance(o, Object):
        d = dict(vars(o))
        da = d.pop('data', None)
        return ('O', sorted((k, storage(v)) for k, v in d.items()),
                sorted((str(k), storage(v)) for k, v in da.items()) if isinstance(da, dict) else repr(da))
    if isinstance(o, dict):
        return ('D', sorted((str(k), storage(v)) for k, v in o.items()))
    return repr(o)


def check(o, m, r, hist, th, extra):
    d = dict(history=hist)
    r.expect('<leak>' not in m, 'copy:leak', 'a setting added to one object appears in its copy', **d)
    for n in names(th) + ('k', 'missing', 'Npairs'):
        if n in m:
            r.expect(hasattr(o, n), 'missing:attr', 'a setting cannot be read as an attribute', name=n, **d)
            try:
                v = o[n]
            except (AttributeError, KeyError):
                r.bad('missing:item', 'a setting cannot be read by name', name=n, **d)
                continue
            if not hasattr(o, n):
                continue
            r.expect(same(getattr(o, n), m[n]), 'value:attr', 'reading a setting as an attribute does not return what was written last', name=n, got=getattr(o, n), want=m[n], **d)
            r.expect(same(v, m[n]), 'value:item', 'reading a setting by name does not return what was written last', name=n, got=v, want=m[n], **d)
        else:
            r.expect(not hasattr(o, n), 'ghost:attr', 'a setting that was deleted or never made is readable', name=n, **d)
            try:
                o[n]
                r.bad('ghost:item', 'a setting that was deleted or never made is readable by name', name=n, **d)
            except (AttributeError, KeyError):
                pass
    if not extra:
        for how in ('kw', 'attr'):
            t = twin(m, how)
            r.expect(o == t and t == o, 'equal', 'two objects with the same settings differ', how=how, **d)
        t = twin(m, 'kw')
        t.zz = 1
        r.expect(o != t and t != o, 'unequal', 'objects with different settings are equal', **d)
        for n in m:
            t = twin(m, 'attr')
            setattr(t, n, 'other')
            r.expect(o != t and t != o, 'unequal:value', 'objects with different values are equal', name=n, **d)
    c = copy.deepcopy(o)
    p = pickle.loads(pickle.dumps(o))
    r.expect(c == o and p == o and type(c) is type(o) and type(p) is type(o), 'copy:equal', 'a copy is not equal to the original', **d)


def cases(tier):
    th = tier == 'thorough'
    out = [('bfs', s, 6 if th else 4, th) for s in STARTS]
    out += [('ctor', c, th) for c in ('Probe', 'ProbeSchedule', 'ModelVariables', 'ModelParameters', 'Object')]
    out += [('options', lay, th) for lay in ('proper', 'wfirst_phaseb_proper', 'roman_phasec_proper')]
    out += [('array', th)]
    return out


def run(case, r):
    if case[0] == 'bfs':
        return bfs(case, r)
    if case[0] == 'ctor':
        return ctor(case, r)
    if case[0] == 'options':
        return options(case, r)
    return arrays(case, r)


def replay(kind, hist):
    with tiny.quiet():
        o, m = start(kind)
    m = cmodel(m)
    for op in hist:
        res = apply(o, m, op)
        if res is None:
            return None
        o, m = res
    return o, m


def bfs(case, r):
    _, kind, depth, th = case
    o, m = replay(kind, ())
    check(o, m, r, (), th, kind == 'probe')
    seen = {repr(storage(o))}
    front = [()]
    for d in range(depth):
        new = []
        for hist in front:
            for op in ops(th):
                res = replay(kind, hist + (op,))
                r.execution()
                if res is None:
                    continue
                r.step()
                o, m = res
                key = repr(storage(o))
                r.state(kind, key)
                if key in seen:
                    # the same storage must mean the same record
                    for n in names(th):
                        r.expect((n in m) == hasattr(o, n), 'state', 'equal storage, different record', history=hist + (op,))
                    continue
                seen.add(key)
                check(o, m, r, hist + (op,), th, kind == 'probe')
                if r.viol:
                    return
                new.append(hist + (op,))
        front = new
    r.outcome(kind, len(seen))


DEF = {'Probe': {'Npairs': 3, 'whichDM': 1, 'xOffset': 0, 'yOffset': 0, 'rotation': 0, 'gainFudge': 1, 'radius': 12, 'axis': 'alternate'},
       'ProbeSchedule': {'xOffsetVec': None, 'yOffsetVec': None, 'rotationVec': None, 'InormProbeVec': None},
       'ModelVariables': {'sbpIndex': 0, 'wpsbpIndex': 0, 'starIndex': 0, 'zernIndex': 1, 'whichSource': 'star', 'x_offset': 0, 'y_offset': 0},
       'ModelParameters': {}, 'Object': {}}


def ctor(case, r):
    _, c, th = case
    cls = getattr(falco.config, c)
    keys = list(DEF[c]) + ['own1', 'own2']
    vals = (5, 'text', [1, 2], {'k': 1}, None, 0)
    for n in range(0, 4 if th else 3):
        for ks in itertools.combinations(keys, n):
            for vs in itertools.product(vals, repeat=n) if n < 3 else [(5, [1, 2], 'text')]:
                kw = dict(zip(ks, copy.deepcopy(vs)))
                r.execution()
                with tiny.quiet():
                    o, o2 = cls(**kw), cls()
                r.state(c, ks, repr(vs))
                want = dict(DEF[c], **dict(zip(ks, vs)))
                for k, v in want.items():
                    r.expect(getattr(o, k) == v and o[k] == v, 'ctor', 'a constructor argument or default is not what is read', cls=c, name=k, kw=kw, got=getattr(o, k))
                for k, v in DEF[c].items():
                    r.expect(getattr(o2, k) == v, 'ctor:leak', 'building one object changed the defaults of another', cls=c, name=k)
                if ks:
                    setattr(o, ks[0], 'w')
                    r.expect(o[ks[0]] == 'w' and getattr(o, ks[0]) == 'w', 'ctor:write', 'writing a constructor argument has no effect', cls=c, name=ks[0])
                r.expect(not hasattr(o2, 'own1'), 'ctor:shared', 'settings of one object appear in another', cls=c)
    # nested defaults of the parameter tree are private to each tree
    if c == 'ModelParameters':
        with tiny.quiet():
            a, b = cls(), cls()
        for path in ('dm1', 'dm2', 'dm8', 'dm9', 'P1', 'P2', 'P3', 'P4', 'F3', 'Fend', 'P1.compact', 'P1.full', 'P3.compact', 'P4.full', 'F3.full', 'Fend.corr', 'Fend.score'):
            x, y = a, b
            for p in path.split('.'):
                x, y = getattr(x, p), getattr(y, p)
            x.mark = 1
            r.step()
            r.expect(not hasattr(y, 'mark'), 'tree:shared', 'two parameter trees share a branch', path=path)
            r.state(path)


OPTS = {'zindex': [1, 2], 'zval_m': [1e-9, 0], 'polaxis': 3, 'use_errors': False, 'name': 'x'}


def options(case, r):
    """every setting of the full model reaches the prescription, wherever it is stored"""
    _, lay, th = case
    seen = {}

    def presc(lam_m, gridsize, PASSVALUE={}):
        seen.clear()
        seen.update(PASSVALUE)
        return np.ones((gridsize, gridsize), complex), 1e-5
    fn = {'proper': 'stub18', 'wfirst_phaseb_proper': 'wfirst_phaseb', 'roman_phasec_proper': 'roman_phasec'}[lay]
    m = types.ModuleType(fn)
    setattr(m, fn, presc)
    m.__file__ = __file__
    old = sys.modules.get(fn)
    sys.modules[fn] = m
    try:
        keys = list(OPTS)
        mp0, _ = tiny.proper_config(coro="VC", nact=2)
        for split in itertools.product(('ctor', 'attr', 'item', 'eval', 'over'), repeat=3):
            mp = copy.deepcopy(mp0)
            how = dict(zip(keys, split + split[:len(keys) - 3]))
            pre = {k: (OPTS[k] if h == 'ctor' else 'stale') for k, h in how.items() if h in ('ctor', 'over')}
            pre.update({k: Eval({}, {'v': OPTS[k]}, 'v') for k, h in how.items() if h == 'eval'})
            full = Object(**pre)
            for k, v in list(mp.full.data.items()) + [(k, v) for k, v in vars(mp.full).items() if k != 'data']:
                if k not in OPTS:
                    setattr(full, k, v)
            mp.full = full
            for k, h in how.items():
                if h in ('attr', 'over'):
                    setattr(mp.full, k, OPTS[k])
                elif h == 'item':
                    mp.full[k] = OPTS[k]
            mp.full.prescription = fn
            mp.full.dm1, mp.full.dm2 = Object(flatmap=0.), Object(flatmap=0.)
            mp.layout = lay
            seen.clear()
            with tiny.quiet():
                try:
                    falco.model.full(mp, falco.config.ModelVariables())
                except Exception:
                    if not seen:
                        raise
            r.execution()
            r.state(lay, split)
            for k in keys:
                r.expect(k in seen and seen[k] == OPTS[k], 'options', 'a setting of the full model does not reach the prescription', name=k, given=how[k], got=seen.get(k, 'absent'), layout=lay)
            r.expect(not hasattr(mp.full, 'use_dm1') and not hasattr(mp.full, 'dm1_m'), 'options:leak', 'calling the model added settings', layout=lay)
    finally:
        if old is None:
            del sys.modules[fn]
        else:
            sys.modules[fn] = old


def arrays(case, r):
    """deep copies of trees with arrays share no memory; pickles keep every bit"""
    with tiny.quiet():
        for kw in (dict(), dict(coro='VC', nsbp=2), dict(coro='HLC', layout='fpm_scale'), dict(stars=[(0, 0, 1, 1), (1, 1, .5, 1)])):
            mp, out = tiny.build(nact=3, nbeam=10, **kw)
            import snap
            s0 = snap.take(mp)
            for name, c in (('deepcopy', copy.deepcopy(mp)), ('pickle', pickle.loads(pickle.dumps(mp))), ('deepcopy out', copy.deepcopy(out)), ('pickle out', pickle.loads(pickle.dumps(out)))):
                src = out if name.endswith('out') else mp
                s1 = snap.take(c)
                r.execution()
                r.state(name, tuple(kw))
                s2 = snap.take(src)
                ch = snap.changed(s2, s1, new=True)
                r.expect(not ch, 'tree:equal', 'a copied configuration differs', how=name, where=ch[:5])

                def walk(x, acc, seen):
                    if id(x) in seen:
                        return
                    seen.add(id(x))
                    if isinstance(x, np.ndarray):
                        acc.append(x)
                    elif isinstance(x, dict):
                        for v in x.values():
                            walk(v, acc, seen)
                    elif isinstance(x, (list, tuple)):
                        for v in x:
                            walk(v, acc, seen)
                    elif hasattr(x, '__dict__') and not isinstance(x, (types.ModuleType, type)):
                        walk(vars(x), acc, seen)
                A, B = [], []
                walk(src, A, set())
                walk(c, B, set())
                ptr = {a.__array_interface__['data'][0] for a in A if a.size}
                r.expect(len(A) > 5 and not any(b.__array_interface__['data'][0] in ptr for b in B if b.size), 'tree:alias', 'a copy shares an array with the original', how=name)
            r.expect(snap.take(mp) == s0, 'tree:src', 'copying changed the original')
            r.step()
