"""P31: input checkers."""
import decimal
import fractions
import itertools
import numpy as np
from falco import check

ID = 'P31'
BOUNDS = {'quick': '18 checkers x 74 scalar and object values and every array or nested list of 0..4 dimensions with 0..3 entries each x 7 kinds of entries (also ragged) x 5 exception types (4 unusable) x 4 names (4 unusable)',
          'thorough': 'arrays of up to 5 dimensions; subclasses of every builtin type'}


class Mine(Exception):
    pass


class SubI(int):
    pass


class SubF(float):
    pass


class SubS(str):
    pass


class SubD(dict):
    pass


class SubL(list):
    pass


SCAL = [0, 1, -1, 2**70, -2**70, SubI(3), SubI(-3), 0., -0., 1., -1., 1e-320, -1e-320, 1e308, SubF(2.), SubF(-2.), float('inf'), float('-inf'), float('nan'),
        1j, 0j, 1 + 0j, -1 + 2j, complex('nan'),
        np.int8(5), np.int8(-5), np.uint8(0), np.uint64(2**63), np.int64(-7), np.int32(0), np.float16(1.5), np.float32(-1.5), np.float64(0.), np.float64(2.), np.float64('nan'), np.float64('-inf'), np.longdouble(1), np.longdouble(-1), np.complex64(1), np.complex128(-1j),
        True, False, np.bool_(True), np.bool_(False), decimal.Decimal(1), fractions.Fraction(-1, 2),
        None, 'txt', '', '1', 'pixel', 'interpixel', 'Pixel', 'pixel ', 'p', SubS('pixel'), SubS('q'), np.str_('interpixel'), np.str_('x'), b'pixel', b'', np.bytes_(b'a'),
        {}, {'a': 1}, SubD(), {1, 2}, frozenset(), int, float, len, object(), range(3), slice(1), Ellipsis, NotImplemented]
EITHER = object()


def real_(v):
    if isinstance(v, (bool, np.bool_, decimal.Decimal, fractions.Fraction)):
        return EITHER
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return EITHER
    return isinstance(v, (int, float, np.integer, np.floating))


def int_(v):
    if isinstance(v, (bool, np.bool_)) or (isinstance(v, np.ndarray) and v.ndim == 0):
        return EITHER
    return isinstance(v, (int, np.integer))


def signed(base, cond):
    def f(v):
        b = base(v)
        if b is not True:
            return b
        return bool(cond(v))
    return f


def shape_of(v):
    """shape of an array or regular nested list, else None; and the kind of its entries"""
    if isinstance(v, np.ndarray):
        return v.shape, v.dtype.kind
    if isinstance(v, (list, tuple)):
        subs = [shape_of(x) for x in v]
        if not v:
            return (0,), 'f'
        if any(s is None for s in subs) or len({s[0] for s in subs}) > 1:
            return None
        return (len(v),) + subs[0][0], max((s[1] for s in subs), key='?biufcSUO'.index)
    return (), scal_kind(v)


def scal_kind(v):
    if isinstance(v, (bool, np.bool_)):
        return 'b'
    if isinstance(v, (int, np.integer)):
        return 'i' if -2**63 <= v < 2**63 else 'O'
    if isinstance(v, (float, np.floating)):
        return 'f'
    if isinstance(v, (complex, np.complexfloating)):
        return 'c'
    return 'S' if isinstance(v, bytes) else 'U' if isinstance(v, str) else 'O'


def array(test, realonly=False):
    def f(v):
        if isinstance(v, range):
            return EITHER
        s = shape_of(v)
        if s is None:
            return False
        if not test(s[0]):
            return False
        if realonly:
            return s[1] in 'biuf'
        return True if s[1] in 'biufc' else EITHER
    return f


TABLE = {
    'real_scalar': real_, 'real_positive_scalar': signed(real_, lambda v: v > 0), 'real_nonnegative_scalar': signed(real_, lambda v: v >= 0),
    'scalar_integer': int_, 'positive_scalar_integer': signed(int_, lambda v: v > 0), 'nonnegative_scalar_integer': signed(int_, lambda v: v >= 0),
    'string': lambda v: isinstance(v, (str, bytes)), 'boolean': lambda v: EITHER if isinstance(v, np.bool_) else isinstance(v, bool), 'dictionary': lambda v: isinstance(v, dict),
    'real_array': array(lambda s: len(s) > 0, True), 'oneD_array': array(lambda s: len(s) == 1), 'twoD_array': array(lambda s: len(s) == 2),
    'twoD_square_array': array(lambda s: len(s) == 2 and s[0] == s[1]), 'threeD_array': array(lambda s: len(s) == 3)}
NAMES = ['x', '', 'mp.dm1.V', SubS('n')]
BADNAMES = [5, None, ['x'], ('x',)]
EXC = [TypeError, ValueError, Mine, check.CheckException, Exception]
BADEXC = [ValueError('x'), None, 'TypeError', int]


def entry(kind, k):
    return {'b': bool(k % 2), 'i': k - 1, 'f': k / 3., 'c': complex(k, 1), 'U': 'a' * k, 'O': None if k % 2 else object, 'S': b'z' * k}[kind]


def nested(shape, kind, k=0):
    if not shape:
        return entry(kind, k)
    return [nested(shape[1:], kind, k + j) for j in range(shape[0])]


def arrays(th):
    """every shape, as array, list and tuple; and ragged lists"""
    for nd in range(6 if th else 5):
        for sh in itertools.product((0, 1, 2, 3) if nd < 4 else (0, 1, 2), repeat=nd):
            for kind in 'bifcUOS':
                n = nested(sh, kind)
                a = np.empty(sh, {'b': bool, 'i': int, 'f': float, 'c': complex, 'U': 'U3', 'O': object, 'S': 'S3'}[kind])
                if a.size and sh:
                    for ix in np.ndindex(*sh):
                        a[ix] = entry(kind, sum(ix))
                yield a
                if sh:
                    yield n
                    yield tuple(n)
                    yield SubL(n)
    for t in 'if':
        for a in (np.ones((4, 4), t)[::2], np.ones((3, 3), t).T, np.asfortranarray(np.ones((2, 3), t)), np.matrix(np.ones((2, 2), t))):
            yield a
    a1, a2, a3 = np.ones(1), np.ones(2), np.ones((2, 2))
    for k in ([[1], [1, 2]], [1, [2]], [[1, 2], 3], [[[1]], [[1, 2]]], [[], [1]], [[1], []], [a1, a2], [a2, 1.], [[a2, a2], [a2, a1]], [a3, a2]):
        yield k
        yield tuple(k)


def cases(tier):
    th = tier == 'thorough'
    return [(n, th) for n in list(TABLE) + ['centering', 'is_dict', 'is_bool']]


def call(f, *a):
    try:
        return f(*a), None
    except Exception as e:
        return None, e


def same(out, v):
    if out is None or out is v:
        return True
    if isinstance(out, np.ndarray):
        try:
            w = np.asarray(v)
        except ValueError:
            return False
        return out.shape == w.shape and out.dtype == w.dtype and (out.dtype == object or np.array_equal(out, w, equal_nan=out.dtype.kind in 'fc'))
    return type(out) is type(v) and (out == v or out != out)


def run(case, r):
    name, th = case
    f = getattr(check, name)
    if name == 'centering':
        for v in itertools.chain(SCAL, arrays(False)):
            out, e = call(f, v)
            r.step()
            r.execution()
            r.state(name, repr(type(v)), repr(v)[:60])
            good = isinstance(v, str) and v in ('pixel', 'interpixel')
            want = None if good else ValueError if isinstance(v, str) else TypeError
            r.outcome(name, want)
            r.expect(type(e) is want if want else e is None and same(out, v), 'centering', 'the centring is judged wrongly', value=v, got=(out, e), want=want)
        return
    if name in ('is_dict', 'is_bool'):
        for v, n in itertools.product(itertools.chain(SCAL, arrays(False)), NAMES + BADNAMES):
            out, e = call(f, v, n)
            r.step()
            r.execution()
            r.state(name, repr(type(v)), repr(v)[:60], repr(n))
            ok = TABLE['dictionary' if name == 'is_dict' else 'boolean'](v)
            d = dict(checker=name, value=v, name=n, got=(out, e))
            r.outcome(name, ok is True, n in NAMES)
            if n not in NAMES:
                r.expect(type(e) is check.CheckException, 'name', 'a name that is no string is accepted', **d)
            elif ok is True:
                r.expect(e is None and same(out, v), 'reject', 'a valid value is refused or altered', **d)
            elif ok is False:
                r.expect(type(e) is TypeError and n in str(e), 'accept', 'an invalid value is not refused with a TypeError naming it', **d)
        return
    test = TABLE[name]
    for k, v in enumerate(itertools.chain(SCAL, arrays(th))):
        ok = test(v)
        r.state(name, k)
        # arguments of the checker: all of them for the scalar alphabet, a covering choice for arrays
        args = [(n, x) for n in NAMES + BADNAMES for x in EXC + BADEXC]
        if k >= len(SCAL) + 60:
            args = [(NAMES[(k + j) % 4], EXC[(k // 2 + j) % 5]) for j in range(2)]
        before = repr(v) if not isinstance(v, np.ndarray) or v.size < 50 else ''
        for n, x in args:
            out, e = call(f, v, n, x)
            r.step()
            r.execution()
            d = dict(checker=name, value=v, name=n, exception=x, got=(out, e))
            good = n in NAMES and x in EXC
            r.outcome(name, ok is True, ok is False, good, x if good else None)
            if not good:
                r.expect(type(e) is check.CheckException, 'misuse', 'a name that is no string or an exception that is none is accepted', **d)
            elif ok is True:
                r.expect(e is None and same(out, v), 'reject', 'a valid value is refused or altered', **d)
            elif ok is False:
                r.expect(type(e) is x and n in str(e), 'accept', 'an invalid value is not refused with the requested exception naming it', **d)
            elif e is not None:
                r.expect(type(e) is x, 'type', 'a value is refused with another exception', **d)
        r.expect(not before or repr(v) == before, 'argument', 'the value is changed', value=v)
        if r.viol:
            return
