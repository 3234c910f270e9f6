"""P17: loading a configuration has the documented meaning and no global effect."""
import itertools
import os
import tempfile
import numpy as np
import yaml
import falco
from falco.config import Object, Probe, ProbeSchedule, ModelParameters
import tiny

ID = 'P17'
BOUNDS = {'quick': 'all documents of one entry to nesting depth 3 and of two entries to depth 1, over 11 kinds of scalar and 4 kinds of container, in block and flow style; aliases and merge keys; all sequences of up to 3 loads over 11 good and bad texts, each followed by probes of the global YAML loaders',
          'thorough': 'two entries to depth 2, sequences of up to 4 loads'}
CHUNK = 8
NOTHING = object()

# text, value
SCALARS = (('1', 1), ('-2.5', -2.5), ('true', True), ('null', None), ('hi there', 'hi there'), ('"2+2"', '2+2'), ("''", ''),
           ('[]', []), ('[1, 2.0]', [1, 2.0]), ('1.0e-9', 1.0e-9), ('!eval 2*3', ('eval', 6)), ('!eval np.ones(2)', ('eval', np.ones(2))),
           ('!eval mp.zz + 1', ('eval', 6)))
KINDS = ('list', 'map', 'probe', 'sched')


def trees(depth):
    """every value tree to the given depth"""
    if depth == 0:
        return list(range(len(SCALARS)))
    sub = trees(depth - 1)
    return list(range(len(SCALARS))) + [(k, s) for k in KINDS for s in sub if not (k == 'list' and has_eval(s, True))]


def has_eval(t, top=False):
    """a derived value directly in a list stays an expression: not a documented use"""
    if isinstance(t, int):
        return isinstance(SCALARS[t][1], tuple)
    return t[0] == 'list' and has_eval(t[1])


def flow(t):
    if isinstance(t, int):
        s = SCALARS[t][0]
        return "!eval '%s'" % s[6:] if s.startswith('!eval ') else s
    k, s = t
    if k == 'list':
        return '[%s, 7]' % flow(s)
    return {'map': '', 'probe': '!Probe ', 'sched': '!ProbeSchedule '}[k] + '{xs: %s, n: 1}' % flow(s)


def block(t, ind):
    if isinstance(t, int):
        return ' ' + SCALARS[t][0] + '\n'
    k, s = t
    pad = '  ' * ind
    if k == 'list':
        if isinstance(s, int):
            return '\n' + pad + '-' + block(s, ind + 1) + pad + '- 7\n'
        return '\n' + pad + '- ' + flow(s) + '\n' + pad + '- 7\n'
    return {'map': '', 'probe': ' !Probe', 'sched': ' !ProbeSchedule'}[k] + '\n' + pad + 'xs:' + block(s, ind + 1) + pad + 'n: 1\n'


def match(v, t, r, d):
    """does the loaded value v mean the tree t?"""
    if isinstance(t, int):
        w = SCALARS[t][1]
        if isinstance(w, tuple):
            w = w[1]
        if isinstance(w, np.ndarray):
            return isinstance(v, np.ndarray) and v.dtype == w.dtype and np.array_equal(v, w)
        return type(v) is type(w) and v == w
    k, s = t
    if k == 'list':
        return isinstance(v, list) and len(v) == 2 and v[1] == 7 and match(v[0], s, r, d)
    cls = {'map': Object, 'probe': Probe, 'sched': ProbeSchedule}[k]
    if type(v) is not cls or v.n != 1 or v['n'] != 1:
        return False
    if k == 'probe' and (v.Npairs != 3 or v.radius != 12):
        return False
    if k == 'sched' and v.rotationVec is not None:
        return False
    return match(v.xs, s, r, d) and match(v['xs'], s, r, d)


def load(text, ctx=None):
    with tiny.quiet():
        return ModelParameters.from_yaml(text, ctx)


def probes():
    """the meaning of YAML text elsewhere in the program"""
    out = []
    for name, L in (('safe', yaml.SafeLoader), ('full', yaml.FullLoader), ('base', yaml.BaseLoader)):
        for text in ('a: {b: 1}\nc: [1, x]', 'x: !eval 1', 'x: !Probe {a: 1}', '!ProbeSchedule {}', 'd: 2001-01-01'):
            try:
                out.append((name, text, repr(yaml.load(text, Loader=L))))
            except yaml.YAMLError as e:
                out.append((name, text, type(e).__name__))
            except Exception as e:
                out.append((name, text, 'EXC ' + type(e).__name__))
    out.append(repr(yaml.safe_load('a: {b: {c: 1}}')))
    out.append(yaml.safe_dump({'a': {'b': 1}}))
    return out


def pristine():
    """what the probes give in a process that never loaded a configuration"""
    return [(n, t, w) for n, t, w in (
        ('safe', 'a: {b: 1}\nc: [1, x]', "{'a': {'b': 1}, 'c': [1, 'x']}"), ('safe', 'x: !eval 1', 'ConstructorError'), ('safe', 'x: !Probe {a: 1}', 'ConstructorError'), ('safe', '!ProbeSchedule {}', 'ConstructorError'), ('safe', 'd: 2001-01-01', "{'d': datetime.date(2001, 1, 1)}"),
        ('full', 'a: {b: 1}\nc: [1, x]', "{'a': {'b': 1}, 'c': [1, 'x']}"), ('full', 'x: !eval 1', 'ConstructorError'), ('full', 'x: !Probe {a: 1}', 'ConstructorError'), ('full', '!ProbeSchedule {}', 'ConstructorError'), ('full', 'd: 2001-01-01', "{'d': datetime.date(2001, 1, 1)}"),
        ('base', 'a: {b: 1}\nc: [1, x]', "{'a': {'b': '1'}, 'c': ['1', 'x']}"), ('base', 'x: !eval 1', "{'x': '1'}"), ('base', 'x: !Probe {a: 1}', "{'x': {'a': '1'}}"), ('base', '!ProbeSchedule {}', '{}'), ('base', 'd: 2001-01-01', "{'d': '2001-01-01'}"))
            ] + ["{'a': {'b': {'c': 1}}}", 'a:\n  b: 1\n']


def cases(tier):
    th = tier == 'thorough'
    out = [('one', k, i) for k in ('flow', 'block') for i in range(16)]
    out += [('two', 2 if th else 1, i) for i in range(64 if th else 16)]
    out += [('seq', n, a) for n in range(1, 5 if th else 4) for a in range(len(TEXTS))]
    out += [('special',), ('file',), ('defaults',)]
    return out


def run(case, r):
    globals()['do_' + case[0]](case, r)


def do_one(case, r):
    _, style, part = case
    ts = trees(3)
    for i, t in enumerate(ts):
        if i % 16 != part:
            continue
        text = 'zz: 5\nent: ' + flow(t) + '\n' if style == 'flow' else 'zz: 5\nent:' + block(t, 1)
        mp = load(text)
        r.execution()
        r.state(style, t)
        r.step()
        if not r.expect(match(mp.ent, t, r, text) and match(mp['ent'], t, r, text) and mp.zz == 5, 'meaning', 'a document does not load to what it says', text=text, got=mp.ent):
            return
        # the same text loads again to an equal but separate configuration
        mp2 = load(text)
        if not r.expect(match(mp2.ent, t, r, text), 'again', 'loading the same text twice gives different settings', text=text):
            return
        v = mp2.ent
        if isinstance(v, list):
            v.append(9)
        elif isinstance(v, Object):
            v.xs = 'changed'
            v.n = 5
        mp2.zz = 77
        r.expect(mp.zz == 5 and match(mp.ent, t, r, text), 'shared', 'two loaded configurations share settings', text=text)
        r.outcome(style, type(mp.ent).__name__)


def do_two(case, r):
    _, depth, part = case
    ts = trees(depth)
    n = 64 if depth == 2 else 16
    for i, (a, b) in enumerate(itertools.product(ts, ts)):
        if i % n != part:
            continue
        text = 'zz: 5\ne1:' + block(a, 1) + 'e2: ' + flow(b) + '\n'
        mp = load(text)
        r.execution()
        r.state(a, b)
        r.step()
        if not r.expect(match(mp.e1, a, r, text) and match(mp.e2, b, r, text), 'meaning', 'a document does not load to what it says', text=text, got=(mp.e1, mp.e2)):
            return


GOOD = {'plain': ('a: 1\nb: {c: 2}\n', lambda m: (m.a, m.b.c) == (1, 2)),
        'eval': ('q: 3\na: !eval mp.q*2\nb: {c: !eval mp.a+1}\n', lambda m: (m.a, m.b.c) == (6, 7)),
        'probe': ('p: !Probe {Npairs: 5}\ns: !ProbeSchedule {rotationVec: [1, 2]}\n', lambda m: (m.p.Npairs, m.p.radius, m.s.rotationVec) == (5, 12, [1, 2])),
        'ctx': ('a: !eval k + 1\n', lambda m: m.a == 5)}
BAD = {'syntax': 'a: [1, 2\n', 'tag': 'a: !nothing 3\n', 'evalmap': 'a: !eval {b: 1}\n', 'list': '- 1\n- 2\n', 'scalar': 'hello\n', 'intkey': '1: 2\n', 'python': 'a: !!python/object/apply:os.getcwd []\n'}
TEXTS = tuple(GOOD) + tuple(BAD)


def do_seq(case, r):
    _, n, first = case
    want = pristine()
    for rest in itertools.product(TEXTS, repeat=n - 1):
        seq = (TEXTS[first],) + rest
        live = []
        ctx = {'k': 4}
        for name in seq:
            r.step()
            if name in GOOD:
                text, ok = GOOD[name]
                mp = load(text, ctx)
                live.append((mp, ok, name))
            else:
                try:
                    load(BAD[name], ctx)
                    r.bad('accepted:' + name, 'a faulty document is loaded without an error', text=BAD[name])
                except Exception:
                    pass
            for mp, ok, nm in live:
                if not r.expect(ok(mp), 'live', 'a loaded configuration changed its meaning after another load', loaded=nm, sequence=seq):
                    return
            r.expect(ctx == {'k': 4}, 'caller', 'loading changed the context of the caller', sequence=seq)
        got = probes()
        r.execution()
        r.state(seq)
        if not r.expect(got == want, 'global', 'loading a configuration changed how YAML is read elsewhere', sequence=seq, differences=[(g, w) for g, w in zip(got, want) if g != w][:3]):
            return


def do_special(case, r):
    """aliases, merge keys, comments, several lines, quoting"""
    docs = (
        ('a: &x {b: 1}\nc: *x\n', lambda m: m.a.b == 1 and m.c.b == 1 and isinstance(m.c, Object)),
        ('a: &x {b: 1, d: 2}\nc:\n  <<: *x\n  d: 5\n', lambda m: (m.c.b, m.c.d, m.a.d) == (1, 5, 2)),
        ('a: &x [1, 2]\nc: *x\n', lambda m: m.c == [1, 2]),
        ('# c\na: 1 # d\n\n\nb:   2\n', lambda m: (m.a, m.b) == (1, 2)),
        ('a: |\n  one\n  two\n', lambda m: m.a == 'one\ntwo\n'),
        ('a: >\n  one\n  two\n', lambda m: m.a == 'one two\n'),
        ("a: '!eval 1'\n", lambda m: m.a == '!eval 1'),
        ("a: !eval '\"x: y\"'\n", lambda m: m.a == 'x: y'),
        ('a: !eval "{\'k\': 1}[\'k\']"\n', lambda m: m.a == 1),
        ('a: !eval |\n  sum(\n    [1,\n     2])\n', lambda m: m.a == 3),
        ('a: !!float 3\nb: !!str 4\nc: !!int "5"\n', lambda m: (m.a, m.b, m.c) == (3.0, '4', 5) and isinstance(m.a, float)),
        ('a: 0x10\nb: .inf\nc: -.inf\nd: 1_000\n', lambda m: (m.a, m.b, m.c, m.d) == (16, np.inf, -np.inf, 1000)),
        ('dm1: {Nact: 8}\ndm2: {Nact: 9}\n', lambda m: (m.dm1.Nact, m.dm2.Nact) == (8, 9)),
        ('P1: {compact: {Nbeam: 50}, full: {Nbeam: 60}}\n', lambda m: (m.P1.compact.Nbeam, m.P1.full.Nbeam) == (50, 60)),
        ('est: {probe: !Probe {Npairs: 2, whichDM: 2}}\n', lambda m: (m.est.probe.Npairs, m.est.probe.whichDM, m.est.probe.axis) == (2, 2, 'alternate')),
        ('a: !Probe {}\nb: !ProbeSchedule {}\n', lambda m: m.a.Npairs == 3 and m.b.xOffsetVec is None),
        ('a: [[1, [2, {b: [3, {c: 4}]}]]]\n', lambda m: m.a[0][1][1].b[1].c == 4),
        ('a: !eval falco.INFLUENCE_XINETICS\nb: !eval math.pi\n', lambda m: m.a == falco.INFLUENCE_XINETICS and m.b == np.pi),
        ('z: !eval mp.a.b\na: {b: !eval "1+1"}\n', lambda m: m.z == 2),
    )
    for i, (text, ok) in enumerate(docs):
        for rep in range(3):
            m = load(text)
            r.execution()
            r.step()
            r.state(i, rep)
            r.expect(ok(m), 'special', 'a document does not load to what it says', text=text)


def do_file(case, r):
    """files load like their text"""
    d = tempfile.mkdtemp(prefix='p17_')
    fn = os.path.join(d, 'c.yaml')
    try:
        for name, (text, ok) in GOOD.items():
            with open(fn, 'w') as f:
                f.write(text)
            for rep in range(2):
                with tiny.quiet():
                    m = ModelParameters.from_yaml_file(fn, {'k': 4})
                r.execution()
                r.step()
                r.state(name, rep)
                r.expect(ok(m) and isinstance(m, ModelParameters), 'file', 'a file does not load like its text', name=name)
            r.expect(open(fn).read() == text, 'file:changed', 'loading changed the file')
        os.remove(fn)
        try:
            with tiny.quiet():
                ModelParameters.from_yaml_file(fn)
            r.bad('file:missing', 'a missing file is loaded')
        except OSError:
            pass
    finally:
        if os.path.exists(fn):
            os.remove(fn)
        os.rmdir(d)


def do_defaults(case, r):
    """branches that a file does not mention keep their defaults; those it mentions are as written"""
    with tiny.quiet():
        ref = ModelParameters()
    br = ('dm1', 'dm2', 'dm8', 'dm9', 'P1', 'P2', 'P3', 'P4', 'F3', 'Fend')
    for n in range(0, 3):
        for ks in itertools.combinations(br, n):
            m = load(''.join('%s: {own: %d}\n' % (k, i) for i, k in enumerate(ks)) or 'x: 1\n')
            r.execution()
            r.state(ks)
            for k in br:
                r.step()
                if k in ks:
                    r.expect(getattr(m, k).own == ks.index(k), 'branch', 'a branch written in the file is not the one loaded', branch=k)
                else:
                    r.expect(getattr(m, k) == getattr(ref, k), 'default', 'a branch the file does not mention lost its defaults', branch=k)
