"""P16: derived settings are evaluated consistently, lazily and thread-safely."""
import copy
import itertools
import os
import pickle
import numpy as np
import falco
from falco.config import Object, Eval, ModelParameters
import sched
import tiny

ID = 'P16'
BOUNDS = {'quick': 'all dependency graphs (including cyclic ones) of 3 derived settings in 4 placements (top level, nested, probe, index access), every reading order, every history of 2 overwrites with reads in between on all graphs with up to 3 edges, copies and pickles; all interleavings of 2 readers and of reader and writer (line granularity, 2 preemptions; bytecode granularity, 1 preemption) and of 3 readers (1 preemption)',
          'thorough': 'graphs of 4 derived settings, histories of 3 overwrites (sparse graphs), 3 preemptions at line and 2 at bytecode granularity (3 readers: 2 and 1)'}
CHUNK = 4
NAMES = ('u', 'v', 'w', 't')
PLACE = {'top': ('u', 'v', 'w', 't'),
         'nested': ('u', 'sub.v', 'sub.deep.w', 't'),
         'probe': ('u', 'pr.v', 'pr.w', 'sub.t'),
         'index': ('u', "sub['v']", "sub['deep']['w']", "['t']")}


def graphs(n):
    edges = list(itertools.product(range(n), repeat=2))
    return range(1 << len(edges))


def deps(g, n):
    return {i: [j for j in range(n) if g >> (i * n + j) & 1] for i in range(n)}


def cases(tier):
    th = tier == 'thorough'
    n = 4 if th else 3
    out = []
    if th:
        out += [('graph', 4, p, lo, lo + 1024) for p in PLACE for lo in range(0, 1 << 16, 1024)]
    out += [('graph', 3, p, lo, lo + 64) for p in PLACE for lo in range(0, 512, 64)]
    out += [('hist', p, lo, lo + 32, 2, 9 if th else 3 if p == 'nested' else 1) for p in ('nested', 'probe') for lo in range(0, 512, 32)]
    if th:
        out += [('hist', 'nested', lo, lo + 32, 3, 2) for lo in range(0, 512, 32)]
    out += [('err',), ('scope',), ('ctx',)]
    for k in THREADS:
        for mode in ('line', 'opcode'):
            b = {('line', False): 2, ('line', True): 3, ('opcode', False): 1, ('opcode', True): 2}[mode, th]
            if k[0] == '3':
                b = 2 if th and mode == 'line' else 1
            n = 8 if b > 1 and k[0] == '3' else 4 if b > 2 else 2 if b > 1 and mode == 'line' else 1
            out += [('threads', k, mode, b, p, n) for p in range(n)]
    return out


def run(case, r):
    globals()['do_' + case[0]](case, r)


def ref(place, i):
    p = PLACE[place][i]
    return 'mp' + p if p.startswith('[') else 'mp.' + p


def yaml_for(place, dep, n):
    """text of a configuration with setting i = base_i + 10 * sum of its dependencies"""
    ex = ['mp.base%d%s' % (i, ''.join(' + 10*%s' % ref(place, j) for j in dep[i])) for i in range(n)]
    lines = ['base%d: %d' % (i, i + 1) for i in range(n)]
    where = {'top': [(0, 'u'), (0, 'v'), (0, 'w'), (0, 't')],
             'nested': [(0, 'u'), ('sub', 'v'), ('deep', 'w'), (0, 't')],
             'probe': [(0, 'u'), ('pr', 'v'), ('pr', 'w'), ('sub', 't')]}
    where['index'] = where['nested']
    blocks = {0: [], 'sub': [], 'deep': [], 'pr': []}
    for i in range(n):
        b, nm = where[place][i]
        blocks[b].append('%s: !eval %s' % (nm, ex[i]))
    lines += blocks[0]
    lines.append('sub:')
    lines.append('  k: 0')
    lines += ['  ' + x for x in blocks['sub']]
    lines.append('  deep:')
    lines.append('    k: 0')
    lines += ['    ' + x for x in blocks['deep']]
    lines.append('pr: !Probe')
    lines.append('  Npairs: 2')
    lines += ['  ' + x for x in blocks['pr']]
    return '\n'.join(lines)


def load(text, ctx=None):
    with tiny.quiet():
        return ModelParameters.from_yaml(text, ctx)


def read(mp, place, i):
    """('val', v) | ('cycle',) | ('err', type)"""
    o = mp
    for p in PLACE[place][i].replace("['", '.#').replace("']", '').strip('.').split('.'):
        try:
            o = o[p[1:]] if p.startswith('#') else getattr(o, p)
        except ValueError as e:
            return ('cycle',) if 'ircular' in str(e) else ('err', 'ValueError')
        except RecursionError:
            return ('err', 'RecursionError')
    return ('val', o)


class Cycle(Exception):
    pass


def value(i, expr, base, path=()):
    """reference evaluation: expr[i] is a list of dependencies or ('const', v)"""
    e = expr[i]
    if isinstance(e, tuple):
        return e[1]
    if i in path:
        raise Cycle()
    return base[i] + sum(10 * value(j, expr, base, path + (i,)) for j in e)


def expected(i, expr, base):
    try:
        return ('val', value(i, expr, base))
    except Cycle:
        return ('cycle',)


def check_all(mp, place, expr, base, n, r, seq, **d):
    for i in seq:
        got = read(mp, place, i)
        r.step()
        want = expected(i, expr, base)
        if got != want:
            key = 'cycle:missed' if want == ('cycle',) else 'cycle:spurious' if got == ('cycle',) else 'value'
            r.bad(key, 'a derived setting evaluates to %r instead of %r' % (got, want), setting=PLACE[place][i], expr=expr, base=base, **d)
            return False
    return True


def do_graph(case, r):
    _, n, place, lo, hi = case
    for g in range(lo, hi):
        dep = deps(g, n)
        mp = load(yaml_for(place, dep, n))
        base = {i: i + 1 for i in range(n)}
        r.execution()
        r.state(place, g)
        ok = True
        for order in itertools.permutations(range(n)):
            ok = ok and check_all(mp, place, dep, base, n, r, order, order=order, graph=g)
        for kind in ('deepcopy', 'pickle'):
            c = copy.deepcopy(mp) if kind == 'deepcopy' else pickle.loads(pickle.dumps(mp))
            c.base0 = 100
            ok = ok and check_all(c, place, dep, {**base, 0: 100}, n, r, range(n), how=kind)
            ok = ok and check_all(mp, place, dep, base, n, r, range(n), how=kind + ' original')
        if not ok:
            return
        r.outcome(tuple(expected(i, dep, base) for i in range(n)))


def write(mp, place, i, v):
    p = PLACE[place][i].split('.')
    o = mp
    for q in p[:-1]:
        o = getattr(o, q)
    setattr(o, p[-1], v)


def do_hist(case, r):
    _, place, lo, hi, depth, most = case
    n = 3
    ops = [('base', i) for i in range(n)] + [('const', i) for i in range(n)] + [('item', i) for i in range(n)] + [('derive', i, j) for i in range(n) for j in range(n)]
    for g in range(lo, hi):
        dep = deps(g, n)
        if bin(g).count('1') > most:
            continue
        for seq in itertools.product(ops, repeat=depth):
            # reads in between are part of the history
            if depth == 3 and len(set(seq)) < 3:
                continue
            mp = load_cached(place, g, n)
            expr, base = {k: list(v) for k, v in dep.items()}, {i: i + 1 for i in range(n)}
            r.execution()
            if not check_all(mp, place, expr, base, n, r, range(n), history=()):
                return
            for k, op in enumerate(seq):
                i = op[1]
                if op[0] == 'base':
                    base[i] = 7 + k
                    setattr(mp, 'base%d' % i, 7 + k)
                elif op[0] == 'const':
                    expr[i] = ('const', 50 + k)
                    write(mp, place, i, 50 + k)
                elif op[0] == 'item':
                    expr[i] = ('const', 60 + k)
                    p = PLACE[place][i].split('.')
                    o = mp
                    for q in p[:-1]:
                        o = o[q]
                    o[p[-1]] = 60 + k
                else:
                    expr[i] = [op[2]]
                    write(mp, place, i, Eval({}, {'mp': mp}, 'mp.base%d + 10*%s' % (i, ref(place, op[2]))))
                if not check_all(mp, place, expr, base, n, r, (range(n) if k % 2 else reversed(range(n))), history=seq[:k + 1], graph=g):
                    return
            r.state(place, g, sorted((k, str(v)) for k, v in expr.items()), sorted(base.items()))


_CACHE = {}


def load_cached(place, g, n):
    k = (place, g, n)
    if k not in _CACHE:
        _CACHE.clear()
        _CACHE[k] = pickle.dumps(load(yaml_for(place, deps(g, n), n)))
    return pickle.loads(_CACHE[k])


def do_err(case, r):
    """an error in one evaluation does not poison later ones"""
    kinds = {'1/mp.d': (ZeroDivisionError, 0, 4, 0.25), 'mp.lst[mp.d]': (IndexError, 9, 1, 20), 'mp.nothing.x': (AttributeError, None, None, None),
             'np.linalg.inv(np.ones((2,2))*mp.d)': (np.linalg.LinAlgError, 1, None, None)}
    for ex, (err, badv, goodv, want) in kinds.items():
        for nest in (0, 1, 2):
            text = 'd: %s\nlst: [10, 20]\nx: !eval %s\n' % (badv if badv is not None else 0, ex)
            text += 'y: !eval mp.x\nsub:\n  z: !eval mp.y\n'
            mp = load(text)
            rd = [lambda: mp.x, lambda: mp.y, lambda: mp.sub.z][nest]
            for rep in range(3):
                r.execution()
                try:
                    v = rd()
                    r.bad('err:silent', 'a failing expression returns a value', expr=ex, got=v)
                except err:
                    pass
                except ValueError as e:
                    if not (err is ValueError):
                        r.bad('err:poison', 'after an error the setting is reported as circular', expr=ex, error=str(e), repeat=rep)
                r.state(ex, nest, rep)
            if goodv is not None:
                mp.d = goodv
                r.expect(rd() == want and mp.x == want, 'err:recover', 'after an error the setting does not evaluate to its value', expr=ex)
                mp.d = badv
                try:
                    rd()
                    r.bad('err:stale', 'a stale value is returned after the dependency changed', expr=ex)
                except err:
                    pass
            if ex == 'mp.nothing.x':
                mp.nothing = Object(x=5)
                r.expect(rd() == 5, 'err:recover2', 'a setting is not evaluated after its dependency appeared', expr=ex)
    # a cycle that is broken by an overwrite evaluates, one that is restored is reported
    mp = load('a: !eval mp.b + 1\nb: !eval mp.a + 1\n')
    for k in range(3):
        r.expect(read2(mp, 'a') == 'cycle' and read2(mp, 'b') == 'cycle', 'cycle', 'a circular definition is not reported', step=k)
        e = mp.data['b']
        mp.b = 5
        r.expect(read2(mp, 'a') == 6, 'cycle:broken', 'a definition that is no longer circular is not evaluated')
        mp.b = Eval(e.globals, e.locals, e.code)
        r.execution()
        r.state('brk', k)
    # evaluation is lazy: nothing is evaluated on loading, each read evaluates once
    mp = load('n: !eval calls.append(1) or len(calls)\nm: !eval mp.n\n', {'calls': []})
    r.expect(mp.n == 1 and mp.n == 2 and mp.m == 3, 'lazy', 'a derived setting is evaluated when loaded, or more or less than once per read')


def read2(mp, n):
    try:
        return getattr(mp, n)
    except ValueError as e:
        return 'cycle' if 'ircular' in str(e) else 'err'


def do_scope(case, r):
    """expressions see numpy, falco, math, mp and the context from every scope"""
    body = {'mp.q': 4, 'np.sum(np.ones(3))': 3, 'math.floor(2.5)': 2, 'k': 11, 'falco.util.ceil_even(3)': 4, 'len([1, 2])': 2}
    shape = {'{0}': lambda v: v, '({0}) + ({0})': lambda v: 2 * v, 'list({0} for i in range(2))': lambda v: [v, v],
             'sum(({0}) for i in range(3))': lambda v: 3 * v, '(lambda: {0})()': lambda v: v, 'list(map(lambda i: {0}, [1]))': lambda v: [v],
             'dict(a={0})["a"]': lambda v: v, 'list(list({0} for i in range(1)) for j in range(2))': lambda v: [[v], [v]],
             '(lambda f: f())(lambda: sum({0} for _ in [1]))': lambda v: v}
    for b, v in body.items():
        for s, f in shape.items():
            for nest in ("x: !eval '{0}'", "sub:\n  x: !eval '{0}'", "lst: !eval '[{0}]'"):
                mp = load('q: 4\n' + nest.format(s.format(b)), {'k': 11})
                r.execution()
                r.state(b, s, nest)
                got = mp.x if nest.startswith('x') else mp.sub.x if nest.startswith('sub') else mp.lst[0]
                r.expect(got == f(v), 'scope', 'an expression does not evaluate to its value', expr=s.format(b), got=got, want=f(v))
                r.step()


def do_ctx(case, r):
    """several configurations at once: each sees its own settings and context"""
    for same_ctx in (False, True):
        for how in itertools.product((0, 1, 2), repeat=2):
            ctx = {'k': 1}
            objs = []
            for q in (3, 5, 8):
                objs.append((load('q: %d\nx: !eval mp.q * k\nsub:\n  y: !eval mp.x + 1\n' % q, ctx if same_ctx else {'k': 1}), q))
                for o, qq in objs:
                    r.step()
                    r.expect(o.x == qq and o.sub.y == qq + 1, 'ctx', 'a configuration evaluates to the settings of another one', got=(o.x, o.sub.y), want=qq, shared=same_ctx)
            for h in how:
                o, qq = objs[h]
                o.q = qq = qq + 100
                objs[h] = (o, qq)
                for o, qq in objs:
                    r.expect(o.x == qq and o.sub.y == qq + 1, 'ctx:write', 'a write to one configuration changes another', shared=same_ctx)
            r.expect(ctx == {'k': 1}, 'ctx:caller', 'loading changed the context dictionary of the caller', got=sorted(ctx))
            r.execution()
            r.state(same_ctx, how)


# ---- threads
CFG = os.path.join('falco', 'config')

THREADS = {
    '2read': ('a: !eval mp.base + 1\n', [('a',), ('a',)], {}),
    '2chain': ('b: !eval mp.base + 1\na: !eval mp.b * 2\n', [('a',), ('b',)], {}),
    '2cross': ('b: !eval mp.base + 1\na: !eval mp.b * 2\nc: !eval mp.b * 3\n', [('a',), ('c',)], {}),
    '2nested': ('b: !eval mp.sub.d\nsub:\n  d: !eval mp.base\n', [('b',), ('sub', 'd')], {}),
    '2cycle': ('a: !eval mp.b\nb: !eval mp.a\n', [('a',), ('b',)], {}),
    '2mixed': ('a: !eval mp.a\nb: !eval mp.base\n', [('a',), ('b',)], {}),
    '2err': ('a: !eval 1/mp.base\nbase2: 0\nb: !eval 1/mp.base2\n', [('a',), ('b',)], {}),
    '2twice': ('b: !eval mp.base\na: !eval mp.b + mp.b\n', [('a',), ('a',)], {}),
    'rw': ('a: !eval mp.base * 2\n', [('a',), ('=base', 7)], {'a': (2, 14)}),
    'rw2': ('b: !eval mp.base\na: !eval mp.b * 2\n', [('a',), ('=b', 7)], {'a': (2, 14)}),
    'rnew': ('a: !eval mp.base * 2\n', [('a',), ('=other', 7)], {'a': (2,)}),
    '3read': ('b: !eval mp.base + 1\na: !eval mp.b * 2\n', [('a',), ('b',), ('a',)], {}),
}


def do_threads(case, r):
    _, name, mode, bound, part, parts = case
    text, tasks, allowed = THREADS[name]
    text = 'base: 1\n' + text
    master = pickle.dumps(load(text))

    def serial(path):
        mp = pickle.loads(master)
        return outcome(lambda: get(mp, path))

    def get(mp, path):
        for p in path:
            mp = getattr(mp, p)
        return mp

    def outcome(f):
        try:
            return ('val', f())
        except ValueError as e:
            return ('cycle',) if 'ircular' in str(e) else ('err', str(e))
        except Exception as e:
            return ('err', type(e).__name__)
    want = {}
    for t in tasks:
        if t[0].startswith('='):
            continue
        want[t] = {('val', v) for v in allowed[t[-1]]} if t[-1] in allowed else {serial(t)}
    cur = {}

    def execute(prefix):
        mp = pickle.loads(master)
        s = sched.Sched(prefix)
        fs = []
        for t in tasks:
            if t[0].startswith('='):
                fs.append(lambda t=t: setattr(mp, t[0][1:], t[1]))
            else:
                fs.append(lambda t=t: outcome(lambda: get(mp, t)))
        tr = sched.code_tracer(s, lambda co: CFG in co.co_filename or co.co_filename == '<string>', mode == 'opcode')
        res = s.run(fs, len(fs), tr)
        cur['mp'], cur['res'] = mp, res
        return s

    def visit(s):
        r.execution()
        r.step(len(s.trace))
        got = []
        for t, (ok, v) in zip(tasks, cur['res']):
            if t[0].startswith('='):
                r.expect(ok, 'threads:write', 'writing a setting raised %r' % (v,), case=name)
                continue
            got.append(v)
            if not r.viol:
                r.expect(ok and v in want[t], 'threads:' + ('spurious cycle' if v == ('cycle',) else 'value'), 'a setting read while another thread reads or writes settings gives a result no serial order gives', case=name, got=v, want=want[t], schedule=[c for _, _, c in s.trace][:400])
        # afterwards everything evaluates as if nothing had been concurrent
        for t in tasks:
            if not t[0].startswith('=') and not any(x[0].startswith('=') for x in tasks):
                if not r.viol:
                    r.expect(outcome(lambda: get(cur['mp'], t)) == next(iter(want[t])), 'threads:after', 'after concurrent reads a setting no longer evaluates', case=name)
        r.state(name, tuple(c for _, _, c in s.trace))
        r.outcome(name, repr(got))
    sched.explore(execute, bound, visit, take=lambda i: i % parts == part)
