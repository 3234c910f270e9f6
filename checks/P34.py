"""P34: running prescriptions singly or in parallel gives the same fields."""
import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile
import numpy as np
import falco
import falco.proper as proper
import pools
import sched

ID = 'P34'
BOUNDS = {'quick': 'prop_run: all histories of 2 runs over {wavelength number, wavelength file of 1..3 rows} x {no, one, another passed value} x {phase offset, table, verbose, intensity, quiet}; prop_run_multi: every combination of 1..3 wavelengths (number, list, array) and 0..3 passed values (none, dictionary, list, array), every execution order of the workers, 3 pool sizes, a failure in every worker; every extraction size',
          'thorough': 'histories of 3 runs, up to 4 wavelengths and passed values (24 orders)'}
CHUNK = 8
RX = '''
import numpy as np
import falco.proper as proper
CALLS = []

def vprx_a(lam, n, PASSVALUE={'tilt': 0.}):
    CALLS.append((lam, n, dict(PASSVALUE)))
    t = PASSVALUE.get('tilt', 0.)
    if PASSVALUE.get('fail'):
        raise ValueError('prescription failed')
    wf = proper.prop_begin(0.02, lam, n, 0.4)
    proper.prop_circular_aperture(wf, 0.01)
    proper.prop_define_entrance(wf)
    x = np.arange(n) - n // 2
    proper.prop_add_phase(wf, (1e-7 + t) * np.outer(x, x) / n**2)
    proper.prop_lens(wf, 1.0 + 1e5 * t)
    proper.prop_propagate(wf, 0.9)
    kw = {}
    if 'extract' in PASSVALUE:
        kw['EXTRACT'] = PASSVALUE['extract']
    return proper.prop_end(wf, NOABS=PASSVALUE.get('noabs', True), **kw)
'''
LAMS = [0.5, 0.55, 0.6, 0.7]
PV = [{'tilt': 3e-8}, {'tilt': -5e-8}, {'tilt': 9e-8}, {'tilt': 2e-7}]
N = 16


def cases(tier):
    th = tier == 'thorough'
    m = 4 if th else 3
    out = []
    for nl in range(1, m + 1):
        for lk in (('num', 'list', 'arr', 'npnum') if nl == 1 else ('list', 'arr')):
            for npv in range(0, m + 1):
                for pk in (('none',) if npv == 0 else ('dict', 'list', 'arr') if npv == 1 else ('list', 'arr')):
                    for po in (0, 1):
                        out.append(('multi', nl, lk, npv, pk, po))
    out += [('hist', 3 if th else 2, i) for i in range(len(runs()))]
    out += [('extract', n) for n in (8, 16)] + [('bad',), ('files',)]
    return out


def runs():
    out = []
    for lam in ('num', 'file1', 'file2', 'file3'):
        for pv in (None, 0, 1):
            for fl in ((), ('PHASE_OFFSET',), ('TABLE',), ('VERBOSE', 'PRINT_INTENSITY'), ('QUIET',)):
                if lam == 'num' or len(fl) and fl[0] in ('PHASE_OFFSET', 'QUIET'):
                    out.append((lam, pv, fl))
    return out


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='p34_')
        self.env = os.environ.get('OMP_NUM_THREADS')
        open(os.path.join(self.d, 'vprx_a.py'), 'w').write(RX)
        sys.path.insert(0, self.d)
        sys.modules.pop('vprx_a', None)
        import importlib
        importlib.invalidate_caches()
        import vprx_a
        self.m = vprx_a
        for k in (1, 2, 3):
            with open(self.path(k), 'w') as f:
                for i in range(k):
                    f.write('%g %g\n' % (LAMS[i], 0.3 + 0.5 * i))
        return self

    def path(self, k):
        return os.path.join(self.d, 'lam%s.txt' % k)

    def __exit__(self, *a):
        sys.path.remove(self.d)
        sys.modules.pop('vprx_a', None)
        shutil.rmtree(self.d, ignore_errors=True)
        if self.env is None:
            os.environ.pop('OMP_NUM_THREADS', None)
        else:
            os.environ['OMP_NUM_THREADS'] = self.env
        proper.phase_offset = False
        proper.do_table = False
        proper.print_it = False
        proper.verbose = False
        proper.print_total_intensity = False


def alone(sc, lam, pv, po, n=N):
    """the prescription by itself"""
    proper.phase_offset = bool(po)
    proper.do_table = proper.verbose = proper.print_it = proper.print_total_intensity = False
    with contextlib.redirect_stdout(io.StringIO()):
        E, dx = sc.m.vprx_a(lam * 1e-6, n, *(() if pv is None else (dict(pv),)))
    E = E.copy()
    del sc.m.CALLS[:]
    return E, dx


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-14 * np.max(np.abs(b)) if b.size else 0)


def run(case, r):
    with Scratch() as sc:
        globals()['do_' + case[0]](case, r, sc)


def do_multi(case, r, sc):
    _, nl, lk, npv, pk, po = case
    lam = {'num': LAMS[0], 'npnum': np.float64(LAMS[0]), 'list': LAMS[:nl], 'arr': np.array(LAMS[:nl])}[lk]
    bad = nl > 1 and npv > 1 and nl != npv
    n = max(nl, npv)
    pl = [dict(p) for p in PV[:npv]]

    def passed(q):
        return {'none': None, 'dict': q[0] if q else None, 'list': q, 'arr': np.array(q + [None], dtype=object)[:-1]}[pk]

    def one(i, q):
        return LAMS[i] if nl > 1 else LAMS[0], None if npv == 0 else q[i] if npv > 1 else q[0]
    fact = [1, 1, 2, 6, 24][n]
    for ncpu in (None, 1, 2):
        for perm in range(fact):
            for fail in (None,) + (tuple(range(npv)) if perm in (0, fact - 1) else ()):
                q = [dict(p) for p in pl]
                if fail is not None:
                    q[fail]['fail'] = True
                kw = {} if npv == 0 else {'PASSVALUE': passed(q)}
                if ncpu:
                    kw['NCPUS'] = ncpu
                if po:
                    kw['PHASE_OFFSET'] = True
                d = dict(wavelengths=lam, passed=pk, npassed=npv, order=perm, ncpus=ncpu, failing=fail, phase_offset=po)
                pools.CTL.sched, pools.CTL.tracer, pools.CTL.sizes, pools.CTL.perm = sched.Sched(), None, (), perm
                got = err = None
                with pools.Installed(), contextlib.redirect_stdout(io.StringIO()):
                    try:
                        got = proper.prop_run_multi('vprx_a', lam, N, QUIET=True, **kw)
                    except Exception as e:
                        err = e
                r.execution()
                r.step(n)
                r.state(case, ncpu, perm, fail)
                r.outcome(type(err).__name__, n)
                if bad:
                    r.expect(err is not None, 'mismatch', 'different numbers of wavelengths and passed values are accepted', **d)
                    continue
                if fail is not None:
                    r.expect(err is not None, 'failure', 'a failing worker is not reported', **d)
                    continue
                if err is not None:
                    r.bad('raises', 'the parallel run raises %s: %s' % (type(err).__name__, err), **d)
                    return
                F, dx = got
                if not r.expect(len(F) == n and np.size(dx) == n, 'count', 'not one field and sampling per run', got=np.shape(F), **d):
                    return
                for i in range(n):
                    l, p = one(i, pl)
                    E, s = alone(sc, l, p, po)
                    r.expect(close(F[i], E) and abs(np.ravel(dx)[i] - s) <= 1e-12 * s, 'field', 'run %d differs from the prescription run alone with its wavelength and passed value' % i, **d)
                if r.viol:
                    return


def do_hist(case, r, sc):
    """flags and results of one run do not leak into the next"""
    _, depth, first = case
    R = runs()
    ref = {}

    def want(run):
        lam, pv, fl = run
        if run not in ref:
            po = 'PHASE_OFFSET' in fl
            p = None if pv is None else PV[pv]
            if lam == 'num':
                ref[run] = alone(sc, LAMS[1], p, po)
            else:
                k = int(lam[4:])
                E = 0
                for i in range(k):
                    e, dx = alone(sc, LAMS[i], p, po)
                    E = E + (0.3 + 0.5 * i) * e
                ref[run] = E, dx
        return ref[run]
    for run_ in R:
        want(run_)
    prefixes = [(first,)] if depth == 2 else [(first, j) for j in range(0, len(R), 2)]
    for pre in prefixes:
        for nxt in range(len(R)):
            seq = [R[i] for i in pre + (nxt,)]
            proper.phase_offset = proper.do_table = False
            for k, (lam, pv, fl) in enumerate(seq):
                kw = {f: True for f in fl}
                if pv is not None:
                    kw['PASSVALUE'] = dict(PV[pv])
                with contextlib.redirect_stdout(io.StringIO()):
                    E, dx = proper.prop_run('vprx_a', LAMS[1] if lam == 'num' else sc.path(lam[4:]), N, **kw)
                r.step()
                if k < len(seq) - 1 and depth > 2:
                    continue
                w, s = want(seq[k])
                r.expect(close(E, w) and abs(dx - s) <= 1e-12 * s, 'run', 'the run differs from the weighted sum of the prescription at its wavelengths', runs=seq[:k + 1], got=dx, want=s)
            r.state(case, pre, nxt)
            r.execution()
            if r.viol:
                return


def do_extract(case, r, sc):
    n = case[1]
    full = {na: alone(sc, LAMS[0], {'tilt': 0., 'noabs': na}, 0, n) for na in (True, False)}
    r.expect(close(full[False][0], np.abs(full[True][0])**2), 'intensity', 'the intensity is not the squared modulus of the field')
    for na in (True, False):
        for e in range(1, n + 1):
            with contextlib.redirect_stdout(io.StringIO()):
                E, dx = proper.prop_run('vprx_a', LAMS[0], n, QUIET=True, PASSVALUE={'tilt': 0., 'noabs': na, 'extract': e})
            w = full[na][0][n // 2 - e // 2:, n // 2 - e // 2:][:e, :e]
            r.state(case, na, e)
            r.step()
            r.execution()
            r.expect(close(E, w) and dx == full[na][1], 'extract', 'the extracted part is not the central %d pixels' % e, grid=n, got=np.shape(E))


def do_bad(case, r, sc):
    def fails(name, *a, **k):
        r.step()
        r.execution()
        r.state(name)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                proper_fn(*a, **k)
        except Exception:
            return
        r.bad('accepted:' + name, 'the call is accepted', call=name)
    for proper_fn in (proper.prop_run, proper.prop_run_multi):
        pools.CTL.sched, pools.CTL.tracer, pools.CTL.sizes, pools.CTL.perm = sched.Sched(), None, (), 0
        with pools.Installed():
            for n in (3, 12, 17, 100):
                fails('gridsize %d' % n, 'vprx_a', 0.5, n)
            fails('no such prescription', 'vprx_missing', 0.5, N)
            fails('failing prescription', 'vprx_a', 0.5, N, PASSVALUE={'fail': True})
            fails('no such file', 'vprx_a', os.path.join(sc.d, 'none.txt'), N)
            if proper_fn is proper.prop_run_multi:
                fails('passed value', 'vprx_a', 0.5, N, PASSVALUE='text')


def do_files(case, r, sc):
    """wavelength tables with one to three rows, comments and further columns"""
    for k in (1, 2, 3):
        for head in ('', '# wavelength weight\n'):
            for extra in ('', ' 7 8'):
                fn = os.path.join(sc.d, 't.txt')
                with open(fn, 'w') as f:
                    f.write(head)
                    for i in range(k):
                        f.write('%g %g%s\n' % (LAMS[i], 1. - 0.2 * i, extra))
                with contextlib.redirect_stdout(io.StringIO()):
                    E, dx = proper.prop_run('vprx_a', fn, N, QUIET=True)
                n = [c[0] for c in sc.m.CALLS]
                del sc.m.CALLS[:]
                w = sum((1. - 0.2 * i) * alone(sc, LAMS[i], None, 0)[0] for i in range(k))
                r.step()
                r.execution()
                r.state(case, k, head, extra)
                r.expect(close(E, w) and np.allclose(n, np.array(LAMS[:k]) * 1e-6), 'table', 'the result is not the weighted sum over the wavelength table', rows=k)
