"""P15: parallel and serial evaluation give identical results under every schedule."""
import copy
import os
import types
import numpy as np
import falco
from falco.config import Object
import core
import pools
import sched
import snap
import tiny

ID = 'P15'
BOUNDS = {'quick': '2 workers on 2..3 tasks: parallel Jacobians (Lyot, vortex, mask cube), summed and sub-band images (Lyot, mask cube, PROPER prescription with polarisation, two stars), normalisations and perfect estimates; (a) every completion order and every single preemption at the first visit of every source line of the library (every other configuration), (b) every placement of up to two preemptions at accesses to a setting or module variable that some task writes; process pools (grid search, Zernike sensitivities): every fifth execution order of up to 4 tasks, arguments and results pickled',
          'thorough': '3 workers on up to 4 tasks, all configurations and 12 more, the first six visits of every line, all 24 execution orders'}
CHUNK = 1
CASE_TIMEOUT = 800
ASSUMPTIONS = ['numpy and scipy calls are atomic with respect to the scheduler']
LIB = os.path.join(os.path.realpath(core.REPO), 'falco') + os.sep
SKIP = (os.path.join(LIB, 'config') + os.sep,)       # P16 explores these

_B = {}


def few(mp, n1, n2):
    """keep only the first actuators, so that a Jacobian is a handful of tasks"""
    mp.dm1.act_ele = mp.dm1.act_ele[:n1]
    mp.dm2.act_ele = mp.dm2.act_ele[:n2]
    mp.dm1.Nele, mp.dm2.Nele = len(mp.dm1.act_ele), len(mp.dm2.act_ele)


def conf(name):
    kw = dict(nact=2, nbeam=8, rin=2.0, rout=2.6, fov=3.0, frac_bw=0.2, vtoh=5e-9, nthreads=2)
    kind, _, opt = name.partition('+')
    nsbp, nw = 1, 1
    if 's' in opt:
        nsbp = 2
    if 'w' in opt:
        nw = 2
    if 'S' in opt:
        nsbp = 3
    if 'z' in opt:
        kw.update(zerns=(1, 2), zcoef=2e-9)
    if '2' in opt:
        kw.update(stars=[(0, 0, 1.0, 1.0), (2.5, 1.0, 0.3, 0.4)])
    kw.update(nsbp=nsbp, nwpsbp=nw)
    if kind == 'PROPER':
        kw.update(nbeam=14)
        return tiny.proper_config(pol=(-1, 1) if 'p' in opt else (0,), **kw)[0]
    if kind == 'HLC':
        n = nsbp * (nw - 1) + 1 if nsbp > 1 and nw > 1 else max(nsbp, nw)
        return tiny.build(coro='HLC', layout='fpm_scale', hlc_full=lambda cube: cube(n), **kw)[0]
    return tiny.build(coro=kind, **kw)[0]


def base(name):
    if name not in _B:
        with tiny.quiet():
            mp = conf(name)
        mp.dm1.V = 1.3 * np.sin(np.arange(mp.dm1.Nact**2 * 1.)).reshape(mp.dm1.Nact, -1)
        mp.dm2.V = 1.1 * np.cos(1.3 * np.arange(mp.dm2.Nact**2 * 1.)).reshape(mp.dm2.Nact, -1)
        _B.clear()
        _B[name] = mp
    return _B[name]


# -- what is evaluated, returning arrays
def t_jac(mp):
    few(mp, 2, 1)
    j = falco.model.jacobian(mp)
    return {'G1': j.G1, 'G2': j.G2}


def t_jac1(mp):
    few(mp, 1, 0)
    mp.dm_ind = np.array([1])
    j = falco.model.jacobian(mp)
    return {'G1': j.G1}


def t_sum(mp):
    return {'I': falco.imaging.get_summed_image(mp)}


def t_sbp(mp):
    return {'I%d' % s: falco.imaging.get_sbp_image(mp, s) for s in range(min(mp.Nsbp, 1))}


def t_norm(mp):
    mp.sumAll = 0
    falco.imaging.calc_psf_norm_factor(mp)
    return {'full': mp.Fend.full.I00, 'compact': mp.Fend.compact.I00}


def t_est(mp):
    ev = Object()
    ev.Itr = 0
    falco.est.perfect(mp, ev)
    return {'E': ev.Eest, 'I': ev.imageArray}


def t_zern(mp):
    mp.eval.indsZnoll = np.array([2, 3])
    mp.eval.Rsens = np.array([[2., 2.6]])
    return {'dE': falco.zern.calc_zern_sens(mp)}


def t_grid(mp):
    jac = falco.model.jacobian(serial(copy.deepcopy(mp)))
    ev = Object()
    ev.Itr = 0
    falco.est.perfect(serial(copy.deepcopy(mp)), ev)
    mp.controller = 'gridsearchEFC'
    mp.ctrl.log10regVec = np.array([-4., -2.])
    mp.ctrl.dmfacVec = np.array([1., 0.7])
    cvar = Object()
    cvar.Itr = 0
    cvar.Eest = ev.Eest
    cvar.NeleAll = mp.dm1.Nele + mp.dm2.Nele
    cvar.flagRelin = True
    falco.ctrl.wrapper(mp, cvar, jac)
    return {'d1': mp.dm1.dV, 'd2': mp.dm2.dV, 'cMin': cvar.cMin, 'Im': cvar.Im, 'log': cvar.log10regUsed}


def serial(mp):
    mp.flagParallel = False
    return mp


THREAD = [('t_jac', 'LC'), ('t_jac1', 'LC+z'), ('t_jac', 'VC'), ('t_jac1', 'HLC+s'), ('t_sum', 'LC+s'), ('t_sum', 'HLC+S'), ('t_sum', 'PROPER+sp'),
          ('t_sum', 'VC+2w'), ('t_sbp', 'LC+w'), ('t_sbp', 'PROPER+wp'), ('t_norm', 'LC+s'), ('t_norm', 'HLC+s'), ('t_norm', 'PROPER+s'), ('t_est', 'LC+z'), ('t_est', 'HLC+s'), ('t_est', 'PROPER+sp'), ('t_est', 'PROPER+sz'), ('t_est', 'LC+s2')]
MORE = [('t_jac', 'FLC'), ('t_jac', 'SPLC'), ('t_jac', 'HLC'), ('t_jac1', 'VC+s'), ('t_sum', 'LC+S'), ('t_sum', 'LC+2s'), ('t_sum', 'PROPER+2s'), ('t_norm', 'VC+S'), ('t_norm', 'LC+sw'), ('t_est', 'VC+sw'), ('t_est', 'PROPER+zp'), ('t_est', 'HLC+sz')]
LINES = THREAD[::2]
PROC = [('t_grid', 'LC'), ('t_grid', 'VC+s'), ('t_zern', 'LC'), ('t_zern', 'LC+s'), ('t_zern', 'PROPER+p')]


def cases(tier):
    th = tier == 'thorough'
    out = []
    for t, c in THREAD + (MORE if th else []):
        parts = 12 if th else 3
        if th or (t, c) in LINES:
            out += [('lines', t, c, 3 if th else 2, 6 if th else 1, p, parts) for p in range(parts)]
        out.append(('shared', t, c, 3 if th else 2, 2))
    for t, c in PROC:
        n = 24
        out += [('procs', t, c, p) for p in range(0, n, 1 if th else 5)]
    return out


def freeze(x):
    return {k: np.array(v, copy=True) for k, v in x.items()}


def equal(a, b):
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    s = float(np.max(np.abs(b))) if b.size else 0.
    return np.allclose(a, b, rtol=1e-10, atol=1e-13 * s, equal_nan=True)


def reference(fn, mp0):
    mp = serial(copy.deepcopy(mp0))
    with tiny.quiet():
        out = freeze(fn(mp))
    return out, (snap.take(mp0), snap.take(mp))


def judge(r, tag, got, err, want, mp, wsnap, d):
    if r.viol:
        return
    if err is not None:
        r.bad('raises:' + tag, 'the parallel evaluation raises %s: %s' % (type(err).__name__, err), **d)
        return
    for k in want:
        r.expect(k in got and equal(got[k], want[k]), 'differs:' + tag, 'the parallel result %s differs from the serial one' % k, got=got.get(k), want=want[k], **d)
    after = snap.take(mp)
    # each setting is as before or as the serial evaluation leaves it
    ch = set(snap.changed(wsnap[1], after, new=True)) & set(snap.changed(wsnap[0], after, new=True))
    ch = sorted(p for p in ch if p.lstrip('+') not in ('flagParallel', 'Nthreads'))
    r.expect(not ch, 'settings:' + tag, 'the parallel evaluation leaves other settings than the serial one: %s' % ch[:4], **d)


def run(case, r):
    globals()['do_' + case[0]](case, r)


def lib_code(co, cache={}):
    v = cache.get(co)
    if v is None:
        fn = os.path.realpath(co.co_filename)
        v = cache[co] = fn.startswith(LIB) and not fn.startswith(SKIP)
    return v


def do_lines(case, r):
    _, t, cname, workers, visits, part, parts = case
    fn, mp0 = globals()[t], base(cname)
    want, wsnap = reference(fn, mp0)
    cur = {}

    def execute(prefix):
        s = sched.Sched(prefix)
        mp = copy.deepcopy(mp0)
        mp.flagParallel, mp.Nthreads = True, workers
        count = {}

        def local(frame, event, arg):
            if event == 'line':
                k = (s.me(), frame.f_code, frame.f_lineno)
                c = count[k] = count.get(k, 0) + 1
                if c <= visits:
                    s.point()
            return local

        def glob(frame, event, arg):
            return local if lib_code(frame.f_code) else None
        pools.CTL.sched, pools.CTL.tracer, pools.CTL.sizes = s, glob, ()
        cur.update(mp=mp, got=None, err=None)
        with pools.Installed(), tiny.quiet():
            try:
                cur['got'] = freeze(fn(mp))
            except Exception as e:
                cur['err'] = e
        return s

    def visit(s):
        r.execution()
        r.step(len(s.trace))
        r.state(case[:5], tuple(i for i, (_, c, ch) in enumerate(s.trace) if ch != c), tuple(s.order))
        r.outcome(t, cname, tuple(s.order))
        judge(r, t, cur['got'], cur['err'], want, cur['mp'], wsnap, dict(config=cname, order=s.order, switches=[(i, ch) for i, (_, c, ch) in enumerate(s.trace) if ch != c]))
        if r.viol:
            raise Stop()
    try:
        sched.explore(execute, 1, visit, take=lambda i: i % parts == part, orders=None if visits > 3 else 0)
    except Stop:
        return
    if not r.expect(pools.CTL.sizes and max(pools.CTL.sizes) > 1, 'serial', 'the parallel evaluation runs nothing in parallel'):
        raise core.HarnessError('no parallel section seen')


class Stop(Exception):
    pass


# -- accesses to shared state
SIMPLE = (int, float, complex, str, bool, type(None))


def fresh(d, k, v):
    """does writing v change anything?  (an idempotent write is no conflict)"""
    old = d[k] if k in d else d.get('data', d).get(k, d)
    if isinstance(old, np.ndarray) and isinstance(v, np.ndarray):
        return not (old.shape == v.shape and old.dtype == v.dtype and np.array_equal(old, v))
    return not (old is v or type(old) in SIMPLE and type(v) in SIMPLE and old == v)


class Monitor:
    """records accesses of managed threads to settings that existed before the
    parallel section and to module variables; yields at the conflicting ones"""

    def __init__(self, mp, hot):
        self.names = {}
        self._walk(mp, 'mp')
        self.hot = hot
        self.reads, self.writes = {}, {}
        self.s = None

    def _walk(self, o, path):
        if isinstance(o, Object) and id(o) not in self.names:
            self.names[id(o)] = path
            d = dict(object.__getattribute__(o, '__dict__'))
            for part in (d.pop('data', {}), d):
                for k, v in part.items():
                    self._walk(v, path + '.' + str(k))

    def event(self, loc, write):
        me = self.s.me()
        if me is None:
            return
        (self.writes if write else self.reads).setdefault(loc, set()).add(me)
        if loc in self.hot:
            self.s.point(loc)

    def conflicts(self):
        return {l for l, w in self.writes.items() if len(w | self.reads.get(l, set())) > 1}

    def __enter__(self):
        mon, names = self, self.names
        self.undo = {k: Object.__dict__.get(k) for k in ('__getattribute__', '__setattr__', '__setitem__', '__delattr__')}
        oset, oitem, odel = Object.__setattr__, Object.__setitem__, Object.__delattr__

        def ga(o, k):
            if k[:1] != '_' and k != 'data':
                p = names.get(id(o))
                if p is not None:
                    mon.event(p + '.' + k, False)
            return object.__getattribute__(o, k)

        def sa(o, k, v):
            p = names.get(id(o))
            if p is not None:
                mon.event(p + '.' + str(k), fresh(object.__getattribute__(o, '__dict__'), k, v))
            oset(o, k, v)

        def si(o, k, v):
            p = names.get(id(o))
            if p is not None:
                mon.event(p + '.' + str(k), fresh(object.__getattribute__(o, '__dict__'), k, v))
            oitem(o, k, v)

        def da(o, k):
            p = names.get(id(o))
            if p is not None:
                mon.event(p + '.' + str(k), True)
            odel(o, k)
        Object.__getattribute__, Object.__setattr__, Object.__setitem__, Object.__delattr__ = ga, sa, si, da
        self.mods = []
        import sys
        for name, m in list(sys.modules.items()):
            if (name == 'falco' or name.startswith('falco.')) and type(m) is types.ModuleType:
                self.mods.append(m)
                m.__class__ = self._modclass(name)
        return self

    def _modclass(self, name):
        mon = self

        class Mod(types.ModuleType):
            def __getattribute__(m, k):
                v = types.ModuleType.__getattribute__(m, k)
                if k[:2] != '__' and not callable(v) and not isinstance(v, types.ModuleType):
                    mon.event(name + ':' + k, False)
                return v

            def __setattr__(m, k, v):
                if k[:2] != '__':
                    mon.event(name + ':' + k, fresh(types.ModuleType.__getattribute__(m, '__dict__'), k, v))
                types.ModuleType.__setattr__(m, k, v)
        return Mod

    def __exit__(self, *a):
        for k, v in self.undo.items():
            if v is None:
                delattr(Object, k)
            else:
                setattr(Object, k, v)
        for m in self.mods:
            m.__class__ = types.ModuleType
        return False


def globals_now():
    """plain module variables of the library"""
    import sys
    out = []
    for name, m in list(sys.modules.items()):
        if (name == 'falco' or name.startswith('falco.')) and isinstance(m, types.ModuleType):
            d = types.ModuleType.__getattribute__(m, '__dict__')
            out.append((d, {k: v for k, v in d.items() if k[:2] != '__' and type(v) in SIMPLE}))
    return out


def restore(g):
    for d, old in g:
        for k in [k for k, v in d.items() if k[:2] != '__' and type(v) in SIMPLE and k not in old]:
            del d[k]
        d.update(old)


def do_shared(case, r):
    _, t, cname, workers, bound = case
    fn, mp0 = globals()[t], base(cname)
    want, wsnap = reference(fn, mp0)
    hot = set()
    g = globals_now()
    for rnd in range(4):
        cur, found = {}, set()

        def execute(prefix):
            restore(g)
            s = sched.Sched(prefix)
            mp = copy.deepcopy(mp0)
            mp.flagParallel, mp.Nthreads = True, workers
            mon = Monitor(mp, hot)
            mon.s = s
            pools.CTL.sched, pools.CTL.tracer, pools.CTL.sizes = s, None, ()
            cur.update(mp=mp, got=None, err=None)
            with pools.Installed(), mon, tiny.quiet():
                try:
                    cur['got'] = freeze(fn(mp))
                except Exception as e:
                    cur['err'] = e
            found.update(mon.conflicts())
            cur['mon'] = mon
            if os.environ.get('P15_DEBUG'):
                import sys
                print(sorted(mon.conflicts()), len(s.trace), file=sys.__stderr__)
            return s

        def visit(s):
            r.execution()
            r.step(len(s.trace) + len(cur['mon'].reads))
            r.state(case[:4], tuple(c for _, _, c in s.trace), tuple(sorted(cur['mon'].writes)))
            for l in cur['mon'].reads:
                r.state(t, cname, l)
            judge(r, t, cur['got'], cur['err'], want, cur['mp'], wsnap, dict(config=cname, order=s.order, at=sorted(hot)[:5], switches=[(i, ch) for i, (_, c, ch) in enumerate(s.trace) if ch != c]))
            if r.viol:
                raise Stop()
        try:
            sched.explore(execute, bound, visit)
        except Stop:
            return
        r.outcome(t, cname, tuple(sorted(hot)))
        if found <= hot:
            break
        hot |= found


def do_procs(case, r):
    _, t, cname, perm = case
    fn, mp0 = globals()[t], base(cname)
    want, wsnap = reference(fn, mp0)
    mp = copy.deepcopy(mp0)
    mp.flagParallel, mp.Nthreads = True, 2
    pools.CTL.sched, pools.CTL.tracer, pools.CTL.sizes, pools.CTL.perm = sched.Sched(), None, (), perm
    got = err = None
    with pools.Installed(), tiny.quiet():
        try:
            got = freeze(fn(mp))
        except Exception as e:
            err = e
    r.execution()
    r.step(sum(pools.CTL.sizes))
    r.state(t, cname, perm)
    r.outcome(t, cname)
    judge(r, t, got, err, want, mp, wsnap, dict(config=cname, permutation=perm))
    if not r.viol and not pools.CTL.sizes:
        raise core.HarnessError('no parallel section seen')
