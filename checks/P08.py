"""P08: every control step of every schedule history is the regularised
least-squares step over the actuators in use.

The real falco.wfsc.loop is driven through every schedule history of the
alphabet; at each iteration the command it applied is compared with the step
of an independent reference controller (mc/refctrl.py) placed at the commands
the loop recorded for that iteration.
"""
import copy
import itertools
import shutil
import tempfile
import numpy as np
import falco
import tiny
import refctrl

ID = 'P08'
BOUNDS = {'quick': 'every schedule history of 3 iterations over mirror sets {1},{2},{1,2} x re-linearisation flag (a mirror that re-enters use re-linearises) with iteration-dependent fixed regularisation, with culling threshold inside the strength range, ties on both mirrors, spatial weights and unequal mirror weights; histories of 2 iterations in 7 further settings (two stars with two sub-bands; vortex; apodised with three Zernike modes; minimised normalised intensity; chained ties; parallel); grid-search controller with 3 mirror sets x 6 re-linearisation lists over 3 iterations',
          'thorough': 'histories of 4 iterations in 3 settings, of 3 iterations in 7 further settings'}
CASE_TIMEOUT = 800
REGS = (-2.5, -1.5, -3.0, -2.0)
CHUNK = 1

_W = [[0., 2.3, 2.0], [2.6, 9., 0.5]]
CFG = {
    'A': dict(coro='LC', tied1=[[1, 4], [5, 10]], tied2=[[0, 15], [2, 3]], wspatial=_W, dmw=(1.0, 0.6), cull=0.35),
    'B': dict(coro='LC', stars=[(0, 0, 1.0, 1.0), (2.5, 1.0, 0.3, 0.4)], nsbp=2, wspatial=_W, dmw=(0.7, 1.0), cull=0.5),
    'C': dict(coro='VC', dmw=(1., 2.), cull=0.5),
    'D': dict(coro='FLC', nsbp=2, tied2=[[6, 7]], dmw=(1., 1.), cull=0.3),
    'E': dict(coro='LC', minimize_ni=True, dmw=(1., 1.), cull=None, nsbp=3),
    'F': dict(coro='APLC', apod=True, zerns=(1, 3, 2), zcoef=1e-9, nsbp=3, dmw=(1., 1.), cull=0.6),
    'G': dict(coro='LC', stars=[(0, 0, 1.0, 0.5), (2.0, -2.0, 1.0, 1.0)], wspatial=_W, dmw=(1., 1.), cull=0.2),
    'H': dict(coro='LC', wspatial=[[0., 9., 2.0]], tied1=[[0, 1], [0, 2]], dmw=(0.5, 0.5), cull=0.8),
    'I': dict(coro='HLC', layout='fpm_scale', nsbp=2, nwpsbp=2, dmw=(1., 1.), cull=0.4),
    'K': dict(coro='LC', centering='interpixel', tied1=[[0, 5]], wspatial=_W, dmw=(0.8, 1.), cull=0.3),
    'J': dict(coro='LC', parallel=True, nsbp=2, wspatial=_W, dmw=(1., 1.), cull=0.4),
}


def histories(n):
    out = []
    for h in itertools.product(((1,), (2,), (1, 2)), repeat=n):
        for rel in itertools.product((0, 1), repeat=n - 1):
            rel = (1,) + rel
            cur, ok = set(), True
            for d, q in zip(h, rel):
                if q:
                    cur = set(d)
                elif not set(d) <= cur:
                    ok = False
            if ok:
                out.append((h, rel))
    return out


def cases(tier):
    th = tier == 'thorough'
    out = []
    for c in (('A', 'B', 'F') if th else ('A',)):
        hs = histories(4 if th else 3)
        k = 4
        for lo in range(0, len(hs), k):
            out.append(('plan', c, hs[lo:lo + k]))
    for c in ('CDEGHIJK' if th else 'BCEFHJK'):
        hs = histories(3 if th else 2)
        for lo in range(0, len(hs), 5):
            out.append(('plan', c, hs[lo:lo + 5]))
    for dms in ((1,), (2,), (1, 2)):
        for relin in ([0], [0, 1], [0, 2], [0, 1, 2], [], [2]):
            out.append(('fixed', 'A' if len(dms) == 2 else 'B', dms, relin))
    return out


_B = {}


def base(c, **kw):
    k = (c, str(kw))
    if k not in _B:
        d = dict(CFG[c])
        dmw, cull = d.pop('dmw'), d.pop('cull')
        d.update(kw)
        small = c not in 'AB'
        mp, out = tiny.build(nact=4, nbeam=12 if small else 16, rin=2.0, rout=3.0, fov=3.2, nitr=1, vtoh=5e-9, **d)
        mp.dm1.weight, mp.dm2.weight = dmw
        mp.dm1.V = 1.6 * np.sin(np.arange(16.).reshape(4, 4))
        mp.dm2.V = 1.6 * np.cos(1.3 * np.arange(16.).reshape(4, 4))
        for i in (1, 2):
            dm = getattr(mp, 'dm%d' % i)
            for a, b in (dm.tied if np.size(dm.tied) else []):
                dm.V.flat[b] = dm.V.flat[a]
        if cull is not None:
            # threshold in the middle of the widest nearby gap of the strengths
            R = refctrl.Ref(mp)
            R.at({1: mp.dm1.V, 2: mp.dm2.V}, mp.dm_ind)
            R.relinearise()
            lg = []
            for i in R.dms:
                p = (np.abs(R.G[i])**2).sum(axis=(0, 2))
                lg += [x for x in np.log10(p / p.max() + 1e-300) if x > -50]
            lg = np.sort(lg)
            k = int(cull * (len(lg) - 1))
            j = max(range(max(k - 2, 0), min(k + 3, len(lg) - 1)), key=lambda q: lg[q + 1] - lg[q])
            mp.logGmin = float((lg[j] + lg[j + 1]) / 2)
        else:
            mp.logGmin = -12.
        _B[k] = mp
    return copy.deepcopy(_B[k])


def drive(mp, sched_rows=None, n=None, relin=None):
    """run the real loop; returns the out object"""
    wd = tempfile.mkdtemp(prefix='p08_')
    try:
        mp.path.brief = wd
        mp.path.ws = wd
        if sched_rows is not None:
            mp.controller = 'plannedEFC'
            mp.Nitr = len(sched_rows)
            mp.dm_ind_sched = [np.array(r[0]) for r in sched_rows]
            mp.relinItrVec = np.array([k for k, r in enumerate(sched_rows) if r[1]])
            mp.gridSearchItrVec = np.array([k for k, r in enumerate(sched_rows) if len(r) > 3 and r[3]], dtype=int)
            mp.ctrl.log10regSchedIn = np.array([r[2] for r in sched_rows], dtype=complex)
        else:
            mp.Nitr = n
            mp.relinItrVec = np.array(relin)
        out = falco.setup.init_storage_arrays(mp)
        falco.wfsc.loop(mp, out)
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def close(a, b, scale, tol=2e-6):
    return np.shape(a) == np.shape(b) and np.all(np.isfinite(a)) and np.max(np.abs(np.asarray(a) - b)) <= tol * scale + 1e-9


def follow(r, mp0, out, rows, tag, pick=None):
    """compare every recorded step with the reference"""
    R = refctrl.Ref(mp0)
    for k, (dms, relin, reg) in enumerate(rows):
        V = {i: getattr(out, 'dm%d' % i).Vall[:, :, k] for i in (1, 2)}
        if k == 0:
            for i in (1, 2):
                r.expect(np.array_equal(V[i], getattr(mp0, 'dm%d' % i).V), 'start', 'the first recorded command is not the starting command', dm=i)
        R.at(V, dms)
        R.begin(k, relin)
        if R.ambiguous:
            r.outcome('ambiguous')
            return
        r.state(tag, k, tuple(map(tuple, R.kept.values())), round(float(np.abs(V[1]).sum() + 3 * np.abs(V[2]).sum()), 5))
        E = R.estimate()
        if pick is not None:
            reg = pick(R, E, k, out)
            if reg is None:
                return
        dV = R.solve(E, reg, 1.0)
        want = R.constrain(V, dV)
        sc = max(np.abs(dV[1]).max(), np.abs(dV[2]).max())
        for i in (1, 2):
            got = getattr(out, 'dm%d' % i).Vall[:, :, k + 1]
            if i not in R.dms:
                r.expect(np.array_equal(got, V[i]), 'moved-unused', 'a mirror that is not in use at this iteration moved', dm=i, itr=k, dms=R.dms)
                continue
            gone = [a for a in range(16) if a not in R.kept[i]]
            r.expect(np.array_equal(got.flat[gone], want[i].flat[gone]), 'moved-culled', 'a culled actuator moved', dm=i, itr=k, culled=gone)
            ok = close(got, want[i], sc)
            r.expect(ok, 'step', 'the applied command change is not the regularised least-squares step', dm=i, itr=k, dms=R.dms, relin=relin,
                     kept=R.kept[i], got=(got - V[i]).round(4).tolist(), want=(want[i] - V[i]).round(4).tolist())
            if not ok:
                return
        r.expect(abs(out.log10regHist[k] - reg) < 1e-12, 'reg', 'the recorded regularisation is not the one of this step', itr=k, got=out.log10regHist[k], want=reg)
        r.step()
        r.outcome(tag, k, len(R.kept[1]), len(R.kept[2]))


def run(case, r):
    globals()['_' + case[0]](case, r)


def _plan(case, r):
    _, c, hs = case
    for h, rel in hs:
        mp = base(c)
        mp0 = copy.deepcopy(mp)
        rows = [(d, q, REGS[k]) for k, (d, q) in enumerate(zip(h, rel))]
        out = drive(mp, rows)
        follow(r, mp0, out, rows, (c, h, rel))
        final = {i: getattr(mp, 'dm%d' % i) for i in (1, 2)}
        for i in (1, 2):
            r.expect(np.array_equal(final[i].V, getattr(out, 'dm%d' % i).Vall[:, :, len(rows)]), 'final', 'the command left in the mirror is not the last recorded one', dm=i)
        r.execution()


def _fixed(case, r):
    """grid-search controller with a fixed mirror set: the applied step is the
    least-squares step of the regularisation recorded, at every iteration"""
    _, c, dms, relin = case
    mp = base(c, dm_ind=dms, log10reg=(-3., -1.5, -2.))
    mp0 = copy.deepcopy(mp)
    out = drive(mp, None, 3, relin)
    rows = [(dms, k in relin or k == 0, None) for k in range(3)]

    def pick(R, E, k, out):
        reg = float(out.log10regHist[k])
        r.expect(reg in (-3., -1.5, -2.), 'candidate', 'the regularisation used is not one of the candidates', reg=reg)
        return reg
    follow(r, mp0, out, rows, (c, dms, tuple(relin)), pick)
    r.execution()
