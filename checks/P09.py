"""P09: the grid search applies the best candidate and leaves no side effects.

Every ordered candidate list over the alphabet is given to the real controller
(falco.ctrl.wrapper with the grid-search controller, and the planned controller
at a grid-search iteration); each candidate is evaluated by the reference
controller from the same starting commands.
"""
import copy
import itertools
import numpy as np
import falco
import tiny
import refctrl

ID = 'P09'
BOUNDS = {'quick': 'all ordered lists (with repetitions) of 1..3 regularisations over {-3.5,-2,-0.5} with single gain factors over {0.4, 1, 1.6}, all of 1..2 regularisations x ordered pairs of gains; measured evaluation for all pairs of regularisations x 5 gain lists; grid-search and planned controllers; mirror sets {1},{2},{1,2}; parallel evaluation; spatial weights, ties, culled actuators, several stars, sub-bands and Zernike modes over 5 list patterns',
          'thorough': 'lists of 1..4 regularisations over 4 values x 1..2 gains over 3 values, every setting'}
CASE_TIMEOUT = 800
CHUNK = 1
REG = (-3.5, -2.0, -0.5, -5.0)
FAC = (0.4, 1.0, 1.6)
_W = [[0., 2.3, 2.0], [2.6, 9., 0.5]]
CFG = {
    'base': dict(),
    'meas': dict(use_model=False),
    'dm1': dict(dm_ind=(1,)),
    'dm2': dict(dm_ind=(2,), use_model=False),
    'par': dict(parallel=True),
    'parmeas': dict(parallel=True, use_model=False, nsbp=2, nwpsbp=2),
    'modes': dict(nsbp=2, zerns=(1, 2), stars=[(0, 0, 1.0, 1.0), (2.0, 1.0, 0.5, 0.6)], wspatial=_W),
    'ties': dict(tied1=[[0, 4], [2, 8]], cull=True, vtoh=3e-9),
    'minni': dict(minimize_ni=True, nsbp=3),
    'vc': dict(coro='VC', zerns=(2, 1)),
    'inter': dict(centering='interpixel', zerns=(1, 3)),
}


def lists(vals, lo, hi):
    return [t for n in range(lo, hi + 1) for t in itertools.product(vals, repeat=n)]


def cases(tier):
    th = tier == 'thorough'
    out = []
    RL = lists(REG if th else REG[:3], 1, 4 if th else 3)
    FL = lists(FAC, 1, 2)
    for c in ('base', 'meas'):
        for fl in FL:
            if th:
                out.append((c, fl, RL, 'both'))
            elif c == 'base':
                for lo in range(0, len(RL), 20):
                    if len(fl) == 1:
                        out.append((c, fl, RL[lo:lo + 20], 'grid' if fl != (1.0,) else 'both'))
                if len(fl) == 2:
                    out.append((c, fl, lists(REG[:3], 1, 2), 'grid'))
            elif len(fl) == 1 or fl in ((0.4, 1.6), (1.6, 0.4)):
                out.append((c, fl, lists(REG[:3], 2, 2), 'grid' if len(fl) == 1 else 'both'))
    small = RL if th else [(-3.5, -2.0), (-2.0, -3.5), (-0.5, -2.0), (-3.5, -2.0, -0.5), (-0.5, -2.0, -3.5)]
    for c in CFG:
        if c not in ('base', 'meas', 'par', 'parmeas'):
            for fl in (FL if th else [(1.0,), (1.6, 0.4)]):
                out.append((c, fl, small, 'both'))
    for c in ('par', 'parmeas'):
        for fl in ([(1.0,), (0.4, 1.6), (1.6, 0.4)]):
            out.append((c, fl, small if not th else lists(REG[:3], 1, 3), 'grid'))
    return out


_B = {}


def base(c):
    if c not in _B:
        d = dict(CFG[c])
        cull = d.pop('cull', False)
        mp, _ = tiny.build(nact=3, nbeam=12, rin=2.0, rout=3.0, fov=3.2, controller='gridsearchEFC', nitr=3, **d)
        mp.dm1.V = 3 * np.sin(np.arange(9.).reshape(3, 3))
        mp.dm2.V = 3 * np.cos(np.arange(9.).reshape(3, 3))
        for a, b in (mp.dm1.tied if np.size(mp.dm1.tied) else []):
            mp.dm1.V.flat[b] = mp.dm1.V.flat[a]
        if cull:
            mp.dm1.act_ele = np.array([0, 1, 2, 4, 8])
            mp.dm1.Nele = 5
        R = refctrl.Ref(mp)
        R.at({1: mp.dm1.V, 2: mp.dm2.V}, mp.dm_ind)
        falco.imaging.calc_psf_norm_factor(mp)
        jac = falco.model.jacobian(mp)
        R.relinearise()
        if cull:
            R.kept[1] = [0, 1, 2, 4, 8]
        E = R.estimate() + 0.02 * np.exp(1j * np.arange(mp.Fend.corr.Npix))[:, None]
        _B[c] = (mp, R, jac, E, {})
    return _B[c]


def candidate(c, reg, fac):
    mp, R, jac, E, memo = base(c)
    if (reg, fac) not in memo:
        dV = R.solve(E, reg, fac)
        memo[reg, fac] = (R.score(E, dV), dV)
    return memo[reg, fac]


def snapshot(mp):
    out = {}
    for i in (1, 2):
        d = getattr(mp, 'dm%d' % i)
        out[i] = (d.V.tobytes(), np.asarray(d.act_ele).tolist(), int(d.Nele), d.VtoH.tobytes(), float(d.weight))
    out['I00'] = (np.asarray(mp.Fend.compact.I00).tobytes(), np.asarray(mp.Fend.full.I00).tobytes())
    out['dm_ind'] = np.asarray(mp.dm_ind).tolist()
    out['lists'] = (np.asarray(mp.ctrl.log10regVec).tolist(), np.asarray(mp.ctrl.dmfacVec).tolist())
    out['w'] = np.asarray(mp.jac.weights).tobytes()
    return out


def run(case, r):
    c, fl, rls, which = case
    mp0, R, jac, E, memo = base(c)
    jac0 = {k: np.array(getattr(jac, k)) for k in ('G1', 'G2')}
    dms = [int(x) for x in mp0.dm_ind]
    for rl in rls:
        cand = sorted(((candidate(c, a, b)[0], a, b) for a in set(rl) for b in set(fl)), key=lambda t: t[0])
        if len(cand) > 1 and cand[1][0] - cand[0][0] <= 1e-7 * cand[0][0]:
            r.outcome('tie')
            continue
        s, reg, fac = cand[0]
        dV = candidate(c, reg, fac)[1]
        sc = max(np.abs(dV[1]).max(), np.abs(dV[2]).max())
        for ctl in (('gridsearchEFC', 'plannedEFC') if which == 'both' else ('gridsearchEFC',)):
            mp = copy.deepcopy(mp0)
            mp.controller = ctl
            mp.ctrl.log10regVec = np.array(rl)
            mp.ctrl.dmfacVec = np.array(fl)
            mp.ctrl.log10regSchedIn = np.array([1j, 1j])
            mp.gridSearchItrVec = np.array([0])
            cvar = falco.config.Object()
            cvar.Itr = 0
            cvar.Eest = E.copy()
            cvar.NeleAll = mp.dm1.Nele + mp.dm2.Nele
            cvar.flagRelin = True
            before = snapshot(mp)
            falco.ctrl.wrapper(mp, cvar, copy.copy(jac))
            after = snapshot(mp)
            for k in before:
                if k in (1, 2):
                    r.expect(before[k][1:] == after[k][1:], 'settings', 'the grid search changed a mirror setting', dm=k)
                else:
                    r.expect(before[k] == after[k], 'settings', 'the grid search changed a setting', which=k)
            r.expect(all(np.array_equal(jac0[k], getattr(jac, k)) for k in jac0), 'jacobian', 'the control step changed the stored Jacobian')
            r.expect(np.array_equal(cvar.Eest, E), 'estimate', 'the control step changed the estimate')
            r.expect(abs(cvar.log10regUsed - reg) < 1e-12, 'recorded', 'the recorded regularisation is not the best one', regs=rl, facs=fl, got=cvar.log10regUsed, want=reg, scores=cand)
            r.expect(abs(cvar.cMin - s) <= 1e-6 * s, 'score', 'the reported intensity is not that of the best candidate', got=cvar.cMin, want=s)
            m = float(np.mean(np.asarray(cvar.Im)[mp.Fend.corr.maskBool]))
            r.expect(abs(m - s) <= 1e-6 * s, 'image', 'the reported image is not that of the best candidate', got=m, want=s)
            for i in (1, 2):
                V0 = getattr(mp0, 'dm%d' % i).V
                got = getattr(mp, 'dm%d' % i).V - V0
                if i not in dms:
                    r.expect(not np.any(got), 'moved', 'a mirror not in use moved')
                else:
                    r.expect(np.max(np.abs(got - dV[i])) <= 1e-6 * sc, 'applied', 'the applied command change is not that of the best candidate from the starting commands',
                             dm=i, regs=rl, facs=fl, best=(reg, fac), ctl=ctl, got=got.round(4).tolist(), want=dV[i].round(4).tolist())
                    r.expect(np.max(np.abs(np.asarray(getattr(mp, 'dm%d' % i).dV) - dV[i])) <= 1e-6 * sc, 'delta', 'the stored command change is not the applied one')
            r.execution()
            r.step(len(rl) * len(fl))
        r.state(c, rl, fl)
        r.outcome(c, reg, fac)
