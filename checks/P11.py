"""P11: planned control uses the scheduled regularisation at every iteration.

The real falco.ctrl.wrapper is driven through every schedule history (a prefix
tree over entry kinds); the state the controller carries (latest optimum, latest
best gain) is compared, through the commands and the recorded regularisation,
with a reference automaton that solves every step itself.
"""
import copy
import itertools
import numpy as np
import falco
import tiny
import refctrl

ID = 'P11'
BOUNDS = {'quick': 'every schedule history of length 1..3 over {fixed, best, best+offset, zero} x {grid search, none} (first "best" after a grid search) for two-mirror model-based control, and over a 5-entry alphabet (another offset with imaginary part -2) for measured evaluation, single mirrors and other candidate lists (length 1..2); the same 5-entry alphabet for control by algorithmic differentiation (length 1..3, 1..2 measured or single-mirror)',
          'thorough': 'length 1..4 (1..3 for the single-mirror settings)'}
CASE_TIMEOUT = 800
CHUNK = 1
KINDS = {'f': -2.5 + 0j, 'b': 1j, 'o': -0.7 + 1j, 'p': 0.4 - 2j, 'z': 0j, 'h': -1.0 + 0j}
ENTRIES = [(k, g) for k in ('f', 'b', 'o', 'z') for g in (0, 1)]
E2 = [('f', 0), ('b', 0), ('b', 1), ('p', 0), ('o', 1)]
LISTS = [((-3., -1.5), (0.7, 1.2)), ((-1., -2., -3.5), (0.4,)), ((-1.5,), (1.3, 0.5)), ((-1., -3.), (1.,)), ((-3.5, -0.5, -2.), (1.,))]


def legal(h):
    g = False
    for k, s in h:
        if s:
            g = True
        if k in 'bop' and not g:
            return False
    return True


def cases(tier):
    th = tier == 'thorough'
    out = []
    for first in ENTRIES:
        if legal([first]):
            for second in ENTRIES:
                if legal([first, second]):
                    out.append(('tree', (1, 2), True, 0, first, second, 4 if th else 3, ENTRIES))
    for dms, model, li in (((1,), True, 1), ((2,), False, 2), ((1, 2), False, 0), ((1, 2), True, 1)):
        for first in E2:
            if legal([first]):
                out.append(('tree', dms, model, li, first, None, (4 if (dms, model) == ((1, 2), False) else 3) if th else 2, E2))
    return out


_B = {}


def base(dms, model, ad=False):
    k = (dms, model, ad)
    if k not in _B:
        mp, _ = tiny.build(nact=3, nbeam=12, rin=2.0, rout=3.0, fov=3.2, dm_ind=dms, controller='plannedEFC', use_model=model, nitr=4)
        if ad:
            mp.controller = 'AD-EFC'
            mp.dm1.useDifferentiableModel = mp.dm2.useDifferentiableModel = True
            mp.ctrl.ad = falco.config.Object()
            mp.ctrl.ad.maxiter, mp.ctrl.ad.maxfun, mp.ctrl.ad.maxcor, mp.ctrl.ad.iprint = 4, 40, 10, -1
        mp.dm1.V = 3 * np.sin(np.arange(9.).reshape(3, 3))
        mp.dm2.V = 3 * np.cos(np.arange(9.).reshape(3, 3))
        R = refctrl.Ref(mp)
        R.at({1: mp.dm1.V, 2: mp.dm2.V}, dms)
        R.begin(0, True)
        falco.imaging.calc_psf_norm_factor(mp)
        jac = None if ad else falco.model.jacobian(mp)
        # a sequence of estimates, different at every iteration
        E0 = R.estimate()
        Es = [E0 * (1 + .3 * k) + (.2 * k) * np.roll(E0, k) for k in range(5)]
        if ad:
            mp.ctrl.ad.utu_scale_fac = float(np.sum(np.abs(E0)**2)) / 600.
        _B[k] = (mp, R, jac, Es)
    return _B[k]


def run(case, r):
    _, dms, model, li, first, second, depth, alphabet = case
    ad = case[0] == 'ad'
    mp0, R0, jac, Es = base(dms, model, ad)
    regs, facs = LISTS[li]
    memo = {}

    def single(k, reg, V0):
        """the step of one regularisation alone from these commands"""
        key = (k, reg, V0[1].tobytes(), V0[2].tobytes())
        if key not in memo:
            mp = copy.deepcopy(mp0)
            for i in (1, 2):
                getattr(mp, 'dm%d' % i).V = V0[i].copy()
            mp.ctrl.log10regSchedIn = np.full(5, reg + 0j)
            mp.gridSearchItrVec = np.array([], dtype=int)
            c = falco.config.Object()
            c.Itr, c.Eest, c.NeleAll, c.flagRelin = k, Es[k].copy(), mp.dm1.Nele + mp.dm2.Nele, True
            falco.imaging.calc_psf_norm_factor(mp)
            falco.ctrl.wrapper(mp, c, None)
            memo[key] = {i: getattr(mp, 'dm%d' % i).V - V0[i] for i in (1, 2)}
            r.expect(any(np.any(d) for d in memo[key].values()), 'still', 'the control step moves a mirror', reg=reg)
        return memo[key]

    def expand(h, mp, cvar, ref, best):
        """apply the last entry of h to the carried state"""
        k = len(h) - 1
        mp = copy.deepcopy(mp)
        cvar = copy.deepcopy(cvar)
        kind, grid = h[k]
        mp.ctrl.log10regSchedIn = np.array([KINDS[a] for a, _ in h] + [1j] * (5 - len(h)))
        mp.gridSearchItrVec = np.array([i for i, (_, g) in enumerate(h) if g], dtype=int)
        mp.ctrl.log10regVec = np.array(regs)
        mp.ctrl.dmfacVec = np.array(facs)
        cvar.Itr = k
        cvar.Eest = Es[k].copy()
        cvar.NeleAll = mp.dm1.Nele + mp.dm2.Nele
        cvar.flagRelin = True
        V0 = {i: getattr(mp, 'dm%d' % i).V.copy() for i in (1, 2)}
        falco.imaging.calc_psf_norm_factor(mp)   # as the loop does in every iteration
        falco.ctrl.wrapper(mp, cvar, copy.copy(jac))
        # --- reference automaton
        R = ref
        R.at(V0, dms)
        latest, gain = best
        if grid:
            cand = [(R.score(Es[k], single(k, g, V0)), g, 1.) for g in regs] if ad else R.grid(Es[k], regs, facs)
            cand.sort(key=lambda c: c[0])
            r.expect(len(cand) < 2 or cand[1][0] - cand[0][0] > 1e-9 * cand[0][0], 'harness-tie', 'candidates tie')
            latest, gain = cand[0][1], cand[0][2]
        spec = KINDS[kind]
        reg = spec.real + (latest if spec.imag != 0 else 0.)
        dV = single(k, reg, V0) if ad else R.solve(Es[k], reg, gain)
        sc = max(np.abs(dV[1]).max(), np.abs(dV[2]).max())
        r.expect(abs(cvar.log10regUsed - reg) < 1e-12, 'recorded', 'the recorded regularisation is not the scheduled one', history=h, got=cvar.log10regUsed, want=reg)
        for i in (1, 2):
            got = getattr(mp, 'dm%d' % i).V
            if i not in dms:
                r.expect(np.array_equal(got, V0[i]), 'moved', 'a mirror not in use moved', history=h, dm=i)
            else:
                r.expect(np.max(np.abs(got - V0[i] - dV[i])) <= 1e-6 * sc, 'step', 'the command was not computed with the scheduled regularisation and the latest best gain',
                         history=h, dm=i, reg=reg, gain=gain, got=(got - V0[i]).round(4).tolist(), want=dV[i].round(4).tolist())
        im = np.asarray(cvar.Im)
        s = R.score(Es[k], dV)
        # the reported image belongs to the applied command
        if not grid or (spec.imag != 0 and spec.real == 0):
            m = float(np.mean(im[mp.Fend.corr.maskBool]))
            r.expect(abs(m - s) <= 1e-6 * s, 'image', 'the image reported with the step is not that of the applied command', history=h, got=m, want=s)
        r.step()
        r.execution()
        r.state(case[0], dms, model, li, h)
        r.outcome(round(reg, 6), gain)
        return mp, cvar, (latest, gain)

    def walk(h, mp, cvar, best):
        if len(r.viol) >= 5:
            return
        res = expand(h, mp, cvar, R0, best)
        if len(h) < depth:
            for e in ([second] if len(h) == 1 and second is not None else alphabet):
                if legal(h + (e,)):
                    walk(h + (e,), *res)

    cvar = falco.config.Object()
    walk((first,), mp0, cvar, (None, 1))
