"""P27: the gradient of the reverse model is the derivative of its own cost.

For every enumerated optical configuration, command change and actuator the
gradient returned by falco.model.compact_reverse_gradient is compared with the
central difference of the cost it returns, and the cost with its definition
evaluated by the forward model (the implementation's own forward model is the
oracle, so model and code cannot drift apart).  The optimiser built on it is
then run: it must never end with a higher cost than it started with, respect
the voltage limits, and leave the stored commands alone.
"""
import importlib.util
import os
import numpy as np
import falco

_s = importlib.util.spec_from_file_location('P06', os.path.join(os.path.dirname(__file__), 'P06.py'))
P06 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(P06)

ID = 'P27'
BOUNDS = {'quick': 'every kept actuator of two 4x4 DMs (every second to fourth where the optics are varied) at zero and non-zero command change, for 6 coronagraph types x 2 centrings, 28 single-option variations of the optics on alternating coronagraph types and 19 variations of the mirrors (8 orientations, subsets, ties, dead, pinned, culled, weights, gains, tilts, clocking)',
          'thorough': 'every coronagraph type x every optical and mirror option x 2 centrings, and every pair of an optical with a mirror option'}
CASE_TIMEOUT = 600
COROS = ('LC', 'APLC', 'FLC', 'SPLC', 'HLC', 'VC')
OPTS = [o for o in P06.OPTS if o not in ('none', 'minni', 'minnistar', 'minnirelay', 'minnistop', 'dm1', 'dm2', 'tilt', 'weight', 'gains')]
ORI = ['rot0', 'rot90', 'rot180', 'rot270', 'flipxrot0', 'flipxrot90', 'flipxrot180', 'flipxrot270']
MIRROR = ['none'] + ORI[1:] + ['dm1', 'dm2', 'dm1only', 'dm2only', 'tied', 'chain', 'dead', 'pinned', 'limit', 'culled', 'weight', 'gains', 'inv', 'tilt', 'clock', 'offset', 'tiedori']
FPMSAMPLED = ('FLC', 'SPLC')


def valid(coro, o):
    if o == 'lyot12' and coro not in FPMSAMPLED:
        return False
    if o == 'scale' and coro in ('HLC', 'VC'):
        return False
    if o == 'amp' and coro in ('HLC', 'VC'):
        return False
    return True


def cases(tier):
    out = []
    if tier == 'quick':
        for c in COROS:
            for cen in ('pixel', 'interpixel'):
                out.append((c, (), cen, 'none'))
        for i, o in enumerate(OPTS):
            for j in range(2):
                c = COROS[(i + 3 * j) % 6]
                if not valid(c, o):
                    c = 'SPLC' if j else 'FLC'
                out.append((c, (o,), 'interpixel' if (i + j) % 2 else 'pixel', 'none'))
        for i, m in enumerate(MIRROR[1:]):
            out.append((COROS[i % 6], (), 'interpixel' if i % 3 == 1 else 'pixel', m))
            out.append(('LC', ('zern',) if i % 2 else ('n5',) if m in ORI else ('stops',), 'pixel', m))
    else:
        for c in COROS:
            for cen in ('pixel', 'interpixel'):
                for m in MIRROR:
                    out.append((c, (), cen, m))
                for o in OPTS:
                    if valid(c, o):
                        out.append((c, (o,), cen, 'none'))
        for i, o in enumerate(OPTS):
            for j, m in enumerate(MIRROR[1:]):
                c = COROS[(i + j) % 6]
                if valid(c, o):
                    out.append((c, (o,), ('pixel', 'interpixel')[(i + j) % 2], m))
    return [c + (tier,) for c in dict.fromkeys(out)]


def make(case):
    coro, opts, cen, m = case[:4]
    mp = P06.make((coro, opts + (('gains',) if m == 'gains' else ()) or ('none',), cen, 1))
    n = mp.dm1.Nact
    if 'dmwfe' in opts:
        mp.dm1.wfe, mp.dm2.wfe = mp.dm1.compact.wfe, mp.dm2.compact.wfe
    for k, dm in ((1, mp.dm1), (2, mp.dm2)):
        dm.useDifferentiableModel = True
        if m in ORI:
            dm.orientation = m if k == 1 else ORI[(ORI.index(m) + 3) % 8]
        if m == 'tiedori':
            dm.orientation = 'flipxrot90'
        if m in ('tied', 'tiedori'):
            dm.tied = np.array([[1, 2], [5, 8]]) if k == 1 else np.array([[n, n + 1]])
        if m == 'chain':
            dm.tied = np.array([[1, 2], [1, 3], [5, 6]])
        if m == 'dead' and k == 1:
            dm.dead = [n + 2]
            dm.dead_map.ravel()[n + 2] = True
        if m == 'pinned':
            dm.pinned = np.array([n + k])
            dm.Vpinned = np.array([12.])
        if m == 'limit':
            dm.Vmin, dm.Vmax, dm.biasMap = -30., 30., np.zeros((n, n))
        if m == 'culled':
            dm.act_ele = np.array([0, 3, n, n + 2, 2 * n + 1]) + k - 1
            dm.Nele = 5
        if m == 'weight':
            dm.weight = (0.7, 1.3)[k - 1]
        if m == 'inv':
            dm.inf_sign = '-'
        if m == 'tilt':
            dm.ytilt, dm.xtilt = 8., 3. * k
        if m == 'clock':
            dm.zrot = 5. * k
        if m == 'offset':
            dm.xc += 0.3 * k
            dm.yc -= 0.2
    if m in ('dm1', 'dm1only'):
        mp.dm_ind = np.array([1])
        mp.dm2.useDifferentiableModel = m == 'dm1'
    if m in ('dm2', 'dm2only'):
        mp.dm_ind = np.array([2])
        mp.dm1.useDifferentiableModel = m == 'dm2'
    mp.ctrl.ad = falco.config.Object()
    mp.ctrl.ad.maxiter, mp.ctrl.ad.maxfun, mp.ctrl.ad.maxcor, mp.ctrl.ad.iprint = 4, 40, 10, -1
    mp.ctrl.flagUseModel = True
    return mp


def modes(mp):
    for im in range(mp.jac.Nmode):
        mv = falco.config.ModelVariables()
        mv.whichSource = 'star'
        mv.sbpIndex, mv.zernIndex, mv.starIndex = mp.jac.sbp_inds[im], mp.jac.zern_inds[im], mp.jac.star_inds[im]
        yield mv


def run(case, r):
    quick = case[4] == 'quick'
    mp = make(case)
    dms = {1: mp.dm1, 2: mp.dm2}
    corr = mp.Fend.corr.maskBool
    cvar = falco.config.Object()
    falco.ctrl.init(mp, cvar)
    pre = [falco.model.compact(mp, mv, forRevGradModel=True) for mv in modes(mp)]
    E0 = np.array([p[0][corr] for p in pre]).T
    g = np.arange(E0.size).reshape(E0.shape)
    # an estimate that differs from the model, as the measured one does
    cvar.Eest = E0 + 0.3 * np.sqrt(np.mean(np.abs(E0)**2)) * np.exp(1j * (1.3 * g + 0.4))
    lists = [[p[i] for p in pre] for i in (0, 1, 2, 4)]
    e0 = float(np.sum(np.asarray(mp.jac.weights) * np.sum(np.abs(cvar.Eest)**2, axis=0)))
    V0 = {k: d.V.copy() for k, d in dms.items()}
    N = cvar.NeleAll
    r.execution()

    def cost(u, reg):
        return falco.model.compact_reverse_gradient(u, reg, mp, cvar.Eest, *[list(x) for x in lists])

    def setV(u):
        for k in mp.dm_ind:
            v = np.zeros(dms[k].NactTotal)
            v[dms[k].act_ele] = dms[k].weight * u[cvar.uLegend == k]
            dms[k].V = V0[k] + v.reshape(V0[k].shape)

    def energy(u):
        setV(u)
        E1 = np.array([falco.model.compact(mp, mv)[corr] for mv in modes(mp)]).T
        for k in dms:
            dms[k].V = V0[k].copy()
        return float(np.sum(np.asarray(mp.jac.weights) * np.sum(np.abs(cvar.Eest + E1 - E0)**2, axis=0)))

    tol = 1e-4
    h = 0.05
    for iu, (amp, reg) in enumerate(((0., -20.), (9., -1.5), (-6., -20.))):
        if iu != 1 and quick and (case[1] or case[3] != 'none' or iu == 2):
            continue
        mp.ctrl.ad.utu_scale_fac = e0 / (N * 30.)
        u = amp * np.cos(1.9 * np.arange(N) + 0.2 * iu)
        u_in = u.copy()
        J, grad = cost(u, reg)
        r.state(case, iu)
        r.expect(np.array_equal(u, u_in), 'argument', 'the command vector handed in was changed')
        r.expect(all(np.array_equal(dms[k].V, V0[k]) for k in dms), 'commands', 'the stored commands differ after computing the gradient')
        pen = mp.ctrl.ad.utu_scale_fac * 10.**reg * np.sum(u**2)
        want = energy(u) + pen
        r.expect(abs(J - want) <= 1e-9 * abs(want), 'cost', 'cost is not weighted residual energy plus command penalty', got=J, want=want)
        if not r.expect(np.shape(grad) == (N,), 'shape', 'one gradient component per kept actuator', shape=np.shape(grad), n=N):
            continue
        fd = np.zeros(N)
        pen = mp.ctrl.ad.utu_scale_fac * 10.**reg
        stride = max({1: 1, 2: 2}.get(mp.jac.Nmode, 4), 2 if case[1] else 1) if quick else 1
        probed = (np.arange(N) + iu) % stride == 0
        for a in np.nonzero(probed)[0]:
            for s in (1, -1):
                w = u.copy()
                w[a] += s * h
                fd[a] += s * (energy(w) + pen * np.sum(w**2)) / (2 * h)
            r.step(2)
        for k in mp.dm_ind:
            sel = (cvar.uLegend == k) & probed
            err, ref = np.abs(grad[sel] - fd[sel]), np.abs(fd[sel]).max()
            if os.environ.get('P27_SHOW'):
                print('REL', case, iu, k, err.max() / ref)
            r.outcome('zero' if amp == 0 else 'moved', case[0])
            r.expect(np.all(err <= tol * ref), 'gradient', 'gradient differs from the derivative of the cost', dm=int(k),
                     components=np.nonzero(sel)[0][err > tol * ref][:6].tolist(), rel=err.max() / ref, moved=bool(amp))

    # the optimiser that uses the gradient
    if case[3] == 'limit':
        mp.dm1.Vmax = 21.
    mp.ctrl.ad.utu_scale_fac = e0 / (N * 30.)
    reg = -2.
    mp.controller = 'AD-EFC'
    mp.ctrl.log10regSchedIn, mp.gridSearchItrVec = np.array([reg + 0j]), np.array([], dtype=int)
    cvar.Itr = 0
    falco.ctrl.wrapper(mp, cvar, None)
    r.step()
    r.expect(all(np.allclose(dms[k].V - V0[k], dms[k].dV, rtol=0, atol=1e-9) if k in mp.dm_ind else np.array_equal(dms[k].V, V0[k]) for k in dms),
             'restore', 'the commands after the optimisation are those before it plus the optimised change')
    dV = {k: dms[k].V - V0[k] for k in dms}
    for k in dms:
        dms[k].V = V0[k]
    u = np.zeros(N)
    for k in mp.dm_ind:
        d = dV[int(k)]
        full = V0[k] + d + dms[k].biasMap
        used = np.zeros(dms[k].NactTotal, bool)
        used[dms[k].act_ele] = True
        r.expect(not np.any(d.ravel()[~used]), 'unused', 'an actuator that is not kept was commanded', dm=int(k))
        lo, hi = dms[k].Vmin, dms[k].Vmax
        moved = np.abs(d) > 0
        r.expect(np.all((full >= lo - 1e-9)[moved]) and np.all((full <= hi + 1e-9)[moved]), 'limits',
                 'the new command leaves the voltage range', dm=int(k), lo=full.min(), hi=full.max())
        u[cvar.uLegend == k] = d.ravel()[dms[k].act_ele] / dms[k].weight
    J0, J1 = cost(np.zeros(N), reg)[0], cost(u, reg)[0]
    r.expect(J1 < J0, 'descent', 'the optimised command does not lower the cost', before=J0, after=J1)
    r.expect(np.any(u), 'moved', 'the optimiser did not move')
