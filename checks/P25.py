"""P25: the loop history records exactly what happened at each iteration.

The real falco.wfsc.loop is run for every history of the alphabet; every entry
of every stored history is compared with a value obtained independently by
placing a pristine copy of the configuration at the recorded command of that
iteration (for intensities: the per-pixel images and fields at that command,
averaged here over pixel lists built here).
"""
import copy
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
import falco
import tiny

ID = 'P25'
BOUNDS = {'quick': 'loop lengths 1..3; perfect and pairwise estimators; grid-search and planned control over every mirror-set history of length 2 (and 3 in one setting), with and without re-linearisation; model-based and measured evaluation; 1..3 sub-bands, extra Zernike modes, two stars; scoring region equal to, inside and reaching outside the correction region; Zernike sensitivities and singular spectra on and off',
          'thorough': 'every mirror-set history of length 3 in every setting, loop lengths up to 4'}
CASE_TIMEOUT = 600
CHUNK = 1

SET = {
    'a': dict(),
    'b': dict(nsbp=3, frac_bw=0.2, score=(2.3, 2.9, 120.)),
    'c': dict(nsbp=2, zerns=(1, 3), zcoef=2e-9, score=(2.0, 2.6, 180.)),
    'd': dict(nsbp=2, stars=[(0, 0, 1.0, 1.0), (2.5, 1.0, 0.3, 0.4)], score=(2.4, 3.0, 180.)),
    'e': dict(nsbp=2, nwpsbp=2, use_model=False, score=(2.0, 2.5, 90.)),
    'f': dict(nsbp=2, zerns=(2, 1), zcoef=2e-9, flag_zern_sens=True, ytilt=3.),
    'g': dict(nsbp=1, use_model=False, flag_zern_sens=True),
    'h': dict(nsbp=2, estimator='pairwise', npairs=2, score=(2.3, 3.0, 140.)),
    'i': dict(nsbp=1, estimator='pairwise', npairs=3, which_dm=2, use_model=False),
    'j': dict(nsbp=2, estimator='pairwise', npairs=2, which_dm=1, stars=[(0, 0, 1.0, 1.0), (2.5, 1.0, 0.3, 0.4)]),
    'k': dict(nsbp=2, coro='VC', parallel=True, score=(2.2, 2.8, 180.)),
    'm': dict(nsbp=2, centering='interpixel', score=(2.2, 2.8, 180.)),
    'n': dict(nsbp=1, centering='interpixel', estimator='pairwise', npairs=2, which_dm=1),
    'l': dict(tied1=[[1, 4], [5, 10]], dead1=[7], nsbp=2),
}
SVD = 'ck'


def cases(tier):
    th = tier == 'thorough'
    out = []
    mirrors = ((1,), (2,), (1, 2))
    for s in SET:
        for n in ((1, 2, 3, 4) if th else (1, 3) if s in 'bceh' else (2,)):
            for dms in mirrors if s in 'ab' or th else ((1, 2),):
                out.append(('grid', s, dms, n))
        for h in itertools.product(mirrors, repeat=3 if th else 2):
            if th or s in 'abeh' or h in (((1,), (2,)), ((1, 2), (1,))):
                out.append(('plan', s, h))
    if not th:
        out += [('plan', 'a', h) for h in itertools.product(mirrors, repeat=3) if len(set(h)) > 1]
    return out


_B = {}


def base(s):
    if s not in _B:
        mp, _ = tiny.build(**{**dict(nact=4, nbeam=12, rin=2.0, rout=3.0, fov=3.2, vtoh=5e-9, nitr=1, est_extra=dict(InormProbeMax=1e-4)), **SET[s]})
        mp.dm1.V = 1.3 * np.sin(np.arange(16.).reshape(4, 4))
        mp.dm2.V = 1.1 * np.cos(1.3 * np.arange(16.).reshape(4, 4))
        for i in (1, 2):
            dm = getattr(mp, 'dm%d' % i)
            for a, b in (dm.tied if np.size(dm.tied) else []):
                dm.V.flat[b] = dm.V.flat[a]
            dm.V.flat[list(np.ravel(dm.dead).astype(int))] = 0
        mp.flagSVD = s in SVD
        _B[s] = mp
    return copy.deepcopy(_B[s])


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.max(np.abs(b), initial=1e-30) + 1e-300))


def run(case, r):
    kind, s = case[:2]
    mp = base(s)
    if kind == 'grid':
        _, _, dms, n = case
        sched = [dms] * n
        mp.controller = 'gridsearchEFC'
        mp.dm_ind = np.array(dms)
        mp.relinItrVec = np.arange(n)
    else:
        sched = case[2]
        n = len(sched)
        mp.controller = 'plannedEFC'
        mp.dm_ind_sched = [np.array(q) for q in sched]
        mp.relinItrVec = np.arange(n)
        mp.gridSearchItrVec = np.array([0] if n < 3 else [0, 2])
        mp.ctrl.log10regSchedIn = np.array([0 + 1j, -2.0, -0.5 + 1j, 0 + 1j])[:n]
    mp.Nitr = n
    mp.ctrl.log10regVec = np.array([-3., -1.5])
    wd = tempfile.mkdtemp(prefix='p25_')
    mp.path.brief = mp.path.ws = wd
    mp0 = copy.deepcopy(mp)
    out = falco.setup.init_storage_arrays(mp)

    # ---- record what passes the public seams (if the loop uses them)
    seen = {'est': [], 'ctrl': []}
    est_wrapper, ctrl_wrapper = falco.est.wrapper, falco.ctrl.wrapper

    def est(mp_, ev, *a, **k):
        v = est_wrapper(mp_, ev, *a, **k)
        seen['est'].append((copy.deepcopy(ev.Eest), copy.deepcopy(ev.IincoEst), copy.deepcopy(ev.Im), mp_.dm1.V.copy(), mp_.dm2.V.copy()))
        return v

    def ctrl(mp_, cvar, *a, **k):
        E = copy.deepcopy(cvar.Eest)
        before = (mp_.dm1.V.copy(), mp_.dm2.V.copy(), np.array(mp_.dm_ind).copy())
        v = ctrl_wrapper(mp_, cvar, *a, **k)
        seen['ctrl'].append((E, before, float(np.real(cvar.log10regUsed)), mp_.dm1.V.copy(), mp_.dm2.V.copy()))
        return v
    falco.est.wrapper, falco.ctrl.wrapper = est, ctrl
    try:
        falco.wfsc.loop(mp, out)
        with open(os.path.join(wd, mp.runLabel + '_snippet.pkl'), 'rb') as f:
            disk = pickle.load(f)
        files = sorted(os.listdir(wd))
    finally:
        falco.est.wrapper, falco.ctrl.wrapper = est_wrapper, ctrl_wrapper
        shutil.rmtree(wd, ignore_errors=True)
    r.expect(files == [mp.runLabel + '_snippet.pkl'], 'files', 'the loop left other files than the result file', files=files)

    # ---- commands
    V = {i: getattr(out, 'dm%d' % i).Vall for i in (1, 2)}
    for i in (1, 2):
        r.expect(V[i].shape == (4, 4, n + 1), 'shape', 'command history has the wrong shape', dm=i, shape=V[i].shape)
        r.expect(np.array_equal(V[i][:, :, 0], getattr(mp0, 'dm%d' % i).V), 'first', 'first stored command is not the starting command', dm=i)
        r.expect(np.array_equal(V[i][:, :, n], getattr(mp, 'dm%d' % i).V), 'last', 'last stored command is not the final command', dm=i)
        for k in range(n):
            if len(seen['ctrl']) == n:
                r.expect(near(V[i][:, :, k], seen['ctrl'][k][1][i - 1]), 'in-force', 'stored command is not the one in force at the control step', dm=i, k=k)
                r.expect(near(V[i][:, :, k + 1], seen['ctrl'][k][2 + i]) or i in sched[k], 'after', 'stored command is not the one the control step left', dm=i, k=k)
            if i not in sched[k]:
                r.expect(np.array_equal(V[i][:, :, k], V[i][:, :, k + 1]), 'unused-moved', 'mirror not in use moved', dm=i, k=k)
    if len(seen['est']) == n and len(seen['ctrl']) == n:
        for k in range(n):
            r.expect(np.array_equal(seen['est'][k][0], seen['ctrl'][k][0]), 'estimate-changed', 'the estimate handed to the controller is not the one the estimator returned', k=k)
            r.expect(abs(out.log10regHist[k] - seen['ctrl'][k][2]) < 1e-12, 'reg', 'recorded regularisation is not the one used', k=k)
            r.expect(tuple(sorted(seen['ctrl'][k][1][2].tolist())) == tuple(sorted(sched[k])), 'dms', 'controlled mirrors are not the scheduled ones', k=k)

    # ---- pixel lists built here
    corr = np.asarray(mp0.Fend.corr.maskBool)
    score = np.asarray(mp0.Fend.score.maskBool)
    cpix = [tuple(p) for p in np.argwhere(corr)]
    in_score = [q for q, p in enumerate(cpix) if score[p]]
    sw = np.asarray(mp0.sbp_weights, dtype=float).ravel()

    def at(k, dms):
        m = copy.deepcopy(mp0)
        m.dm_ind = np.array(dms)
        m.dm1.V, m.dm2.V = V[1][:, :, k].copy(), V[2][:, :, k].copy()
        falco.imaging.calc_psf_norm_factor(m)
        return m

    def m1(im, region):
        return sum(im[p] for p in map(tuple, np.argwhere(region))) / float(region.sum())

    pair = mp0.estimator != 'perfect'
    prev = None
    nm = mp0.jac.Nmode
    for k in range(n):
        m = at(k, sched[k])
        th, _ = falco.imaging.calc_thput(m)
        r.expect(near(out.thput[k], np.max(th)), 'thput', 'recorded throughput is not that of the iteration', k=k, got=out.thput[k], want=float(np.max(th)))
        # a probing mirror takes part in the measurement also when it is not controlled
        mi = copy.deepcopy(m)
        if pair:
            mi.dm_ind = np.array(sorted(set(sched[k]) | {mp0.est.probe.whichDM}))
        subs = [falco.imaging.get_sbp_image(mi, j) for j in range(mp0.Nsbp)]
        Im = sum(w * q for w, q in zip(sw, subs))
        for nm_, reg_ in (('IrawCorrHist', corr), ('IrawScoreHist', score), ('InormHist', corr)):
            r.expect(near(getattr(out, nm_)[k], m1(Im, reg_)), 'raw', 'recorded measured intensity is not that of the iteration', what=nm_, k=k, got=getattr(out, nm_)[k], want=m1(Im, reg_))
        # the estimate of this iteration, from a pristine start
        ev = falco.config.Object()
        ev.Itr = k
        me = copy.deepcopy(m)
        est_wrapper(me, ev, None)
        E, inco = np.asarray(ev.Eest), np.asarray(ev.IincoEst)
        for j in range(mp0.Nsbp):
            ref = np.squeeze(np.asarray(ev.imageArray)[:, :, 0, j]) if mp0.Nwpsbp > 1 and not pair else subs[j]
            r.expect(near(out.normIntMeasCorr[k, j], m1(ref, corr)) and near(out.normIntMeasScore[k, j], m1(ref, score)),
                     'sub-band', 'recorded sub-band intensity is not that of the iteration', k=k, j=j, got=(out.normIntMeasCorr[k, j], out.normIntMeasScore[k, j]), want=(m1(ref, corr), m1(ref, score)))
        Ib = {'est': np.zeros(len(cpix)), 'inco': np.zeros(len(cpix))}
        for q in range(nm):
            mod, un = np.abs(E[:, q])**2, inco[:, q]
            for nm_, val in (('normIntMod', mod), ('normIntUnmod', un)):
                c, sc = getattr(out, nm_ + 'Corr')[k, q], getattr(out, nm_ + 'Score')[k, q]
                tol = 1e-6 * max(float(np.mean(mod)), 1e-30)
                r.expect(abs(c - np.mean(val)) <= tol and abs(sc - (np.mean(val[in_score]) if in_score else sc)) <= tol, 'mode', 'recorded modulated/unmodulated intensity of a mode is wrong', what=nm_, k=k, mode=q, got=(c, sc), want=(float(np.mean(val)), float(np.mean(val[in_score]))))
            if int(np.ravel(mp0.jac.zern_inds)[q]) == 1:
                Ib['est'] += sw[int(np.ravel(mp0.jac.sbp_inds)[q])] * mod
                Ib['inco'] += sw[int(np.ravel(mp0.jac.sbp_inds)[q])] * un
        nscore = float(score.sum())
        tol = 1e-6 * float(np.mean(Ib['est']))
        for nm_, val, sc in (('IestCorrHist', Ib['est'], 0), ('IestScoreHist', Ib['est'], 1), ('IincoCorrHist', Ib['inco'], 0), ('IincoScoreHist', Ib['inco'], 1)):
            want = val[in_score].sum() / nscore if sc else val.mean()
            r.expect(abs(getattr(out, nm_)[k] - want) <= tol, 'band', 'recorded band-averaged intensity is wrong', what=nm_, k=k, got=getattr(out, nm_)[k], want=float(want))
        # mirror statistics describe the command this iteration produced
        mn = at(k + 1, sched[k])
        for i in (1, 2):
            dm, od = getattr(mn, 'dm%d' % i), getattr(out, 'dm%d' % i)
            if i in sched[k]:
                surf = falco.dm.gen_surf_from_act(copy.deepcopy(dm), dm.compact.dx, dm.compact.Ndm)
                nd = dm.compact.Ndm
                x = np.arange(nd) - (nd // 2 if mp0.centering == 'pixel' else (nd - 1) / 2)
                R = np.hypot(*np.meshgrid(x, x)) * mp0.P2.compact.dx / mp0.P2.D
                inside = [p for p in map(tuple, np.argwhere(R <= 0.5)) if R[p] >= mp0.P1.IDnorm / 2]
                rms = np.sqrt(sum(surf[p]**2 for p in inside) / len(inside))
                Vk = V[i][:, :, k + 1]
                for what, want in (('Vpv', Vk.max() - Vk.min()), ('Spv', surf.max() - surf.min()), ('Srms', rms)):
                    r.expect(near(getattr(od, what)[k], want, 1e-6), 'stats', 'mirror statistics are not those of the iteration', what=what, dm=i, k=k, got=getattr(od, what)[k], want=float(want))
        if mp0.eval.Rsens.size:
            mo = copy.deepcopy(m)
            mo.dm1.V, mo.dm2.V = mn.dm1.V.copy(), mn.dm2.V.copy()
            z = falco.zern.calc_zern_sens(mo)      # normalised as in this iteration
            r.expect(near(out.Zsens[:, :, k], z, 1e-6) or near(out.Zsens[:, :, k], falco.zern.calc_zern_sens(mn), 1e-6), 'zsens', 'recorded Zernike sensitivities are not those of the iteration', k=k, got=out.Zsens[:, :, k].tolist(), want=np.asarray(z).tolist())
        # change of the field between iterations
        mv = falco.config.ModelVariables()
        mv.whichSource, mv.starIndex = 'star', 0
        sim = []
        for j in range(mp0.Nsbp):
            mv.sbpIndex = j
            sim.append(falco.model.compact(m, mv)[corr])
        col = {int(np.ravel(mp0.jac.sbp_inds)[q]): q for q in range(nm) if int(np.ravel(mp0.jac.zern_inds)[q]) == 1 and int(np.ravel(mp0.jac.star_inds)[q]) == 0}
        if prev is not None:
            for j in range(mp0.Nsbp):
                d, f = E[:, col[j]] - prev[0][:, col[j]], sim[j] - prev[1][j]
                ok = np.abs(d) > 0
                d, f = d[ok], f[ok]
                if not len(d):
                    continue
                ip = abs(sum(np.conj(f) * d))
                ff, dd = sum(np.abs(f)**2), sum(np.abs(d)**2)
                r.expect(near(out.complexProjection[k - 1, j], ip / ff, 1e-6) and near(out.complexCorrelation[k - 1, j], ip / np.sqrt(ff * dd), 1e-6), 'delta',
                         'recorded projection/correlation of the field change is wrong', k=k, j=j, got=(out.complexProjection[k - 1, j], out.complexCorrelation[k - 1, j]), want=(float(ip / ff), float(ip / np.sqrt(ff * dd))))
                r.outcome(case, round(float(out.complexCorrelation[k - 1, j]), 3))
        prev = (E, sim)
        r.step()
        r.state(s, sched[:k + 1], round(float(np.abs(V[1][:, :, k]).sum()), 6))
        r.outcome(s, k, round(float(out.InormHist[k] * 1e6), 3))
        if len(r.viol) >= 4:
            return
    # final entries: at the final command, normalised as in the last iteration
    # (a fresh normalisation would be as good for the throughput)
    fresh = at(n, sched[-1])
    m = at(n - 1, sched[-1])
    m.dm1.V, m.dm2.V = V[1][:, :, n].copy(), V[2][:, :, n].copy()
    th = [np.max(falco.imaging.calc_thput(q)[0]) for q in (m, fresh)]
    r.expect(near(out.thput[n], th[0]) or near(out.thput[n], th[1]), 'thput-last', 'last throughput is not that of the final command', got=out.thput[n], want=th)
    if not mp0.ctrl.flagUseModel and kind == 'grid':
        Im = falco.imaging.get_summed_image(m)
        r.expect(near(out.IrawCorrHist[n], m1(Im, corr), 1e-6) and near(out.IrawScoreHist[n], m1(Im, score), 1e-6) and near(out.InormHist[n], m1(Im, corr), 1e-6),
                 'raw-last', 'last measured intensity is not that of the final command', got=(out.IrawCorrHist[n], out.IrawScoreHist[n]), want=(m1(Im, corr), m1(Im, score)))
    # the file holds the same record
    for a in ('thput', 'log10regHist', 'InormHist', 'IrawCorrHist', 'IrawScoreHist', 'IestCorrHist', 'normIntModCorr', 'complexProjection'):
        r.expect(np.array_equal(getattr(disk, a), getattr(out, a)), 'file', 'the saved record differs from the returned one', what=a)
    for i in (1, 2):
        r.expect(np.array_equal(getattr(disk, 'dm%d' % i).Vall, V[i]), 'file', 'the saved record differs from the returned one', what='Vall', dm=i)
    r.execution()
