"""One run of the real loop (or of the thin-film table builder) to be traced.

usage: crashrun.py loop SCENARIO DIR MARKS REF     |  crashrun.py film DIR(=package copy) MARKS REF KIND
"""
import contextlib
import copy
import io
import logging
import os
import pickle
import sys
import warnings

import numpy as np

warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)

SCEN = {
    'one': dict(nitr=1),
    'three': dict(nitr=3),
    'svd': dict(nitr=3, nsbp=2, flag_zern_sens=True, svd=True),
    'pair': dict(nitr=2, nsbp=1, estimator='pairwise', npairs=2, use_model=False, est_extra=dict(InormProbeMax=1e-4)),
    'ws': dict(nitr=2, nsbp=1, save=True),
    'wsvc': dict(nitr=1, coro='VC', save=True, same=True),
    'plan': dict(nitr=3, plan=[[1], [2], [1, 2]]),
    'big': dict(nitr=2, nact=12, nbeam=24, dm_ind=(1,)),
    'ad': dict(nitr=2, ad=True),
    'wspar': dict(nitr=1, parallel=True, save=True, flag_zern_sens=True),
}
QUICK = ('one', 'three', 'svd', 'pair', 'ws', 'wsvc', 'plan', 'big')


def build(name, nitr=None):
    import tiny
    kw = dict(SCEN[name])
    if nitr:
        kw['nitr'] = nitr
    plan, ad, svd, save, same = (kw.pop(k, None) for k in ('plan', 'ad', 'svd', 'save', 'same'))
    mp, _ = tiny.build(**{**dict(nact=4, nbeam=12, rin=2.0, rout=3.0, fov=3.2, vtoh=5e-9), **kw})
    mp.dm1.V = 1.3 * np.sin(np.arange(float(mp.dm1.Nact ** 2))).reshape(mp.dm1.Nact, -1)
    mp.flagSVD = bool(svd)
    mp.flagSaveWS = bool(save)
    mp.runLabel = 'run1'
    mp.ctrl.log10regVec = np.array([-3., -1.5])
    if plan:
        mp.controller = 'plannedEFC'
        mp.dm_ind_sched = [np.array(q) for q in plan][:mp.Nitr]
        mp.gridSearchItrVec = np.array([0])
        mp.ctrl.log10regSchedIn = np.array([0 + 1j, -2.0, -1.0])[:mp.Nitr]
    if ad:
        mp.controller = 'ad-efc'
        mp.jac.minimizeNI = False
        mp.dm1.Vmin, mp.dm1.Vmax, mp.dm2.Vmin, mp.dm2.Vmax = -50., 50., -50., 50.
        mp.ctrl.ad_maxiter = 3
        mp.ctrl.ad = None
    return mp, bool(same)


def dirs(mp, d, same):
    mp.path.brief = d
    mp.path.ws = d if same else os.path.join(d, 'ws')
    os.makedirs(mp.path.ws, exist_ok=True)
    return mp


def go(name, d, nitr=None, mark=lambda s: None):
    """-> (initial out, final out, mp before, mp after)"""
    import falco
    mp, same = build(name, nitr)
    dirs(mp, d, same)
    out = falco.setup.init_storage_arrays(mp)
    out0, mp0 = copy.deepcopy(out), copy.deepcopy(mp)
    w = falco.est.wrapper

    def est(mp_, ev, *a, **k):
        mark('itr %d' % ev.Itr)
        return w(mp_, ev, *a, **k)
    falco.est.wrapper = est
    try:
        mark('start')
        falco.wfsc.loop(mp, out)
        mark('end')
    finally:
        falco.est.wrapper = w
    return out0, out, mp0, mp


def film(kind):
    """the stored tables of one design"""
    import falco
    mp = falco.config.ModelParameters()
    mp.F3.substrate, mp.F3.metal, mp.F3.dielectric, mp.F3.d0fac = 'FS', 'Ni', 'PMGI', 4
    mp.lambda0, mp.fracBW, mp.Nsbp, mp.Nwpsbp, mp.aoi, mp.t_Ti_nm = 550e-9, 0.1, 2, (1, 3, 1)[kind], 5.5, 3.
    mp.t_metal_nm_vec, mp.dt_metal_nm = np.arange(0., 101., 50.), 50.
    mp.t_diel_nm_vec, mp.dt_diel_nm = np.arange(0., 301., 60.), 60.
    mp.full = falco.config.Object()
    mp.estimator = 'perfect'
    mp.flagSim = True
    falco.setup.falco_set_spectral_properties(mp)
    return falco.thinfilm.gen_complex_trans_table(mp, flagRefl=kind == 2)


def main():
    class Null(io.TextIOBase):
        def write(self, s):
            return len(s)
    limit = os.environ.get('CRASH_FSIZE')
    if limit is not None:
        import resource
        resource.setrlimit(resource.RLIMIT_FSIZE, (int(limit), resource.RLIM_INFINITY))
    clock = [1.5e9]

    def tick():
        clock[0] += 1.
        return clock[0]
    import time
    time.time = tick
    free = lambda: None
    if limit is not None:
        def free():
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    with contextlib.redirect_stdout(Null()):
        import falco
        if sys.argv[1] == 'loop':
            _, _, name, d, marks, ref = sys.argv
            m = os.open(marks, os.O_WRONLY | os.O_APPEND)
            res = go(name, d, mark=(lambda s: None) if limit is not None else lambda s: os.write(m, (s + '\n').encode()))
            free()
            rd = os.open(ref, os.O_WRONLY | os.O_CREAT, 0o600)
            for b in (pickle.dumps(res),):
                os.write(rd, b)
        else:
            _, _, root, marks, ref, kind = sys.argv
            m = os.open(marks, os.O_WRONLY | os.O_APPEND)
            os.write(m, b'start\n')
            res = film(int(kind))
            os.write(m, b'end\n')
            free()
            with open(ref, 'wb') as f:
                pickle.dump([np.asarray(q) for q in res], f)


if __name__ == '__main__':
    main()
