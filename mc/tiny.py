"""Tiny but complete FALCO coronagraph configurations (seconds -> milliseconds).

Everything goes through falco's public configuration objects and
flesh_out_workspace, exactly like the shipped example configurations.
"""
import contextlib
import io
import os
import tempfile

import numpy as np
import falco


def _circ(nbeam, narr, od, idn=0.0):
    """anti-aliased pupil on an FFT-centred grid, independent of falco.mask"""
    x = (np.arange(narr) - narr // 2) / nbeam
    X, Y = np.meshgrid(x, x)
    R = np.hypot(X, Y)
    soft = 1.0 / nbeam
    m = np.clip((od / 2 - R) / soft + 0.5, 0, 1)
    if idn > 0:
        m = m * np.clip((R - idn / 2) / soft + 0.5, 0, 1)
    return m


def config(coro='LC', nact=4, nbeam=16, nsbp=1, nwpsbp=1, frac_bw=0.1,
           dm_ind=(1, 2), zerns=(1,), zcoef=1e-9, parallel=False, nthreads=2, stars=None,
           controller='gridsearchEFC', estimator='perfect', nitr=1, relin=None,
           fov=4.0, res=2.0, rin=1.5, rout=3.5, sides='leftright', ang=180.,
           d_dm1_dm2=0.2, d_P2_dm1=0.0, flag_rotation=True, tied1=None, tied2=None, dead1=None,
           pinned1=None, log10reg=(-3, -2), dmfac=(1.,), wspatial=None,
           npairs=1, which_dm=1, use_model=True, nrelayfend=0, apod=False, aberr=0.0,
           fpm_amp=0.0, full_nbeam=None, centering='pixel', workdir=None, minimize_ni=False,
           asym_pupil=True, ytilt=0.0, score=None, vtoh=1e-9, dm2stop=False, extra=None,
           surf_fit=None, flag_zern_sens=False, est_extra=None, layout=None, hlc_full=None, relays=(1, 1, 1), dm1stop=False, vtoh2=None):
    mp = falco.config.ModelParameters()
    wd = workdir or tempfile.gettempdir()
    mp.path = falco.config.Object()
    mp.path.brief = wd
    mp.path.ws = wd
    mp.path.config = wd
    mp.path.mask = wd
    mp.SeriesNum = 1
    mp.TrialNum = 1
    mp.runLabel = 'tiny'
    mp.flagParallel = parallel
    mp.Nthreads = nthreads
    mp.flagPlot = False
    mp.flagSaveWS = False
    mp.centering = centering
    mp.thput_metric = 'EE'
    mp.thput_radius = 0.7
    mp.thput_eval_x = 2.5
    mp.thput_eval_y = 0
    mp.source_x_offset_norm = 2.5
    mp.source_y_offset_norm = 0
    mp.lambda0 = 550e-9
    mp.fracBW = frac_bw
    mp.Nsbp = nsbp
    mp.Nwpsbp = nwpsbp
    mp.estimator = estimator
    mp.est = falco.config.Object()
    mp.est.probe = falco.config.Probe()
    mp.est.probe.Npairs = npairs
    mp.est.probe.whichDM = which_dm
    mp.est.probe.radius = nact
    mp.est.probe.xOffset = 0
    mp.est.probe.yOffset = 0
    mp.est.probe.axis = 'alternate'
    mp.est.probe.gainFudge = 1
    if est_extra:
        for k, v in est_extra.items():
            setattr(mp.est, k, v)
    mp.ctrl = falco.config.Object()
    mp.ctrl.flagUseModel = use_model
    mp.logGmin = -6
    mp.jac = falco.config.Object()
    mp.jac.zerns = list(zerns)
    mp.jac.Zcoef = zcoef * np.ones(len(zerns))
    mp.jac.minimizeNI = minimize_ni
    mp.eval = falco.config.Object()
    mp.eval.indsZnoll = [2]
    mp.eval.Rsens = np.array([[2., 3.]]) if flag_zern_sens else np.array([])
    mp.ctrl.log10regVec = np.array(log10reg, dtype=float)
    mp.ctrl.dmfacVec = np.array(dmfac, dtype=float)
    mp.WspatialDef = [] if wspatial is None else np.array(wspatial, dtype=float)
    mp.dm1.weight = 1.
    mp.dm2.weight = 1.
    mp.controller = controller
    mp.Nitr = nitr
    mp.relinItrVec = np.arange(nitr) if relin is None else np.array(relin)
    mp.dm_ind = np.array(dm_ind)
    for dm in (mp.dm1, mp.dm2):
        dm.inf_fn = falco.INFLUENCE_XINETICS
        dm.dm_spacing = 1e-3
        dm.inf_sign = '+'
        dm.Nact = nact
        dm.VtoH = vtoh * np.ones((nact, nact))
        dm.xtilt = 0
        dm.ytilt = ytilt
        dm.zrot = 0
        dm.xc = nact / 2 - 1 / 2
        dm.yc = nact / 2 - 1 / 2
        dm.edgeBuffer = 1
    if surf_fit:
        mp.dm1.surfFitMethod = surf_fit
        mp.dm2.surfFitMethod = surf_fit
    if tied1 is not None:
        mp.dm1.tied = np.array(tied1)
    if tied2 is not None:
        mp.dm2.tied = np.array(tied2)
    if dead1 is not None:
        mp.dm1.dead = np.array(dead1)
    if pinned1 is not None:
        mp.dm1.pinned = np.array(pinned1)
        mp.dm1.Vpinned = np.zeros(len(pinned1))
    mp.flagDM1stop = dm1stop
    mp.dm1.Dstop = nact * 1e-3 * 0.95
    mp.flagDM2stop = dm2stop
    mp.dm2.Dstop = nact * 1e-3 * 0.9
    mp.d_P2_dm1 = d_P2_dm1
    mp.d_dm1_dm2 = d_dm1_dm2
    mp.flagSim = True
    mp.layout = 'Fourier'
    mp.coro = coro
    mp.Fend = falco.config.Object()
    mp.Fend.res = res
    mp.Fend.FOV = fov
    mp.Fend.corr = falco.config.Object()
    mp.Fend.corr.Rin = rin
    mp.Fend.corr.Rout = rout
    mp.Fend.corr.ang = ang
    mp.Fend.score = falco.config.Object()
    s = score or (rin, rout, ang)
    mp.Fend.score.Rin, mp.Fend.score.Rout, mp.Fend.score.ang = s
    mp.Fend.sides = sides
    mp.fl = 1.
    mp.P2.D = nact * 1e-3
    mp.P3.D = mp.P2.D
    mp.P4.D = mp.P2.D
    mp.P1.compact.Nbeam = nbeam
    mp.P4.compact.Nbeam = nbeam
    nf = full_nbeam or nbeam
    mp.P1.full.Nbeam = nf
    mp.P4.full.Nbeam = nf
    mp.flagRotation = flag_rotation
    mp.Nrelay1to2, mp.Nrelay2to3, mp.Nrelay3to4 = relays
    mp.NrelayFend = nrelayfend
    mp.F3.compact.res = 3
    mp.F3.full.res = 3
    mp.full = falco.config.Object()
    mp.compact = falco.config.Object()
    mp.whichPupil = 'tiny'
    mp.P1.IDnorm = 0.
    mp.P1.ODnorm = 1.
    mp.P1.D = 2.4
    pad = 2 if centering == 'pixel' else 0

    def pup(nb):
        m = _circ(nb, nb + 2, 1.0)
        if asym_pupil:
            c = (nb + 2) // 2
            m[c + nb // 8:c + nb // 4, c + nb // 8: c + nb // 3] = 0
        return m
    mp.P1.full.mask = pup(nf)
    mp.P1.compact.mask = pup(nbeam)
    mp.flagApod = apod
    if apod:
        mp.P3.full.mask = _circ(nf, nf + 2, 0.95)
        mp.P3.compact.mask = _circ(nbeam, nbeam + 2, 0.95)
    mp.P4.full.mask = _circ(nf, nf + 2, 0.8)
    mp.P4.compact.mask = _circ(nbeam, nbeam + 2, 0.8)
    mp.P4.compact.maskAtP1res = mp.P4.compact.mask
    if coro.upper() in ('VORTEX', 'VC', 'AVC'):
        mp.F3.VortexCharge = 4
        mp.P4.IDnorm, mp.P4.ODnorm = 0, 0.8
    else:
        mp.F3.Rin = 1.8
        mp.F3.RinA = 1.8
        mp.F3.Rout = 6.0 if coro.upper() in ('FLC', 'SPLC') else np.inf
        mp.F3.ang = 180
        mp.FPMampFac = fpm_amp
        d = {'rhoInner': mp.F3.Rin, 'rhoOuter': mp.F3.Rout, 'centering': centering,
             'FPMampFac': fpm_amp, 'pixresFPM': 3}
        mp.F3.full.mask = falco.mask.gen_annular_fpm(d)
        mp.F3.compact.mask = falco.mask.gen_annular_fpm(d)
    if layout:
        mp.layout = layout
    if coro.upper() == 'HLC':
        # complex focal-plane mask given as a cube (one slice per wavelength), as in the PROPER-type layouts
        base = mp.F3.compact.mask
        n = base.shape[0]
        u = (np.arange(n) - n / 2) / n

        def cube(k):
            out = np.zeros((n, n, k), dtype=complex)
            for i in range(k):
                out[:, :, i] = np.where(base > 0.5, (0.97 - 0.01 * i) * np.exp(1j * (0.3 + 0.02 * i)),
                                        0.1 * np.exp(1j * (1.1 + 0.4 * u[:, None] - 0.2 * u[None, :] + 0.05 * i)))
            return out
        mp.compact.fpmCube = cube(nsbp)
        mp.full.fpmCube = cube(nsbp * nwpsbp) if hlc_full is None else hlc_full(cube)
        mp.F3.compact.mask = mp.compact.fpmCube[:, :, 0]
        mp.F3.full.mask = mp.full.fpmCube[:, :, 0]
    if stars is not None:
        for sub in (mp, mp.compact):
            sub.star = falco.config.Object()
            sub.star.count = len(stars)
            sub.star.xiOffsetVec = np.array([s_[0] for s_ in stars], dtype=float)
            sub.star.etaOffsetVec = np.array([s_[1] for s_ in stars], dtype=float)
            sub.star.weights = np.array([s_[2] for s_ in stars], dtype=float)
        mp.jac.star = falco.config.Object()
        mp.jac.star.weights = np.array([s_[3] if len(s_) > 3 else 1. for s_ in stars])
    if aberr:
        n = nf + 2
        x = (np.arange(n) - n // 2) / nf
        X, Y = np.meshgrid(x, x)
        ph = aberr * (np.cos(2 * np.pi * (2.3 * X + 1.1 * Y)) + 0.5 * np.sin(2 * np.pi * (1.2 * X - 2.4 * Y)))
        mp.P1.full.E = np.exp(1j * ph)[:, :, None, None] * np.ones((1, 1, nwpsbp, nsbp))
        n = nbeam + 2
        x = (np.arange(n) - n // 2) / nbeam
        X, Y = np.meshgrid(x, x)
    if extra:
        extra(mp)
    return mp


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def build(**kw):
    mp = config(**kw)
    with quiet():
        out = falco.setup.flesh_out_workspace(mp)
    return mp, out


def proper_config(pol=(0,), nbeam=14, **kw):
    """a configuration whose full model is the PROPER prescription stubrx"""
    user = kw.pop('extra', None)

    def extra(mp):
        mp.full.flagPROPER = True
        mp.full.prescription = 'stubrx'
        mp.full.pol_conds = np.array(pol)
        mp.full.polaxis = pol[0]
        mp.full.dm1FlatMap = 0.
        mp.full.dm2FlatMap = 0.
        n = falco.util.ceil_even(2 * mp.Fend.FOV * mp.Fend.res + (1 if mp.centering == 'pixel' else 0))
        mp.full.nout = n
        if user:
            user(mp)
    return build(layout='proper', nbeam=nbeam, extra=extra, **kw)
