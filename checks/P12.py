"""P12: probing the field leaves the mirrors and settings as they were.

Every probing configuration is run for a sequence of consecutive estimates on
the real estimator, with a snapshot of every setting before and after.
"""
import copy
import itertools
import numpy as np
import falco
import snap
import tiny

ID = 'P12'
BOUNDS = {'quick': 'controlled mirrors {1},{2},{1,2} (also in reversed order) x probing mirror {1,2} x estimator (square, rectangular; model or Jacobian based) x probe axis x 1..3 pairs x rotation {0,30} x command zero/non-zero, each with 2 consecutive estimates; scheduled probe offsets, rotations and intensities over 3 estimates; two stars with rectangular probes; 1..2 sub-bands; quick runs a fixed covering sixth of the cross product',
          'thorough': 'the full cross product of all of these with 3 consecutive estimates'}
CHUNK = 4


def cases(tier):
    th = tier == 'thorough'
    out = []
    for dms, wh in itertools.product(((1,), (2,), (1, 2), (2, 1)), (1, 2)):
        for est, axis in (('pwp-bp-square', 'x'), ('pwp-bp-square', 'y'), ('pairwise', 'alternate'), ('pairwise-square', 'alt'), ('pwp-bp', ''), ('pairwise-rect', '')):
            for n in (1, 2, 3):
                for rot in (0, 30):
                    for v in (0, 1):
                        for jac in (0, 1):
                            if jac and wh not in dms:
                                continue
                            for nsbp in (1, 2):
                                # quick: a covering subset that keeps every pair of options
                                if not th and (dms.index(dms[0]) + len(dms) + wh + n + rot // 30 + v + jac + nsbp + ('pwp-bp-square', 'pairwise', 'pairwise-square', 'pwp-bp', 'pairwise-rect').index(est) + (axis == 'y')) % 6:
                                    continue
                                out.append((dms, wh, est, axis, n, rot, v, jac, nsbp, 1, 0, 3 if th else 2))
    for dms, wh, n, v in itertools.product(((1,), (2,), (1, 2)), (1, 2), (2,) if not th else (1, 2, 3), (0, 1)):
        out.append((dms, wh, 'pwp-bp', '', n, 0, v, 0, 2, 2, 0, 2))
    for dms, wh, sched in itertools.product(((1,), (2,), (1, 2)), (1, 2), ('x', 'y', 'r', 'i', 'xyri')):
        for est, axis in (('pwp-bp-square', 'alternate'), ('pwp-bp', '')):
            out.append((dms, wh, est, axis, 2, 0, 1, 0, 1, 1, sched, 3))
    return out


_B = {}
STARS = [(0, 0, 1.0, 1.0), (2.5, 1.0, 0.3, 0.4)]


def base(nsbp, nst):
    k = (nsbp, nst)
    if k not in _B:
        _B[k], _ = tiny.build(nact=4, nbeam=12, rin=2.0, rout=3.0, fov=3.2, nsbp=nsbp, vtoh=5e-9, nitr=4,
                              stars=STARS if nst == 2 else None, est_extra=dict(InormProbeMax=1e-4))
    return copy.deepcopy(_B[k])


def near(a, b, tol=1e-10):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(np.max(np.abs(b)), 1e-12)))


def run(case, r):
    dms, wh, est, axis, n, rot, v, jac, nsbp, nst, sched, nest = case
    mp = base(nsbp, nst)
    mp.dm_ind = np.array(dms)
    mp.estimator = est
    pr = mp.est.probe
    pr.whichDM, pr.Npairs, pr.rotation = wh, n, rot
    if axis:
        pr.axis = axis
    pr.gainFudge = np.ones(nst)
    pr.xiOffset, pr.etaOffset = np.array([2., -2.])[:nst], np.array([0.5, 1.])[:nst]
    pr.width, pr.height = np.full(nst, 2.), np.full(nst, 3.)
    mp.est.flagUseJac = bool(jac)
    if v:
        mp.dm1.V = 1.3 * np.sin(np.arange(16.).reshape(4, 4))
        mp.dm2.V = 1.1 * np.cos(1.3 * np.arange(16.).reshape(4, 4))
    ps = mp.est.probeSchedule
    X = {'x': ('xOffset', np.array([0., 1., -1.])), 'y': ('yOffset', np.array([1., 0., -1.])), 'r': ('rotation', np.array([0., 45., 90.])), 'i': ('Inorm', np.array([1e-5, 4e-5, 1e-6]))}
    own = set()
    for c in sched or '':
        nm, vec = X[c]
        vec = np.append(vec, vec[:1])
        if c == 'x':
            ps.xOffsetVec = vec
        elif c == 'y':
            ps.yOffsetVec = vec
        elif c == 'r':
            ps.rotationVec = vec
        else:
            ps.InormProbeVec = vec
        own.add('est.probe.' + nm)
    falco.imaging.calc_psf_norm_factor(mp)
    G = falco.model.jacobian(copy.deepcopy(mp)) if jac else None
    union = np.array(sorted(set(dms) | {wh}))
    V0 = {1: mp.dm1.V.copy(), 2: mp.dm2.V.copy()}
    clean = copy.deepcopy(mp)
    clean.dm_ind = union
    mpi = copy.deepcopy(clean)
    before = snap.take(mp)
    first = None
    probes = []
    ev = falco.config.Object()
    for itr in range(nest):
        ev.Itr = itr
        Gb = copy.deepcopy(G)
        falco.est.wrapper(mp, ev, G)
        after = snap.take(mp)
        diff = [p for p in snap.changed(before, after) if p not in own]
        r.expect(not diff, 'setting', 'a setting differs after the estimate', settings=diff[:6])
        for c in sched or '':
            nm, vec = X[c]
            if c != 'i':
                r.expect(float(getattr(pr, nm)) == float(vec[itr]), 'schedule', 'the scheduled probe setting was not used', what=nm, itr=itr)
        if G is not None:
            r.expect(np.array_equal(G.G1, Gb.G1) and np.array_equal(G.G2, Gb.G2), 'jacobian', 'the Jacobian was changed by the estimate')
        # images and commands reported
        A = np.asarray(ev.imageArray)
        r.expect(A.shape[2] == 2 * n + 1 and A.shape[3] == nsbp, 'cube', 'wrong number of images', shape=A.shape)
        Im = 0
        for j in range(nsbp):
            for k in range(2 * n + 1):
                for i in (1, 2):
                    V = getattr(ev, 'dm%d' % i)
                    V = V.Vall[:, :, k, j] if i in union else V0[i]
                    if k == 0 or i != wh:
                        r.expect(np.array_equal(V, V0[i]), 'unprobed', 'a mirror that should be at its unprobed command is not', dm=i, image=k, j=j)
                    setattr(getattr(mpi, 'dm%d' % i), 'V', V.copy())
                I = falco.imaging.get_sbp_image(mpi, j)
                if k == 0:
                    Im = Im + float(np.ravel(clean.sbp_weights)[j]) * I
                r.expect(near(A[:, :, k, j], I, 1e-9), 'image', 'a reported image is not the image at the reported command', k=k, j=j, itr=itr, err=float(np.max(np.abs(A[:, :, k, j] - I))))
                r.step()
            W = getattr(ev, 'dm%d' % wh).Vall[:, :, :, j]
            for q in range(n):
                p, m = W[:, :, 1 + 2 * q] - V0[wh], W[:, :, 2 + 2 * q] - V0[wh]
                s = np.max(np.abs(p))
                r.expect(s > 0, 'no-probe', 'a probe is zero', pair=q, j=j)
                r.expect(np.max(np.abs(p + m)) <= 1e-9 * s, 'pair', 'probes are not an exact plus/minus pair', pair=q, j=j, plus=p.round(6).tolist(), minus=m.round(6).tolist())
                if j == 0:
                    probes.append((itr, q, s))
                    for q2 in range(q):
                        p2 = W[:, :, 1 + 2 * q2] - V0[wh]
                        r.expect(np.max(np.abs(p - p2)) > 1e-9 * s, 'same-probe', 'two probe pairs are identical', pair=(q2, q))
        r.expect(near(ev.Im, Im, 1e-9), 'unprobed-image', 'the reported image is not the band-averaged image at the unprobed command')
        sh = (np.asarray(ev.Eest).shape, np.asarray(ev.IincoEst).shape)
        r.expect(sh == ((mp.Fend.corr.Npix, nsbp * nst),) * 2, 'shape', 'estimate has the wrong shape', shape=sh)
        if not sched:
            same = axis not in ('alternate', 'alt') or n < 2
            if first is None:
                first = copy.deepcopy(ev.Eest)
            elif same and axis not in ('alternate', 'alt'):
                r.expect(near(ev.Eest, first, 1e-9), 'repeat', 'repeating the estimate gives another result', itr=itr)
        r.state(dms, wh, est, axis, n, rot, v, jac, nsbp, nst, sched, itr)
    if 'i' in (sched or ''):
        # amplitude follows the square root of the scheduled intensity
        amp = [s for (t, q, s) in probes if q == 0]
        if sched == 'i':
            r.expect(abs(amp[1] / amp[0] - 2) < 1e-6 and abs(amp[2] / amp[0] - 10**-.5) < 1e-6, 'intensity', 'probe height does not follow the scheduled intensity', amp=amp)
    r.outcome(len(union), n, nsbp, nst, est)
    r.execution()
