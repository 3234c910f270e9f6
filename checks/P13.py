"""P13: pairwise probing recovers the true field.

The real estimator is run for every probing configuration on noiseless images
of the model it estimates with.  Its estimate is compared (1) with an
independent pixel-by-pixel inversion of the very images and commands it
reports, and (2) with the true field of the model, on commands where theory
bounds the remaining second-order error (dug dark holes, Jacobian-based
probing with faint probes).
"""
import copy
import itertools
import numpy as np
import falco
import tiny

ID = 'P13'
BOUNDS = {'quick': '2 coronagraphs x starting command {zero, structured, dug} x probing mirror {1,2} x controlled mirrors {1},{2},{1,2} x probe pattern {square x, y, alternating, rectangular} x 1..3 pairs x 1..2 sub-bands x {model, Jacobian} based; two stars; several wavelengths per sub-band; three brightness limits',
          'thorough': 'the full cross product, 3 coronagraphs, up to 4 pairs, both iteration parities'}
CHUNK = 6
STARS = [(0, 0, 1.0, 1.0), (2.5, 1.0, 0.3, 0.4)]


def cases(tier):
    th = tier == 'thorough'
    out = []
    pats = (('pwp-bp-square', 'x'), ('pairwise', 'y'), ('pairwise-square', 'alternate'), ('pwp-bp', ''))
    for coro in ('LC', 'VC', 'FLC') if th else ('LC', 'VC'):
        for cmd, wh, dms, (ip, pat), n, nsbp, jac in itertools.product(('zero', 'some', 'dug'), (1, 2), ((1,), (2,), (1, 2)), enumerate(pats), (1, 2, 3, 4) if th else (1, 2, 3), (1, 2), (0, 1)):
            if jac and wh not in dms:
                continue
            if not th and coro == 'VC' and (nsbp == 2 or n == 1):
                continue
            if not th and (len(coro) + len(cmd) + wh + len(dms) + dms[0] + ip + n + nsbp + jac) % 4:
                continue
            for itr in (0, 1) if th or pat[1] == 'alternate' else (0,):
                out.append((coro, cmd, wh, dms, pat, n, nsbp, jac, 1, 1, 1e9, itr))
    for wh, n, cmd in itertools.product((1, 2), (2, 3), ('zero', 'some')):
        out.append(('LC', cmd, wh, (1, 2), ('pwp-bp', ''), n, 2, 0, 2, 1, 1e9, 0))
        out.append(('LC', cmd, wh, (1, 2), ('pwp-bp-square', 'y'), n, 2, 0, 1, 2, 1e9, 0))
        for thr in (1e-2, 1e-3, 1e-4):
            out.append(('LC', cmd, wh, (1, 2), ('pwp-bp-square', 'y'), n, 1, 0, 1, 1, thr, 0))
            out.append(('LC', cmd, wh, (1, 2), ('pwp-bp', ''), n, 1, 1, 1, 1, thr, 0))
    return out


_B = {}


def field(mp, j, star=0):
    mv = falco.config.ModelVariables()
    mv.sbpIndex, mv.whichSource, mv.starIndex = j, 'star', star
    E = falco.model.compact(mp, mv)
    return np.array([E[p] for p in map(tuple, np.argwhere(mp.Fend.corr.maskBool))])


def base(coro, nsbp, nst, nw):
    k = (coro, nsbp, nst, nw)
    if k not in _B:
        mp, _ = tiny.build(coro=coro, nact=5, nbeam=15, rin=2.0, rout=2.6, fov=3.0, nsbp=nsbp, nwpsbp=nw, frac_bw=0.05, vtoh=1e-9, nitr=2, stars=STARS if nst == 2 else None)
        mp.logGmin = -12
        falco.imaging.calc_psf_norm_factor(mp)
        dug = copy.deepcopy(mp)
        if nst == 1 and nw == 1:
            for _ in range(3):
                G = falco.model.jacobian(dug)
                g = np.concatenate([np.concatenate([G.G1[:, :, q] / dug.dm1.weight, G.G2[:, :, q] / dug.dm2.weight], 1) for q in range(nsbp)])
                E = np.concatenate([field(dug, q) for q in range(nsbp)])
                A = np.concatenate([g.real, g.imag])
                b = np.concatenate([E.real, E.imag])
                x = -np.linalg.solve(A.T @ A + 1e-4 * np.max(np.diag(A.T @ A)) * np.eye(A.shape[1]), A.T @ b)
                dug.dm1.V = dug.dm1.V.copy()
                dug.dm2.V = dug.dm2.V.copy()
                dug.dm1.V.flat[dug.dm1.act_ele] += x[:len(dug.dm1.act_ele)]
                dug.dm2.V.flat[dug.dm2.act_ele] += x[len(dug.dm1.act_ele):]
        _B[k] = (mp, dug.dm1.V.copy(), dug.dm2.V.copy())
    mp, a, b = _B[k]
    return copy.deepcopy(mp), a, b


def run(case, r):
    coro, cmd, wh, dms, (est, axis), n, nsbp, jac, nst, nw, thr, itr = case
    mp, a, b = base(coro, nsbp, nst, nw)
    mp.dm_ind = np.array(dms)
    mp.estimator = est
    pr = mp.est.probe
    pr.whichDM, pr.Npairs, pr.rotation = wh, n, 0
    if axis:
        pr.axis = axis
    pr.radius = 2.5
    pr.gainFudge = np.ones(nst)
    pr.xiOffset, pr.etaOffset = np.array([2., -2.])[:nst], np.array([0.5, 1.])[:nst]
    pr.width, pr.height = np.full(nst, 2.), np.full(nst, 3.)
    mp.est.flagUseJac = bool(jac)
    mp.est.Ithreshold = thr
    mp.est.InormProbeMax = 1e-7 if jac else 1e-5
    if cmd == 'some':
        mp.dm1.V = 4 * np.sin(np.arange(25.).reshape(5, 5))
        mp.dm2.V = 4 * np.cos(1.3 * np.arange(25.).reshape(5, 5))
    elif cmd == 'dug':
        mp.dm1.V, mp.dm2.V = a.copy(), b.copy()
    union = np.array(sorted(set(dms) | {wh}))
    falco.imaging.calc_psf_norm_factor(mp)
    G = falco.model.jacobian(copy.deepcopy(mp)) if jac else None
    ev = falco.config.Object()
    ev.Itr = itr
    falco.est.wrapper(mp, ev, G)
    got = np.asarray(ev.Eest)
    pix = [tuple(p) for p in np.argwhere(mp.Fend.corr.maskBool)]
    m = copy.deepcopy(mp)
    m.dm_ind = union
    V0 = {1: mp.dm1.V.copy(), 2: mp.dm2.V.copy()}

    def model(i, V, j, st):
        dm = getattr(m, 'dm%d' % i)
        dm.V = V.copy()
        E = field(m, j, st)
        dm.V = V0[i].copy()
        return E
    vall = getattr(ev, 'dm%d' % wh).Vall
    nzero = 0
    for st in range(nst):
        for j in range(nsbp):
            q = st * nsbp + j
            E0 = model(wh, V0[wh], j, st)
            I = [np.array([ev.imageArray[p + (k, j)] for p in pix]) for k in range(2 * n + 1)]
            dE = []
            for k in range(n):
                vp, vm = vall[:, :, 1 + 2 * k, j], vall[:, :, 2 + 2 * k, j]
                if nst > 1:
                    # commands are reported for the last star probed only
                    break
                if jac:
                    g = (G.G1 if wh == 1 else G.G2)[:, :, q] / getattr(mp, 'dm%d' % wh).weight
                    dE.append(g @ (vp - V0[wh]).ravel()[getattr(mp, 'dm%d' % wh).act_ele])
                else:
                    dE.append((model(wh, vp, j, st) - model(wh, vm, j, st)) / 2)
            own = np.zeros(len(pix), dtype=complex)
            unsure = np.zeros(len(pix), dtype=bool)
            dark = np.zeros(len(pix), dtype=bool)
            if nst == 1:
                for x in range(len(pix)):
                    rows, rhs = [], []
                    for k in range(n):
                        z = (I[1 + 2 * k][x] - I[2 + 2 * k][x]) / 4
                        if jac:
                            d = dE[k][x]
                        else:
                            a2 = (I[1 + 2 * k][x] + I[2 + 2 * k][x]) / 2 - I[0][x]
                            if abs(a2) < 1e-9 * I[0][x]:
                                unsure[x] = True
                            if not a2 > 0:
                                continue
                            d = np.sqrt(a2) * dE[k][x] / abs(dE[k][x])
                        rows.append((d.real, d.imag))
                        rhs.append(z)
                    if len(rows) < 2 and not jac:
                        dark[x] = True
                        continue
                    M = np.array(rows)
                    s = np.linalg.svd(M, compute_uv=False)
                    if len(s) > 1 and s[1] < 1e-6 * s[0]:
                        unsure[x] = True
                    sol = np.linalg.lstsq(M, np.array(rhs), rcond=None)[0]
                    own[x] = sol[0] + 1j * sol[1]
                    if abs(abs(own[x])**2 - thr) < 1e-6 * thr:
                        unsure[x] = True
                    if abs(own[x])**2 > thr:
                        own[x] = 0
                        dark[x] = True
                cmpx = ~unsure
                sc = np.sqrt(np.mean(np.abs(own)**2)) + 1e-12
                r.expect(np.all(np.abs(got[cmpx, q] - own[cmpx]) <= 1e-5 * (sc + np.abs(own[cmpx]))), 'inversion', 'the estimate is not the solution of the probe measurements it reports',
                         j=j, worst=float(np.max(np.abs(got[cmpx, q] - own[cmpx]), initial=0)), rms=float(sc))
                r.expect(np.all(got[dark & cmpx, q] == 0), 'zero', 'a pixel without information (or too bright) is not reported as zero field', j=j)
                nzero += int(dark.sum())
                if thr < 1e-2:
                    r.outcome('thr', thr, int(dark.sum()) > 0, int((~dark).sum()) > 0)
                good = ~dark
                rms = np.sqrt(np.mean(np.abs(E0)**2))
                if n >= 2 and thr > 1 and nw == 1 and good.any():
                    # pixels where the probe phases span the complex plane well
                    span = np.zeros(len(pix), dtype=bool)
                    for x in np.nonzero(good)[0]:
                        s = np.linalg.svd(np.array([(dE[k][x].real, dE[k][x].imag) for k in range(n)]), compute_uv=False)
                        amp = np.median([abs(dE[k]) for k in range(n)])
                        span[x] = s[1] > 0.3 * s[0] and s[1] > 0.5 * amp
                    err = np.abs(got[:, q] - E0)[span]
                    if span.sum() > 4:
                        e = np.sqrt(np.mean(err**2))
                        if jac and np.max(np.abs(E0)) < 0.15:
                            r.expect(e <= 0.03 * rms + 2e-5, 'truth', 'Jacobian-based probing does not recover the true field', j=j, err=float(e), rms=float(rms), pixels=int(span.sum()))
                            r.outcome('truth-jac', coro, wh)
                        elif not jac and np.max(np.abs(E0)) < 6e-3:
                            r.expect(e <= 0.25 * rms + 1e-6, 'truth', 'probing does not recover the true field', j=j, err=float(e), rms=float(rms), pixels=int(span.sum()))
                            r.outcome('truth', coro, wh, nsbp)
            want = I[0] - np.abs(got[:, q])**2
            r.expect(np.all(np.abs(np.asarray(ev.IincoEst)[:, q] - want) <= 1e-12 + 1e-9 * np.max(np.abs(I[0]))), 'incoherent', 'the incoherent estimate is not the measured minus the coherent intensity', j=j, star=st)
            r.step(len(pix))
    if n == 1 and not jac:
        r.expect(not np.any(got), 'single', 'one probe pair cannot determine the field, but a non-zero field is reported')
    r.state(case)
    r.outcome(coro, n, nsbp, jac, nzero > 0)
    r.execution()
