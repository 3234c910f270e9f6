"""P07: Jacobian columns stay attached to the actuators they belong to.

All subsets of kept actuators of a 3x3 DM are enumerated exhaustively; every
Jacobian is compared column by column with the untied single-actuator
responses computed once from an unrestricted configuration.
"""
import copy
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
import falco
import tiny

ID = 'P07'
BOUNDS = {'quick': 'all 511 non-empty subsets of kept actuators of a 3x3 DM (serial; parallel: sizes <= 2 and >= 8) with the complementary/rotated subset on the second DM; controlled-mirror sets {1},{2},{1,2}; tie lists (6 patterns incl. chains and cross pairs) and dead lists (4) on both mirrors, differing between them, over 9 subset families; LC, FLC and VC; slice files written and reassembled',
          'thorough': 'all subsets serial and parallel for LC, APLC, FLC, SPLC and VC, with 2 modes and all tie/dead lists over all subsets of size <= 2 and >= 7'}
TIES = [None, [[0, 1]], [[1, 0]], [[0, 4], [2, 8]], [[0, 1], [0, 2]], [[3, 5], [5, 7]]]
DEAD = [None, [4], [0, 8], [1, 2, 3]]
CASE_TIMEOUT = 600


def cases(tier):
    out = []
    th = tier == 'thorough'
    for coro in (('LC', 'APLC', 'FLC', 'SPLC', 'VC') if th else ('LC',)):
        for par in (False, True):
            for lo in range(1, 512, 64):
                out.append(('subsets', coro, par, lo, min(512, lo + 64), th))
    for coro in ('LC', 'FLC', 'VC'):
        for par in (False, True):
            for dmi in ((1,), (2,), (1, 2)):
                out.append(('sets', coro, par, dmi))
    for t, d in itertools.product(range(len(TIES)), range(len(DEAD))):
        for par in ((False, True) if th or d == 1 else (False,)):
            out.append(('ties', ('VC' if (t, d) in ((1, 0), (3, 1), (0, 2)) else ('LC', 'FLC')[(t + d) % 2]), par, t, d, th))
    for coro in ('LC', 'VC'):
        for dmi in ((1,), (2,), (1, 2)):
            out.append(('slices', coro, dmi))
    return out


def setup(coro, dmi=(1, 2), par=False, **kw):
    kw.setdefault('nsbp', 1)
    mp, _ = tiny.build(coro=coro, nact=3, nbeam=12, dm_ind=dmi, parallel=par, apod=coro in ('APLC', 'SPLC'), rin=2.0, rout=3.0, fov=3.2, **kw)
    g = np.arange(9.).reshape(3, 3)
    mp.dm1.V = 10 * np.sin(g)
    mp.dm2.V = 10 * np.cos(g)
    return mp


_REF = {}


def reference(coro, dmi, stars=None):
    """unrestricted, untied, serial single-actuator responses"""
    k = (coro, dmi, str(stars))
    if k not in _REF:
        mp = setup(coro, dmi, **({'stars': stars} if stars else {}))
        js = falco.model.jacobian(mp)
        _REF[k] = {1: js.G1.copy(), 2: js.G2.copy()}
    return _REF[k]


def keep(dm, acts):
    dm.act_ele = np.array(sorted(acts), dtype=int)
    dm.Nele = len(acts)


def close(a, b, scale):
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-9 * scale)


def compare(r, mp, js, ref, kept, dmi, ties={}, dead={}, tag=''):
    for idm, G in ((1, js.G1), (2, js.G2)):
        if idm not in dmi:
            r.expect(not np.any(G), 'unused' + tag, 'a mirror that is not controlled has non-zero columns', dm=idm)
            continue
        R = ref[idm]
        sc = np.abs(R).max()
        want = R.copy()
        for a in dead.get(idm, ()):
            want[:, a] = 0
        pos = {a: i for i, a in enumerate(kept[idm])}
        for a, b in ties.get(idm, ()):
            if a in pos and b in pos:
                want[:, a] = want[:, a] + want[:, b]
                want[:, b] = 0
        want = want[:, kept[idm], :]
        ok = close(G, want, sc)
        r.expect(ok, 'column' + tag, 'a Jacobian column does not belong to the kept actuator at its position', dm=idm, kept=kept[idm],
                 shape=G.shape, wantshape=want.shape,
                 cols=[] if G.shape != want.shape else np.nonzero(np.abs(G - want).max(axis=(0, 2)) > 1e-9 * sc)[0].tolist())
        r.step(len(kept[idm]))


def run(case, r):
    globals()['_' + case[0]](case, r)


def _subsets(case, r):
    _, coro, par, lo, hi, th = case
    ref = reference(coro, (1, 2))
    mp = setup(coro, (1, 2), par)
    # the reference itself: distinct actuators must have distinct responses
    if lo == 1:
        for idm in (1, 2):
            R = ref[idm][:, :, 0]
            for a, b in itertools.combinations(range(9), 2):
                r.expect(np.abs(R[:, a] - R[:, b]).max() > 1e-4 * np.abs(R).max(), 'distinct', 'two actuators have the same response', pair=(a, b))
    for m in range(lo, hi):
        if par and not th and 2 < bin(m).count('1') < 8:
            continue
        k1 = [i for i in range(9) if m >> i & 1]
        k2 = [i for i in range(9) if not m >> i & 1] or [m % 9]
        keep(mp.dm1, k1)
        keep(mp.dm2, k2)
        js = falco.model.jacobian(mp)
        r.execution()
        r.state(coro, par, m)
        compare(r, mp, js, ref, {1: k1, 2: k2}, (1, 2))
        r.expect(list(mp.dm1.act_ele) == k1 and list(mp.dm2.act_ele) == k2, 'kept', 'computing a Jacobian changed the kept actuators')


FAM = [list(range(9)), [0], [8], [1, 4, 7], [0, 1, 2, 3], [4, 5, 6, 7, 8], [0, 2, 8], [3, 5, 7], [0, 1, 2, 4, 5, 6, 7, 8]]


def _sets(case, r):
    _, coro, par, dmi = case
    stars = [(0, 0, 1., 1.), (1., 0.5, 0.5, 0.4)]
    ref = reference(coro, dmi, stars)
    mp = setup(coro, dmi, par, stars=stars)
    for k1, k2 in itertools.product(FAM[:5], FAM[3:8]) if coro != 'VC' else zip(FAM[:5], FAM[3:8]):
        keep(mp.dm1, k1)
        keep(mp.dm2, k2)
        V = (mp.dm1.V.copy(), mp.dm2.V.copy())
        js = falco.model.jacobian(mp)
        r.execution()
        r.state(case, tuple(k1), tuple(k2))
        compare(r, mp, js, ref, {1: k1, 2: k2}, dmi)
        r.expect(np.array_equal(mp.dm1.V, V[0]) and np.array_equal(mp.dm2.V, V[1]), 'commands', 'computing a Jacobian changed the commands')


def _ties(case, r):
    _, coro, par, t, d, th = case
    # the second mirror has ties and dead actuators of its own
    ties = {1: TIES[t] or [], 2: TIES[(2 * t + 3 + d) % 6] or []}
    dead = {1: DEAD[d] or [], 2: DEAD[(t + d) % 4] or []}
    mp = setup(coro, (1, 2), par)
    base = {1: 10 * np.sin(np.arange(9.)).reshape(3, 3), 2: 10 * np.cos(np.arange(9.)).reshape(3, 3)}
    dms = {1: mp.dm1, 2: mp.dm2}
    mq = setup(coro, (1, 2))
    for idm, dm in dms.items():
        dm.tied = np.array(ties[idm], dtype=int).reshape(-1, 2)
        dm.dead = np.array(dead[idm], dtype=int)
        if dead[idm]:
            dm.dead_map = np.zeros((3, 3), dtype=bool)
            dm.dead_map.flat[dead[idm]] = True
        # responses at the commands actually enforced
        m2 = copy.deepcopy(dm)
        m2.V = base[idm].copy()
        (mq.dm1 if idm == 1 else mq.dm2).V = np.array(falco.dm.enforce_constraints(m2).V)
    q = falco.model.jacobian(mq)
    ref = {1: q.G1, 2: q.G2}
    fam = list(FAM)
    if th:
        fam = [list(s) for k in (1, 2, 7, 8, 9) for s in itertools.combinations(range(9), k)]
    # the controller always keeps both members of a tied pair
    ok = {idm: [k for k in fam if all((a in k) == (b in k) for a, b in ties[idm])] for idm in (1, 2)}
    for i in range(max(len(ok[1]), len(ok[2]))):
        k1 = ok[1][i % len(ok[1])]
        k2 = ok[2][(i + 1 + i // len(ok[2])) % len(ok[2])]
        keep(mp.dm1, k1)
        keep(mp.dm2, k2)
        mp.dm1.V = base[1].copy()
        mp.dm2.V = base[2].copy()
        js = falco.model.jacobian(mp)
        r.execution()
        r.state(case, tuple(k1), tuple(k2))
        compare(r, mp, js, ref, {1: k1, 2: k2}, (1, 2), ties, dead, ':ties')


def _slices(case, r):
    _, coro, dmi = case
    stars = [(0, 0, 1., 1.), (1., 0.5, 0.5, 0.4)]
    for k1, k2 in ((FAM[0], FAM[0]), (FAM[3], FAM[5]), (FAM[8], FAM[1]))[:3 if coro != 'VC' else 2]:
        mp = setup(coro, dmi, stars=stars)
        if 1 not in dmi:
            k1 = []
        if 2 not in dmi:
            k2 = []
        keep(mp.dm1, k1)
        keep(mp.dm2, k2)
        js = falco.model.jacobian(mp)
        r.execution()
        d = tempfile.mkdtemp()
        try:
            mp.path.jac = d
            fn = os.path.join(d, 'mp.pkl')
            with open(fn, 'wb') as f:
                pickle.dump(mp, f)
            combos = [[im, idm, a] for im in range(mp.jac.Nmode) for idm, kk in ((1, k1), (2, k2)) for a in kk]
            half = len(combos) // 2
            falco.model.models.write_jac_slices(fn, combos[half:])
            falco.model.models.write_jac_slices(fn, combos[:half])
            js2 = falco.model.models.reassemble_jac_from_slices(mp)
        finally:
            shutil.rmtree(d)
        r.state(case, tuple(k1), tuple(k2))
        for n in ('G1', 'G2'):
            A, B = getattr(js, n), getattr(js2, n)
            r.expect(close(A, B, max(1e-12, np.abs(A).max(initial=0))), 'slices', 'reassembled Jacobian differs from the directly computed one', which=n, shapes=(A.shape, B.shape))
