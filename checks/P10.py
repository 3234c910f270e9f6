"""P10: control schedules decode to the iterations they describe.

Every schedule matrix over the row alphabet is decoded by the real function and
compared with a direct interpreter that walks the rows and emits iterations.
"""
import itertools
import numpy as np
import falco

ID = 'P10'
BOUNDS = {'quick': 'all matrices of 1 and 2 rows over 216 rows (repeats {0,1,2} x 6 regularisations incl. complex ones x mirrors {1,2,12} x re-linearise x grid search), all of 3 rows over 36 rows and all of 4 rows over 12 rows; complex, float and integer matrices; mirror codes 128, 129 and 1289',
          'thorough': 'additionally all of 3 rows over 72 rows and of 5 rows over 12 rows'}
REGS = (-2.0, -3.5, 1j, -1.0 + 1j, 0.5 + 2j, 0.0)


def rows(n, regdm, flags=((0, 0), (0, 1), (1, 0), (1, 1))):
    return [(k, rg, d, a, b) for k in n for rg, d in regdm for a, b in flags]


BIG = rows((0, 1, 2), list(itertools.product(REGS, (1, 2, 12))))
MID = rows((0, 1, 3), [(-2.0, 12), (1j, 1), (-1 + 1j, 2)])
MID2 = rows((0, 1, 2), [(-2.0, 12), (1j, 1), (-1 + 1j, 2), (0.0, 12), (-3, 1), (2j, 2)])
SML = rows((0, 1, 2), [(-1 + 1j, 12)])


def cases(tier):
    out = [('one', 0)]
    out += [('two', i) for i in range(len(BIG))]
    out += [('three', i) for i in range(len(MID))]
    out += [('four', i) for i in range(len(SML))]
    out += [('dtype', i) for i in range(4)]
    if tier == 'thorough':
        out += [('threebig', i) for i in range(len(MID2))] + [('five', i, j) for i in range(len(SML)) for j in range(len(SML))]
    return out


CHUNK = 8


def reference(rs):
    """walk the rows, emit iterations"""
    its, relin, grid = [], set(), set()
    for n, reg, dms, a, b in rs:
        n = int(np.real(n))
        if int(np.real(a)) == 1:
            relin.add(len(its))
        if int(np.real(b)) == 1:
            grid.add(len(its))
        for _ in range(n):
            its.append((complex(reg), tuple(int(c) for c in str(int(np.real(dms))))))
    n = len(its)
    return n, {x for x in relin if x < n}, {x for x in grid if x < n}, its


def check(rs, r, dtype=complex):
    M = np.array(rs, dtype=dtype)
    M0 = M.copy()
    got = falco.ctrl.efc_schedule_generator(M)
    n, relin, grid, its = reference([tuple(x) for x in M0])
    ok = r.expect(len(got) == 5, 'arity', 'five results are expected')
    if not ok:
        return
    gn, grel, ggrid, greg, gdm = got
    r.expect(gn == n, 'count', 'number of iterations is not the sum of the repeats', rows=rs, got=gn, want=n)
    r.expect({int(x) for x in np.atleast_1d(grel) if x < n} == relin and all(float(x) == int(x) and x >= 0 for x in np.atleast_1d(grel)), 'relin', 're-linearisation iterations', rows=rs, got=np.atleast_1d(grel).tolist(), want=sorted(relin))
    r.expect({int(x) for x in np.atleast_1d(ggrid) if x < n} == grid and all(float(x) == int(x) and x >= 0 for x in np.atleast_1d(ggrid)), 'grid', 'grid-search iterations', rows=rs, got=np.atleast_1d(ggrid).tolist(), want=sorted(grid))
    if r.expect(len(greg) == n and len(gdm) == n, 'length', 'one regularisation and one mirror set per iteration', rows=rs, n=n, got=(len(greg), len(gdm))):
        for k in range(n):
            r.expect(complex(greg[k]) == its[k][0], 'reg', 'regularisation of an iteration', rows=rs, itr=k, got=greg[k], want=its[k][0])
            r.expect(tuple(int(x) for x in np.atleast_1d(gdm[k])) == its[k][1], 'dms', 'mirrors of an iteration', rows=rs, itr=k, got=gdm[k], want=its[k][1])
            # the decoded sets are used as arrays compared with a mirror number
            r.expect(np.any(gdm[k] == its[k][1][0]), 'dmtype', 'the mirror set of an iteration cannot be tested for membership', rows=rs)
    r.expect(np.array_equal(M, M0), 'mutated', 'the schedule matrix was modified', rows=rs)
    r.execution()
    r.step(n)
    r.state(tuple(rs))
    if len(rs) < 3:
        r.outcome(n, tuple(sorted(relin)), tuple(sorted(grid)), tuple(its))


def run(case, r):
    k = case[0]
    if k == 'one':
        for a in BIG:
            check([a], r)
    elif k == 'two':
        for b in BIG:
            check([BIG[case[1]], b], r)
    elif k == 'three':
        for b, c in itertools.product(MID, MID):
            check([MID[case[1]], b, c], r)
    elif k == 'threebig':
        for b, c in itertools.product(MID2, MID2):
            check([MID2[case[1]], b, c], r)
    elif k == 'four':
        for t in itertools.product(SML, repeat=3):
            check([SML[case[1]]] + list(t), r)
    elif k == 'five':
        for t in itertools.product(SML, repeat=3):
            check([SML[case[1]], SML[case[2]]] + list(t), r)
    else:
        real = rows((0, 1, 2, 5), [(-2.0, 12), (-3.0, 1), (0.0, 128), (1.0, 1289), (-1.0, 129)])
        for a in real[case[1]::4]:
            for b in real:
                for dt in (float, complex, int):
                    check([a, b], r, dt)
