"""P03: constrained DM commands satisfy every actuator constraint (state exploration)."""
import itertools
import numpy as np
import falco

ID = 'P03'
VMIN, VMAX = 0., 100.
Q = dict(alpha=[-130., -10., 0., 37.5, 130.], n=2)
BOUNDS = {'quick': '2x2 actuators; all 625 commands over 5 voltages per actuator; every consistent choice of at most one dead, one pinned (2 values) and one tied ordered pair; 3 bias maps; all 2-step histories (3-step with at most one constraint) over a 10-command alphabet; 3x3 grid: all such specs with 9 rotated commands',
          'thorough': '2x2 actuators as quick with up to two dead, two pinned and two tied pairs; all 3-step histories over the 10-command alphabet (2-step with more than two constraints); 3x3 grid as quick'}


def specs(n, pairs):
    """(dead, pinned[(i, v)], tied[(i, j)]) with disjoint roles"""
    out = []
    tot = n * n
    nd = 2 if pairs else 1
    for kd in range(nd + 1):
        for dead in itertools.combinations(range(tot), kd):
            rest = [a for a in range(tot) if a not in dead]
            for kp in range((2 if pairs else 1) + 1):
                for pin in itertools.combinations(rest, kp):
                    rest2 = [a for a in rest if a not in pin]
                    ties = [()]
                    ties += [(t,) for t in itertools.permutations(rest2, 2)]
                    if pairs and len(rest2) >= 4:
                        ties += [((a, b), (c, d)) for a, b, c, d in itertools.permutations(rest2, 4)]
                    for t in ties:
                        for pv in ([()] if kp == 0 else [(13.,) * kp, (-20.,) * kp]):
                            out.append((dead, tuple(zip(pin, pv)), t))
    return out


def biases(n):
    g = np.arange(n * n, dtype=float).reshape(n, n)
    return {'zero': np.zeros((n, n)), 'mid': np.full((n, n), 50.), 'ramp': 20. + 50. * g / (n * n)}


def mk(n, bias, spec):
    dead, pin, tied = spec
    dm = falco.config.Object()
    dm.Nact = n
    dm.V = np.zeros((n, n))
    dm.biasMap = bias.copy()
    dm.Vmin, dm.Vmax = VMIN, VMAX
    dm.dead = list(dead)
    dm.pinned = np.array([p[0] for p in pin])
    dm.Vpinned = np.array([p[1] for p in pin], dtype=float)
    dm.tied = np.array(tied) if tied else np.zeros((0, 2))
    return dm


class Ref:
    def __init__(self, n, bias, spec):
        self.b = bias.ravel()
        self.spec = spec
        self.pins = dict(spec[1])

    def enforce(self, V):
        V = V.ravel().copy()
        for d in self.spec[0]:
            V[d] = 0.
        for a in range(V.size):
            if a in self.pins:
                continue
            if V[a] + self.b[a] < VMIN:
                self.pins[a] = VMIN - self.b[a]
            elif V[a] + self.b[a] > VMAX:
                self.pins[a] = VMAX - self.b[a]
        for a, v in self.pins.items():
            V[a] = v
        for a, b in self.spec[2]:
            V[b] = V[a]
        return V


def ok_spec(bname, spec, n):
    # pinned values must be admissible, ties join actuators with the same bias, a dead actuator rests inside its limits
    b = biases(n)[bname].ravel()
    for a, v in spec[1]:
        if not (VMIN <= v + b[a] <= VMAX):
            return False
    for a, c in spec[2]:
        if b[a] != b[c]:
            return False
    return True


def cases(tier):
    th = tier == 'thorough'
    out = []
    for b in ('zero', 'mid', 'ramp'):
        sp = [s for s in specs(2, th) if ok_spec(b, s, 2)]
        for i in range(0, len(sp), 2):
            out.append(('one', b, i, min(i + 2, len(sp)), tier))
        for i in range(0, len(sp), 8):
            out.append(('seq', b, i, min(i + 8, len(sp)), tier))
        sp3 = [s for s in specs(3, False) if ok_spec(b, s, 3)]
        for i in range(0, len(sp3), 200):
            out.append(('grid3', b, i, min(i + 200, len(sp3)), tier))
    return out


def check_state(r, dm, V, ref, bias, spec, where):
    b = bias.ravel()
    got = np.asarray(dm.V, dtype=float).ravel()
    if got.shape != b.shape or not np.all(np.isfinite(got)):
        return r.bad('shape', 'command shape/finite broken', where=where)
    dead, pin, tied = spec
    if np.any(got + b < VMIN - 1e-9) or np.any(got + b > VMAX + 1e-9):
        return r.bad('bounds', 'total voltage outside the limits after enforcement', total=got + b, command=V, spec=spec, where=where)
    if any(got[d] != 0 for d in dead):
        return r.bad('dead', 'dead actuator is not at zero', got=got, spec=spec, where=where)
    for a, v in pin:
        if abs(got[a] - v) > 1e-9:
            return r.bad('pinned', 'pinned actuator does not hold its voltage', got=got, spec=spec, where=where)
    for a, c in tied:
        if got[a] != got[c]:
            return r.bad('tied', 'tied actuators differ', got=got, spec=spec, where=where)
    exp = ref
    if np.max(np.abs(exp - got)) > 1e-9:
        return r.bad('value', 'enforced command differs from the reference', got=got, want=exp, command=V, spec=spec, where=where)
    pl = np.asarray(dm.pinned).astype(int)
    if pl.shape != np.asarray(dm.Vpinned).shape:
        return r.bad('record', 'pinned actuators and their voltages differ in number', where=where)
    second = {c for _, c in tied}
    last = dict(zip(pl.tolist(), np.asarray(dm.Vpinned, dtype=float).tolist()))
    for a, v in last.items():
        if a not in second and abs(got[a] - v) > 1e-9:
            return r.bad('record', 'pinned record disagrees with the command', got=got, record=last, where=where)
    return True


def explore(r, n, bname, spec, seqs):
    bias = biases(n)[bname]
    for seq in seqs:
        dm = mk(n, bias, spec)
        ref = Ref(n, bias, spec)
        for k, V in enumerate(seq):
            V = np.asarray(V, dtype=float).reshape(n, n)
            before = V.copy()
            if k and k % 2 == 0:      # accumulate a change, as the controller does
                V = dm.V + V
                before = V.copy()
            dm.V = V.copy()
            feasible_in = V.ravel()
            want = ref.enforce(V)
            feas = np.array_equal(want, feasible_in)
            d2 = falco.dm.enforce_constraints(dm)
            dm = d2
            r.step()
            if check_state(r, dm, before, want, bias, spec, (bname, seq, k)) is not True:
                return
            if feas and not np.array_equal(dm.V.ravel(), before.ravel()):
                return r.bad('unchanged', 'an admissible command was changed', command=before, got=dm.V)
            # idempotence
            v1 = dm.V.copy()
            dm = falco.dm.enforce_constraints(dm)
            r.step()
            if not np.allclose(dm.V, v1, atol=1e-9, rtol=0):
                return r.bad('idempotent', 'enforcing twice differs from enforcing once', first=v1, second=dm.V, spec=spec)
            r.state(bname, spec, v1.round(9).tobytes(), tuple(sorted(set(np.asarray(dm.pinned).astype(int).tolist()))))
        r.execution()
        r.outcome(dm.V.tobytes())


SMALL = [(0, 0, 0, 0), (130., 0, 0, 0), (0, 130., -10., 0), (-130., 37.5, 0, 130.), (10., 20., 30., 40.),
         (0, 0, 130., -130.), (-10., -10., -10., -10.), (37.5, 37.5, 37.5, 37.5), (0, -130., 0, 37.5), (130., 130., 130., 130.)]


def run(case, r):
    kind, b, lo, hi, tier = case
    th = tier == 'thorough'
    if kind == 'one':
        sp = [s for s in specs(2, th) if ok_spec(b, s, 2)][lo:hi]
        for s in sp:
            explore(r, 2, b, s, [(c,) for c in itertools.product(Q['alpha'], repeat=4)])
    elif kind == 'seq':
        sp = [s for s in specs(2, th) if ok_spec(b, s, 2)][lo:hi]
        for s in sp:
            if th and len(s[0]) + len(s[1]) + len(s[2]) > 2:
                seqs = itertools.product(SMALL, repeat=2)
            elif th:
                seqs = itertools.product(SMALL, repeat=3)
            else:
                seqs = itertools.product(SMALL, repeat=2) if len(s[0]) + len(s[1]) + len(s[2]) > 1 else itertools.product(SMALL, repeat=3)
            explore(r, 2, b, s, list(seqs))
    else:
        sp = [s for s in specs(3, False) if ok_spec(b, s, 3)][lo:hi]
        base = [(-130., 10., 37.5, 130., 0., -10., 60., 20., 5.)]
        cmds = [tuple(np.roll(base[0], k)) for k in range(9)]
        for s in sp:
            explore(r, 3, b, s, [(c,) for c in cmds])
