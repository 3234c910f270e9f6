"""P32: saved optical states restore exactly and are invisible to other runs.

Breadth-first exploration of the operation sequences of a save/restore session
on the real functions, in a scratch directory with files that must survive,
compared step by step with a reference state machine that holds copies."""
import contextlib
import io
import itertools
import os
import resource
import shutil
import signal
import tempfile
import numpy as np
import falco
import falco.proper as proper

ID = 'P32'
LAM = (0.5e-6, 0.65e-6)
OPS = ('init', 'end', 'begin0', 'begin1', 'lens', 'go', 'state', 'save', 'full')
BOUNDS = {'quick': 'every sequence of up to 6 operations over {start session, end session, new wavefront at 2 wavelengths, lens, propagate, restore-or-save, save, save with a full disk} (sequences leading to the same reference state merged), from a fresh program; every history of 4 prescription runs over 2 wavelengths with and without sessions',
          'thorough': 'sequences of up to 8 operations, histories of 6 runs'}
CHUNK = 1
KEEP = {'notes.txt': b'x', 'model.npz': b'y', '500000000_99999999_prop_savestate.npz': b'z', 'a_prop_savestate': b'w', '_prop_savestate.npz': b'v'}
FRESH = {k: getattr(proper, k) for k in ('save_state', 'save_state_lam', 'statefile')}


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='p32_')
        os.chdir(self.d)
        for k, v in KEEP.items():
            open(k, 'wb').write(v)
        proper.save_state = FRESH['save_state']
        proper.save_state_lam = list(FRESH['save_state_lam'])
        proper.statefile = FRESH['statefile']
        proper.print_it = False
        return self

    def files(self):
        return set(os.listdir(self.d)) - set(KEEP)

    def kept(self):
        return all(os.path.exists(os.path.join(self.d, k)) and open(os.path.join(self.d, k), 'rb').read() == v for k, v in KEEP.items())

    def __exit__(self, *a):
        with contextlib.suppress(Exception):
            proper.prop_end_savestate()
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


@contextlib.contextmanager
def disk_full():
    """writes beyond a few bytes fail with an error"""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    h = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (200, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, h)


def grab(wf):
    """everything a wavefront holds"""
    return {k: np.array(v, copy=True) for k, v in vars(wf).items()}


def same(a, b):
    return set(a) == set(b) and all(a[k].shape == b[k].shape and a[k].dtype.kind == b[k].dtype.kind and np.array_equal(a[k], b[k]) for k in a)


def begin(i, ver):
    wf = proper.prop_begin(1.0, LAM[i], 8, 0.5)
    yy, xx = np.mgrid[:8, :8]
    wf.wfarr *= np.exp(0.3j * (ver + 1) * np.sin(xx + 2 * yy)) * (1 + 0.1 * xx)
    return wf


def key(active, saved, wf, lam, uses):
    return (active, tuple(sorted(saved.items())), wf, lam, uses)


class Model:
    """the reference: content is named by the operations that made it"""

    def __init__(self):
        self.active = False
        self.saved = {}
        self.tok = None
        self.lam = None
        self.ver = 0

    def copy(self):
        m = Model()
        m.__dict__.update(self.__dict__)
        m.saved = dict(self.saved)
        return m

    def key(self):
        return (self.active, tuple(sorted(self.saved.items())), self.tok, self.lam)

    def enabled(self, op):
        if op in ('init', 'end', 'begin0', 'begin1'):
            return True
        return self.tok is not None and len(self.tok) < 4

    def step(self, op):
        if op == 'init':
            self.active, self.saved = True, {}
        elif op == 'end':
            self.active, self.saved = False, {}
        elif op[:5] == 'begin':
            self.lam = int(op[5])
            self.tok = (op,)
        elif op in ('lens', 'go'):
            self.tok = self.tok + (op,)
        elif op == 'state' and self.active:
            if self.lam in self.saved:
                self.tok = self.saved[self.lam]
            else:
                self.saved[self.lam] = self.tok
        elif op == 'save' and self.active:
            self.saved[self.lam] = self.tok
        # 'full': nothing is saved


def content(tok, cache={}):
    """the wavefront a token stands for, made without any session"""
    if tok not in cache:
        wf = begin(int(tok[0][5]), 0)
        for op in tok[1:]:
            move(wf, op)
        cache[tok] = grab(wf)
    return cache[tok]


def move(wf, op):
    if op == 'lens':
        proper.prop_lens(wf, 3.0)
    else:
        proper.prop_propagate(wf, 1.7)


def check_seq(seq, r, prefix_ok=True):
    """drive one sequence; every step is judged"""
    m = Model()
    wf = None
    old_sessions = 0
    with Scratch() as sc:
        lost = set()
        for n, op in enumerate(seq):
            last = n == len(seq) - 1
            was = m.copy()
            err = None
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if op == 'init':
                        if m.active:
                            lost |= sc.files()     # that session was never ended
                        proper.prop_init_savestate()
                    elif op == 'end':
                        proper.prop_end_savestate()
                    elif op[:5] == 'begin':
                        wf = begin(int(op[5]), 0)
                    elif op in ('lens', 'go'):
                        move(wf, op)
                    elif op == 'state':
                        proper.prop_state(wf)
                    elif op == 'save':
                        proper.prop_savestate(wf)
                    elif op == 'full':
                        with disk_full():
                            proper.prop_state(wf)
            except OSError as e:
                err = e
            m.step(op)
            if op == 'full':
                if m.active and m.lam in m.saved:
                    m.tok = m.saved[m.lam]           # restored, nothing to write
                elif err is None and m.active:
                    if sc.files() - lost:
                        return                       # nothing hit the limit
                    m.saved[m.lam] = m.tok           # kept elsewhere
            elif err is not None:
                r.bad('error:' + op, 'the operation raises %s' % err, sequence=seq)
                return
            r.step()
            if not last:
                continue
            d = dict(sequence=seq)
            r.expect(sc.kept(), 'foreign', 'a file that does not belong to the session was changed or deleted', **d)
            if wf is not None:
                want = content(m.tok)
                got = grab(wf)
                bad = [k for k in want if k not in got or not same({k: got.get(k)}, {k: want[k]})]
                r.expect(not bad, 'content:' + op, 'the wavefront differs from the one %s: %s' % ('saved' if m.tok != was.tok else 'before', bad), **d)
                if m.active:
                    r.expect(bool(proper.prop_is_statesaved(wf)) == (m.lam in m.saved), 'is_saved', 'a saved state is %sreported' % ('not ' if m.lam in m.saved else ''), **d)
                else:
                    r.expect(not proper.prop_is_statesaved(wf), 'is_saved', 'a state is reported without a session', **d)
                if op in ('state', 'full') and m.tok == was.tok and was.active is False:
                    r.expect(not sc.files() - lost, 'stray', 'a state is written without a session', **d)
                # the restored object is a working wavefront
                for nxt in ('go', 'lens'):
                    with contextlib.redirect_stdout(io.StringIO()):
                        move(wf, nxt)
                    m.tok = m.tok + (nxt,)
                    r.expect(same(grab(wf), content(m.tok)), 'continue', 'the run does not continue as from the saved wavefront', **d)
            if op == 'end':
                r.expect(sc.files() <= lost, 'leftover', 'ending the session leaves files behind: %s' % sorted(sc.files() - lost), **d)
        r.execution()
        r.outcome(m.active, len(m.saved), op)


def reachable(depth):
    """sequences, one per (reference state, next operation)"""
    seen = {Model().key()}
    level = [((), Model())]
    out = []
    for _ in range(depth):
        nxt = []
        for seq, m in level:
            for op in OPS:
                if not m.enabled(op):
                    continue
                m2 = m.copy()
                m2.step(op)
                out.append(seq + (op,))
                if m2.key() not in seen or op == 'full':
                    seen.add(m2.key())
                    nxt.append((seq + (op,), m2))
        level = nxt
    return out


PARTS = 48


def cases(tier):
    th = tier == 'thorough'
    out = [('seq', 8 if th else 6, p) for p in range(PARTS)]
    out += [('runs', n, lams) for n in ((6,) if th else (4,)) for lams in itertools.product((0, 1), repeat=n)]
    return out


def run(case, r):
    globals()['do_' + case[0]](case, r)


def do_seq(case, r):
    _, depth, part = case
    for i, seq in enumerate(reachable(depth)):
        if i % PARTS == part:
            r.state(seq)
            check_seq(seq, r)
            if len(r.viol) > 3:
                return


def prescription(lam, n, skip=True, mark=None):
    wf = proper.prop_begin(1., lam, n, 0.5)
    if not (skip and proper.prop_is_statesaved(wf)):
        if mark is not None:
            mark.append(lam)
        proper.prop_circular_aperture(wf, 0.5)
        proper.prop_define_entrance(wf)
        proper.prop_lens(wf, 20.)
        proper.prop_propagate(wf, 20., 'focus')
    proper.prop_state(wf)
    proper.prop_propagate(wf, 20.)
    proper.prop_lens(wf, 20.)
    return proper.prop_end(wf, NOABS=True)


def do_runs(case, r):
    """the documented use: several runs of one prescription in a session"""
    _, n, lams = case
    for skip in (True, False):
        for brk in range(n + 1):
            with Scratch() as sc, contextlib.redirect_stdout(io.StringIO()):
                plain = [prescription(LAM[i], 16, skip) for i in (0, 1)]
                tot = None
                d = dict(wavelengths=lams, skip_when_saved=skip, session_ends_after=brk)
                r.expect(not sc.files(), 'stray', 'runs without a session write files', files=sorted(sc.files()), **d)
                proper.prop_init_savestate()
                mark = []
                for k, i in enumerate(lams):
                    if k == brk:
                        proper.prop_end_savestate()
                        r.expect(not sc.files() and sc.kept(), 'leftover', 'ending the session does not remove exactly its files', **d)
                        proper.prop_init_savestate()
                        mark = []
                    E, dx = prescription(LAM[i], 16, skip, mark)
                    r.step()
                    r.expect(np.array_equal(E, plain[i][0]) and dx == plain[i][1], 'run', 'a run in a session differs from one without', run=k, **d)
                    r.state(case, skip, brk, k)
                if skip:
                    r.expect(len(mark) == len(set(mark)), 'again', 'the first part is computed again although its state was saved', marks=mark, **d)
                proper.prop_end_savestate()
                r.expect(not sc.files() and sc.kept(), 'leftover', 'ending the session does not remove exactly its files', **d)
                r.execution()
