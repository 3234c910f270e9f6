"""P26: an interruption never loses or corrupts what was saved.

The real loop is run under a system-call recorder; the recorded operations on
the result directories drive a file-system state machine whose every state
(every prefix of the operations, every number of bytes of every write) is a
crash point.  At each the files left behind are judged.  The state machine is
bound to the system by killing real runs at every operation and comparing the
directory byte by byte; failing writes are real ones (file-size limits).
"""
import contextlib
import copy
import io
import os
import pickle
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import numpy as np
import falco
import core
import crashrun
import fslog

ID = 'P26'
BOUNDS = {'quick': '8 run configurations of 1..3 iterations (perfect/pairwise, grid-search/planned, workspace saving on/off, spectra and sensitivities on/off), with and without files of earlier runs and of earlier crashes; every operation prefix and every torn length of every write of the result, workspace and thin-film table files; real kills at every operation and real failing writes at every save boundary in 2 of them; a new run from every operation prefix in 3',
          'thorough': 'the kills, failing writes and new runs in every configuration, AD-EFC and multiprocessing too'}
CASE_TIMEOUT = 800
CHUNK = 1


def cases(tier):
    th = tier == 'thorough'
    out = []
    scens = list(crashrun.SCEN) if th else list(crashrun.QUICK)
    for s in scens:
        for pre in ('none', 'old') if th or s != 'wsvc' else ('old',):
            rec = th or s in ('one', 'ws', 'wsvc')
            out.append(('crash', s, pre, bool(rec)))
    for s in scens:
        if s != 'wspar':
            for pre in ('none', 'old'):
                if th or (s == 'three' and pre == 'old'):
                    out += [('kill', s, pre, p, 4) for p in range(4)]
                if th or (s in ('three', 'ws') and pre == 'old'):
                    out += [('full', s, pre, p, 4) for p in range(4)]
    out += [('film', k) for k in range(3)]
    return out


def env():
    e = dict(os.environ, PYTHONPATH=os.pathsep.join([core.REPO, os.path.join(core.VERIF, 'mc')]), PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    return e


def tree0(d, s, pre):
    """files present before the run"""
    os.makedirs(os.path.join(d, 'ws'), exist_ok=True)
    wsd = d if crashrun.SCEN[s].get('same') else os.path.join(d, 'ws')
    if pre == 'old':
        old = pickle.dumps({'previous': np.arange(40.)})
        for n, b in ((os.path.join(d, 'run1_snippet.pkl'), old), (os.path.join(d, 'run2_snippet.pkl'), old + b'x'), (os.path.join(wsd, 'run2_all.pkl'), old + b'y'),
                     (os.path.join(d, 'run1_snippet.pkl.tmp'), old[:90]), (os.path.join(d, 'notes.txt'), b'keep')):
            with open(n, 'wb') as f:
                f.write(b)
    return fslog.tree(d), os.path.join(d, 'run1_snippet.pkl'), os.path.join(wsd, 'run1_all.pkl')


def argv(s, d, w):
    return [sys.executable, '-W', 'ignore', os.path.join(core.VERIF, 'mc', 'crashrun.py'), 'loop', s, d, os.path.join(w, 'marks'), os.path.join(w, 'ref')]


@contextlib.contextmanager
def scratch():
    w = tempfile.mkdtemp(prefix='p26_')
    d = os.path.join(w, 'data')
    os.makedirs(d)
    try:
        yield w, d
    finally:
        shutil.rmtree(w, ignore_errors=True)


def leaves(o, path=()):
    if isinstance(o, (list, tuple)):
        yield path, o
    elif hasattr(o, '__dict__') and not isinstance(o, (np.ndarray, type)):
        for k, v in sorted(vars(o).items()):
            if k == 'data' and isinstance(v, dict):
                continue
            yield from leaves(v, path + (k,))
    else:
        yield path, o


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if hasattr(a, '__dict__') and not isinstance(a, np.ndarray) and not callable(a):
        return hasattr(b, '__dict__') and sorted(vars(a)) == sorted(vars(b)) and all(same(vars(a)[k], vars(b)[k]) for k in vars(a))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    try:
        return np.asarray(a).shape == np.asarray(b).shape and bool(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind in 'fc'))
    except Exception:
        return True


def complete(rec, out0, out, n):
    """why rec is not a complete record of iterations 0..rec.Itr (None if it is), and whether it is the final one"""
    k = int(rec.Itr)
    if np.size(rec.serialDate) == np.size(out.serialDate):
        t = rec.serialDate
        rec.serialDate = out.serialDate
        if same(rec, out):
            return None, n
        rec.serialDate = t
    f, z, a = dict(leaves(out)), dict(leaves(out0)), dict(leaves(rec))
    if set(f) != set(a):
        return 'fields %s' % sorted(set(f) ^ set(a))[:4], k
    for p, v in f.items():
        g = a[p]
        if p == ('Itr',):
            continue
        if p == ('serialDate',):
            # clock readings: only where they are is judged
            if not (np.all(np.asarray(g)[:k + 1] > 0) and np.all(np.asarray(g)[k + 1:] == 0)):
                return 'serialDate does not hold the times of iterations 0..%d' % k, k
            continue
        if isinstance(v, list):
            if len(v) == n:
                if len(g) != k + 1 or not same(list(g), list(v)[:k + 1]):
                    return '%s has not the entries of iterations 0..%d' % ('.'.join(p), k), k
            continue
        v, g = np.asarray(v), np.asarray(g)
        if v.shape != g.shape:
            return '%s has the wrong shape' % '.'.join(p), k
        if v.ndim and v.shape[-1] in (n, n + 1) and p in z and np.shape(z[p]) == v.shape:
            if not same(g[..., :k + 1], v[..., :k + 1]):
                return '%s does not hold the values of iterations 0..%d' % ('.'.join(p), k), k
            if not same(g[..., k + 2:], np.asarray(z[p])[..., k + 2:]):
                return '%s holds values of iterations that were not run' % '.'.join(p), k
        elif v.ndim and v.shape[0] in (n, n + 1) and p in z and np.shape(z[p]) == v.shape:
            if not same(g[:k + 1], v[:k + 1]) or not same(g[k + 2:], np.asarray(z[p])[k + 2:]):
                return '%s does not hold the values of iterations 0..%d' % ('.'.join(p), k), k
        elif v.ndim and v.shape[0] == n - 1 and p in z and np.shape(z[p]) == v.shape:
            if not same(g[:k], v[:k]) or not same(g[k:], np.asarray(z[p])[k:]):
                return '%s does not hold the changes up to iteration %d' % ('.'.join(p), k), k
        elif v.ndim and not same(g, v):
            return '%s differs' % '.'.join(p), k
    return None, k


MAPS = {'mask', 'E', 'inf_datacube', 'complexTransFull', 'complexTransCompact'}


def ws_bad(b, mp):
    try:
        got = dict(leaves(pickle.loads(b)))
    except Exception as e:
        return 'does not load (%s)' % type(e).__name__
    for p, v in leaves(mp):
        if p[-1] not in MAPS:
            if p not in got:
                return 'lacks %s' % '.'.join(p)
            if not callable(v) and not same(v, got[p]):
                return 'has another %s' % '.'.join(p)
    return None


class Judge:
    def __init__(self, r, ref, files0, snip, ws, s, pre):
        self.r, self.files0, self.snip, self.ws, self.s, self.pre = r, files0, snip, ws, s, pre
        self.out0, self.out, self.mp0, self.mp = ref
        self.n = crashrun.SCEN[s]['nitr']
        self.save = crashrun.SCEN[s].get('save', False)
        self.memo = {}

    def watched(self):
        return {self.snip, self.ws} | set(p for p in self.files0 if not p.endswith('.tmp'))

    def at(self, files, low, ended, where):
        """files left behind; low = last iteration whose results had been saved before this point (-1: none)"""
        b = files.get(self.snip)
        w = files.get(self.ws)
        key = (b, w, low, ended)
        if key not in self.memo:
            self.memo[key] = self._why(b, w, low, ended)
        bad = self.memo[key]
        for p, v in self.files0.items():
            if p != self.snip and not p.endswith('.tmp') and files.get(p) != v:
                bad = ('other-file', 'a file of another run was changed: ' + os.path.basename(p))
        if bad:
            self.r.bad(bad[0], 'after an interruption %s: %s' % (where[0], bad[1]), scenario=self.s, before=self.pre, operation=where[1], saved_before=low)
        return not bad

    def _why(self, b, w, low, ended):
        old = self.files0.get(self.snip)
        if b is None:
            if low >= 0 or ended or old is not None:
                return 'lost', 'the saved results are gone'
        elif old is not None and b == old:
            if low >= 0 or ended:
                return 'not-saved', 'the results of the finished iterations were never saved'
        else:
            try:
                rec = pickle.loads(b)
            except Exception as e:
                return 'unreadable', 'the result file does not load (%s, %d bytes)' % (type(e).__name__, len(b))
            why, k = complete(rec, self.out0, self.out, self.n)
            if why:
                return 'mixture', 'the result file is not a complete record of a finished iteration: ' + why
            if k < low:
                return 'stale', 'the result file holds iterations up to %d although %d had been saved' % (k, low)
            if ended and k != self.n:
                return 'final', 'the result file is not the final record of the finished run'
        if w is not None:
            why = ws_bad(w, self.mp)
            if why:
                return 'workspace', 'the saved workspace ' + why
        elif ended and self.save:
            return 'workspace', 'the workspace was not saved'
        return None


def show(op):
    if op[0] == 'write':
        return 'write of %d bytes' % len(op[2])
    return ' '.join([op[0]] + [os.path.basename(q) if isinstance(q, str) else str(q) for q in op[1:-1]])


def record(s, d, w, inject=()):
    p, ops = fslog.run(argv(s, d, w), d, os.path.join(w, 'marks'), os.path.join(w, 'log'), inject, env())
    return p, ops


def reference(w, p, r):
    try:
        with open(os.path.join(w, 'ref'), 'rb') as f:
            return pickle.load(f)
    except Exception:
        if '/falco/' in p.stderr.replace('\\', '/') and 'Error' in p.stderr:
            r.bad('raises', 'the run failed', trace=p.stderr[-1500:])
            return None
        raise core.HarnessError('no reference: ' + p.stderr[-1500:])


def lows(ops):
    """-> per operation index: (last iteration saved before it, run ended)"""
    low, end, out = -1, False, []
    for op in ops:
        if op[0] == 'mark':
            if op[1].startswith('itr'):
                low = max(low, int(op[1].split()[1]) - 1)
            elif op[1] == 'end':
                end = True
        out.append((low, end))
    return out


def run(case, r):
    with scratch() as (w, d):
        {'crash': crash, 'kill': kill, 'full': full, 'film': film}[case[0]](case, r, w, d)


def start(case, r, w, d):
    s, pre = case[1:3]
    files0, snip, ws = tree0(d, s, pre)
    p, ops = record(s, d, w)
    ref = reference(w, p, r)
    if ref is None:
        return None
    return s, pre, files0, snip, ws, ops, Judge(r, ref, files0, snip, ws, s, pre)


def crash(case, r, w, d):
    st = start(case, r, w, d)
    if st is None:
        return
    s, pre, files0, snip, ws, ops, J = st
    rec = case[3]
    after = fslog.tree(d)
    disk = fslog.Disk(files0)
    lo = lows(ops)
    seen = {}

    def view(dk):
        """contents of the files that count; sizes class of the others"""
        return tuple(sorted((p, bytes(dk.inode[i]) if p in J.watched() else min(len(dk.inode[i]), 1)) for p, i in dk.names.items()))

    def note(dk, at):
        if rec:
            seen.setdefault(view(dk), (at, dk.files()))
    ok = J.at(disk.files(), -1, False, ('before the first operation', ''))
    low, end = -1, False
    last = None
    for q, op in enumerate(ops):
        hot = True
        if op[0] == 'write':
            names = [p for p, i in disk.names.items() if i == disk.fd[op[1]]['i']]
            hot = any(p in J.watched() for p in names)
            n = len(op[2])
            r.step(n)
            # (a torn write to a file of another name leaves the files that count as they were)
            for cut in range(n) if hot else (n // 2,):
                dk = copy.deepcopy(disk) if hot or not last == 'write' else disk
                if dk is not disk:
                    dk.apply(op, cut)
                r.state(s, pre, q, cut)
                ok = not hot or J.at(dk.files(), low, end, ('after %d bytes of a write' % cut, show(op)))
                if dk is not disk:
                    note(dk, (q, cut))
                if not ok:
                    break
        last = op[0]
        disk.apply(op)
        low, end = lo[q]
        r.step()
        r.state(s, pre, q)
        if not ok:
            break
        if op[0] in ('seek', 'dup', 'ropen'):
            continue
        if hot:
            ok = J.at(disk.files(), low, end, ('after an operation', show(op)))
        if op[0] != 'write' or hot:
            note(disk, (q, None))
        if not ok:
            break
    r.execution(1)
    if not ok:
        return
    if disk.files() != after:
        raise core.HarnessError('the recorded operations do not produce the files left behind: %s vs %s' % (sorted((p, len(b)) for p, b in disk.files().items()), sorted((p, len(b)) for p, b in after.items())))
    r.outcome(s, len(ops), end)
    r.expect(J.at(after, J.n, True, ('after the run', '')), 'final', 'the finished run left wrong files')
    if rec:
        for at, fs in seen.values():
            again(r, s, pre, fs, d, at)


def again(r, s, pre, files, d, at):
    """a new run started on what was left behind"""
    for p in list(fslog.tree(d)):
        os.remove(p)
    for p, b in files.items():
        with open(p, 'wb') as f:
            f.write(b)
    out0, out, mp0, mp = crashrun.go(s, d, nitr=1)
    got = fslog.tree(d)
    J = Judge(r, (out0, out, mp0, mp), {p: b for p, b in files.items() if 'run1' not in os.path.basename(p)}, os.path.join(d, 'run1_snippet.pkl'),
              os.path.join(d if crashrun.SCEN[s].get('same') else os.path.join(d, 'ws'), 'run1_all.pkl'), s, pre)
    J.n = 1
    J.at(got, 0, True, ('and a new run', 'operation %s' % (at,)))
    r.execution(1)
    r.state('again', s, pre, at)


def kill(case, r, w, d):
    """real runs killed at every operation leave exactly the state of the model"""
    part, parts = case[3:]
    st = start(case, r, w, d)
    if st is None:
        return
    s, pre, files0, snip, ws, ops, J = st
    lo = lows(ops)

    def reset():
        shutil.rmtree(d)
        os.makedirs(d)
        tree0(d, s, pre)
    cuts = [q for q, op in enumerate(ops) if op[0] in ('open', 'write', 'rename', 'unlink', 'link', 'truncate', 'ftruncate') and op[-1]]
    for j, q in enumerate(cuts):
        if j % parts != part:
            continue
        reset()
        name, cnt = ops[q][-1]
        p, own = record(s, d, w, ['%s:signal=KILL:when=%d' % (name, cnt)])
        got = fslog.tree(d)
        disk = fslog.Disk(files0)
        for op in own:
            disk.apply(op)
        r.execution(1)
        r.step()
        r.state('kill', s, pre, q)
        low, end = lows(own)[-1] if own else (-1, False)
        if not J.at(got, low, end, ('by a real kill', show(own[-1]) if own else '')):
            return
        if got != disk.files():
            raise core.HarnessError('killed run left a state the model does not have: %s q=%d %s' % (s, q, show(ops[q])))
        r.outcome('kill', s, q)


def full(case, r, w, d):
    """real runs whose writes fail once a file reaches a size"""
    part, parts = case[3:]
    st = start(case, r, w, d)
    if st is None:
        return
    s, pre, files0, snip, ws, ops, J = st
    # sizes at which a write of the run begins or ends
    disk = fslog.Disk(files0)
    sizes = {0, 1}
    for op in ops:
        if op[0] == 'write':
            a = disk.fd[op[1]]['off']
            sizes |= {a, a + 1, a + len(op[2]) // 2, a + len(op[2]) - 1, a + len(op[2])}
        disk.apply(op)
    for j, n in enumerate(sorted(x for x in sizes if x >= 0)):
        if j % parts != part:
            continue
        shutil.rmtree(d)
        os.makedirs(d)
        tree0(d, s, pre)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                clock = [1.5e9]

                def tick():
                    clock[0] += 1.
                    return clock[0]
                time.time = tick
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
                crashrun.go(s, d)
                code = 0
            except OSError:
                code = 1
            finally:
                os._exit(code)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        r.execution(1)
        r.step()
        r.state('full', s, pre, n)
        r.outcome('full', code)
        if not J.at(fslog.tree(d), -1, False, ('by a failing write', 'files limited to %d bytes, exit status %d' % (n, code))):
            return


def film(case, r, w, d):
    """stored thin-film tables: what a crash leaves is never taken for a table"""
    kind = case[1]
    root = os.path.join(w, 'pkg')
    shutil.copytree(os.path.join(core.REPO, 'falco'), os.path.join(root, 'falco'), ignore=shutil.ignore_patterns('__pycache__', '*.so', 'ws', 'brief'))
    mat = os.path.join(root, 'data', 'material')
    os.makedirs(mat)
    e = dict(os.environ, PYTHONPATH=os.pathsep.join([root, os.path.join(core.VERIF, 'mc')]), PYTHONDONTWRITEBYTECODE='1', HOME=w)
    a = [sys.executable, '-W', 'ignore', os.path.join(core.VERIF, 'mc', 'crashrun.py'), 'film', root, os.path.join(w, 'marks'), os.path.join(w, 'ref'), str(kind)]
    p, ops = fslog.run(a, os.path.join(root, 'data'), os.path.join(w, 'marks'), os.path.join(w, 'log'), (), e)
    want = reference(w, p, r)
    if want is None:
        return
    after = fslog.tree(os.path.join(root, 'data'))
    disk = fslog.Disk({})
    states = {}

    def look(dk, where):
        fs = dk.files()
        states.setdefault(tuple(sorted(fs.items())), where)
    look(disk, 'before')
    for q, op in enumerate(ops):
        if op[0] == 'write':
            n = len(op[2])
            names = [x for x, i in disk.names.items() if i == disk.fd[op[1]]['i']]
            hot = any(x in after for x in names)
            r.step(n)
            # torn tables: every length of the header, then every 16-byte value and every length that is no multiple of a value in the last one
            cuts = [c for c in range(n) if c < 160 or c % 16 == 0 or c > n - 16]
            for cut in (cuts if hot else {1, n // 2}):
                dk = copy.deepcopy(disk)
                dk.apply(op, cut)
                look(dk, (q, cut))
        disk.apply(op)
        r.step()
        look(disk, (q, None))
    if disk.files() != after:
        raise core.HarnessError('film: operations do not produce the files')
    prog = 'import sys,os,pickle,json\nsys.path[:0]=%r\nimport crashrun,io,contextlib\nwith open(%r,"rb") as f: sts=pickle.load(f)\nwith open(%r,"rb") as f: want=pickle.load(f)\nimport numpy as np\nfor k,(fs,at) in enumerate(sts):\n    for b,_,ff in os.walk(%r):\n        for x in ff: os.remove(os.path.join(b,x))\n    for x,b in fs:\n        with open(x,"wb") as h: h.write(b)\n    for rnd in (0,1):\n        try:\n            with contextlib.redirect_stdout(io.StringIO()): got=crashrun.film(%d)\n            bad=None if all(np.array_equal(np.asarray(g),v) for g,v in zip(got,want)) else "gives other values"\n        except Exception as ex:\n            bad="fails (%%s: %%s)"%%(type(ex).__name__,ex)\n        if bad: print("BAD",json.dumps([str(at),rnd,bad])); sys.stdout.flush(); os._exit(0)\n    print("OK",k)\nprint("DONE")\n' % (
        [root, os.path.join(core.VERIF, 'mc')], os.path.join(w, 'sts'), os.path.join(w, 'ref'), mat, kind)
    with open(os.path.join(w, 'sts'), 'wb') as f:
        pickle.dump([(k, v) for k, v in states.items()], f)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', prog], env=e, capture_output=True, text=True, timeout=700)
    for line in p.stdout.split('\n'):
        if line.startswith('OK'):
            r.execution(2)
            r.state('film', kind, line)
        elif line.startswith('BAD'):
            r.bad('table', 'a thin-film look-up after an interrupted save goes wrong', detail=line[4:])
    if 'DONE' not in p.stdout and 'BAD' not in p.stdout:
        raise core.HarnessError('film: ' + p.stderr[-1200:])
    r.outcome('film', kind, len(states))
