"""Shared machinery of the bounded exhaustive checks.

A check module (checks/<id>.py) provides

    ID           property id
    BOUNDS       one sentence naming alphabet and bounds, per tier
    cases(tier)  -> list of small picklable case descriptors: the *complete*
                    enumeration within the bounds of that tier
    run(case, r) -> explores one case on the real code of /repo, reporting to r

The runner executes every case (in parallel worker processes), never stops at
a cap, aggregates, writes evidence/<id>.json and decides the exit status.
"""
import contextlib
import gc
import hashlib
import json
import logging
import os
import signal
import sys
import time
import traceback
import multiprocessing as _mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class HarnessError(Exception):
    """the check itself is broken (never a verdict on the property)"""


class Hang(BaseException):
    pass


class Result:
    """what one case explored"""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.execs = 0
        self.outcomes = set()
        self.viol = []
        self.findings_seen = []

    # -- exploration accounting
    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def execution(self, n=1):
        self.execs += n

    def outcome(self, *key):
        self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=6).digest())

    # -- verdicts
    def bad(self, key, msg, **detail):
        if len(self.viol) < 5:
            self.viol.append({'key': str(key), 'msg': str(msg)[:2000],
                              'detail': {k: _short(v) for k, v in detail.items()}})

    def expect(self, cond, key, msg, **detail):
        if not cond:
            self.bad(key, msg, **detail)
        return bool(cond)


def _short(v):
    s = repr(v)
    return s if len(s) < 1500 else s[:1500] + '...'


def _from_repo(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO.rstrip('/') + '/'):
            return True
        tb = tb.tb_next
    return False


logging.disable(logging.CRITICAL)
CASE_TIMEOUT = 240


def _alarm(signum, frame):
    raise Hang()


_MOD = None


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def _run_one(args):
    idx, case = args
    r = Result()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(_MOD, 'CASE_TIMEOUT', CASE_TIMEOUT))
    try:
        with contextlib.redirect_stdout(_Null()):
            _MOD.run(case, r)
    except Hang:
        r.bad('hang', 'case did not terminate within the horizon', trace=traceback.format_exc()[-1500:])
    except HarnessError:
        raise
    except Exception as e:
        if _from_repo(e.__traceback__):
            r.bad('exception:' + type(e).__name__,
                  'the code under test raised %s: %s' % (type(e).__name__, e),
                  trace=traceback.format_exc()[-3000:])
        elif isinstance(e, (MemoryError, OSError)) and not isinstance(e, FileNotFoundError):
            raise HarnessError('case %r\n%s' % (case, traceback.format_exc()))
        else:
            # the observations handed back could not be interpreted at all
            r.bad('uninterpretable:' + type(e).__name__,
                  'results of the code under test could not be interpreted: %s: %s' % (type(e).__name__, e),
                  trace=traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    r.wall = time.time() - t0
    return idx, r


class _NoDaemonProcess(_mp.get_context('fork').Process):
    @property
    def daemon(self):
        return False

    @daemon.setter
    def daemon(self, v):
        pass


class _NoDaemonContext(type(_mp.get_context('fork'))):
    Process = _NoDaemonProcess


def run_all(mod, cases, procs):
    global _MOD
    _MOD = mod
    if hasattr(mod, 'prepare'):
        mod.prepare()
    # the library calls gc.collect() often: leave what is already loaded alone
    gc.collect()
    gc.freeze()
    n = len(cases)
    results = [None] * n
    if procs <= 1 or n <= 1:
        for i, c in enumerate(cases):
            results[i] = _run_one((i, c))[1]
        return results
    ctx = _NoDaemonContext()
    chunk = max(1, min(getattr(mod, 'CHUNK', 64), n // (procs * 4)))
    pool = _mp.pool.Pool(procs, context=ctx)
    try:
        for i, r in pool.imap_unordered(_run_one, list(enumerate(cases)), chunksize=chunk):
            results[i] = r
    finally:
        pool.terminate()
        pool.join()
    return results


def load_findings(pid):
    known = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, desc = rest.partition(' ')
                assert key.startswith('key='), line
                known[key[4:]] = desc
    return known


def main(mod, tier, procs=None, replay=None):
    import multiprocessing.pool  # noqa
    t0 = time.time()
    pid = mod.ID
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if replay:
        d = json.load(open(replay))
        allc = {json.dumps(c, sort_keys=True, default=str): c for t in ('quick', 'thorough') for c in mod.cases(t)}
        cases = [allc[d['case_key']]]
        procs = 1
    else:
        cases = list(mod.cases(tier))
    procs = procs or min(8, os.cpu_count() or 1)
    if getattr(mod, 'PROCS', None):
        procs = min(procs, mod.PROCS)
    if not cases:
        raise HarnessError('no cases')
    results = run_all(mod, cases, procs)
    states, outcomes, trans, execs = set(), set(), 0, 0
    bads = []
    for c, r in zip(cases, results):
        states |= r.states
        outcomes |= r.outcomes
        trans += r.transitions
        execs += r.execs
        for v in r.viol:
            bads.append((c, v))
    known = load_findings(pid)
    new, seen = [], {}
    for c, v in bads:
        if v['key'] in known:
            seen.setdefault(v['key'], (c, v))
        else:
            new.append((c, v))
    if os.environ.get('VERIF_PROFILE'):
        for c, r in sorted(zip(cases, results), key=lambda x: -x[1].wall)[:8]:
            print('  slow %.2fs %r' % (r.wall, c))
        print('  total case seconds %.1f' % sum(r.wall for r in results))
    min_states = getattr(mod, 'MIN_STATES', 2)
    if not replay and not new and (len(states) < min_states or execs == 0):
        raise HarnessError('vacuous exploration: states=%d execs=%d' % (len(states), execs))
    for k, (c, v) in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    status = 0
    vio_out = []
    if new:
        status = 1
        keys = set()
        i = 0
        for c, v in new:
            if v['key'] in keys or i >= 10:
                continue
            keys.add(v['key'])
            path = os.path.join(evdir, 'replay_%s_%d.json' % (pid, i))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'case': repr(c),
                           'case_key': json.dumps(c, sort_keys=True, default=str),
                           'violation': v,
                           'how': 'bash %s/check.sh %s --replay %s' % (VERIF, pid, path)}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('   key=%s: %s' % (v['key'], v['msg'].splitlines()[0] if v['msg'] else ''))
            print('   case=%s' % _short(c))
            vio_out.append({'replay': path, 'key': v['key'], 'message': v['msg'][:500], 'case': _short(c)[:500]})
            i += 1
    if replay:
        for c, v in bads:
            print(json.dumps(v, indent=1))
        return status
    # evidence
    k = max(1, len(cases) // 6)
    samples = [{'case': _short(cases[i])[:400], 'transitions': results[i].transitions,
                'executions': results[i].execs} for i in range(0, len(cases), k)][:8]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': len(states), 'transitions': trans,
                       'traces_validated_against_impl': execs, 'cases': len(cases),
                       'distinct_outcomes': len(outcomes),
                       'bounds': mod.BOUNDS if isinstance(mod.BOUNDS, str) else mod.BOUNDS[tier],
                       'exhaustive': True, 'capped': False,
                       'known_findings_reproduced': sorted(seen),
                       'violation_details': vio_out,
                       'samples': samples},
          'wall_s': round(time.time() - t0, 2), 'violations': len(new),
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', []))}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: cases=%d states=%d transitions=%d executions=%d outcomes=%d wall=%.1fs %s'
          % (pid, tier, len(cases), len(states), trans, execs, len(outcomes), time.time() - t0,
             'VIOLATED' if status else 'held'))
    return status
