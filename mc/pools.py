"""Stand-ins for thread and process pools, driven by the controlled scheduler.

install(ctl) replaces the executors (wherever the library under test holds a
reference to them) by ones that queue tasks and run them under ctl.sched."""
import concurrent.futures as cf
import concurrent.futures.thread
import multiprocessing
import multiprocessing.pool
import pickle
import sys
import itertools

REAL = {'T': cf.ThreadPoolExecutor, 'P': cf.ProcessPoolExecutor, 'AC': cf.as_completed, 'W': cf.wait,
        'MP': multiprocessing.Pool, 'TP': multiprocessing.pool.ThreadPool}


class Control:
    """shared by all stand-ins of one execution"""
    sched = None
    tracer = None
    on_block = None          # called with the number of tasks when a block starts
    perm = 0                 # which order process tasks run in
    blocks = 0
    sizes = ()


CTL = Control()


class Future(cf.Future):
    pool = None

    def result(self, timeout=None):
        self.pool._run()
        return cf.Future.result(self)

    def exception(self, timeout=None):
        self.pool._run()
        return cf.Future.exception(self)


class Threads:
    process = False

    def __init__(self, max_workers=None, *a, initializer=None, initargs=(), **k):
        self.workers = max_workers or 4
        self.q = []
        if initializer:
            initializer(*initargs)

    def submit(self, fn, *a, **k):
        f = Future()
        f.pool = self
        self.q.append((f, fn, a, k))
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *x) for x in zip(*its)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def _run(self):
        q, self.q = self.q, []
        if not q:
            return
        CTL.blocks += 1
        CTL.sizes = CTL.sizes + (len(q),)
        if self.process:
            q2 = [(f, *pickle.loads(pickle.dumps((a, k))), fn) for f, fn, a, k in q]
            order = list(itertools.islice(itertools.permutations(range(len(q))), CTL.perm, CTL.perm + 1))
            order = order[0] if order else range(len(q))
            for i in order:
                f, a, k, fn = q2[i]
                try:
                    f.set_result(pickle.loads(pickle.dumps(fn(*a, **k))))
                except Exception as e:
                    f.set_exception(e)
                DONE.append(f)
            return
        res = CTL.sched.run([(lambda fn=fn, a=a, k=k: fn(*a, **k)) for _, fn, a, k in q], self.workers, CTL.tracer)
        if CTL.sched.error is not None:
            raise CTL.sched.error
        for (f, *_), (ok, v) in zip(q, res):
            if ok:
                f.set_result(v)
            else:
                f.set_exception(v)
        for i in CTL.sched.order[CTL.sched.base:]:
            DONE.append(q[i][0])

    def shutdown(self, wait=True, **k):
        self._run()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._run()
        return False


DONE = []


class Procs(Threads):
    process = True


class Pool(Procs):
    """multiprocessing.Pool"""

    def __init__(self, processes=None, *a, **k):
        Procs.__init__(self, processes)

    def starmap(self, fn, it, chunksize=None):
        fs = [self.submit(fn, *x) for x in it]
        return [f.result() for f in fs]

    def map(self, fn, it, chunksize=None):
        fs = [self.submit(fn, x) for x in it]
        return [f.result() for f in fs]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        fs = [self.submit(fn, x) for x in it]
        self._run()
        return iter([f.result() for f in sorted(fs, key=DONE.index)])

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        f = self.submit(fn, *args, **kwds)
        f.get = f.result
        return f

    def apply(self, fn, args=(), kwds={}):
        return self.submit(fn, *args, **kwds).result()

    def starmap_async(self, fn, it, chunksize=None, **k):
        r = self.starmap(fn, it)
        f = cf.Future()
        f.set_result(r)
        f.get = f.result
        return f
    map_async = None

    def close(self):
        self._run()

    def join(self):
        pass

    terminate = close


class ThreadPool(Pool):
    process = False


def as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        if getattr(f, 'pool', None) is not None:
            f.pool._run()
    return iter(sorted(fs, key=lambda f: DONE.index(f) if f in DONE else 0))


def wait(fs, timeout=None, return_when=None):
    fs = list(fs)
    for f in fs:
        if getattr(f, 'pool', None) is not None:
            f.pool._run()
    return REAL['W'](fs)


class Installed:
    def __enter__(self):
        subst = {id(REAL['T']): Threads, id(REAL['P']): Procs, id(REAL['AC']): as_completed, id(REAL['W']): wait, id(REAL['TP']): ThreadPool}
        self.undo = []
        for name, m in list(sys.modules.items()):
            if not (name.startswith('falco') or name in ('concurrent.futures', 'multiprocessing.pool', 'multiprocessing', 'concurrent.futures.thread')):
                continue
            for k in list(vars(m)):
                v = vars(m)[k]
                new = subst.get(id(v))
                if new is None and k in ('Pool',) and name.startswith(('falco', 'multiprocessing')) and callable(v) and not name.endswith('.pool'):
                    new = Pool
                if new is not None:
                    self.undo.append((m, k, v))
                    setattr(m, k, new)
        return self

    def __exit__(self, *a):
        for m, k, v in self.undo:
            setattr(m, k, v)
        DONE.clear()
        return False
