"""A controlled scheduler: real threads that hand over a baton at yield points.

Exactly one managed thread runs at any moment; at every yield point the
explorer decides who runs next, so an execution is determined by its list of
decisions and the set of all executions within a preemption bound can be
enumerated (stateless exploration, in the style of CHESS)."""
import sys
import threading


class Abort(BaseException):
    """a managed thread is told to stop because the execution is over"""


class Sched:
    """runs a fixed list of zero-argument tasks on at most `workers` at a time"""

    def __init__(self, prefix=(), limit=200000):
        self.prefix = list(prefix)
        self.trace = []             # (enabled tuple, current, chosen)
        self.limit = limit
        self.tls = threading.local()
        self.order = []             # completion order
        self.log = []               # labels of the steps taken
        self.active = False

    # -- one block of concurrent tasks
    def run(self, tasks, workers, tracer=None):
        assert not self.active, 'nested parallel sections are not modelled'
        n = len(tasks)
        self.n, self.workers = n, max(1, workers)
        self.tasks, self.tracer = tasks, tracer
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.res = [None] * n
        self.finished = [False] * n
        self.started = [False] * n
        self.main = threading.Semaphore(0)
        self.active = True
        self.base = len(self.order)
        th = []
        if n:
            self._next(None)
            self.main.acquire()
        for t in self.threads:
            if t is not None:
                t.join()
        self.active = False
        return self.res

    @property
    def threads(self):
        return self.__dict__.setdefault('_threads', [])

    def _enabled(self):
        # workers take tasks from the queue in order as soon as they are free
        taken = min(self.n, self.workers + sum(self.finished))
        return tuple(i for i in range(taken) if not self.finished[i])

    def _decide(self, cur):
        en = self._enabled()
        if not en:
            return None
        k = len(self.trace)
        if k >= self.limit:
            raise RuntimeError('schedule too long')
        if k < len(self.prefix):
            ch = self.prefix[k]
            if ch not in en:
                # an earlier execution warmed a cache and took other steps:
                # any enabled choice is still a legitimate schedule
                ch = cur if cur in en else en[0]
        else:
            ch = cur if cur in en else en[0]
        self.trace.append((en, cur if cur in en else None, ch))
        return ch

    def _wake(self, i):
        if not self.started[i]:
            self.started[i] = True
            t = threading.Thread(target=self._body, args=(i,), daemon=True)
            self.threads.append(t)
            t.start()
        else:
            self.sem[i].release()

    def _next(self, cur):
        ch = self._decide(cur)
        if ch is None:
            self.main.release()
        else:
            self._wake(ch)

    def _body(self, i):
        self.tls.me = i
        if self.tracer is not None:
            sys.settrace(self.tracer)
        try:
            self.res[i] = (True, self.tasks[i]())
        except BaseException as e:
            self.res[i] = (False, e)
        finally:
            sys.settrace(None)
        self.tls.me = None
        self.finished[i] = True
        self.order.append(i)
        try:
            self._next(i)
        except BaseException as e:
            self.error = e
            self.main.release()

    error = None

    def me(self):
        return getattr(self.tls, 'me', None)

    def point(self, label=None):
        """a yield point, called by managed threads only"""
        i = self.me()
        if i is None:
            return
        if self.error is not None:
            raise Abort()
        try:
            ch = self._decide(i)
        except BaseException as e:
            self.error = e
            self.main.release()
            raise Abort()
        if ch != i:
            self._wake(ch)
            self.sem[i].acquire()


def explore(execute, bound, visit, first=(), take=None, orders=None):
    """enumerate all executions with at most `bound` preemptions.

    execute(prefix) -> Sched after one complete execution; visit(sched)
    judges it.  take(i) selects the first preemptions explored here, so that
    the space can be divided among processes.  With orders=k, free choices (a
    task ended) are enumerated only in executions with at most k preemptions,
    and preemptions are placed only in executions without such choices.  Returns the number of executions."""
    stack = [(list(first), 0)]
    count = 0
    while stack:
        pre, nfree = stack.pop()
        s = execute(pre)
        if s.error is not None:
            raise s.error
        count += 1
        visit(s)
        tr = s.trace
        cost = 0
        choices = [c for _, _, c in tr]
        for i, (en, cur, ch) in enumerate(tr):
            if i >= len(pre):
                for alt in en:
                    if alt == ch:
                        continue
                    c = cost + (1 if cur is not None and alt != cur else 0)
                    free = c == cost
                    if orders is not None and (cost > orders if free else nfree):
                        continue
                    if c <= bound and (free or cost or take is None or take(i)):
                        stack.append((choices[:i] + [alt], nfree + free))
            if cur is not None and ch != cur:
                cost += 1
    return count


def code_tracer(sched, match, opcodes=False):
    """a trace function yielding before every line (or bytecode) of matching code"""
    kind = 'opcode' if opcodes else 'line'

    def local(frame, event, arg):
        if event == kind:
            sched.point((frame.f_code.co_name, frame.f_lineno))
        return local

    def glob(frame, event, arg):
        if event == 'call' and match(frame.f_code):
            frame.f_trace_opcodes = opcodes
            frame.f_trace_lines = not opcodes
            return local
        return None
    return glob
