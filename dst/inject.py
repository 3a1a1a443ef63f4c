"""Control over execution: library line events as simulated time, fault injection at a
chosen event, deterministic step budgets and a cooperative scheduler for client threads."""
import sys, ast, threading
from time import monotonic as _mono
from core import MACHUP_DIR


class StepBudget(BaseException):
    """The request used more library steps than any terminating request may."""


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


class InjectedFault(RuntimeError):
    pass


class SimDeadlock(StepBudget):
    """A wait that nothing left in the simulated process can end."""


EXC = {"KeyboardInterrupt": InjectedInterrupt, "MemoryError": InjectedMemoryError,
       "RuntimeError": InjectedFault, "SystemExit": SystemExit}

_protected = {}


def protected_lines(filename):
    """Lines inside except/finally bodies: cleanup code, where no second fault is injected."""
    if filename not in _protected:
        lines = set()
        try:
            with open(filename, "rb") as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                if isinstance(node, ast.Try) or node.__class__.__name__ == "TryStar":
                    for part in [node.finalbody] + [h.body for h in node.handlers]:
                        for st in part:
                            lines.update(range(st.lineno, (st.end_lineno or st.lineno) + 1))
                    lines.add(node.lineno)    # the try keyword itself: nothing has run since the line before
                if isinstance(node, (ast.With, ast.AsyncWith)):
                    # the with statement's own line is also the place where the context is left
                    lines.update(range(node.lineno, node.body[0].lineno))
        except (OSError, SyntaxError):
            pass
        _protected[filename] = lines
    return _protected[filename]


def in_cleanup(frame):
    while frame is not None:
        fn = frame.f_code.co_filename
        if fn.startswith(MACHUP_DIR):
            if frame.f_code.co_name in ("__exit__", "__del__", "close"):
                return True
            if frame.f_lineno in protected_lines(fn):
                return True
        frame = frame.f_back
    return False


class Tracer:
    """Counts library line events of one thread; optionally injects one fault and preempts."""

    def __init__(self, sched=None, ident=0):
        self.sched = sched
        self.ident = ident
        self.total = 0
        self.begin()

    def begin(self, budget=None, fire_at=None, exc=None):
        self.count = 0
        self.budget = budget
        self.fire_at = fire_at
        self.exc = exc
        self.fired = None

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(MACHUP_DIR):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            self.total += 1
            if self.budget is not None and self.count > self.budget:
                raise StepBudget("more than %d library steps" % self.budget)
            if self.fire_at is not None and self.count >= self.fire_at and self.fired is None:
                if not in_cleanup(frame):
                    self.fired = self.count
                    raise EXC[self.exc]("injected at step %d" % self.count)
            if self.sched is not None:
                self.sched.tick(self.ident)
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class SchedulerStalled(Exception):
    pass


_me = threading.local()       # .sched, .ident of a client thread


class SimLock:
    """Stands in for a lock created by library code. Waiting is a scheduling decision;
    a wait nobody can end is reported as a deadlock instead of hanging the simulator."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            sched = getattr(_me, "sched", None)
            if sched is None or not sched.block(_me.ident, self):
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock("waiting for a lock that nobody will release")
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None or self._reentrant and self._owner != threading.get_ident():
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._reentrant or self._count == 0:
            self._owner, self._count = None, 0
            sched = getattr(_me, "sched", None)
            if sched is not None:
                sched.released(self)

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == threading.get_ident()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_locks():
    """Must run before the library is imported, so that locks made at import are covered too."""
    import sys, _thread

    def near_library(depth=4):
        f = sys._getframe(2)
        for _ in range(depth):
            if f is None:
                return False
            if f.f_code.co_filename.startswith(MACHUP_DIR):
                return True
            f = f.f_back
        return False

    def make(real, reentrant):
        def factory(*a, **k):
            return SimLock(reentrant) if near_library() else real(*a, **k)
        return factory
    threading.Lock = make(_thread.allocate_lock, False)
    threading.RLock = make(threading.RLock, True)


class Scheduler:
    """Runs client threads one at a time. Who runs is decided here and nowhere else.

    In search mode the PRNG decides at every library line event whether to preempt and
    whom to resume; every switch is logged as [tick, next]. In replay mode a logged
    (possibly minimised) list of switches is applied instead.
    """

    def __init__(self, rng, policy, replay=None):
        self.rng = rng
        self.policy = policy          # {"p": preemption probability} or {"points": [...ticks]}
        self.replay = {t: n for t, n in replay} if replay is not None else None
        self.log = []
        self.ticks = 0
        self.current = None
        self.blocked = {}             # client -> lock it waits for

    def run(self, fns):
        self.n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(self.n))
        self.done = threading.Event()
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in threads:
            t.start()
        first = self.replay.get(0, 0) if self.replay is not None else self.rng.randrange(self.n)
        if first not in self.alive:
            first = 0
        self.log.append([0, first])
        self.current = first
        self.sems[first].release()
        last, since = -1, _mono()
        while not self.done.wait(0.5):
            if self.ticks != last:
                last, since = self.ticks, _mono()
            elif _mono() - since > 60:
                raise SchedulerStalled("a client blocked outside the simulator's control")
        for t in threads:
            t.join(5)

    def _body(self, i, fn):
        self.sems[i].acquire()
        _me.sched, _me.ident = self, i
        try:
            fn()
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            if self.alive:
                self._switch(i, self._choose(i, forced=True), wait=False)
            else:
                self.done.set()

    def _choose(self, i, forced=False):
        others = sorted(x for x in self.alive if x != i and x not in self.blocked)
        if forced and not others:
            # only waiting clients are left: wake one, its wait cannot end
            others = sorted(x for x in self.alive if x != i)
        if self.replay is not None:
            n = self.replay.get(self.ticks)
            if n is not None and n in others:
                return n
            return others[0] if forced and others else None
        if not others:
            return None
        if forced:
            return self.rng.choice(others)
        pol = self.policy
        if "points" in pol:
            return self.rng.choice(others) if self.ticks in pol["points"] else None
        return self.rng.choice(others) if self.rng.random() < pol["p"] else None

    def _switch(self, i, j, wait=True):
        self.log.append([self.ticks, j])
        self.current = j
        self.sems[j].release()
        if wait:
            self.sems[i].acquire()

    def block(self, i, lock):
        """Client i waits for the lock; False if nobody is left who could release it."""
        self.ticks += 1
        self.blocked[i] = lock
        if not [x for x in self.alive if x not in self.blocked]:
            del self.blocked[i]
            return False
        self._switch(i, self._choose(i, forced=True))
        return self.blocked.pop(i, None) is None

    def released(self, lock):
        for c in [c for c, l in self.blocked.items() if l is lock]:
            del self.blocked[c]

    def tick(self, i):
        self.ticks += 1
        j = self._choose(i)
        if j is not None:
            self._switch(i, j)
