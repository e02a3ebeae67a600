"""Deterministic thread scheduler.

The tasks run on real threads, but only the one that holds the baton runs.  The baton changes hands at lines of
/repo/hvd (traced with sys.settrace), where and to whom is decided by `Sim.choose`.  Locks that belong to hvd are
replaced by simulated ones, so that waiting for a lock hands the baton on and a deadlock is seen.  A thread is not
preempted while code of another package (JAX, scikit-learn, logging, ...) is on its stack: those may hold locks of
their own, and count as atomic.
"""

import _thread
import os
import sys
import threading
from contextlib import contextmanager

from .core import Violation

REPO = os.environ.get("HVD_REPO", "/repo")
TRACED = os.path.join(REPO, "hvd", "")
OWN = (os.path.join(REPO, ""), os.path.dirname(os.path.abspath(__file__)))
BASE = threading.__file__
CONTEXT = {__import__("contextlib").__file__}
_real_lock, _real_rlock = threading.Lock, threading.RLock
_LOCK_TYPES = (type(_thread.allocate_lock()), type(threading.RLock()))


class Abandoned(BaseException):
    """ends a thread of a simulation that is over"""


class _Task:
    def __init__(self, name, function):
        self.name, self.function = name, function
        self.baton = threading.Semaphore(0)
        self.done = False
        self.blocked_on = None
        self.result = None
        self.error = None


class Scheduler:
    def __init__(self, sim, eagerness=6, on_switch=None, through=()):
        """`through`: modules whose locks are simulated, so that threads can be preempted while they are on the stack"""
        self.sim = sim
        self.through = tuple(through)
        self.passable = CONTEXT | {BASE} | {m.__file__ for m in self.through}
        self.eagerness = eagerness  # gaps are up to 2 ** eagerness lines
        self.tasks = []
        self.current = None
        self.countdown = 0
        self.over = threading.Event()
        self.failure = None
        self.on_switch = on_switch
        self.switches = 0
        self.max_switches = 2000

    # -- running -----------------------------------------------------------------------------------------
    def run(self, functions):
        """run the functions concurrently -> [(result, error)]"""
        self.tasks = [_Task(f"T{i}", f) for i, f in enumerate(functions)]
        threads = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        for t in threads:
            t.start()
        with self._locks():
            self._hand_over(self.tasks[self.sim.choose(len(self.tasks), "first-thread")])
            while not self.over.wait(0.5):
                pass
            if self.failure is None:
                for t in threads:
                    t.join(10)
        if self.failure is not None:
            for t in self.tasks:
                t.baton.release()
            raise self.failure
        return [(t.result, t.error) for t in self.tasks]

    def _body(self, task):
        task.baton.acquire()
        if self.failure is not None:
            return
        self.current = task
        sys.settrace(self._trace_call)
        try:
            task.result = task.function()
        except Abandoned:
            return
        except Violation as v:
            sys.settrace(None)
            self.failure = v
            self.over.set()
            return
        except BaseException as e:  # noqa: BLE001
            task.error = e
        sys.settrace(None)
        task.done = True
        self.sim.log(task.name, "ends")
        self._next(task)

    def _hand_over(self, task):
        self.current = task
        gap = self.sim.choose(self.eagerness, "gap")
        self.countdown = 1 + self.sim.choose(2**gap, "gap-lines") if self.switches < self.max_switches else 1 << 60
        task.baton.release()

    def _runnable(self):
        return [t for t in self.tasks if not t.done and (t.blocked_on is None or t.blocked_on.free_for(t))]

    def _next(self, task):
        """hand the baton on; `task` is finished or blocked"""
        ready = self._runnable()
        if not ready:
            if all(t.done for t in self.tasks):
                self.over.set()
            else:
                self.failure = Violation("deadlock", "; ".join(f"{t.name} waits" for t in self.tasks if not t.done))
                self.over.set()
            return
        self._hand_over(ready[self.sim.choose(len(ready), "thread")])

    def _wait(self, task):
        task.baton.acquire()
        if self.failure is not None:
            raise Abandoned()
        self.current = task

    # -- preemption ----------------------------------------------------------------------------------------
    def _trace_call(self, frame, event, arg):
        return self._trace_line if frame.f_code.co_filename.startswith(TRACED) else None

    def _trace_line(self, frame, event, arg):
        if event == "line":
            self.countdown -= 1
            if self.countdown <= 0:
                self._preempt(frame)
        return self._trace_line

    def pause(self):
        """a simulated wait for I/O: others may go on"""
        if self.current is not None and not self.over.is_set():
            self._preempt(sys._getframe(1))

    def _preempt(self, frame):
        f = frame
        while f is not None:
            name = f.f_code.co_filename
            if not name.startswith(OWN) and name not in self.passable:
                self.countdown = 1
                return
            f = f.f_back
        task = self.current
        ready = self._runnable()
        target = ready[self.sim.choose(len(ready), "thread")]
        if target is task:
            gap = self.sim.choose(self.eagerness, "gap")
            self.countdown = 1 + self.sim.choose(2**gap, "gap-lines")
            return
        self.switches += 1
        where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
        self.sim.log(task.name, "->", target.name, "at", where, frame.f_lineno - frame.f_code.co_firstlineno)
        self.sim.cover(task.name, target.name, where, frame.f_lineno - frame.f_code.co_firstlineno)
        self.sim.probe("preemptions")
        if self.on_switch is not None:
            self.on_switch()
        self._hand_over(target)
        self._wait(task)

    # -- locks ---------------------------------------------------------------------------------------------
    @contextmanager
    def _locks(self):
        undo = []
        replaced = {}
        files = {m.__file__ for m in self.through}
        for name, module in list(sys.modules.items()):
            if module is None or not (name == "hvd" or name.startswith("hvd.") or module in self.through):
                continue
            for attr, value in list(vars(module).items()):
                owners = [(module, attr, value)]
                if isinstance(value, type) and value.__module__.startswith("hvd"):
                    owners += [(value, a, v) for a, v in list(vars(value).items())]
                for owner, a, v in owners:
                    if isinstance(v, _LOCK_TYPES):
                        if id(v) not in replaced:
                            replaced[id(v)] = SimLock(self, isinstance(v, _LOCK_TYPES[1]))
                        setattr(owner, a, replaced[id(v)])
                        undo.append((owner, a, v))

        def factory(real, reentrant):
            def make():
                caller = sys._getframe(1).f_code.co_filename
                if caller.startswith(TRACED) or caller in files:
                    return SimLock(self, reentrant)
                return real()

            return make

        threading.Lock, threading.RLock = factory(_real_lock, False), factory(_real_rlock, True)
        try:
            yield
        finally:
            threading.Lock, threading.RLock = _real_lock, _real_rlock
            for owner, a, v in undo:
                setattr(owner, a, v)


class SimLock:
    def __init__(self, scheduler, reentrant):
        self.scheduler, self.reentrant = scheduler, reentrant
        self.owner, self.depth = None, 0

    def free_for(self, task):
        return self.owner is None or (self.reentrant and self.owner is task)

    def acquire(self, blocking=True, timeout=-1):
        s = self.scheduler
        me = s.current
        while not self.free_for(me):
            if not blocking:
                return False
            s.sim.probe("waits-for-lock")
            me.blocked_on = self
            s._next(me)
            s._wait(me)
        me.blocked_on = None
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()
