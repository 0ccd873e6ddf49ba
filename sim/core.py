"""Simulation kernel: virtual time, tasks, seeded scheduler, step budget.

Everything that the code under test does runs in *tasks*.  A task is a real
thread, but exactly one thread of the whole simulation runs at any moment: the
kernel hands a baton to the task it picked and waits until the task gives it
back (it sleeps, waits, yields, is preempted or ends).  Which task gets the
baton is decided by a PRNG seeded from the scenario, so that one scenario is
exactly one execution.  Time is an integer number of microseconds that moves
only when no task is runnable.
"""
import hashlib
import heapq
import random
import sys
import threading

from _thread import allocate_lock as _real_lock

_tls = threading.local()

LINE_BUDGET = 3_000_000       # repo lines one request may execute before it counts as a hang


class SimHang(BaseException):
    "Raised inside the code under test when its step budget is exhausted."


class SimKilled(BaseException):
    "Raised inside a task whose (simulated) process was killed."


class HarnessError(Exception):
    "The harness was asked for something it does not model."


def current_task():
    return getattr(_tls, "task", None)


class outside:
    "Code in this block is not part of the running task (no seams, no preemption, no step budget)."

    def __enter__(self):
        self.task = current_task()
        _tls.task = None

    def __exit__(self, *a):
        _tls.task = self.task


def _gate():
    "A closed binary gate on a real lock (the threading module itself may be patched)."
    g = _real_lock()
    g.acquire()
    return g


class SimLock:
    """Lock for the code under test: inside the simulation waiting for it is a scheduling point, so that a
    preempted holder can go on.  Outside the simulation it is a real lock."""

    def __init__(self, reentrant=False):
        self._real = _real_lock()
        self._owner = None
        self._n = 0
        self._re = reentrant

    def _me(self):
        return current_task() or threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        if self._re and self._owner == self._me() and self._n:
            self._n += 1
            return True
        task = current_task()
        if task is None:
            ok = self._real.acquire(blocking, timeout)
        else:
            ok = self._real.acquire(False)
            end = None if timeout is None or timeout < 0 else task.sim.now_us + int(timeout * 1e6)
            spins = 0
            while not ok and blocking:
                if end is not None and task.sim.now_us >= end:
                    return False
                if task.killed:
                    raise SimKilled()
                spins += 1
                task.sim.sleep_us(0 if spins < 50 else 1000)
                if spins > 5000:
                    task.hung = task.hung or "lock"
                    raise SimHang("lock never becomes free")
                ok = self._real.acquire(False)
        if ok:
            self._owner = self._me()
            self._n = 1
        return ok

    def release(self):
        if self._re and self._n > 1:
            self._n -= 1
            return
        self._n = 0
        self._owner = None
        self._real.release()

    def locked(self):
        return self._real.locked()

    def _is_owned(self):
        return self._n > 0 and self._owner == self._me()

    def _release_save(self):
        st = (self._n, self._owner)
        self._n, self._owner = 0, None
        self._real.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._n = st[0]

    def _at_fork_reinit(self):
        self._real = _real_lock()
        self._owner, self._n = None, 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class _Thread:
    "A reusable carrier thread."
    pool = []

    def __init__(self):
        self.go = _gate()
        self.resume = _gate()
        self.fn = None
        self.th = threading.Thread(target=self._run, daemon=True)
        self.th.start()

    def _run(self):
        while True:
            self.go.acquire()
            fn = self.fn
            self.fn = None
            fn()

    @classmethod
    def get(cls):
        return cls.pool.pop() if cls.pool else cls()


class Task:
    __slots__ = ("sim", "name", "fn", "thread", "state", "worker", "lines", "budget", "switch",
                 "result", "exc", "readings", "killed", "done_cb", "gated", "nreads", "io_n", "tag", "cwd",
                 "wake_gen", "hung", "faults")

    def __init__(self, sim, name, fn, worker=None):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.thread = None
        self.state = "new"
        self.worker = worker
        self.lines = 0
        self.budget = LINE_BUDGET
        self.switch = ()
        self.result = None
        self.exc = None
        self.readings = []
        self.killed = False
        self.done_cb = None
        self.gated = False
        self.nreads = 0
        self.io_n = 0
        self.tag = ""
        self.cwd = None
        self.wake_gen = 0
        self.hung = None
        self.faults = []            # (kind, path, op) that hit this task


class Sim:
    def __init__(self, sched_seed, policy="random", start_us=0):
        self.now_us = start_us
        self.start_us = start_us
        self.rng = random.Random("sched/%s" % sched_seed)
        self.policy = policy
        self.runnable = []
        self.timers = []
        self.seq = 0
        self.back = _gate()
        self.cur = None
        self.trace = hashlib.sha256()
        self.n_switch = 0
        self.n_preempt = 0
        self.total_lines = 0
        self.live = []
        self.trouble = None     # what a judging callback or the harness raised inside a task
        self.clock_events = 0
        self.span_us = 0            # simulated time covered (idle gaps count at most an hour)

    # -- used by the scheduler side
    def spawn(self, name, fn, worker=None, at_us=None, switch=()):
        task = Task(self, name, fn, worker)
        task.switch = switch
        self.live.append(task)
        if at_us is None or at_us <= self.now_us:
            task.state = "ready"
            self.runnable.append(task)
        else:
            self._timer(at_us, task)
        return task

    def _timer(self, at_us, task):
        self.seq += 1
        task.state = "timer"
        task.wake_gen += 1
        heapq.heappush(self.timers, (at_us, self.seq, task, task.wake_gen))

    def at(self, at_us, fn):
        "Run a plain function (not a task) at a time."
        self.seq += 1
        heapq.heappush(self.timers, (at_us, self.seq, fn, None))

    def _start(self, task):
        carrier = _Thread.get()
        task.thread = carrier

        def body():
            _tls.task = task
            try:
                if task.killed:
                    raise SimKilled()
                task.result = task.fn()
            except SimKilled as exc:
                task.exc = exc
            except BaseException as exc:  # recorded; properties judge it
                task.exc = exc
                if isinstance(exc, HarnessError):
                    self.trouble = self.trouble or exc
            finally:
                _tls.task = None
                task.state = "done"
                self.back.release()
        carrier.fn = body
        carrier.go.release()

    def enter(self):
        "Hook: make the process the host of this simulation."

    RUNNING = []    # at most one simulation at a time: the simulated locks know only their own

    def run(self, max_events=2_000_000):
        if Sim.RUNNING:
            raise HarnessError("a simulation runs inside another one")
        Sim.RUNNING.append(self)
        self.enter()
        try:
            self._run(max_events)
        finally:
            Sim.RUNNING.clear()

    def _run(self, max_events):
        n = 0
        while True:
            n += 1
            if n > max_events:
                raise HarnessError("scheduler event limit")
            if not self.runnable:
                if not self.timers:
                    break
                at_us, _, what, gen = heapq.heappop(self.timers)
                if gen is not None and (what.state != "timer" or what.wake_gen != gen):
                    continue
                if at_us > self.now_us:
                    self.span_us += min(at_us - self.now_us, 3_600_000_000)
                    self.now_us = at_us
                if gen is None:
                    what()
                else:
                    what.state = "ready"
                    self.runnable.append(what)
                # everything due at this very moment competes
                while self.timers and self.timers[0][0] <= self.now_us:
                    _, _, what, gen = heapq.heappop(self.timers)
                    if gen is None:
                        what()
                    elif what.state == "timer" and what.wake_gen == gen:
                        what.state = "ready"
                        self.runnable.append(what)
                continue
            if len(self.runnable) == 1 or self.policy == "fifo":
                idx = 0
            else:
                idx = self.rng.randrange(len(self.runnable))
            task = self.runnable.pop(idx)
            self.cur = task
            self.n_switch += 1
            self.trace.update(("%s@%d;" % (task.name, task.lines)).encode())
            new = task.thread is None
            task.state = "running"
            if new:
                self._start(task)
            else:
                task.thread.resume.release()
            self.back.acquire()
            self.cur = None
            if task.state == "done":
                _Thread.pool.append(task.thread)
                task.thread = None
                self.live.remove(task)
                self.total_lines += task.lines
                if self.trouble is not None:
                    exc, self.trouble = self.trouble, None
                    raise exc
                if task.done_cb:
                    task.done_cb(task)

    # -- used by the task side
    def _park(self, task):
        carrier = task.thread
        self.back.release()
        carrier.resume.acquire()
        if task.killed:
            raise SimKilled()

    def sleep_us(self, delta):
        task = current_task()
        if task is None:
            raise HarnessError("sleep outside a task")
        self._timer(self.now_us + max(0, int(delta)), task)
        self._park(task)

    def yield_(self):
        task = current_task()
        task.state = "ready"
        self.runnable.append(task)
        self._park(task)

    def wait(self):
        "Park until wake()."
        task = current_task()
        task.state = "waiting"
        self._park(task)

    def wake(self, task):
        if task.state == "waiting":
            task.state = "ready"
            self.runnable.append(task)

    def kill(self, task):
        "Kill a task: SimKilled is raised at the point where it is parked."
        if task.state in ("done",):
            return
        task.killed = True
        if task.state in ("timer", "waiting"):
            task.state = "ready"
            self.runnable.append(task)

    def drain(self):
        "End of run: kill whatever is left."
        for task in list(self.live):
            self.kill(task)
        self.timers = []
        self.run()


# ---------------------------------------------------------------- line events
_MON = sys.monitoring
_TOOL = 4
_installed = False
_codes_done = {}


def _on_line(code, line):
    task = getattr(_tls, "task", None)
    if task is None:
        return None
    n = task.lines + 1
    task.lines = n
    if n >= task.budget:
        task.budget = n + LINE_BUDGET * 10  # let cleanup code run
        task.hung = "%s" % code.co_name
        raise SimHang("step budget exhausted in %s line %d" % (code.co_name, line))
    if n in task.switch:
        sim = task.sim
        sim.n_preempt += 1
        sim.yield_()
    return None


def install_monitoring():
    global _installed
    if not _installed:
        _MON.use_tool_id(_TOOL, "dst")
        _MON.register_callback(_TOOL, _MON.events.LINE, _on_line)
        _installed = True


def monitor_code(code):
    "Turn on line events for a code object and everything nested in it."
    if id(code) in _codes_done:
        return
    _codes_done[id(code)] = code
    _MON.set_local_events(_TOOL, code, _MON.events.LINE)
    for const in code.co_consts:
        if hasattr(const, "co_consts"):
            monitor_code(const)
