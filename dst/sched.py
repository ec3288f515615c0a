"""Deterministic scheduler: real threads, exactly one of which runs at any moment.

A task is an OS thread that only ever runs while it holds the baton.  It gives the
baton back at *yield points* (every simulated system call, pool or network
operation).  At each yield point one number is drawn from the chooser, and that
number alone decides who goes on; a run is therefore a function of the plan and of
the list of numbers drawn, which is recorded and can be replayed or shortened.
"""
import random
import threading


class SimKill(BaseException):
    """The simulated process this task belongs to has been killed (SIGKILL/SIGTERM)."""


class Chooser:
    """Draws scheduling decisions: 0 = let the current task go on."""

    def __init__(self, seed, stick, forced=None):
        self.rng = random.Random(seed)
        self.stick = stick
        self.forced = forced
        self.log = []

    def pick(self, n, cur_runnable):
        """Returns an index in [0, n); index 0 is the current task if it can go on."""
        i = len(self.log)
        if n == 1:
            v = 0
        elif self.forced is not None:
            v = self.forced[i] % n if i < len(self.forced) else 0
        elif cur_runnable and self.rng.random() < self.stick:
            v = 0
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v


class Proc:
    """A simulated process: what a kill or a signal is addressed to."""

    def __init__(self, pid, name):
        self.pid = pid
        self.name = name
        self.killed = False
        self.sigint = 0          # pending keyboard interrupts
        self.exited = False
        self.ignore_sigint = False
        self.int_delivered = False
        self.steps_after_int = 0
        self.signals = {}


class Task:
    def __init__(self, sim, proc, fn, name):
        self.sim = sim
        self.proc = proc
        self.fn = fn
        self.name = name
        self.sem = threading.Semaphore(0)
        self.pred = None
        self.wake = None
        self.done = False
        self.exc = None
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.sem.acquire()
        self.sim.tls.task = self
        try:
            if self.proc.killed:
                raise SimKill()
            self.fn()
        except SimKill:
            pass
        except BaseException as e:      # noqa: recorded, judged by the harness
            self.exc = e
        self.done = True
        self.sim._switch_from_dead(self)


class StepLimit(Exception):
    pass


class Sim:
    def __init__(self, chooser, max_steps=20000):
        self.chooser = chooser
        self.max_steps = max_steps
        self.tls = threading.local()
        self.tasks = []
        self.now = 1.6e9
        self.t0 = self.now
        self.steps = 0
        self.switches = 0
        self.overrun = False
        self.deadlock_hook = None      # called when nothing can run; returns True if it unblocked
        self.step_hook = None          # called with the step number, may deliver faults
        self.main_sem = threading.Semaphore(0)
        self.sched_hash = 0

    # -- task management
    def spawn(self, proc, fn, name):
        t = Task(self, proc, fn, name)
        self.tasks.append(t)
        t.thread.start()
        return t

    def current(self):
        return getattr(self.tls, "task", None)

    def _ready(self, t):
        if t.done:
            return False
        if t.proc.killed:
            return True
        if t.proc.sigint and not t.proc.ignore_sigint and t.interruptible:
            return True
        if t.wake is not None and self.now >= t.wake:
            return True
        if t.pred is not None:
            return bool(t.pred())
        return t.wake is None

    def _choose(self, cur):
        while True:
            ready = []
            cur_ok = cur is not None and self._ready(cur)
            if cur_ok:
                ready.append(cur)
            for t in self.tasks:
                if t is not cur and self._ready(t):
                    ready.append(t)
            if ready:
                i = self.chooser.pick(len(ready), cur_ok)
                nxt = ready[i]
                self.sched_hash = hash((self.sched_hash, nxt.name, self.steps)) & 0xffffffffffff
                return nxt
            waiting = [t.wake for t in self.tasks if not t.done and t.wake is not None]
            if waiting:
                self.now = max(self.now, min(waiting))
                continue
            if all(t.done for t in self.tasks):
                return None
            if self.deadlock_hook and self.deadlock_hook():
                continue
            for t in self.tasks:            # hard stop: nothing can make progress
                t.proc.killed = True

    def _switch_from_dead(self, t):
        nxt = self._choose(None)
        (self.main_sem if nxt is None else nxt.sem).release()

    def reschedule(self, t):
        nxt = self._choose(t)
        if nxt is not t:
            self.switches += 1
            nxt.sem.release()
            t.sem.acquire()

    def step(self, label=None):
        """A yield point of the current task."""
        t = self.current()
        if t is None:
            return
        self._check(t, False)
        self.steps += 1
        if t.proc.int_delivered and t.interruptible:
            t.proc.steps_after_int += 1
        if self.steps > self.max_steps:
            self.overrun = True
            for x in self.tasks:
                x.proc.killed = True
            raise SimKill()
        self.now += 1e-3
        if self.step_hook:
            self.step_hook(self.steps, label)
        self.reschedule(t)
        self._check(t, True)

    def _check(self, t, deliver):
        if t.proc.killed:
            raise SimKill()
        if deliver and t.proc.sigint and t.interruptible and not t.proc.ignore_sigint:
            t.proc.sigint -= 1
            t.proc.int_delivered = True
            raise KeyboardInterrupt()

    def block(self, pred=None, until=None):
        """Blocks the current task until pred() holds or simulated time `until`."""
        t = self.current()
        self._check(t, False)
        t.pred = pred if pred is not None else (None if until is not None else (lambda: False))
        t.wake = until
        try:
            if self.step_hook:
                self.steps += 1
                self.step_hook(self.steps, "block")
            self.reschedule(t)
        finally:
            t.pred = None
            t.wake = None
        self._check(t, True)

    def run(self):
        """Runs from the harness thread until every task is finished."""
        nxt = self._choose(None)
        if nxt is None:
            return
        nxt.sem.release()
        self.main_sem.acquire()


Task.interruptible = True
