"""Simulated versions of the threading primitives."""
import queue
import threading

from . import core

_real = {}


def _sim():
    return core.CURRENT


def _maybe_preempt(sim):
    if sim.multi and sim.preempt_p and (
            sim.preempt_rng.random() < sim.preempt_p):
        sim.yield_now()


class SimLock(object):
    def __init__(self):
        self.sim = core.CURRENT
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        sim = self.sim
        if sim.finished:
            self.owner = self.owner or True
            return True
        me = sim.current()
        _maybe_preempt(sim)
        if self.owner is None:
            self.owner = me
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else (
            sim.now + timeout)
        while self.owner is not None:
            if not sim.block(lambda: self.owner is None, deadline):
                return False
        self.owner = me
        return True

    def release(self):
        if self.owner is None:
            if self.sim.finished:
                return
            raise RuntimeError("release unlocked lock")
        self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is self.sim.current()


class SimRLock(object):
    def __init__(self):
        self.sim = core.CURRENT
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = self.sim
        me = sim.current()
        if self.owner is me or sim.finished:
            self.owner = me
            self.depth += 1
            return True
        _maybe_preempt(sim)
        if self.owner is None:
            self.owner = me
            self.depth = 1
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else (
            sim.now + timeout)
        while self.owner is not None:
            if not sim.block(lambda: self.owner is None, deadline):
                return False
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.owner is not self.sim.current():
            if self.sim.finished or self.sim.current().killed:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is self.sim.current()

    def _release_save(self):
        d = self.depth
        self.depth = 0
        self.owner = None
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self.depth = d


class SimCondition(object):
    def __init__(self, lock=None):
        self.sim = core.CURRENT
        self.lock = lock if lock is not None else SimRLock()
        self.waiters = []
        self.acquire = self.lock.acquire
        self.release = self.lock.release

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def _save(self):
        if isinstance(self.lock, SimRLock):
            return self.lock._release_save()
        self.lock.release()

    def _restore(self, d):
        if isinstance(self.lock, SimRLock):
            self.lock._acquire_restore(d)
        else:
            self.lock.acquire()

    def wait(self, timeout=None):
        sim = self.sim
        if not self.lock._is_owned() and not sim.finished:
            raise RuntimeError("cannot wait on un-acquired lock")
        token = [False]
        self.waiters.append(token)
        saved = self._save()
        ok = False
        try:
            ok = sim.block(
                lambda: token[0],
                None if timeout is None else sim.now + timeout)
        finally:
            if token in self.waiters and not token[0]:
                self.waiters.remove(token)
            if not sim.current().killed:
                self._restore(saved)
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else self.sim.now + timeout
        result = predicate()
        while not result:
            left = None
            if end is not None:
                left = end - self.sim.now
                if left <= 0:
                    break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n=1):
        for token in list(self.waiters)[:n]:
            token[0] = True
            self.waiters.remove(token)

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class SimEvent(object):
    def __init__(self):
        self.sim = core.CURRENT
        self.flag = False
        self.waiters = []

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True
        for token in self.waiters:
            token[0] = True
        self.waiters = []
        _maybe_preempt(self.sim)

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        sim = self.sim
        _maybe_preempt(sim)
        if self.flag:
            return True
        # a waiter is released by set() even if clear() follows at once
        token = [False]
        self.waiters.append(token)
        deadline = None if timeout is None else sim.now + timeout
        sim.block(lambda: token[0], deadline)
        return token[0]


class SimThreadAPI(object):
    """threading.Thread look-alike on top of core threads."""
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self.sim = core.CURRENT
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or "Thread"
        self.daemon = bool(daemon)
        self._th = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        self._th = self.sim.spawn(self.name, self.run)
        _maybe_preempt(self.sim)

    def is_alive(self):
        return self._th is not None and self._th.state != "dead"

    isAlive = is_alive

    def join(self, timeout=None):
        if self._th is None:
            raise RuntimeError("cannot join thread before it is started")
        deadline = None if timeout is None else self.sim.now + timeout
        if self._th.state == "dead":
            return
        self.sim.block(lambda: self._th.state == "dead", deadline)

    def setDaemon(self, d):
        self.daemon = d

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    @property
    def ident(self):
        return self._th.index + 1 if self._th else None


def _dispatch(name, simcls):
    realcls = _real[name]

    def make(*a, **kw):
        if core.CURRENT is not None and not core.CURRENT.finished:
            return simcls(*a, **kw)
        return realcls(*a, **kw)
    make.__name__ = name
    return make


def install(real):
    _real.update(real)
    threading.Lock = _dispatch("Lock", SimLock)
    threading.RLock = _dispatch("RLock", SimRLock)
    threading.Condition = _dispatch("Condition", SimCondition)
    threading.Event = _dispatch("Event", SimEvent)

    class ThreadMeta(type):
        def __call__(cls, *a, **kw):
            sim = core.CURRENT
            if sim is not None and not sim.finished:
                if cls is Thread:
                    return SimThreadAPI(*a, **kw)
                simcls = cls.__dict__.get("_sim_variant")
                if simcls is None:
                    ns = {k: v for k, v in cls.__dict__.items()
                          if k not in ("__dict__", "__weakref__")}
                    simcls = type(cls.__name__, (SimThreadAPI,), ns)
                    cls._sim_variant = simcls
                return simcls(*a, **kw)
            return type.__call__(cls, *a, **kw)

    Thread = ThreadMeta("Thread", (real["Thread"],), {})
    threading.Thread = Thread
