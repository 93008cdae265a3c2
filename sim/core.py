"""
The simulator: virtual time, seeded choices, event heap, baton-passing threads.

Exactly one thread of the process runs at any moment; which one, and what event
fires next, is decided here from one seed.  Nothing in this module knows about
kiel.
"""
import _thread
import hashlib
import heapq
import random
import sys

#: the simulation being run (one at a time per process), or None
CURRENT = None

EPOCH0 = 1500000000.0

_get_ident = _thread.get_ident


class ThreadKilled(BaseException):
    """Raised in a simulated thread whose process was killed."""


class SimFatal(BaseException):
    """The run cannot go on (deadlock, exhausted step budget)."""

    def __init__(self, kind, detail=""):
        BaseException.__init__(self, kind, detail)
        self.kind = kind
        self.detail = detail


class Event(object):
    __slots__ = ("t", "fn", "args", "live")

    def __init__(self, t, fn, args):
        self.t = t
        self.fn = fn
        self.args = args
        self.live = True

    def cancel(self):
        self.live = False
        self.fn = None
        self.args = None


class Process(object):
    """A simulated OS process: host name, pid, clock offset, alive or not."""

    def __init__(self, sim, name, hostname, pid):
        self.sim = sim
        self.name = name
        self.hostname = hostname
        self.pid = pid
        self.clock_offset = 0.0
        self.dead = False
        self.threads = []
        self.sockets = []
        self.id_base = 140000000000000 + pid * 1000003
        self.id_map = {}
        self.modstate = {}

    def sim_id(self, obj):
        """Deterministic stand-in for id()."""
        key = id(obj)
        if key not in self.id_map:
            # the object is kept alive so that its address is not reused
            self.id_map[key] = (self.id_base + 16 * len(self.id_map), obj)
        return self.id_map[key][0]


class SimThread(object):
    def __init__(self, sim, name, process, target=None):
        self.sim = sim
        self.name = name
        self.process = process
        self.target = target
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "new"
        self.cond = None
        self.deadline = None
        self.killed = False
        self.in_kill = False
        self.fatal = None
        self.nopreempt = 0
        self.stop_at = None
        self.line_count = 0
        self.index = len(sim.threads)
        self.resume_at = 0.0

    def ready(self, now):
        if self.process.dead and not self.killed:
            return False
        if self.state == "runnable":
            return True
        if self.state != "blocked":
            return False
        if self.killed or self.fatal:
            return True
        if self.resume_at > now:
            return False
        if self.deadline is not None and now >= self.deadline:
            return True
        return self.cond is not None and self.cond()


class Sim(object):
    def __init__(self, seed, max_steps=400000, keep_trace=False):
        self.seed = seed
        self._rngs = {}
        self.now = EPOCH0 + random.Random("t0:%s" % seed).random() * 1000
        self.t_start = self.now
        self.heap = []
        self.seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.hash = hashlib.blake2b(digest_size=12)
        self.order_hash = hashlib.blake2b(digest_size=12)
        self.keep_trace = keep_trace
        self.trace_log = []
        self.trace_len = 0
        self.violations = []
        self.fault_counts = {}
        self.counters = {}
        self.threads = []
        self.by_ident = {}
        self.processes = []
        self.multi = False
        self.switches = 0
        self.preempt_p = 0.0
        self.line_p = 0.0
        self.line_stalls = []    # see proc._stall()
        self.stall_end = 0.0
        self.line_pause = 0.02
        self.preempt_rng = self.rng("preempt")
        self.sched_rng = self.rng("sched")
        self.spin_rng = self.rng("spin")
        self.main_proc = self.new_process("main", "client-host", 4242)
        self.cur = SimThread(self, "main", self.main_proc)
        self.cur.state = "running"
        self.threads.append(self.cur)
        self.main = self.cur
        self.by_ident[_get_ident()] = self.cur
        self.finished = False
        self.wakeups = 0
        self.next_fd = 1000
        self.fds = {}

    # -- choices ----------------------------------------------------------

    def rng(self, name):
        r = self._rngs.get(name)
        if r is None:
            r = self._rngs[name] = random.Random("%s|%s" % (self.seed, name))
        return r

    # -- records ----------------------------------------------------------

    def trace(self, kind, *fields):
        self.trace_len += 1
        line = "%.6f %s %s" % (self.now - self.t_start, kind, fields)
        self.hash.update(line.encode("utf-8", "replace"))
        if self.keep_trace:
            self.trace_log.append(line)

    def order(self, *fields):
        """Feeds the measure of distinct interleavings (no times)."""
        self.order_hash.update(repr(fields).encode())

    def fault(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n

    def count(self, kind, n=1):
        self.counters[kind] = self.counters.get(kind, 0) + n

    def violation(self, prop, kind, detail):
        if len(self.violations) < 50:
            self.violations.append(
                dict(property=prop, kind=kind, detail=str(detail)[:2000],
                     t=round(self.now - self.t_start, 6)))
        self.trace("VIOLATION", prop, kind)

    # -- time -------------------------------------------------------------

    def at(self, t, fn, *args):
        ev = Event(t, fn, args)
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, ev))
        return ev

    def after(self, delay, fn, *args):
        return self.at(self.now + delay, fn, *args)

    def _run_due(self):
        heap = self.heap
        while heap and heap[0][0] <= self.now:
            _, _, ev = heapq.heappop(heap)
            if ev.live:
                fn, args = ev.fn, ev.args
                ev.live = False
                fn(*args)

    def _next_time(self):
        heap = self.heap
        while heap and not heap[0][2].live:
            heapq.heappop(heap)
        t = heap[0][0] if heap else None
        for th in self.threads:
            if th.state != "blocked" or th.process.dead:
                continue
            if th.deadline is not None and th.resume_at <= self.now:
                d = th.deadline
            elif th.resume_at > self.now:
                d = th.resume_at
            else:
                continue
            if t is None or d < t:
                t = d
        return t

    def tick(self):
        """A scheduling step by the running thread: time passes a little."""
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimFatal("livelock", "step budget exhausted")
        self.now += 1e-6 * (1 + self.spin_rng.random() * 9)
        self._run_due()

    # -- threads ----------------------------------------------------------

    def new_process(self, name, hostname, pid):
        p = Process(self, name, hostname, pid)
        self.processes.append(p)
        return p

    def current(self):
        if not self.multi:
            return self.main
        return self.by_ident.get(_get_ident(), self.main)

    def spawn(self, name, target, process=None):
        th = SimThread(self, name, process or self.current().process, target)
        self.multi = True
        self.threads.append(th)
        th.process.threads.append(th)
        th.state = "runnable"
        started = _thread.allocate_lock()
        started.acquire()

        def boot():
            self.by_ident[_get_ident()] = th
            started.release()
            th.sem.acquire()
            try:
                if not th.killed:
                    target()
            except ThreadKilled:
                pass
            except SimFatal as e:
                self.main.fatal = self.main.fatal or e
            except BaseException as e:  # a crash of a thread is a finding
                if not th.killed:
                    self.thread_failed(th, e)
            finally:
                th.state = "dead"
                self.by_ident.pop(_get_ident(), None)
                self._leave(th)

        _thread.start_new_thread(boot, ())
        started.acquire()
        self.trace("spawn", name)
        return th

    def thread_failed(self, th, e):
        self.trace("thread-exception", th.name, type(e).__name__)
        self.count("thread_exception")
        cb = getattr(self, "on_thread_exception", None)
        if cb:
            cb(th, e)

    def _pick(self):
        while True:
            now = self.now
            ready = [th for th in self.threads if th.ready(now)]
            if ready:
                if len(ready) == 1:
                    return ready[0]
                return ready[self.sched_rng.randrange(len(ready))]
            t = self._next_time()
            if t is None:
                if not self.main.fatal:
                    self.main.fatal = SimFatal("deadlock", self.describe())
                if self.main.state == "blocked":
                    return self.main
                raise self.main.fatal
            if t > self.now:
                self.now = t
            self.steps += 1
            if self.steps > self.max_steps:
                self.main.fatal = self.main.fatal or SimFatal(
                    "livelock", "step budget exhausted")
                if self.main.state in ("blocked", "runnable"):
                    return self.main
            self._run_due()

    def describe(self):
        return "; ".join(
            "%s:%s" % (t.name, t.state) for t in self.threads
            if t.state != "dead")

    def _leave(self, me):
        """The running thread ends: hand the baton on."""
        if me.in_kill:
            self.reaper.release()
            return
        try:
            nxt = self._pick()
        except SimFatal as e:
            self.main.fatal = self.main.fatal or e
            nxt = self.main
        self._resume(nxt)

    def _resume(self, nxt):
        nxt.state = "running"
        nxt.cond = None
        nxt.deadline = None
        self.cur = nxt
        nxt.sem.release()

    def block(self, cond=None, deadline=None):
        """
        Waits until cond() holds or the deadline passes.  Returns cond().
        """
        me = self.current()
        if me.killed:
            raise ThreadKilled
        if me.fatal:
            f = me.fatal
            raise f
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimFatal("livelock", "step budget exhausted")
        self.now += 1e-6 * (1 + self.spin_rng.random() * 9)
        self._run_due()
        if not self.multi:
            # fast path: one thread
            while True:
                if cond is not None and cond():
                    return True
                if deadline is not None and self.now >= deadline:
                    return False
                t = self._next_time()
                if deadline is not None and (t is None or deadline < t):
                    t = deadline
                if t is None:
                    raise SimFatal("deadlock", "nothing left to happen")
                if t > self.now:
                    self.now = t
                self.steps += 1
                if self.steps > self.max_steps:
                    raise SimFatal("livelock", "step budget exhausted")
                self._run_due()
        me.state = "blocked"
        me.cond = cond
        me.deadline = deadline
        self._swap(me)
        if cond is None:
            return False
        return cond()

    def _swap(self, me):
        nxt = self._pick()
        if nxt is me:
            me.state = "running"
            me.cond = None
            me.deadline = None
            self.cur = me
        else:
            self.switches += 1
            self.order("sw", nxt.index)
            self._resume(nxt)
            me.sem.acquire()
        if me.killed:
            raise ThreadKilled
        if me.fatal:
            raise me.fatal

    def yield_now(self, pause=0.0):
        """Lets other threads run (a preemption point)."""
        if not self.multi:
            return
        me = self.current()
        if me.killed:
            if me.in_kill:
                return
            raise ThreadKilled
        if me.state != "running":
            return
        self.tick()
        if pause:
            me.resume_at = self.now + pause
            me.state = "blocked"
            me.cond = lambda: True
            me.deadline = None
        else:
            me.state = "runnable"
        self._swap(me)

    def sleep(self, seconds):
        self.block(None, self.now + max(0.0, seconds))

    def kill_threads(self, threads):
        """Ends simulated threads, one after the other, at their wait point."""
        me = self.current()
        for th in threads:
            if th is me or th.state == "dead":
                continue
            th.killed = True
            th.in_kill = True
            self.reaper = _thread.allocate_lock()
            self.reaper.acquire()
            th.state = "running"
            th.sem.release()
            self.reaper.acquire()
        self.cur = me

    def shutdown(self):
        self.finished = True
        self.kill_threads(list(self.threads))


def install(sim):
    global CURRENT
    CURRENT = sim


def uninstall():
    global CURRENT
    CURRENT = None
