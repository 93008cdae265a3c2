"""
Simulated processes: each with threads, an event loop, sockets and a host name
of its own; and preemption in between lines of kiel's code.
"""
import asyncio
import sys
import zlib

from . import core
from .loop import SimLoop

TOOL = 4
_armed = False


def _codes(obj, seen):
    """Every code object reachable from a function or class."""
    code = getattr(obj, "__code__", None)
    todo = [code] if code is not None else []
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo += [k for k in c.co_consts if hasattr(k, "co_code")]


def _collect(module, path):
    seen = set()

    def visit(v, depth):
        if depth > 4:
            return
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    visit(f, depth + 1)
            return
        _codes(v, seen)
        wrapped = getattr(v, "__wrapped__", None)
        if wrapped is not None:
            visit(wrapped, depth + 1)
        if isinstance(v, type):
            for x in list(vars(v).values()):
                visit(x, depth + 1)
    for v in list(vars(module).values()):
        visit(v, 0)
    return [c for c in seen if c.co_filename == path]


def _on_line(code, line):
    sim = core.CURRENT
    if sim is None or not sim.multi:
        return
    p = sim.line_p
    if not (p or sim.line_stalls) or sim.finished:
        return
    me = sim.current()
    if me.killed or me.state != "running":
        return
    if sim.line_stalls and _stall(sim, me, code) or not p:
        return
    rng = sim.preempt_rng
    if rng.random() < p:
        sim.count("line-preemptions")
        pause = 0.0
        if rng.random() < 0.5:
            pause = rng.random() ** 3 * sim.line_pause
        sim.yield_now(pause)


def _stall(sim, me, code):
    """A thread that is stopped for long in the middle of something."""
    part = code.co_filename.rsplit("/", 1)[-1]
    for f in sim.line_stalls:
        if f["process"] != me.process.name or f["part"] != part:
            continue
        f["nth"] -= 1
        if f["nth"] >= 0:
            continue
        sim.line_stalls.remove(f)
        dur = min(f["dur"], sim.stall_end - sim.now)
        if dur > 0:
            sim.fault("thread-stall")
            if f.get("hook"):
                sim.after(dur * f["when"], f["hook"], f)
            sim.yield_now(dur)
            return True
    return False


class _AnySet(type):
    def __instancecheck__(cls, x):
        return isinstance(x, set)


class ProcSet(set, metaclass=_AnySet):
    """
    A set in the order of its process: string hashes are seeded per process,
    so that equal sets are iterated over in another order in each of them.
    """
    def __iter__(self):
        items = list(set.__iter__(self))
        sim = core.CURRENT
        if sim is None or len(items) < 2 or not all(
                isinstance(x, (str, int, tuple)) for x in items):
            return iter(items)
        p = sim.current().process
        salt = "%s/%s/" % (p.name, p.pid)
        items.sort(key=lambda x: zlib.crc32((salt + repr(x)).encode("utf-8")))
        return iter(items)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError("pop from an empty set")


def _wrapped(name):
    base = getattr(set, name)

    def method(self, *args):
        res = base(self, *args)
        return ProcSet(res) if type(res) is set else res
    method.__name__ = name
    return method


for _n in ("union", "difference", "intersection", "symmetric_difference",
           "copy", "__or__", "__ror__", "__and__", "__rand__", "__sub__",
           "__rsub__", "__xor__", "__rxor__"):
    setattr(ProcSet, _n, _wrapped(_n))


def arm():
    """Has the lines of kiel's threaded parts be preemption points."""
    global _armed
    if _armed:
        return
    _armed = True
    import kiel.clients.grouped
    import kiel.clients.client
    import kiel.clients.consumer
    import kiel.clients.single
    import kiel.zookeeper.allocator
    import kiel.zookeeper.party
    import kiel.zookeeper.shared_set
    import kiel.events
    for m in (kiel.clients.grouped, kiel.clients.consumer, kiel.clients.client,
              kiel.zookeeper.allocator, kiel.zookeeper.party,
              kiel.zookeeper.shared_set):
        if not hasattr(m, "set"):
            m.set = ProcSet
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "kielsim")
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    for m in (kiel.clients.grouped, kiel.clients.consumer,
              kiel.clients.single, kiel.zookeeper.allocator,
              kiel.zookeeper.party, kiel.zookeeper.shared_set, kiel.events):
        for c in _collect(m, m.__file__):
            mon.set_local_events(TOOL, c, mon.events.LINE)


class Proc(object):
    """A process running coroutine function main(proc) on a loop."""

    def __init__(self, w, name, host, pid, main):
        self.w = w
        self.sim = w.sim
        self.name = name
        self.p = self.sim.new_process(name, host, pid)
        self.p.clock_offset = 0.0
        self.main = main
        self.loop = None
        self.done = False
        self.error = None
        self.t_start = self.sim.now
        self.t_dead = None
        self.reaped = False

    def start(self):
        self.thread = self.sim.spawn(self.name + "-main", self._run, self.p)
        return self

    @property
    def dead(self):
        return self.p.dead

    def _run(self):
        loop = self.loop = SimLoop(self.sim)
        self.w.loops.append(loop)
        asyncio.set_event_loop(loop)
        loop.set_exception_handler(self._exc)
        try:
            loop.run_until_complete(self.main(self))
        except (core.SimFatal, core.ThreadKilled):
            raise
        except BaseException as e:
            if not self.p.dead:
                self.error = e
                self.w.process_failed(self, e)
        finally:
            self.done = True

    def _exc(self, loop, ctx):
        if self.p.dead:
            return
        self.w._loop_exception(loop, ctx)

    def crash(self, how):
        """how: fin, rst or vanish (the peers learn nothing)."""
        self.halt(how)
        self.reap()

    def halt(self, how):
        """The process is over, from here on none of its threads run."""
        if self.p.dead or self.done:
            return
        self.sim.trace("crash", self.name, how)
        self.sim.fault("process-crash" if how != "vanish" else
                       "host-loss")
        self.p.dead = True
        self.t_dead = self.sim.now
        for ref in list(self.p.sockets):
            s = ref()
            if s is not None:
                s.abandon(how)

    def reap(self):
        """Disposes of the threads of a halted process."""
        if self.p.dead and not self.reaped:
            self.reaped = True
            self.sim.kill_threads(list(self.p.threads))
            self.done = True

    def sockets(self):
        return self.w.net.open_conns(self.p)
