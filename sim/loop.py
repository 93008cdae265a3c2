"""A real asyncio selector event loop over simulated time and sockets."""
import asyncio
import selectors

from . import core


class SimSelector(selectors._BaseSelectorImpl):
    def __init__(self, sim):
        super(SimSelector, self).__init__()
        self.sim = sim
        self.rng = sim.rng("poll")
        self.woken = False

    def _ready(self):
        ready = []
        fds = self.sim.net.sockets
        for fd, key in list(self._fd_to_key.items()):
            ref = fds.get(fd)
            sock = ref() if ref is not None else None
            if sock is None:
                continue
            ev = 0
            if key.events & selectors.EVENT_READ and sock.readable():
                ev |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and sock.writable():
                ev |= selectors.EVENT_WRITE
            if not ev and sock.hangup():
                ev = key.events
            if ev:
                ready.append((key, ev))
        if len(ready) > 1:
            self.rng.shuffle(ready)
        return ready

    def _any(self):
        if self.woken:
            return True
        fds = self.sim.net.sockets
        for fd, key in self._fd_to_key.items():
            ref = fds.get(fd)
            sock = ref() if ref is not None else None
            if sock is None:
                continue
            if key.events & selectors.EVENT_READ and sock.readable():
                return True
            if key.events & selectors.EVENT_WRITE and sock.writable():
                return True
            if sock.hangup():
                return True
        return False

    def select(self, timeout=None):
        sim = self.sim
        if timeout is not None and timeout <= 0:
            sim.tick()
            if sim.multi:
                sim.yield_now()
        else:
            deadline = None if timeout is None else sim.now + timeout
            sim.block(self._any, deadline)
        self.woken = False
        return self._ready()


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, sim):
        self.sim = sim
        self._simsel = SimSelector(sim)
        super(SimLoop, self).__init__(self._simsel)
        self._clock_resolution = 1e-7

    def _make_self_pipe(self):
        self._ssock = None
        self._csock = None
        self._internal_fds = 0

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        self._simsel.woken = True
        self.sim.wakeups += 1

    def time(self):
        return self.sim.now

    def close(self):
        if self.is_running():
            return
        self._closed = True
        self._ready.clear()
        self._scheduled.clear()
        self._simsel.close()
