"""
Process-wide seams, installed once before tornado, kazoo and kiel are imported.

Every replacement consults ``core.CURRENT``: with no simulation running the
original behaviour is used.
"""
import _thread
import atexit
import datetime as _dt
import os
import queue
import random
import socket
import sys
import threading
import time
import uuid

from . import core, net, simthreading

real = dict(
    time=time.time, monotonic=time.monotonic, sleep=time.sleep,
    gmtime=time.gmtime, localtime=time.localtime,
    perf_counter=time.perf_counter, time_ns=time.time_ns,
    monotonic_ns=time.monotonic_ns,
    socket=socket.socket, gethostname=socket.gethostname,
    getaddrinfo=socket.getaddrinfo, getfqdn=socket.getfqdn,
    create_connection=socket.create_connection,
    getpid=os.getpid, datetime=_dt.datetime, id=id,
    Lock=threading.Lock, RLock=threading.RLock,
    Condition=threading.Condition, Event=threading.Event,
    Thread=threading.Thread, urandom=os.urandom,
    socketpair=socket.socketpair, uuid4=uuid.uuid4,
)

installed = False


def _wall(sim):
    return sim.now + sim.current().process.clock_offset


def sim_time():
    sim = core.CURRENT
    return _wall(sim) if sim else real["time"]()


def sim_time_ns():
    sim = core.CURRENT
    return int(_wall(sim) * 1e9) if sim else real["time_ns"]()


def sim_monotonic():
    sim = core.CURRENT
    return sim.now - sim.t_start + 1000.0 if sim else real["monotonic"]()


def sim_monotonic_ns():
    return int(sim_monotonic() * 1e9) if core.CURRENT else (
        real["monotonic_ns"]())


def sim_perf_counter():
    return sim_monotonic() if core.CURRENT else real["perf_counter"]()


def sim_sleep(s):
    sim = core.CURRENT
    if sim:
        sim.sleep(s)
    else:
        real["sleep"](s)


def sim_gmtime(secs=None):
    if secs is None:
        secs = sim_time()
    return real["gmtime"](secs)


def sim_localtime(secs=None):
    if secs is None:
        secs = sim_time()
    return real["localtime"](secs)


def sim_gethostname():
    sim = core.CURRENT
    return sim.current().process.hostname if sim else real["gethostname"]()


def sim_getpid():
    sim = core.CURRENT
    return sim.current().process.pid if sim else real["getpid"]()


def sim_id(obj):
    sim = core.CURRENT
    return sim.current().process.sim_id(obj) if sim else real["id"](obj)


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real["datetime"])

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real["datetime"])


class SimDatetime(real["datetime"], metaclass=_DTMeta):
    @classmethod
    def utcnow(cls):
        if not core.CURRENT:
            return real["datetime"].utcnow()
        return _dt_epoch + _dt.timedelta(seconds=sim_time())

    @classmethod
    def now(cls, tz=None):
        if not core.CURRENT:
            return real["datetime"].now(tz)
        return real["datetime"].fromtimestamp(sim_time(), tz)

    @classmethod
    def today(cls):
        return cls.now()


_dt_epoch = real["datetime"](1970, 1, 1)


def sim_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    if not core.CURRENT:
        return real["getaddrinfo"](host, port, family, type, proto, flags)
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", (host, int(port)))]


def sim_create_connection(address, timeout=None, *a, **kw):
    if not core.CURRENT:
        return real["create_connection"](address, timeout, *a, **kw)
    s = net.SimSocket()
    s.settimeout(timeout)
    try:
        s.connect(address)
    except BaseException:
        s.close()
        raise
    return s


def sim_socketpair(*a, **kw):
    if not core.CURRENT:
        return real["socketpair"](*a, **kw)
    return net.socketpair()


def sim_select(*a, **kw):
    if not core.CURRENT:
        return real["selector_select"](*a, **kw)
    return net.select(*a, **kw)


def sim_uuid4():
    if not core.CURRENT:
        return real["uuid4"]()
    return uuid.UUID(int=core.CURRENT.rng("uuid").getrandbits(128), version=4)


class NoAtexit(object):
    """Handlers of simulated processes don't outlive the simulation."""

    @staticmethod
    def register(fn, *a, **kw):
        if not core.CURRENT:
            atexit.register(fn, *a, **kw)

    @staticmethod
    def unregister(fn):
        if not core.CURRENT:
            atexit.unregister(fn)


class OrderedSet(dict):
    """Stands in for kazoo's sets of callbacks: those are ordered by address,
    i.e. differently in every process."""

    def __init__(self, items=()):
        super().__init__((i, None) for i in items)

    def add(self, item):
        self[item] = None

    def discard(self, item):
        self.pop(item, None)


def install_kazoo():
    """After kazoo's import: names it has bound on its own."""
    from kazoo.handlers import threading as kt
    real["selector_select"] = kt.selector_select
    kt.selector_select = sim_select
    kt.atexit = NoAtexit
    from kazoo import client as kc
    kc.set = OrderedSet
    from kazoo.recipe import watchers as kw
    plain = kw.ChildrenWatch._session_watcher

    def _session_watcher(self, state):
        # kazoo's own race, not kiel's: a connection lost right between the
        # response and the note of it leaves the watch for established, and
        # the children aren't looked at ever again
        if core.CURRENT and state == kw.KazooState.CONNECTED:
            self._watch_established = False
        plain(self, state)
    kw.ChildrenWatch._session_watcher = _session_watcher
    from kazoo.handlers import utils as ku
    cloexec = ku._set_fd_cloexec
    ku._set_fd_cloexec = lambda s: None if core.CURRENT else cloexec(s)


def install():
    global installed
    if installed:
        return
    installed = True
    time.time = sim_time
    time.time_ns = sim_time_ns
    time.monotonic = sim_monotonic
    time.monotonic_ns = sim_monotonic_ns
    time.perf_counter = sim_perf_counter
    time.sleep = sim_sleep
    time.gmtime = sim_gmtime
    time.localtime = sim_localtime
    queue.time = sim_monotonic
    _dt.datetime = SimDatetime
    socket.gethostname = sim_gethostname
    socket.getfqdn = lambda *a: sim_gethostname()
    socket.getaddrinfo = sim_getaddrinfo
    socket.create_connection = sim_create_connection
    os.getpid = sim_getpid
    socket.socketpair = sim_socketpair
    uuid.uuid4 = sim_uuid4

    class SocketFactory(real["socket"]):
        def __new__(cls, *a, **kw):
            if core.CURRENT and cls is SocketFactory:
                return net.SimSocket(*a, **kw)
            return real["socket"].__new__(cls)

    class _Meta(type):
        pass

    socket.socket = SocketFactory
    simthreading.install(real)
