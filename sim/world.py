"""
One simulated run: simulator + network + Kafka model + event loop + client
code imported from /repo.
"""
import asyncio
import gc
import logging
import os
import random
import sys
import time
import warnings

from . import core, net, kafka, patch, zk

REPO = os.environ.get("KIEL_REPO", "/repo")


class Fatal(Exception):
    pass


class Skip(BaseException):
    """The driver ends early (a violation made going on pointless)."""


ZONES = ["EST5EDT,M3.2.0,M11.1.0", "UTC0", "IST-5:30", "<+13>-13"]

_kiel_ready = False


def load_kiel():
    """Imports kiel from the repository's working tree, seams in place."""
    global _kiel_ready
    if _kiel_ready:
        return
    # where the host is must not matter
    seed = os.environ.get("PYTHONHASHSEED", "")
    os.environ["TZ"] = ZONES[(int(seed) if seed.isdigit() else 1) % len(ZONES)]
    time.tzset()
    patch.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import tornado.ioloop  # noqa
    import tornado.iostream  # noqa
    import kazoo.client  # noqa
    patch.install_kazoo()
    import kiel
    import kiel.clients
    import kiel.connection
    import kiel.clients.consumer
    import kiel.protocol.request
    here = os.path.dirname(os.path.abspath(kiel.__file__))
    if os.path.realpath(here) != os.path.realpath(
            os.path.join(REPO, "kiel")):
        raise Fatal("kiel imported from %s" % here)
    # the consumer's name contains id(self): make it repeatable
    kiel.clients.consumer.id = patch.sim_id
    _kiel_ready = True


HANG = object()


class OpResult(object):
    def __init__(self):
        self.value = None
        self.exc = None
        self.hang = False
        self.t0 = self.t1 = None
        self.seq0 = self.seq1 = None

    @property
    def ok(self):
        return self.exc is None and not self.hang


class World(object):
    def __init__(self, plan, keep_trace=False):
        load_kiel()
        self.plan = plan
        self.sim = core.Sim(plan["seed"], plan.get("max_steps", 400000),
                            keep_trace)
        core.install(self.sim)
        self.net = net.Network(self.sim, plan.get("net"))
        self.kafka = None
        self.zk = None
        self.loops = []
        if plan.get("cluster"):
            self.kafka = kafka.Cluster(self.sim, self.net, plan["cluster"])
        if plan.get("zk"):
            self.zk = zk.Ensemble(self.sim, self.net, plan["zk"])
        self.loop = None
        self.ops = []
        self.stats = {}
        self.samples = {}
        self.open_ops = 0
        self.expect_loop_errors = False
        self.last_fault_end = 0.0

    def violation(self, prop, kind, detail):
        self.sim.violation(prop, kind, detail)

    @property
    def t(self):
        return self.sim.now - self.sim.t_start

    # -- running ----------------------------------------------------------

    def start_loop(self):
        from .loop import SimLoop
        from tornado import ioloop
        loop = SimLoop(self.sim)
        asyncio.set_event_loop(loop)
        loop.set_exception_handler(self._loop_exception)
        return loop

    def _loop_exception(self, loop, ctx):
        exc = ctx.get("exception")
        msg = ctx.get("message", "")
        if "never retrieved" in msg or "was destroyed" in msg:
            return
        if isinstance(exc, (core.SimFatal, core.ThreadKilled)):
            return
        self.callback_error(exc, msg)

    def callback_error(self, exc, msg=""):
        if isinstance(exc, (core.SimFatal, core.ThreadKilled)):
            return
        if self.sim.current().process.dead:
            return
        self.violation("*", "callback-exception:%s" % type(exc).__name__,
                       "%s %r" % (msg, exc))

    def run(self, main):
        """Runs coroutine function main(world) to completion."""
        gc_was = gc.isenabled()
        gc.disable()
        self._patch_globals()
        fatal = None
        try:
            self.loop = self.start_loop()
            try:
                self.loop.run_until_complete(main(self))
            except Skip:
                pass
            except core.SimFatal as e:
                fatal = e
                if e.kind == "deadlock":
                    self.violation("*", "hang:deadlock", "%s; pending: %s" % (
                        e.detail, self.pending_ops()))
                else:
                    self.violation("*", "hang:livelock", "%s; pending: %s" % (
                        e.detail, self.pending_ops()))
        finally:
            try:
                self.sim.shutdown()
            finally:
                self._restore_globals()
                try:
                    if self.loop:
                        self._drop_loop()
                finally:
                    core.uninstall()
                    if gc_was:
                        gc.enable()
        return self

    def _drop_loop(self):
        loop = self.loop
        from tornado.ioloop import IOLoop
        for other in self.loops:
            IOLoop._ioloop_for_asyncio.pop(other, None)
            other._ready.clear()
            other._scheduled.clear()
            other._closed = True
        IOLoop._ioloop_for_asyncio.pop(loop, None)
        loop._ready.clear()
        loop._scheduled.clear()
        asyncio.events._set_running_loop(None)
        loop.close()
        asyncio.set_event_loop(None)

    def process_failed(self, proc, e):
        import traceback
        tb = "".join(traceback.format_exception(e)[-6:])
        self.violation("*", "exception:process:%s" % type(e).__name__,
                       "%s: %s" % (proc.name, tb))

    def pending_ops(self):
        return [o.label for o in self.ops if o.t1 is None][:10]

    def _patch_globals(self):
        import kiel.protocol.request as rq
        self._saved_random = random.getstate()
        random.seed("%s|client" % self.plan["seed"])
        self._saved_last = getattr(rq, "last_id", None)
        start = self.plan.get("corr_start")
        if self._saved_last is not None:
            rq.last_id = start if start is not None else 1000

        from tornado import log as tlog

        world = self

        class H(logging.Handler):
            def emit(self, record):
                if record.exc_info and record.exc_info[1] is not None:
                    world.callback_error(record.exc_info[1], record.msg)
        self._handler = H()
        # exceptions in tornado callbacks are reported through this logger
        tlog.app_log.error = self._app_error
        self._applog = tlog.app_log

    def _app_error(self, msg, *args, **kw):
        exc = kw.get("exc_info")
        if exc is True:
            exc = sys.exc_info()
        if exc and exc[1] is not None:
            self.callback_error(exc[1], "%s" % msg)

    def _restore_globals(self):
        import kiel.protocol.request as rq
        random.setstate(self._saved_random)
        if self._saved_last is not None:
            rq.last_id = self._saved_last
        try:
            del self._applog.error
        except AttributeError:
            pass

    # -- operations -------------------------------------------------------

    async def op(self, label, fn, timeout=180.0, allowed=(), prop="*"):
        """
        Awaits fn(); judges how it ended.  allowed: exception types that are
        documented outcomes.
        """
        from kiel import exc as kexc
        r = OpResult()
        r.label = label
        r.t0 = self.sim.now
        r.seq0 = self.kafka.wire.next_seq() if self.kafka else 0
        self.ops.append(r)
        self.sim.trace("op", label)
        self.open_ops += 1
        try:
            try:
                aw = fn()
                if aw is None or not hasattr(aw, "__await__"):
                    r.value = aw
                else:
                    fut = asyncio.ensure_future(aw)
                    done, _ = await asyncio.wait([fut], timeout=timeout)
                    if not done:
                        r.hang = True
                        self.violation(
                            prop, "hang:%s" % label.split(":")[0],
                            "%s not finished after %.0f simulated seconds"
                            % (label, timeout))
                    else:
                        r.value = fut.result()
            except core.SimFatal:
                raise
            except asyncio.CancelledError:
                raise
            except Exception as e:
                r.exc = e
                if not isinstance(e, tuple(allowed) or (kexc.KielError,)):
                    import traceback
                    tb = traceback.format_exc().splitlines()[-7:]
                    self.violation(
                        prop, "exception:%s:%s" % (
                            label.split(":")[0], type(e).__name__),
                        "%s raised %r\n%s" % (label, e, "\n".join(tb)))
        finally:
            self.open_ops -= 1
        r.t1 = self.sim.now
        r.seq1 = self.kafka.wire.next_seq() if self.kafka else 0
        self.sim.trace("op-end", label, type(r.exc).__name__
                       if r.exc else "ok")
        self.sim.order("op", label.split(":")[0], r.exc is None)
        return r

    async def sleep(self, s):
        await asyncio.sleep(s)

    async def gather(self, *coros):
        tasks = [asyncio.ensure_future(c) for c in coros]
        for t in tasks:
            await asyncio.wait([t])
        for t in tasks:
            if not t.cancelled() and t.exception() is not None:
                raise t.exception()

    # -- faults -----------------------------------------------------------

    def install_faults(self, faults):
        k = self.kafka
        on = [f for f in faults if "on" in f]
        if on:
            self._install_triggers(on)
        for f in faults:
            if "on" in f:
                continue
            if "at" not in f:
                k.faults.append(f)
                continue
            self.sim.at(self.sim.t_start + f["at"], self._timed, f)

    def _install_triggers(self, faults):
        """Faults that start with the n-th request, or answer, of a kind."""
        counts = {}

        def listener(what, rec):
            n = counts.get((rec.api, what), 0)
            counts[(rec.api, what)] = n + 1
            for f in faults:
                if f["on"] == [rec.api, what, n]:
                    self.sim.count("triggered-faults")
                    self.sim.after(f.get("after", 0.0), self._timed, f)
        self.kafka.wire.listeners.append(listener)

    def _timed(self, f):
        k, sim, n = self.kafka, self.sim, self.net
        kind = f["kind"]
        if getattr(self, "quiesced", False):
            return
        if kind == "crash":
            k.crash(f["broker"], f.get("elect", True), f.get("window", 0.0))
            if f.get("down") is not None:
                sim.after(f["down"], self._guard, k.restart, f["broker"],
                          f.get("port"))
        elif kind == "migrate":
            t, p = f["topic"], f["pid"]
            if t in k.topics and p in k.topics[t]:
                live = [b.bid for b in k.live()]
                if not live:
                    return
                to = f["to"] if f["to"] in live else live[0]
                sim.fault("leader-migration")
                w = f.get("window", 0.0)
                if w:
                    k.set_leader(t, p, -1)
                    sim.after(w, self._guard, k.set_leader, t, p, to)
                else:
                    k.set_leader(t, p, to)
        elif kind == "reset":
            b = k.brokers.get(f["broker"])
            if b:
                for c in list(b.conns):
                    sim.fault("connection-reset")
                    if f.get("how") == "fin":
                        c.close()
                    else:
                        c.reset()
                    b.conns.remove(c)
        elif kind == "partition":
            b = k.brokers.get(f["broker"])
            if b:
                sim.fault("network-partition")
                addr = b.addr
                n.block(addr)

                def heal():
                    if getattr(self, "quiesced", False):
                        return        # healed already
                    if f.get("then") == "rst":
                        for c in list(n.conns.values()):
                            if c.addr == addr and not c.client_closed:
                                c.reset(immediate=True)
                    n.unblock(addr)
                sim.after(f["dur"], heal)
        elif kind == "slow":
            b = k.brokers.get(f["broker"])
            if b:
                sim.fault("slow-broker")
                b.slow = f["delay"]
                sim.after(f["dur"], setattr, b, "slow", 0.0)
        elif kind == "add_broker":
            if f["broker"] not in k.brokers:
                sim.fault("broker-added")
                b = kafka.Broker(k, f["broker"], f["host"], f["port"])
                k.brokers[f["broker"]] = b
                b.start()
                k.changed()
        elif kind == "remove_broker":
            b = k.brokers.get(f["broker"])
            if b and b.up and len(k.live()) > 1:
                sim.fault("broker-removed")
                b.removed = True
                live = [x for x in k.live() if x is not b]
                for name, parts in sorted(k.topics.items()):
                    for pid, p in sorted(parts.items()):
                        if p.leader == b.bid:
                            p.leader = live[k.rng.randrange(len(live))].bid
                if f.get("stays_open"):
                    del k.brokers[b.bid]
                    k.changed()
                    k.brokers_zombie = getattr(k, "brokers_zombie", [])
                    k.brokers_zombie.append(b)
                else:
                    b.stop(reset=f.get("how") != "fin")
                    del k.brokers[b.bid]
                    k.changed()
                k.move_coordinators()
        elif kind == "readdress":
            b = k.brokers.get(f["broker"])
            if b and b.up:
                sim.fault("broker-address-change")
                b.stop(reset=f.get("how") != "fin")
                b.port = f["port"]
                b.host = f.get("host", b.host)
                b.start()
                k.changed()
        elif kind == "add_topic":
            if f["topic"] not in k.topics:
                sim.fault("topic-created")
                leaders = f["leaders"]
                k.add_topic(f["topic"], leaders)
                if f.get("pending"):
                    k.pending_topics[f["topic"]] = f.get("code", 5)
                    sim.after(f["pending"], self._guard, self._unpend,
                              f["topic"])
                k.changed()
                k.elect_orphans()
        elif kind == "delete_topic":
            if k.topics.pop(f["topic"], None) is not None:
                sim.fault("topic-deleted")
                k.changed()
        elif kind == "add_partition":
            parts = k.topics.get(f["topic"])
            if parts is not None:
                sim.fault("partition-added")
                pid = max(parts) + 1
                live = k.live()
                if live:
                    parts[pid] = kafka.Partition(
                        k, f["topic"], pid,
                        live[k.rng.randrange(len(live))].bid)
                    k.changed()
        elif kind == "expire":
            p = k.topics.get(f["topic"], {}).get(f["pid"])
            if p:
                sim.fault("retention")
                p.expire(p.start + f["n"])
        elif kind == "truncate":
            p = k.topics.get(f["topic"], {}).get(f["pid"])
            if p:
                sim.fault("log-truncation")
                p.truncate(p.end - f["n"])
        elif kind == "move_coordinator":
            live = [b.bid for b in k.live()]
            if live:
                for g in sorted(k.coordinators):
                    sim.fault("coordinator-move")
                    k.coordinators[g] = (f["to"] if f["to"] in live
                                         else live[0])
                    if f.get("loading"):
                        k.coord_loading[g] = sim.now + f["loading"]
        elif kind == "outage":
            for b in list(k.live()):
                k.crash(b.bid, elect=False)
            sim.fault("total-outage")
            sim.after(f["dur"], self._outage_over, f)
        elif kind == "clock_jump":
            sim.fault("clock-jump")
            self.sim.main_proc.clock_offset += f["by"]
        elif kind == "view_lag":
            k.view_lag = f["lag"]
        elif kind == "call":
            getattr(self, "fault_" + f["name"])(f)
        else:
            raise Fatal("unknown fault kind %s" % kind)

    def _unpend(self, topic):
        self.kafka.pending_topics.pop(topic, None)
        self.kafka.changed()

    def _outage_over(self, f):
        if getattr(self, "quiesced", False):
            return
        k = self.kafka
        for bid in sorted(k.brokers):
            b = k.brokers[bid]
            if not b.up:
                if f.get("shift_ports"):
                    b.port += f["shift_ports"]
                k.restart(bid)

    def _guard(self, fn, *args):
        if not getattr(self, "quiesced", False):
            fn(*args)

    def quiesce(self):
        self.quiesced = True
        self.sim.trace("quiesce")
        self.kafka.quiesce()
        self.ensure_bootstrap()

    def ensure_bootstrap(self):
        """Recovery presupposes a usable bootstrap host: provide one."""
        hosts = self.plan.get("client", {}).get("hosts") or []
        addrs = []
        for h in hosts:
            host, _, port = h.partition(":")
            addrs.append((host, int(port or 9092)))
        k = self.kafka
        if not addrs or any(b.addr in addrs for b in k.live()):
            return
        if self.plan.get("lone"):
            # a broker the client was told about will do as well: the latest
            # metadata it acted upon is in one of the last two answers
            told = [set((h, p) for _, h, p in x.resp["brokers"])
                    for x in k.wire.recs if x.api == 3 and x.resp]
            alive = set(b.addr for b in k.live())
            if len(told) > 1 and told[-1] & alive and told[-2] & alive:
                self.sim.fault("no-bootstrap-host-left")
                return
        if addrs[0] in self.net.listeners:
            return
        k.brokers[900] = kafka.Broker(k, 900, *addrs[0])
        k.brokers[900].start()
        k.changed()
