"""
The cluster view and bootstrapping (P14, P15; parts of P16 and P24).

Several callers refresh one real Cluster at the same time while brokers crash,
move, appear, disappear, elect leaders and drop connections.
"""
import asyncio
import random

from .. import gen
from ..world import World, Skip

BAD = ["refused", "noname", "unreachable", "accept_close", "accept_rst",
       "close_on_request", "rst_on_request", "close_mid", "garbage",
       "short_frame", "badname", "badport"]


def gen_plan(seed, profile="mix"):
    r = random.Random("cluster|%s|%s" % (profile, seed))
    c = gen.gen_cluster(r, topics=r.choice([1, 2, 3]))
    T = r.choice([2.0, 5.0])
    plan = dict(scenario="cluster", profile=profile, seed=seed, T=T,
                net=gen.gen_net(r), cluster=c, faults=[], ops=[])
    hosts = gen.bootstrap(r, c)
    if profile == "boot":
        c.pop("view_lag", None)
        bad = []
        hosts = hosts[:r.choice([0, 1, 1, 2, 3])]
        for i in range(r.choice([0, 1, 2, 3, 5])):
            kind = r.choice(BAD)
            h = "bad%d" % i
            port = r.choice([9092, 9092, 9193])
            if kind == "badname":
                h = r.choice(["bad%d..com" % i, "b" * 64 + "%d" % i])
            elif kind == "badport":
                port = r.choice([65536, 90920])
            bad.append(dict(kind=kind, host=h, port=port,
                            cut=r.choice([1, 3, 4, 6, 8, 11, 30]),
                            spell=("%s:%d" % (h, port)
                                   if port != 9092 or r.random() < 0.5
                                   else h)))
        order = [b["spell"] for b in bad] + hosts
        r.shuffle(order)
        if r.random() < 0.15 and order:
            order.append(order[0])       # the same host named twice
        plan["bad"] = bad
        hosts = order
    plan["client"] = dict(hosts=hosts)
    if profile == "boot":
        return plan
    for i in range(r.choice([1, 2, 4, 8])):
        plan["ops"].append(dict(
            a=r.randrange(3), op=r.choice(["heal"] * 5 + ["metadata", "send"]),
            gap=r.choice([0, 0, 0.002, 0.05, 0.5]),
            topics=r.choice([None, [], ["orders"], ["nope"]])))
    kinds = None
    level = r.choice([0, 1, 2, 3, 5, 8])
    for f in gen.gen_faults(r, c, T, ["metadata"], level=level, max_nth=8):
        if f["kind"] == "append_error":
            f["kind"] = "error"
        plan["faults"].append(f)
    for _ in range(r.choice([0, 0, 1, 2])):
        plan["faults"].append(dict(
            api="metadata", nth=r.randrange(8), count=r.choice([1, 2, 4]),
            kind=r.choice(["shuffle", "rna", "garbage", "error", "error"]),
            code=r.choice([3, 5, 9, 29])))
    if r.random() < 0.4:
        plan["faults"].append(dict(
            kind="add_topic", at=round(r.random() * T, 3), topic="late",
            leaders=[r.choice(c["brokers"])["id"] for _ in range(2)],
            pending=r.choice([0, 0, 0.3]), code=r.choice([5, 3])))
    if r.random() < 0.2:
        plan["faults"].append(dict(
            kind="delete_topic", at=round(r.random() * T, 3),
            topic=r.choice(sorted(c["topics"]))))
    if profile == "mix":
        gen.lone_bootstrap(r, plan, T)
    if profile == "stop":
        plan["stop_at"] = round(r.random() * r.choice([0.02, 0.2, T]), 5)
        plan["restop"] = r.random() < 0.3
    return plan


def run(plan, keep_trace=False):
    w = World(plan, keep_trace)
    return w.run(boot if plan["profile"] == "boot" else main)


class BadHost(object):
    """A bootstrap host that does not do its job."""

    def __init__(self, w, spec):
        self.w = w
        self.spec = spec

    def on_connect(self, conn):
        conn.ctx = bytearray()
        if self.spec["kind"] == "accept_close":
            conn.close()
        elif self.spec["kind"] == "accept_rst":
            conn.reset()

    def on_data(self, conn, data):
        import struct
        conn.ctx += data
        if len(conn.ctx) < 12:
            return
        kind = self.spec["kind"]
        corr = bytes(conn.ctx[8:12])
        if kind == "close_on_request":
            conn.close()
        elif kind == "rst_on_request":
            conn.reset()
        elif kind == "close_mid":
            full = struct.pack("!i", 60) + corr + b"\0" * 56
            conn.send(full[:self.spec["cut"]])
            conn.close()
        elif kind == "garbage":
            conn.send(struct.pack("!i", 12) + corr + b"\0\0\0\1\0\0\0\2")
        elif kind == "short_frame":
            conn.send(struct.pack("!i", 6) + corr + b"\0\0")

    def on_close(self, conn, how):
        conn.server_closed = True
        conn.s2c.push("fin")


def parse(h):
    host, _, port = h.partition(":")
    return (host, int(port or 9092))


def view_of(cluster):
    topics = {t: sorted(ps) for t, ps in cluster.topics.items() if ps}
    leaders = {(t, p): l for t, d in cluster.leaders.items()
               for p, l in d.items()}
    return topics, leaders


def check_truth(w, cluster, where, prop="P14"):
    k = w.kafka
    snap = k.snapshot()
    want_t = {t: sorted(ps) for t, ps in snap["topics"].items()
              if t not in snap["topic_errors"]}
    want_l = {(t, p): l for t, ps in snap["topics"].items()
              if t not in snap["topic_errors"] for p, l in ps.items()}
    topics, leaders = view_of(cluster)
    if topics != want_t:
        w.violation(prop, "topics-differ", "%s: client %r, brokers %r" % (
            where, topics, want_t))
    if leaders != want_l:
        w.violation(prop, "leaders-differ", "%s: client %r, brokers %r" % (
            where, leaders, want_l))
    want_b = {b.bid: b.addr for b in k.live()}
    got_b = {bid: (cluster.conns[bid].host, cluster.conns[bid].port)
             for bid in cluster}
    if want_b != got_b:
        w.violation(prop, "brokers-differ", "%s: client %r, brokers %r" % (
            where, got_b, want_b))
    for bid in cluster:
        if cluster.conns[bid].closing:
            w.violation(prop, "dead-connection", "%s: the connection to "
                        "broker %s is closed" % (where, bid))
    socks = sorted(s.peer for s in w.net.open_conns())
    if socks != sorted(want_b.values()):
        w.violation(prop, "sockets-differ", "%s: open %r, brokers %r" % (
            where, socks, sorted(want_b.values())))


def check_no_leak(w, cluster, where):
    """With no refresh going on each open socket belongs to one broker."""
    socks = sorted(s.peer for s in w.net.open_conns())
    mine = sorted((c.host, c.port) for c in cluster.conns.values())
    left = list(mine)
    for s in socks:
        if s in left:
            left.remove(s)
        else:
            w.violation("P14", "leaked-connection",
                        "%s: open %r, known %r" % (where, socks, mine))
            return


async def main(w):
    from kiel.cluster import Cluster
    plan = w.plan
    k = w.kafka
    cluster = Cluster(list(plan["client"]["hosts"]))
    last = {}
    busy = {"n": 0}
    # metadata requests other than those of refreshes: begun or ended
    foreign = {"n": 0}

    def on_wire(what, rec):
        if what == "end" and rec.req.name == "metadata" and rec.resp:
            if not rec.req.body["topics"]:
                last["resp"] = rec.resp
                last["seq"] = rec.seq_end
    k.wire.listeners.append(on_wire)
    w.install_faults(plan["faults"])
    stopped = {}

    def check_response(where):
        """A successful refresh leaves exactly what was reported last."""
        resp = last.get("resp")
        if resp is None:
            return
        want_t, want_l = {}, {}
        for err, name, parts in resp["topics"]:
            if err in (3, 5, 9):
                continue
            for perr, pid, leader, _, _ in parts:
                if perr == 5:
                    continue
                want_t.setdefault(name, []).append(pid)
                want_l[(name, pid)] = leader
        want_t = {t: sorted(p) for t, p in want_t.items()}
        topics, leaders = view_of(cluster)
        if topics != want_t or leaders != want_l:
            w.violation("P14", "not-what-was-reported",
                        "%s: client %r %r, reported %r %r" % (
                            where, topics, leaders, want_t, want_l))
        want_b = {b: (h, p) for b, h, p in resp["brokers"]}
        got_b = {bid: (cluster.conns[bid].host, cluster.conns[bid].port)
                 for bid in cluster}
        if want_b != got_b:
            w.violation("P14", "not-the-reported-brokers",
                        "%s: client %r, reported %r" % (where, got_b, want_b))

    async def once(label, fn, timeout=180.0):
        busy["n"] += 1
        if label == "metadata":
            foreign["n"] += 1
        f0 = foreign["n"]
        try:
            r = await w.op(label, fn, timeout=timeout, prop="P14")
        finally:
            busy["n"] -= 1
        if r.hang:
            raise Skip()
        if not stopped and busy["n"] == 0 and w.open_ops == 0:
            check_no_leak(w, cluster, "after " + label)
            if r.ok and label in ("heal", "start") and foreign["n"] == f0:
                check_response("after " + label)
        return r

    async def actor(ops):
        for op in ops:
            await w.sleep(op["gap"])
            if stopped:
                return
            if op["op"] == "heal":
                await once("heal", cluster.heal)
            elif op["op"] == "metadata":
                await once("metadata", lambda: cluster.get_metadata(
                    op["topics"]))
                foreign["n"] += 1
            else:
                foreign["n"] += 1
                from kiel.protocol import metadata
                for bid in list(cluster):
                    if bid not in cluster:
                        continue
                    await w.op("send", lambda: cluster[bid].send(
                        metadata.MetadataRequest(topics=[])),
                        allowed=(Exception,))
                foreign["n"] += 1

    async def stopper():
        await w.sleep(plan["stop_at"])
        w.sim.fault("client-stop")
        stopped["t"] = w.t
        w.sim.count("stop-while-busy", 1 if busy["n"] else 0)
        cluster.stop()
        if plan.get("restop"):
            cluster.stop()

    tasks = []
    if plan["profile"] == "stop":
        tasks.append(stopper())

    async def go():
        # a client calls start once; a failed start may be repeated
        for _ in range(6):
            if stopped:
                return
            r = await once("start", cluster.start)
            if r.ok or stopped:
                break
            await w.sleep(0.3)
        actors = {}
        for op in plan["ops"]:
            actors.setdefault(op["a"], []).append(op)
        await w.gather(*[actor(v) for _, v in sorted(actors.items())])
    tasks.append(go())
    await w.gather(*tasks)
    if stopped:
        n0 = len(k.wire.recs)
        await w.sleep(0.05)
        left = w.net.open_conns()
        if left:
            w.violation("P24", "open-after-stop", "sockets open: %s" % [
                s.peer for s in left])
        n0 = len(k.wire.recs)
        c0 = len(w.net.connect_log)
        await w.sleep(25)
        if len(k.wire.recs) != n0 or len(w.net.connect_log) != c0:
            w.violation("P24", "active-after-stop",
                        "traffic after the cluster was stopped")
        r = await w.op("heal-stopped", cluster.heal, timeout=10, prop="P24")
        if w.net.open_conns():
            w.violation("P24", "reopened-after-stop", "a heal after stop "
                        "opened connections")
        return
    rest = plan["T"] - w.t
    if rest > 0:
        await w.sleep(rest)
    w.quiesce()
    await w.sleep(0.1)
    ok = False
    for _ in range(6):
        r = await once("heal", cluster.heal)
        if r.ok:
            ok = True
            break
        await w.sleep(0.2)
    if not ok:
        w.violation("P14", "never-healed",
                    "six refreshes in a healthy cluster failed")
        w.violation("P16", "never-healed",
                    "six refreshes in a healthy cluster failed")
        return
    # connections that ended unnoticed surface on use
    await w.sleep(0.1)
    r = await once("heal", cluster.heal)
    if r.ok:
        check_truth(w, cluster, "after the last refresh")
    cluster.stop()
    await w.sleep(0.05)
    left = w.net.open_conns()
    if left:
        w.violation("P24", "open-after-stop", "sockets open: %s" % [
            s.peer for s in left])


async def boot(w):
    from kiel.cluster import Cluster
    from kiel.exc import NoBrokersError
    plan = w.plan
    k, net = w.kafka, w.net
    usable_addr = {b.addr for b in k.live()}
    untried = set()
    for b in plan["bad"]:
        addr = (b["host"], b["port"])
        w.sim.fault("bootstrap-" + b["kind"])
        if b["kind"] == "noname":
            net.resolve[b["host"]] = True
        elif b["kind"] == "unreachable":
            net.unreachable.add(addr)
        elif b["kind"] in ("badname", "badport"):
            untried.add(addr)            # no connection can be attempted
        elif b["kind"] != "refused":
            net.listen(addr, BadHost(w, b))
    hosts = plan["client"]["hosts"]
    first = None
    for i, h in enumerate(hosts):
        if parse(h) in usable_addr:
            first = i
            break
    cluster = Cluster(list(hosts))
    r = await w.op("start", cluster.start, timeout=60.0 * (len(hosts) + 1),
                   prop="P15")
    if r.hang:
        raise Skip()
    log = [a for _, a, _ in net.connect_log]
    if first is None:
        if not isinstance(r.exc, NoBrokersError):
            w.violation("P15", "wrong-outcome", "no bootstrap host is usable "
                        "but start ended with %r" % (r.exc,))
        want = [parse(h) for h in hosts]
        want = [a for a in want if a[0] not in net.resolve
                and a not in untried]
        if log != want:
            w.violation("P15", "wrong-attempts", "hosts %r, attempts %r" % (
                hosts, log))
        if w.net.open_conns():
            w.violation("P15", "socket-left", "start failed, sockets open")
        return
    if not r.ok:
        w.violation("P15", "no-bootstrap", "host %s is usable but start "
                    "failed with %r" % (hosts[first], r.exc))
        return
    want = [parse(h) for h in hosts[:first + 1]]
    want = [a for a in want if a[0] not in net.resolve
                and a not in untried]
    if log[:len(want)] != want:
        w.violation("P15", "wrong-order", "hosts %r, attempts %r" % (
            hosts, log))
    for a in log[len(want):]:
        if a not in usable_addr:
            w.violation("P15", "tried-needlessly", "host %r was tried after "
                        "%r had answered" % (a, want[-1]))
    first_md = [x for x in k.wire.recs if x.req.name == "metadata"]
    if not first_md or first_md[0].addr != want[-1]:
        w.violation("P15", "wrong-host", "the metadata came from %r" % (
            first_md[0].addr if first_md else None,))
    await w.sleep(0.05)
    check_truth(w, cluster, "after start", "P15")
    cluster.stop()
    await w.sleep(0.05)
    if w.net.open_conns():
        w.violation("P24", "open-after-stop", "sockets open after stop")
