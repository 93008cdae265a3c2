"""
Connections used directly, many requests in flight (P06-P08).

Requests of every kind the clients send are generated with arbitrary content,
pipelined by several callers over one or two connections to brokers that
answer in or out of order, and judged against codecs written independently:
what arrives at the broker, what each future is resolved with, and what
happens to requests whose connection goes away.
"""
import asyncio
import random

from .. import codec, gen
from ..world import World, Skip

KINDS = ["metadata", "produce", "fetch", "offset", "offset_commit",
         "offset_fetch", "group_coordinator"]
TEXTS = ["", "a", "orders", "audit.log", "gr\u00fcppe", "\u6f22\u5b57",
         "x" * 300, "with space", "\U0001f600", "t-1"]


def gen_bytes(r):
    """A byte string, as {"h": hex} / {"t": text} / {"n": size} / None."""
    k = r.random()
    if k < 0.12:
        return None
    if k < 0.2:
        return {"t": ""}
    if k < 0.5:
        return {"t": r.choice(TEXTS)}
    if k < 0.75:
        return {"h": bytes(r.randrange(256) for _ in range(
            r.choice([1, 2, 5, 30]))).hex()}
    if k < 0.93:
        return {"n": r.choice([1, 13, 14, 100, 1000]), "c": r.randrange(256)}
    return {"n": r.choice([4096, 32767, 32768, 32769, 70000]),
            "c": r.randrange(256)}


def mk(d):
    if d is None:
        return None
    if "t" in d:
        return d["t"]
    if "h" in d:
        return bytes.fromhex(d["h"])
    n, c = d["n"], d["c"]
    # hardly compressible, cheap to make
    out = random.Random(n * 1000 + c).randbytes(n)
    return out


def raw(v):
    return v.encode("utf-8") if isinstance(v, str) else v


def gen_op(r, topics, profile):
    kind = r.choice(KINDS if profile != "codec" else
                    ["produce", "produce", "fetch", "fetch", "fetch"] + KINDS)
    op = dict(kind=kind)
    names = sorted(topics)

    def pids(t):
        n = len(topics.get(t, [0, 0]))
        ids = list(range(n)) + [7]
        return sorted(r.sample(ids, r.randrange(0, min(4, len(ids)) + 1)))
    if kind == "metadata":
        op["topics"] = r.sample(names + TEXTS[:6],
                                r.choice([0, 0, 1, 2, 3]))
    elif kind == "group_coordinator":
        op["group"] = r.choice(TEXTS)
    else:
        ts = r.sample(names + [r.choice(TEXTS)], r.choice([0, 1, 1, 2]))
        ts = list(dict.fromkeys(ts))
        op["topics"] = []
        if kind in ("offset_commit", "offset_fetch"):
            op["group"] = r.choice(TEXTS)
        if kind == "produce":
            op["acks"] = r.choice([1, -1, 2])
            op["timeout"] = r.choice([0, 500, 2 ** 31 - 1])
        if kind == "fetch":
            op["wait_ms"] = r.choice([0, 0, 10, 200])
            op["min_bytes"] = r.choice([0, 1, 1000])
        for t in ts:
            parts = []
            for p in pids(t):
                if kind == "produce":
                    n = r.choice([1, 1, 2, 5, 20])
                    msgs = [[gen_bytes(r), gen_bytes(r)] for _ in range(n)]
                    comp = r.choice([None, None, 1, 2])
                    if comp == 2 and r.random() < 0.3:
                        # about as long as the blocks being compressed
                        n = sum(26 + len(raw(mk(x)) or b"")
                                for m in msgs for x in m) - 26 * len(msgs)
                        n = 32768 - (n + 26) % 32768 + r.choice(
                            [-1, 0, 0, 1, 1, 2, 3])
                        msgs.append([None, {"n": n + 32768 * r.choice(
                            [0, 0, 1]), "c": r.randrange(256)}])
                    parts.append([p, comp, msgs])
                elif kind == "fetch":
                    parts.append([p, r.choice([0, 0, 1, 3, 10, 2 ** 40]),
                                  r.choice([0, 30, 100, 1000, 40000,
                                            1 << 20])])
                elif kind == "offset":
                    parts.append([p, r.choice([-1, -2, 1500000000,
                                               2 ** 62]),
                                  r.choice([1, 2, 10])])
                elif kind == "offset_commit":
                    parts.append([p, r.choice([0, 5, 2 ** 33]),
                                  r.choice(TEXTS + [None])])
                else:
                    parts.append(p)
            op["topics"].append([t, parts])
    return op


def gen_plan(seed, profile="mix"):
    r = random.Random("conn|%s|%s" % (profile, seed))
    nb = r.choice([1, 1, 2])
    brokers = [dict(id=i + 1, host="kafka%d" % i, port=9092)
               for i in range(nb)]
    topics = {}
    for t in ["orders", "gr\u00fcppe"][:r.choice([1, 2])]:
        topics[t] = [r.randrange(nb) + 1 for _ in range(r.choice([1, 3]))]
    c = dict(brokers=brokers, topics=topics,
             out_of_order=r.random() < (0.7 if profile != "codec" else 0.3),
             proc_delay=r.choice([0.0001, 0.005, 0.05]),
             absent_mode=r.choice(["error3", "ok"]),
             meta_max=r.choice([10, 4096]))
    pre = []
    for t in sorted(topics):
        for pid in range(len(topics[t])):
            for _ in range(r.choice([0, 1, 2, 4])):
                n = r.choice([1, 1, 2, 6])
                pre.append(dict(t=t, p=pid, codec=r.choice([0, 0, 1, 2]),
                                block=r.choice([64, 1000, 32768]),
                                msgs=[[gen_bytes(r), gen_bytes(r)]
                                      for _ in range(n)],
                                gap=r.choice([0, 0, 0, 2])))
    huge = r.random() < (0.06 if profile == "codec" else 0.02)
    if huge:
        # beyond any buffer on the way
        for _ in range(r.choice([1, 2])):
            pre.append(dict(t=sorted(topics)[0], p=0, gap=0,
                            codec=r.choice([0, 0, 1, 2]), block=32768,
                            msgs=[[gen_bytes(r), gen_bytes(r)],
                                  [None, {"n": r.choice([
                                      200000, 1100000, 2500000]),
                                      "c": r.randrange(256)}],
                                  [gen_bytes(r), gen_bytes(r)]]))
    n_actors = r.choice([1, 2, 4])
    ops = []
    for _ in range(r.choice([3, 8, 20, 40])):
        op = gen_op(r, topics, profile)
        if huge and op["kind"] == "fetch" and r.random() < 0.7:
            op["topics"] = [[sorted(topics)[0], [
                [0, r.choice([0, 0, 1, 3]), 1 << 23]]]]
        elif huge and op["kind"] == "produce" and op["topics"] and (
                op["topics"][0][1]) and r.random() < 0.5:
            op["topics"][0][1][0][2].append([None, {
                "n": r.choice([200000, 1100000]), "c": r.randrange(256)}])
        op["a"] = r.randrange(n_actors)
        op["c"] = r.randrange(nb)
        op["await"] = r.random() < 0.35
        op["gap"] = r.choice([0, 0, 0, 0.0005, 0.004, 0.03])
        ops.append(op)
    flood = profile != "codec" and r.random() < 0.05
    if flood:
        # far more outstanding requests than any client would have
        light = [op for op in ops if op["kind"] in (
            "metadata", "offset", "group_coordinator")] or [
                dict(kind="metadata", topics=[], a=0, c=0)]
        extra = []
        for _ in range(r.choice([150, 300, 600])):
            op = dict(r.choice(light))
            op.update(gap=0, **{"await": False})
            op["c"] = r.randrange(nb)
            extra.append(op)
        at = r.randrange(len(ops) + 1)
        ops[at:at] = extra
        c["proc_delay"] = r.choice([0.0001, 0.002])
    plan = dict(scenario="conn", profile=profile, seed=seed,
                net=gen.gen_net(r), cluster=c, preload=pre, ops=ops,
                faults=[])
    if profile == "codec" and r.random() < 0.6:
        plan["net"]["seg"] = "tiny"
    if r.random() < 0.3:
        plan["corr_start"] = r.choice([
            2 ** 31 - 1 - r.randrange(30), 2 ** 32 - r.randrange(30),
            0, 2 ** 16 - 3])
    if profile in ("drop", "mix"):
        lo = 1 if profile == "drop" else 0
        for _ in range(r.randrange(lo, 4 if profile == "drop" else 2)):
            kind = r.choice(["drop_before", "drop_after", "drop_mid",
                             "drop_mid", "garbage", "stray",
                             "reply_then_close", "slow", "timed", "timed",
                             "client_close", "client_close", "partition"])
            if kind == "timed":
                plan["faults"].append(dict(
                    kind="reset", at=round(r.random() * 0.1, 5),
                    broker=r.choice(brokers)["id"],
                    how=r.choice(["rst", "fin"])))
            elif kind == "partition":
                plan["faults"].append(dict(
                    kind="partition", at=round(r.random() * 0.1, 5),
                    broker=r.choice(brokers)["id"],
                    dur=r.choice([0.05, 0.5]),
                    then=r.choice(["heal", "rst"])))
            elif kind == "client_close":
                plan["faults"].append(dict(
                    kind="call", name="client_close",
                    at=round(r.random() * 0.08, 5), c=r.randrange(nb),
                    how=r.choice(["close", "close", "abort"])))
            else:
                plan["faults"].append(dict(
                    kind=kind, api="any", nth=r.randrange(0, 25), count=1,
                    cut=r.choice([1, 3, 4, 5, 7, 8, 9, 12, 20, 60]),
                    how=r.choice(["rst", "fin"]), delay=0.3))
    return plan


# -- building kiel's requests ----------------------------------------------

def build(op):
    """(kiel request, expected parsed body)"""
    from kiel.protocol import (
        metadata, produce, fetch, offset, offset_commit, offset_fetch,
        coordinator, messages)
    k = op["kind"]
    if k == "metadata":
        return (metadata.MetadataRequest(topics=list(op["topics"])),
                dict(topics=list(op["topics"])))
    if k == "group_coordinator":
        return (coordinator.GroupCoordinatorRequest(group=op["group"]),
                dict(group=op["group"]))
    ts, body = [], []
    mod = dict(produce=produce, fetch=fetch, offset=offset,
               offset_commit=offset_commit, offset_fetch=offset_fetch)[k]
    for name, parts in op["topics"]:
        ps, eb = [], []
        for p in parts:
            if k == "produce":
                pid, comp, msgs = p
                ms = [messages.Message(magic=0, attributes=0, key=mk(a),
                                       value=mk(b)) for a, b in msgs]
                ps.append(produce.PartitionRequest(
                    partition_id=pid,
                    message_set=messages.MessageSet.compressed(comp, ms)))
                eb.append((pid, [(raw(mk(a)), raw(mk(b)), comp or 0)
                                 for a, b in msgs]))
            elif k == "fetch":
                ps.append(fetch.PartitionRequest(
                    partition_id=p[0], offset=p[1], max_bytes=p[2]))
                eb.append(tuple(p))
            elif k == "offset":
                ps.append(offset.PartitionRequest(
                    partition_id=p[0], time=p[1], max_offsets=p[2]))
                eb.append(tuple(p))
            elif k == "offset_commit":
                ps.append(offset_commit.PartitionRequest(
                    partition_id=p[0], offset=p[1], metadata=p[2]))
                eb.append(tuple(p))
            else:
                ps.append(p)
                eb.append(p)
        ts.append(mod.TopicRequest(name=name, partitions=ps))
        body.append((name, eb))
    if k == "produce":
        return (produce.ProduceRequest(
            required_acks=op["acks"], timeout=op["timeout"], topics=ts),
            dict(acks=op["acks"], timeout=op["timeout"], topics=body))
    if k == "fetch":
        return (fetch.FetchRequest(
            replica_id=-1, max_wait_time=op["wait_ms"],
            min_bytes=op["min_bytes"], topics=ts),
            dict(replica=-1, wait=op["wait_ms"], min_bytes=op["min_bytes"],
                 topics=body))
    if k == "offset":
        return (offset.OffsetRequest(replica_id=-1, topics=ts),
                dict(replica=-1, topics=body))
    if k == "offset_commit":
        return (offset_commit.OffsetCommitV0Request(
            group=op["group"], topics=ts),
            dict(group=op["group"], topics=body))
    return (offset_fetch.OffsetFetchRequest(
        group_name=op["group"], topics=ts),
        dict(group=op["group"], topics=body))


def wire_body(req):
    """A parsed request in the form of build()'s second result."""
    if req.name != "produce":
        return req.body
    d = dict(req.body)
    d["topics"] = [(t, [(pid, [(k, v, c) for _, k, v, c in msgs])
                        for pid, msgs, _ in parts])
                   for t, parts in req.body["topics"]]
    return d


# -- what kiel decoded ------------------------------------------------------

def decoded(resp):
    api = resp.api
    if api == "metadata":
        return dict(
            brokers=[(b.broker_id, b.host, b.port) for b in resp.brokers],
            topics=[(t.error_code, t.name, [
                (p.error_code, p.partition_id, p.leader, list(p.replicas),
                 list(p.isrs)) for p in t.partitions])
                for t in resp.topics])
    if api == "group_coordinator":
        return (resp.error_code, resp.coordinator_id, resp.coordinator_host,
                resp.coordinator_port)
    f = {
        "produce": lambda p: (p.partition_id, p.error_code, p.offset),
        "offset": lambda p: (p.partition_id, p.error_code, list(p.offsets)),
        "offset_commit": lambda p: (p.partition_id, p.error_code),
        "offset_fetch": lambda p: (p.partition_id, p.offset, p.metadata,
                                   p.error_code),
        "fetch": lambda p: (
            p.partition_id, p.error_code, p.highwater_mark_offset,
            [(o, raw(m.key), raw(m.value))
             for o, m in p.message_set.messages]),
    }[api]
    return [(t.name, [f(p) for p in t.partitions]) for t in resp.topics]


def fetched(data):
    """Complete messages of a fetched set, by the independent codec."""
    out = []
    r = codec.Reader(data)
    while r.end - r.pos >= 12:
        off = r.i64()
        size = r.i32()
        if r.pos + size > r.end:
            break
        entry = data[r.pos - 12:r.pos + size]
        r.pos += size
        out.extend((o, k, v) for o, k, v, _ in codec.dec_message_set(
            codec.Reader(entry), len(entry)))
    return out


def expected(rec):
    if rec.req.name == "fetch":
        return [(t, [(pid, err, hw, fetched(data))
                     for pid, err, hw, data in parts])
                for t, parts in rec.resp]
    return rec.resp


API_OF = {"metadata": "metadata", "produce": "produce", "fetch": "fetch",
          "offset": "offsets", "offset_commit": "offset_commit",
          "offset_fetch": "offset_fetch",
          "group_coordinator": "coordinator"}


def run(plan, keep_trace=False):
    w = World(plan, keep_trace)
    return w.run(main)


class Sent(object):
    pass


async def main(w):
    from kiel.connection import Connection
    from kiel.exc import BrokerConnectionError
    from tornado.iostream import StreamClosedError
    plan = w.plan
    k = w.kafka
    for p in plan["preload"]:
        part = k.topics[p["t"]][p["p"]]
        msgs = [(raw(mk(a)), raw(mk(b))) for a, b in p["msgs"]]
        if p["gap"] and msgs:
            msgs[0] = msgs[0] + (p["gap"],)
        part.append(msgs, p["codec"], block=p["block"])

    garbled = set()
    conns = []
    sent = []
    by_corr = {}
    wire = {}

    def on_wire(what, rec):
        if what != "request":
            return
        key = (rec.cid, rec.corr)
        s = by_corr.get(rec.corr)
        if s is None:
            w.violation("P06", "unknown-request", "a request with "
                        "correlation id %d was never sent" % rec.corr)
            return
        if s.rec is not None:
            w.violation("P07", "sent-twice",
                        "request %d appears twice" % rec.corr)
        s.rec = rec
        wire[key] = s
        if not isinstance(rec.req.client_id, str):
            w.violation("P06", "client-id", repr(rec.req.client_id))
        if rec.req.name != API_OF[s.op["kind"]]:
            w.violation("P06", "wrong-api", "%s sent as %s" % (
                s.op["kind"], rec.req.name))
            return
        got = wire_body(rec.req)
        if got != s.body:
            w.violation("P06", "request-differs", "%s: sent %r, meant %r" % (
                s.op["kind"], got, s.body))
    k.wire.listeners.append(on_wire)

    for b in plan["cluster"]["brokers"]:
        conns.append(Connection(b["host"], b["port"]))

    class Track(object):
        closed_by_us = None
    tracks = [Track() for _ in conns]

    def client_close(f):
        c = conns[f["c"]]
        if c.stream is None or tracks[f["c"]].closed_by_us is not None:
            return
        if not w.connected[f["c"]]:
            return
        w.sim.fault("client-" + f["how"])
        out = [s for s in sent if s.ci == f["c"] and not s.fut.done()]
        w.sim.count("outstanding-at-close", len(out))

        def act():
            tracks[f["c"]].closed_by_us = w.t
            if f["how"] == "close":
                c.close()
            else:
                c.abort()
            left = [s for s in sent if s.ci == f["c"] and not s.fut.done()]
            if left:
                w.violation("P08", "unresolved-after-close",
                            "%d requests still pending after the client "
                            "closed the connection" % len(left))
        w.loop.call_soon(act)
    w.fault_client_close = client_close
    w.connected = [False] * len(conns)

    for i, c in enumerate(conns):
        r = await w.op("connect", c.connect, allowed=(Exception,))
        w.connected[i] = r.ok
    w.install_faults(plan["faults"])

    def judge_resolution(s):
        f = s.fut
        s.t_done = w.t
        if f.cancelled():
            w.violation("P08", "cancelled", s.op["kind"])
            return
        e = f.exception()
        if e is not None:
            s.failed = True
            return
        resp = f.result()
        rec = s.rec
        if rec is None or rec.raw_resp is None:
            w.violation("P07", "unanswered-resolved",
                        "%s resolved although no response to it was read"
                        % s.op["kind"])
            return
        if resp.api != s.op["kind"]:
            w.violation("P07", "wrong-kind", "%s resolved with a %s response"
                        % (s.op["kind"], resp.api))
            return
        if resp.correlation_id != s.msg.correlation_id:
            w.violation("P07", "wrong-correlation", "%d got %d" % (
                s.msg.correlation_id, resp.correlation_id))
        if rec.resp is None:
            return
        want, got = expected(rec), decoded(resp)
        if want != got:
            # is it some other request's answer?
            other = [x for x in sent if x is not s and x.rec is not None and
                     x.rec.resp is not None and
                     x.op["kind"] == s.op["kind"] and expected(x.rec) == got]
            w.violation("P07" if other else "P06",
                        "response-differs:%s" % s.op["kind"],
                        "decoded %r, broker sent %r" % (got, want))

    async def actor(ops):
        for op in ops:
            if op["gap"]:
                await w.sleep(op["gap"])
            ci = op["c"]
            c = conns[ci]
            if not w.connected[ci]:
                continue
            s = Sent()
            s.op, s.ci, s.rec, s.failed, s.t_done = op, ci, None, False, None
            s.msg, s.body = build(op)
            s.t0 = w.t
            cid = s.msg.correlation_id
            if not isinstance(cid, int) or not -2 ** 31 <= cid < 2 ** 31:
                w.violation("P07", "unencodable-id", "%r" % cid)
                raise Skip()
            live = [x for x in sent if x.msg.correlation_id == cid and
                    not x.fut.done() and x.ci == ci]
            if live:
                w.violation("P07", "duplicate-id",
                            "correlation id %d is outstanding" % cid)
            by_corr[cid] = s
            was_closing = c.closing
            s.fut = c.send(s.msg)
            sent.append(s)
            s.fut.add_done_callback(lambda f, s=s: judge_resolution(s))
            if was_closing and not s.fut.done():
                w.violation("P08", "send-on-closed",
                            "a request on a closed connection did not fail "
                            "at once")
            w.sim.count("sends")
            if op["await"]:
                r = await w.op("send", lambda: wait(s.fut), timeout=60,
                               allowed=(Exception,), prop="P08")
                if r.hang:
                    raise Skip()

    async def wait(fut):
        return await fut

    actors = {}
    for op in plan["ops"]:
        actors.setdefault(op["a"], []).append(op)
    await w.gather(*[actor(v) for _, v in sorted(actors.items())])
    # everything answers within the network's and the brokers' delays
    await w.sleep(30)
    for s in sent:
        if not s.fut.done():
            w.violation("P08", "unresolved",
                        "%s sent at %.4f is still pending" % (
                            s.op["kind"], s.t0))
        dead = s.rec.t_dead if s.rec is not None else None
        if dead is not None and s.t_done is not None:
            late = s.t_done - (dead - w.sim.t_start)
            if late > 0.5:
                w.violation("P08", "late-failure",
                            "%s failed %.3fs after its connection" % (
                                s.op["kind"], late))
        if s.failed:
            w.sim.count("failed-requests")
            e = s.fut.exception()
            clean = not [f for f in plan["faults"] if f["kind"] in (
                "garbage", "stray", "bad_size")]
            if clean and not isinstance(
                    e, (BrokerConnectionError, StreamClosedError)):
                w.violation("P08", "error-kind", "%s failed with %r" % (
                    s.op["kind"], e))
        else:
            w.sim.count("answered-requests")
    if not plan["faults"]:
        bad = [s for s in sent if s.failed]
        if bad:
            w.violation("P07", "failed-without-fault",
                        "%s failed with %r" % (bad[0].op["kind"],
                                               bad[0].fut.exception()))
    # a connection that went away fails later requests at once
    from kiel.protocol import metadata
    for i, c in enumerate(conns):
        if not w.connected[i]:
            continue
        gone = [s for s in sent if s.ci == i and s.rec is not None and
                s.rec.t_dead is not None]
        msg = metadata.MetadataRequest(topics=[])
        s = Sent()
        s.op, s.ci, s.rec, s.failed = dict(kind="metadata"), i, None, False
        s.msg, s.body = msg, dict(topics=[])
        by_corr[msg.correlation_id] = s
        if gone:
            s.fut = c.send(msg)
            sent.append(s)
            r = await w.op("send-dead", lambda: wait(s.fut), timeout=1,
                           allowed=(Exception,), prop="P08")
            if r.ok:
                w.violation("P08", "answered-on-dead", "a request on a lost "
                            "connection was answered")
        c.close()
    await w.sleep(0.2)
    left = w.net.open_conns()
    if left:
        w.violation("P08", "socket-left", "open after close: %s" % [
            x.peer for x in left])
