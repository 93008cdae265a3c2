"""Producer against the model cluster (P01-P05, parts of P06, P16, P24)."""
import asyncio
import json
import random
import zlib

from .. import gen
from ..kafka import RETRIABLE
from ..world import World, Skip

NAME = "producer"


# ---------------------------------------------------------------------------
# plans

def gen_plan(seed, profile="mix"):
    r = random.Random("producer|%s|%s" % (profile, seed))
    cluster = gen.gen_cluster(r)
    T = r.choice([1.0, 4.0, 8.0])
    plan = dict(scenario=NAME, profile=profile, seed=seed, cluster=cluster,
                net=gen.gen_net(r), T=T)
    client = dict(
        batch_size=r.choice([0, 1, 1, 2, 3, 5, 10]),
        compression=r.choice([None, None, 1, 2]),
        partitioner=r.choice(["key", "key", "key", "random", "first",
                              "value"]),
        acks=r.choice([-1, -1, 1]),
        serializer=r.choice(["json", "json", "bytes", "text"]),
        keys=r.choice(["none", "some", "all"]),
        hosts=gen.bootstrap(r, cluster),
    )
    plan["client"] = client
    plan["mode"] = r.choice(["seq", "seq", "conc"])
    if profile == "order":
        plan["mode"] = "seq"
        client["partitioner"] = r.choice(["key", "key", "value", "first"])
        client["batch_size"] = r.choice([1, 2, 3, 4, 7])
    elif profile == "close":
        client["batch_size"] = r.choice([1, 2, 3, 5, 8, 20])
        plan["mode"] = "seq"
    elif profile == "route":
        cluster["view_lag"] = r.choice([0, 0, 0.05, 0.5])
    names = sorted(cluster["topics"])
    n = r.choice([3, 8, 15, 30])
    bulk = r.random() < 0.03
    if bulk:
        n = r.choice([150, 300])
        client["batch_size"] = r.choice([20, 70, 150, 400])
    actors = 1 if plan["mode"] == "seq" else r.choice([2, 3, 5])
    ops = []
    late = None
    if r.random() < 0.25:
        late = "late-topic"
    for i in range(n):
        a = r.randrange(actors)
        d = 0.0
        if r.random() < 0.5:
            d = round(r.random() ** 3 * T * 3.0 / max(1, n / actors), 4)
        x = r.random()
        if x < 0.82:
            topic = names[0] if bulk else r.choice(names)
            if late and r.random() < 0.25:
                topic = late
            size = r.choice([0, 0, 5, 40, 40, 400])
            if r.random() < 0.04:
                size = r.choice([3000, 33000, 70000])
            ops.append(dict(op="produce", a=a, d=d, topic=topic,
                            key=r.randrange(6), size=size))
        elif x < 0.94:
            ops.append(dict(op="flush", a=a, d=d))
        elif x < 0.97:
            ops.append(dict(op="heal", a=a, d=d))
        else:
            ops.append(dict(op="sleep", a=a, d=d + 0.5))
    plan["ops"] = ops
    apis = ["produce", "produce", "produce", "metadata"]
    if profile == "close":
        plan["faults"] = [
            gen.gen_request_fault(r, ["produce"], cluster,
                                  retriable_only=True, max_nth=6)
            for _ in range(r.choice([0, 1, 1, 2, 3]))]
        plan["final"] = "close"
        if r.random() < 0.3:
            # closed in the middle of it all
            plan["overlap"] = round(r.random() ** 2 * T, 4)
            plan["mode"] = "conc"
            for op in ops:
                op["a"] = r.randrange(3)
        plan["moves"] = []
        for _ in range(r.choice([0, 0, 1, 2])):
            t = r.choice(names)
            plan["moves"].append([t, r.randrange(len(cluster["topics"][t])),
                                  r.choice(cluster["brokers"])["id"]])
        plan["late"] = [round(r.random() ** 2 * 0.3, 4)
                        for _ in range(r.choice([0, 0, 1, 3]))]
        if r.random() < 0.3:
            for k in range(r.choice([1, 2])):
                plan["faults"].append(gen.gen_timed_fault(
                    r, cluster, T, ["migrate", "reset"], ["produce"], 6))
    elif profile == "route":
        plan["faults"] = [gen.gen_timed_fault(
            r, cluster, T, ["migrate", "migrate", "crash", "add_partition",
                            "readdress"], ["produce", "produce", "metadata"])
            for _ in range(r.choice([0, 0, 1, 2, 4]))]
    elif profile == "calm":
        plan["faults"] = []
    else:
        plan["faults"] = gen.gen_faults(r, cluster, T, apis)
        plan["final"] = r.choice(["flush", "flush", "flush", "close"])
    if late:
        lf = dict(at=round(r.random() * T, 3), kind="add_topic", topic=late,
                  leaders=[r.choice([b["id"] for b in cluster["brokers"]])
                           for _ in range(r.choice([1, 2, 3]))])
        if r.random() < 0.5:
            lf["pending"] = r.choice([0.1, 1.0])
            lf["code"] = r.choice([5, 9])
        plan["faults"].append(lf)
    if profile in ("mix", "order"):
        gen.lone_bootstrap(r, plan, T)
    if profile in ("mix", "order", "close") and r.random() < 0.15:
        fan_out(r, plan)
    return plan


def fan_out(r, plan):
    """Requests with many partitions each, some of which are refused."""
    cluster, client = plan["cluster"], plan["client"]
    ids = [b["id"] for b in cluster["brokers"]][:2]
    for t in cluster["topics"]:
        cluster["topics"][t] = [r.choice(ids)
                                for _ in range(r.choice([3, 4, 5]))]
    client["batch_size"] = r.choice([5, 8, 12, 30])
    client["keys"] = "all"
    if client["partitioner"] == "first":
        client["partitioner"] = "key"
    plan["moves"] = [m for m in plan.get("moves", ()) if m[1] < 3]
    for f in plan["faults"]:
        if f.get("kind") == "migrate" and f["pid"] > 2:
            f["pid"] = r.randrange(3)
    for _ in range(r.choice([1, 1, 2, 3])):
        codes = [0, 0, 2, 3, 5, 6, 7, 19]
        if plan["profile"] != "close":
            codes += gen.CODES_FATAL[:5]
        plan["faults"].append(dict(
            api="produce", kind="error", nth=r.randrange(5), count=1, code=0,
            by_pid={str(i): r.choice(codes) for i in range(5)}))


# ---------------------------------------------------------------------------
# oracle

class Msg(object):
    def __init__(self, i, topic, key, value):
        self.i = i
        self.topic = topic
        self.key = key          # what the key maker returned
        self.value = value      # object handed to produce
        self.key_bytes = None
        self.wire = None        # bytes the serializer returned
        self.accepted = False
        self.fatal = False
        self.confirmed = False
        self.attempts = []      # (rec, pid)
        self.answers = []       # partitioner's answers since last attempt
        self.all_answers = set()
        self.op = None


def to_bytes(v):
    if v is None or isinstance(v, bytes):
        return v
    if not isinstance(v, str):
        v = str(v)
    return v.encode("utf-8")


class Oracle(object):
    def __init__(self, w):
        self.w = w
        self.sim = w.sim
        self.msgs = []
        self.by_wire = {}
        self.known_topics = set()
        self.meta_reads = []     # (seq, {(t,p): leader})
        self.client = None
        self.outstanding = set()
        self.not_leader_since = {}
        self.static = not any(
            f.get("kind") in ("migrate", "crash", "remove_broker",
                              "add_topic", "add_broker", "readdress",
                              "outage", "add_partition")
            for f in w.plan["faults"]) and not w.plan.get("moves")

        # [time, brokers, messages, last record] of what is sent at once
        self.bursts = []
        self.draining = 0        # flushing was asked for
        cl = w.plan["client"]
        self.calm = (not w.plan["faults"] and not w.plan.get("moves") and
                     w.plan["mode"] == "conc" and cl["acks"] != 0 and
                     cl["batch_size"] > 1 and not w.net.short_write)

    def burst(self, rec):
        """A call of produce sends all there is, at least a batch of it."""
        n = len(self.w.rec_msgs[rec.n])
        last = self.bursts[-1] if self.bursts else None
        if last and last[0] == self.sim.now and last[3] == rec.n - 1 and (
                rec.broker not in last[1]):
            last[1].append(rec.broker)
            last[2] += n
            last[3] = rec.n
            return
        self.end_burst()
        if not self.draining and self.w.closing_at is None:
            self.bursts.append([self.sim.now, [rec.broker], n, rec.n])

    def end_burst(self):
        if not self.bursts:
            return
        t, _, n, last = self.bursts.pop()
        self.sim.count("bursts-measured")
        bs = self.w.plan["client"]["batch_size"]
        if n < bs:
            self.violation(
                "P05", "early-send", "request %d: %d messages sent at %.4f, a "
                "batch is %d" % (last, n, t - self.sim.t_start, bs))

    # wire events
    def on_wire(self, what, rec):
        if what == "request":
            if rec.api == 0:
                self.on_produce_request(rec)
        else:
            if rec.api == 3 and rec.resp is not None:
                self.on_metadata(rec)
            if rec.api == 0:
                self.on_produce_end(rec)

    def on_metadata(self, rec):
        table = {}
        for err, name, parts in rec.resp["topics"]:
            if err == 0:
                self.known_topics.add(name)
            for perr, pid, leader, _, _ in parts:
                if perr != 5 and leader != -1:
                    table[(name, pid)] = leader
        self.meta_reads.append((rec.seq_end, table))

    def violation(self, prop, kind, detail):
        self.w.violation(prop, kind, detail)

    def on_produce_request(self, rec):
        body = rec.req.body
        cl = self.w.plan["client"]
        if body["acks"] != cl["acks"]:
            self.violation("P02", "acks-altered", body["acks"])
        seen = set()
        for topic, parts in body["topics"]:
            for pid, msgs, size in parts:
                if not msgs:
                    self.violation("P02", "empty-set", (topic, pid))
                codecs = set(c for _, _, _, c in msgs)
                want = cl["compression"] or 0
                if codecs and codecs != {want}:
                    self.violation(
                        "P06", "codec", "asked for %s, sent %s"
                        % (want, codecs))
                for off, key, value, _ in msgs:
                    m = self.by_wire.get((topic, key, value))
                    if m is None:
                        self.violation(
                            "P02", "fabricated",
                            "request %d carries %r=%r for %s/%d, never "
                            "produced" % (rec.n, key, value[:80] if value
                                          else value, topic, pid))
                        continue
                    if m.i in seen:
                        self.violation(
                            "P02", "twice-in-request",
                            "message %d twice in request %d" % (m.i, rec.n))
                    seen.add(m.i)
                    self.check_attempt(m, rec, topic, pid)
        rec_msgs = self.w.rec_msgs
        rec_msgs[rec.n] = seen
        if self.calm:
            self.burst(rec)

    def check_attempt(self, m, rec, topic, pid):
        if m.confirmed:
            self.violation(
                "P02", "repeat-after-confirm",
                "message %d sent again in request %d after its confirmation"
                % (m.i, rec.n))
        if m.fatal:
            self.violation(
                "P02", "repeat-after-refusal",
                "message %d sent again in request %d after a final refusal"
                % (m.i, rec.n))
        for prev, _ in m.attempts:
            if not prev.ended():
                self.violation(
                    "P02", "repeat-while-outstanding",
                    "message %d sent in request %d while request %d is "
                    "unanswered" % (m.i, rec.n, prev.n))
        # routing
        if pid not in m.answers:
            self.violation(
                "P04", "wrong-partition",
                "message %d: partitioner chose %s, sent for %s"
                % (m.i, m.answers, pid))
        m.all_answers.update(m.answers)
        m.answers = []
        # after "not leader" there must have been a metadata refresh
        # (calls that overlap may retry while another one's refresh is still
        # under way, so this is judged for calls made one after the other)
        if m.attempts and self.w.plan["mode"] == "seq":
            prev, ppid = m.attempts[-1]
            code = self.code_of(prev, topic, ppid)
            if code in (5, 6, 3) or (code is None and prev.t_dead):
                if not any(prev.seq_end < s < rec.seq_sent
                           for s, _ in self.meta_reads):
                    self.violation(
                        "P04", "no-refresh",
                        "message %d retried in request %d without a metadata"
                        " refresh since request %d failed (%s)"
                        % (m.i, rec.n, prev.n, code))
        # the target must be a leader the client has read of
        leaders = set(t[(topic, pid)] for _, t in self.meta_reads
                      if (topic, pid) in t)
        if rec.broker not in leaders:
            self.violation(
                "P04", "never-leader",
                "request %d for %s/%d went to broker %s; leaders read: %s"
                % (rec.n, topic, pid, rec.broker, sorted(leaders)))
        elif len(self.meta_reads) >= 1:
            self.check_fresh_leader(m, rec, topic, pid)
        m.attempts.append((rec, pid))

    def check_fresh_leader(self, m, rec, topic, pid):
        """
        The client processes a response some time after reading it (it
        connects to new brokers first), so either of the last answers naming
        this partition may be in force -- unless nothing at all is going on
        besides this request, in which case only the last may.
        """
        tabs = [t for s, t in self.meta_reads if (topic, pid) in t]
        allowed = set(t[(topic, pid)] for t in tabs[-3:])
        if rec.broker not in allowed:
            self.violation(
                "P04", "stale-leader",
                "request %d for %s/%d went to broker %s; the last metadata "
                "answers read name %s" % (rec.n, topic, pid, rec.broker,
                                          sorted(allowed)))

    def code_of(self, rec, topic, pid):
        if rec.resp is None:
            return None
        for t, parts in rec.resp:
            if t == topic:
                for p, code, off in parts:
                    if p == pid:
                        return code
        return None

    def on_produce_end(self, rec):
        if rec.resp is None:
            return
        if rec.t_dead is not None and rec.t_resp is None:
            return
        got = {}
        for t, parts in rec.resp:
            for p, code, off in parts:
                got[(t, p)] = code
                if code == 6 and self.static and not self.injected(rec):
                    self.violation(
                        "P04", "not-leader-in-static-cluster",
                        "request %d for %s/%d at broker %s" % (
                            rec.n, t, p, rec.broker))
        for topic, parts in rec.req.body["topics"]:
            for pid, msgs, _ in parts:
                code = got.get((topic, pid))
                if code is None:
                    continue
                for _, key, value, _ in msgs:
                    m = self.by_wire.get((topic, key, value))
                    if m is None:
                        continue
                    if code == 0:
                        m.confirmed = True
                    elif code not in RETRIABLE:
                        m.fatal = True
                        self.sim.count("fatal-refusals")

    def injected(self, rec):
        return any(6 in [f.get("code")] + list(f.get("by_pid", {}).values())
                   for f in self.w.plan["faults"])

    # end checks
    def conservation(self, where):
        """Called while no operation is in progress."""
        c = self.client
        open_msgs = [m for m in self.msgs
                     if m.accepted and not m.confirmed and not m.fatal]
        waiting = [m for m in open_msgs
                   if any(not r.ended() for r, _ in m.attempts)]
        n = c.unsent_count
        if n < len(open_msgs) - len(waiting):
            missing = [m.i for m in open_msgs if m not in waiting]
            self.violation(
                "P01", "not-accounted",
                "%s: %d accepted messages neither confirmed, refused nor in "
                "flight, but only %d counted as unsent; candidates %s"
                % (where, len(open_msgs) - len(waiting), n, missing[:10]))
        if n > len(open_msgs):
            self.violation(
                "P02", "unsent-overcount",
                "%s: %d counted as unsent but only %d are open"
                % (where, n, len(open_msgs)))

    def in_log(self, m):
        return any(
            k == m.key_bytes and v == m.wire
            for p in self.w.kafka.topics.get(m.topic, {}).values()
            for _, k, v, _ in p.msgs)

    def final(self, complete):
        w = self.w
        logs = {}
        for t, parts in w.kafka.topics.items():
            for p in parts.values():
                for off, k, v, src in p.msgs:
                    logs.setdefault((t, k, v), []).append((p.pid, off))
        lost = []
        for m in self.msgs:
            where = logs.get((m.topic, m.key_bytes, m.wire), [])
            if not m.accepted:
                if where and m.wire is not None and not m.maybe:
                    self.violation("P02", "unaccepted-sent",
                                   "message %d was refused by produce but is"
                                   " in the log" % m.i)
                continue
            if m.fatal and not m.confirmed:
                continue
            if not where:
                if m.confirmed:
                    continue     # cannot happen in the model
                lost.append(m)
        if lost and complete:
            self.violation(
                complete, "lost",
                "accepted messages in no log: %s" % [
                    (m.i, m.topic, [r.n for r, _ in m.attempts])
                    for m in lost[:8]])
        # order
        if w.plan["mode"] == "seq" and w.plan["client"][
                "partitioner"] != "random":
            for t, parts in sorted(w.kafka.topics.items()):
                for p in parts.values():
                    seen = []
                    have = set()
                    for off, k, v, src in p.msgs:
                        m = self.by_wire.get((t, k, v))
                        if m is None or m.i in have:
                            continue
                        # only messages that were only ever meant for this
                        # partition are comparable
                        if any(pp != p.pid for _, pp in m.attempts):
                            continue
                        if m.all_answers - {p.pid}:
                            continue
                        have.add(m.i)
                        seen.append(m.i)
                    if seen != sorted(seen):
                        self.violation(
                            "P03", "reordered",
                            "%s/%d holds messages in order %s"
                            % (t, p.pid, seen[:30]))


# ---------------------------------------------------------------------------

def run(plan, keep_trace=False):
    w = World(plan, keep_trace)
    w.rec_msgs = {}
    w.closing_at = None
    return w.run(main)


async def main(w):
    from kiel import clients, exc
    plan = w.plan
    cl = plan["client"]
    o = Oracle(w)
    w.oracle = o
    w.kafka.wire.listeners.append(o.on_wire)
    cur = {}

    def serialize(value):
        m = o.msgs[value["i"]]
        if w.closing_at is not None:
            w.violation("P05", "accepted-while-closing",
                        "message %d is accepted %.3fs after close began"
                        % (m.i, w.t - w.closing_at))
        if cl["serializer"] == "json":
            out = json.dumps(value, sort_keys=True)
        elif cl["serializer"] == "text":
            out = u"\u2603 %d %s" % (value["i"], "x" * value["n"])
        else:
            rr = random.Random(value["i"])
            out = b"%d:" % value["i"] + bytes(
                rr.getrandbits(8) for _ in range(min(value["n"], 5000)))
        m.wire = to_bytes(out)
        register(m)
        m.serialized = True
        m.accept_seq = len(o.msgs)
        return out

    def key_maker(value):
        m = o.msgs[value["i"]]
        k = value["k"]
        if cl["keys"] == "none" or (cl["keys"] == "some" and k % 2):
            key = None
        else:
            key = [b"\xff\x00%d" % k, u"cl\u00e9-%d" % k, k, "", b"key",
                   "k%d" % k][k % 6]
        m.key = key
        m.key_bytes = to_bytes(key)
        m.keyed = True
        register(m)
        return key

    def register(m):
        if getattr(m, "serialized", False) or m.wire is not None:
            o.by_wire.pop((m.topic, getattr(m, "reg_key", None), m.wire),
                          None)
            m.reg_key = m.key_bytes
            o.by_wire[(m.topic, m.key_bytes, m.wire)] = m

    prng = random.Random("part|%s" % plan["seed"])

    def partitioner(key, partitions):
        parts = list(partitions)
        kind = cl["partitioner"]
        if not parts:
            w.violation("P04", "empty-partitions",
                        "partitioner called with no partitions")
            raise Skip()
        if kind == "random":
            p = parts[prng.randrange(len(parts))]
        elif kind == "first":
            p = min(parts)
        elif kind == "value":
            p = max(parts)
        else:
            h = zlib.crc32(repr(key).encode()) if key is not None else 0
            ids = sorted(parts)
            p = ids[h % len(ids)]
        return p

    watched = make_partition_watch(w, o, partitioner)
    producer = clients.Producer(
        list(cl["hosts"]), serializer=serialize, key_maker=key_maker,
        partitioner=watched, batch_size=cl["batch_size"],
        compression=cl["compression"], required_acks=cl["acks"])
    o.client = producer
    w.client = producer
    w.install_faults(plan["faults"])
    cluster = producer.cluster

    # connect, retrying on the documented failure
    for attempt in range(40):
        r = await w.op("connect", producer.connect)
        if r.ok:
            break
        if r.hang:
            raise Skip()
        await w.sleep(0.3)
        if attempt == 25:
            w.quiesce()
    else:
        w.violation("P16", "never-connected", "connect kept failing")
        return

    async def do(op):
        if op["d"]:
            await w.sleep(op["d"])
        kind = op["op"]
        if kind == "produce":
            m = Msg(len(o.msgs), op["topic"], None, None)
            m.maybe = False
            o.msgs.append(m)
            value = {"i": m.i, "k": op["key"], "n": op["size"],
                     "pad": "y" * op["size"]}
            m.value = value
            known0 = m.topic in cluster.topics and bool(
                cluster.topics[m.topic])
            unsent0 = producer.unsent_count
            seq0 = w.kafka.wire.seq
            n0 = len(w.kafka.wire.recs)
            m.known0 = known0
            r = await w.op("produce:%d" % m.i,
                           lambda: producer.produce(m.topic, value))
            if r.hang:
                raise Skip()
            ser = getattr(m, "serialized", False)
            m.accepted = bool(ser) and (
                known0 or m.topic in o.known_topics)
            m.maybe = bool(ser)
            if known0 and not ser and w.closing_at is None:
                w.violation("P01", "refused-known-topic",
                            "produce dropped message %d although topic %s "
                            "was known" % (m.i, m.topic))
            if ser and m.topic not in o.known_topics:
                w.violation("P01", "accepted-unknown-topic",
                            "topic %s" % m.topic)
            if plan["mode"] == "seq":
                new = w.kafka.wire.recs[n0:]
                sent = [x for x in new if x.api == 0]
                bs = cl["batch_size"]
                if sent and bs and ser and unsent0 + 1 < bs:
                    w.violation(
                        "P05", "early-send",
                        "produce of message %d sent request %d with %d of "
                        "%d queued" % (m.i, sent[0].n, unsent0 + 1, bs))
                if m.accepted and r.ok and (not bs or unsent0 + 1 >= bs):
                    filled(w, o, r, n0)
                    if not any(x.api in (0, 3) for x in new):
                        w.violation(
                            "P05", "full-batch-stays",
                            "%s returned with %d messages unsent, nothing "
                            "was sent or asked" % (r.label, unsent0 + 1))
        elif kind == "flush":
            n0 = len(w.kafka.wire.recs)
            o.end_burst()
            o.draining += 1
            r = await w.op("flush", producer.flush)
            o.draining -= 1
            if r.hang:
                raise Skip()
            if r.ok and plan["mode"] == "seq":
                filled(w, o, r, n0)
        elif kind == "heal":
            r = await w.op("heal", cluster.heal)
            if r.hang:
                raise Skip()
        if plan["mode"] == "seq":
            o.conservation("after %s" % kind)

    def filled(w, o, r, n0):
        # every accepted open message has been put on the wire and answered
        # during this call, unless its leader was unreachable or refused
        for m in o.msgs:
            if not m.accepted:
                continue
            pend = [x for x, _ in m.attempts if not x.ended()]
            if pend:
                w.violation(
                    "P05", "returned-before-answer",
                    "%s returned while request %d with message %d is "
                    "unanswered" % (r.label, pend[0].n, m.i))
        if not plan["faults"]:
            for m in o.msgs:
                if m.accepted and not m.confirmed:
                    w.violation(
                        "P05", "not-flushed",
                        "%s returned but message %d is unconfirmed"
                        % (r.label, m.i))

    actors = {}
    for op in plan["ops"]:
        actors.setdefault(op["a"], []).append(op)

    async def actor(ops):
        for op in ops:
            await do(op)
            if w.closing_at is not None and op["op"] != "sleep":
                return

    coros = [actor(v) for _, v in sorted(actors.items())]
    if plan.get("overlap") is not None:
        async def closer():
            await w.sleep(plan["overlap"])
            w.kafka.view_lag = 0
            o.end_burst()
            o.draining += 1
            await begin_close(w, o, producer)
        await w.gather(closer(), *coros)
        await end_close(w, o, producer)
        return
    await w.gather(*coros)
    o.end_burst()
    o.draining += 1

    if plan["profile"] == "close":
        w.kafka.view_lag = 0
        await final_close(w, o, producer, judge_faults=True)
        return
    # faults end; bounded recovery
    rest = plan["T"] - w.t
    if rest > 0:
        await w.sleep(rest)
    w.quiesce()
    await w.sleep(0.1)
    if plan.get("final") == "close":
        # give the client one look at the healthy cluster first
        for _ in range(5):
            r = await w.op("heal", cluster.heal)
            if r.ok:
                break
            await w.sleep(0.2)
        await final_close(w, o, producer)
        return
    done = False
    for _ in range(15):
        o.conservation("before final flush") if w.open_ops == 0 else None
        if producer.unsent_count == 0:
            done = True
            break
        r = await w.op("flush", producer.flush)
        if r.hang:
            raise Skip()
        await w.sleep(0.2)
    if not done:
        w.violation("P16", "never-drained",
                    "%d messages still unsent after 15 flushes in a healthy "
                    "cluster" % producer.unsent_count)
        w.violation("P01", "never-drained",
                    "%d messages still unsent after 15 flushes in a healthy "
                    "cluster" % producer.unsent_count)
    o.conservation("end")
    o.final("P01" if done else None)
    # service is back: a fresh message goes through
    t = sorted(w.plan["cluster"]["topics"])[0]
    m = Msg(len(o.msgs), t, None, None)
    m.maybe = True
    o.msgs.append(m)
    value = {"i": m.i, "k": 0, "n": 3, "pad": "last"}
    for _ in range(6):
        if not getattr(m, "serialized", False):
            r = await w.op("produce:last",
                           lambda: producer.produce(t, value))
        else:
            r = await w.op("flush", producer.flush)
        if r.hang:
            raise Skip()
        if getattr(m, "serialized", False) and producer.unsent_count == 0:
            if m.confirmed or cl["batch_size"] <= 1:
                break
        await w.sleep(0.2)
    if not getattr(m, "serialized", False):
        w.violation("P16", "no-service",
                    "a known topic's message is not accepted after recovery")
    else:
        m.accepted = True
        await w.op("flush", producer.flush)
        if not m.confirmed:
            w.violation("P16", "no-service",
                        "a message produced after recovery is not delivered")
    await shut(w, o, producer)
    o.final(None)


async def final_close(w, o, producer, judge_faults=False):
    await begin_close(w, o, producer)
    await end_close(w, o, producer)


async def begin_close(w, o, producer):
    for t, pid, to in w.plan.get("moves", []):
        w.kafka.set_leader(t, pid, to)
    n_before = len([m for m in o.msgs if m.accepted and not m.confirmed])
    w.sim.count("close-with-unsent", 1 if n_before else 0)
    late = []

    async def straggler(delay):
        await w.sleep(delay)
        if w.closed_at is not None:
            return
        m = Msg(len(o.msgs), sorted(w.plan["cluster"]["topics"])[0],
                None, None)
        m.maybe = False
        m.late = True
        o.msgs.append(m)
        late.append(m)
        w.sim.count("produce-while-closing")
        await w.op("produce:late", lambda: producer.produce(
            m.topic, {"i": m.i, "k": 0, "n": 1, "pad": ""}))
        if getattr(m, "serialized", False):
            w.violation("P05", "accepted-while-closing",
                        "produce accepted a message after close began")

    w.closed_at = None
    w.closing_at = w.t
    w.sim.count("close-amid-requests", 1 if any(
        not m.attempts[-1][0].ended() for m in o.msgs if m.attempts) else 0)
    extra = [asyncio.ensure_future(straggler(d))
             for d in w.plan.get("late", [])]
    r = await w.op("close", producer.close)
    w.closed_at = w.t
    if r.hang:
        raise Skip()
    for e in extra:
        await asyncio.wait([e])
        if e.exception() is not None:
            raise e.exception()
    w.close_ok = r.ok


async def end_close(w, o, producer):
    if w.close_ok:
        o.final("P05")
        o.final("P01")
    await closed_checks(w, o, producer)


async def shut(w, o, producer):
    r = await w.op("close", producer.close)
    if r.hang:
        raise Skip()
    await closed_checks(w, o, producer)


async def closed_checks(w, o, producer):
    await w.sleep(0.05)
    left = w.net.open_conns()
    if left:
        w.violation("P24", "open-after-close",
                    "sockets still open: %s" % [s.peer for s in left])
    n0 = len(w.kafka.wire.recs)
    m = Msg(len(o.msgs), sorted(w.kafka.topics)[0], None, None)
    m.maybe = False
    o.msgs.append(m)
    r = await w.op("produce:closed", lambda: producer.produce(
        m.topic, {"i": m.i, "k": 0, "n": 1, "pad": ""}), timeout=5)
    if getattr(m, "serialized", False) or (
            producer.unsent_count and not o_unsent_before(o)):
        w.violation("P05", "accepted-after-close",
                    "produce after close accepted a message")
    await w.sleep(0.5)
    new = w.kafka.wire.recs[n0:]
    if new:
        w.violation("P24", "sent-after-close",
                    "request %s sent after close" % new[0].req.name)


def o_unsent_before(o):
    return any(m.accepted and not m.confirmed and not m.fatal
               for m in o.msgs)


def make_partition_watch(w, o, inner):
    """
    Checks what the partitioner is given and ties its answers to messages.

    A call carries only the key, so its answer is tied to every queued message
    with that key; when a message appears on the wire its partition must be
    one of the answers given for such a key since its previous attempt.
    """
    def watched(key, partitions):
        p = inner(key, partitions)
        parts = sorted(partitions)
        cluster = o.client.cluster
        topics = [t for t in list(cluster.topics)
                  if sorted(cluster.topics[t]) == parts]
        if not topics:
            w.violation(
                "P04", "foreign-partitions",
                "partitioner given %s; topics: %s" % (
                    parts, {t: sorted(v) for t, v in
                            cluster.topics.items()}))
        kb = to_bytes(key)
        if len(set(parts)) != len(parts):
            w.violation("P04", "duplicate-partitions", parts)
        matched = False
        for m in o.msgs:
            if m.wire is not None and m.key_bytes == kb and (
                    m.topic in topics) and not m.confirmed and not m.fatal:
                if not any(not r.ended() for r, _ in m.attempts):
                    matched = True
                    m.answers.append(p)
        if not matched and topics:
            w.violation("P04", "foreign-key",
                        "partitioner called with key %r, which no queued "
                        "message has" % (key,))
        return p
    return watched
