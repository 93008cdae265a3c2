"""Single consumer against the model cluster (P09-P13, parts of P06-P24)."""
import asyncio
import datetime
import json
import random

from .. import gen
from ..codec import Reader, Malformed, decompress, dec_message_set
from ..kafka import RETRIABLE
from ..world import World, Skip

NAME = "consumer"
EPOCH = datetime.datetime(1970, 1, 1)


# ---------------------------------------------------------------------------
# plans

def gen_items(r, n, bad, big=False, gaps=0):
    out = []
    for _ in range(n):
        x = r.random()
        kind = "ok"
        if x < bad:
            kind = r.choice(["bad", "bad", "bad", "null", "none", "falsy"])
        size = r.choice([0, 0, 3, 30, 30, 200])
        if big and r.random() < 0.2:
            size = r.choice([2000, 9000, 40000])
        gap = 0
        if gaps and r.random() < gaps:
            gap = r.choice([1, 1, 2, 7])
        out.append([kind, size, r.choice([None, "k", "kk"]), gap])
    return out


def gen_batch(r, topic, pid, bad, big=False, gaps=0):
    return dict(topic=topic, pid=pid,
                items=gen_items(r, r.choice([1, 1, 2, 3, 5, 8]), bad, big,
                                gaps),
                codec=r.choice([0, 0, 1, 2]),
                block=r.choice([32768, 32768, 64, 500]))


def gen_start(r):
    return r.choice([["begin"], ["begin"], ["begin"], ["end"], ["none"],
                     ["date", round(r.uniform(-30, 20), 3)],
                     ["date", -100000.0],
                     ["date", None],
                     ["age", round(r.uniform(0, 30), 3)],
                     r.choice([["age", 0], ["age", -7.5]]),
                     ["age", 86400.0 * 400]])


def gen_plan(seed, profile="mix"):
    r = random.Random("consumer|%s|%s" % (profile, seed))
    cluster = gen.gen_cluster(r)
    cluster["cut_tails"] = r.random() < 0.8
    cluster["seg_size"] = r.choice([1, 3, 5, 20])
    T = r.choice([1.0, 4.0, 8.0])
    plan = dict(scenario=NAME, profile=profile, seed=seed, cluster=cluster,
                net=gen.gen_net(r), T=T)
    bad = r.choice([0, 0, 0.1, 0.3])
    big = r.random() < 0.2
    if profile == "bad":
        bad = r.choice([0.3, 0.6, 0.9, 1.0])
    # compacted logs have gaps in their offsets
    gaps = r.choice([0, 0, 0, 0.1, 0.5])
    names = sorted(cluster["topics"])
    actors = min(len(names), r.choice([1, 1, 2, 3]))
    # where the consumption of each topic starts
    starts = {t: gen_start(r) for t in names}
    if profile in ("bad", "calm"):
        starts = {t: r.choice([["begin"], ["begin"], gen_start(r)])
                  for t in names}
    plan["starts"] = starts
    appends = []
    for t in names:
        for pid in range(len(cluster["topics"][t])):
            for _ in range(r.choice([0, 1, 2, 4, 8])):
                b = gen_batch(r, t, pid, bad, big, gaps)
                b["at"] = round(-r.random() * 25, 3)
                appends.append(b)
            for _ in range(r.choice([0, 1, 3])):
                b = gen_batch(r, t, pid, bad, big, gaps)
                b["at"] = round(r.random() * T * 1.1, 3)
                appends.append(b)
    late = None
    if r.random() < 0.3:
        late = "late-topic"
        starts[late] = gen_start(r)
        for pid in range(3):
            for _ in range(r.choice([0, 1, 2])):
                b = gen_batch(r, late, pid, bad)
                b["at"] = round(T * (0.3 + r.random()), 3)
                appends.append(b)
    appends.sort(key=lambda b: b["at"])
    plan["appends"] = appends
    plan["client"] = dict(
        hosts=gen.bootstrap(r, cluster),
        wait=r.choice([0, 10, 100, 100, 1000]),
        min_bytes=r.choice([1, 1, 1, 0, 200]),
        deserializer=r.choice(["custom", "custom", "json"]),
        room=r.choice(["tight", "tight", "loose", "default"]))
    n = r.choice([5, 12, 25])
    ops = []
    topics = names + ([late] if late else [])
    for i in range(n):
        t = r.choice(topics)
        a = topics.index(t) % actors
        d = 0.0
        if r.random() < 0.5:
            d = round(r.random() ** 3 * T * 3.0 / max(1, n / actors), 4)
        x = r.random()
        if x < 0.9:
            ops.append(dict(op="consume", a=a, d=d, topic=t,
                            again=r.random() < 0.7))
        elif x < 0.95:
            ops.append(dict(op="heal", a=a, d=d))
        else:
            ops.append(dict(op="sleep", a=a, d=d + 0.5))
    plan["ops"] = ops
    plan["unaided"] = r.random() < 0.5
    apis = ["fetch", "fetch", "fetch", "offsets", "offsets", "metadata"]
    faults = []
    if profile in ("mix", "close"):
        faults = gen.gen_faults(r, cluster, T, apis)
    elif profile == "start":
        for _ in range(r.choice([1, 1, 2, 3])):
            faults.append(gen.gen_request_fault(
                r, ["offsets", "offsets", "metadata", "fetch"], cluster,
                max_nth=4))
        for _ in range(r.choice([0, 1, 2])):
            faults.append(gen.gen_timed_fault(
                r, cluster, min(T, 2.0), ["migrate", "crash", "reset",
                                          "add_partition", "partition"],
                ["offsets", "offsets", "metadata"], 4))
    elif profile == "oor":
        faults = gen.gen_faults(r, cluster, T, apis,
                                level=r.choice([0, 0, 1, 2]))
    elif profile == "limits":
        faults = [gen.gen_timed_fault(
            r, cluster, T, ["migrate", "add_partition", "crash"], ["fetch"])
            for _ in range(r.choice([0, 1, 2]))]
    if profile == "oor" or (profile == "mix" and r.random() < 0.3):
        for _ in range(r.choice([1, 1, 2, 3])):
            t = r.choice(names)
            f = dict(at=round(r.random() * T, 3), topic=t,
                     pid=r.randrange(len(cluster["topics"][t])))
            f["kind"] = r.choice(["expire", "expire", "truncate"])
            f["n"] = r.choice([1, 3, 10, 100])
            faults.append(f)
        if r.random() < 0.3:
            f = gen.gen_request_fault(r, ["fetch"], cluster)
            f["kind"], f["code"] = "error", 1
            faults.append(f)
    if r.random() < 0.15:
        faults.append(dict(at=round(r.random() * T, 3), kind="clock_jump",
                           by=r.choice([-3600, -5, 5, 3600])))
    if late:
        lf = dict(at=round(r.random() * T, 3), kind="add_topic", topic=late,
                  leaders=[r.choice([b["id"] for b in cluster["brokers"]])
                           for _ in range(r.choice([1, 2, 3]))])
        if r.random() < 0.5:
            lf["pending"] = r.choice([0.1, 1.0])
            lf["code"] = r.choice([5, 9])
        faults.append(lf)
    plan["faults"] = faults
    if profile == "mix":
        gen.lone_bootstrap(r, plan, T)
    if profile == "close":
        plan["close_at"] = round(r.random() ** 2 * T, 4)
    return plan


# ---------------------------------------------------------------------------
# reference

def complete_messages(raw):
    """[(offset, value)] of the complete messages of a fetched set."""
    out = []
    r = Reader(raw)
    while r.end - r.pos >= 12:
        off = r.i64()
        size = r.i32()
        if r.end - r.pos < size:
            break
        start = r.pos
        r.u32(), r.i8()
        attrs = r.i8()
        r.bytes_()
        value = r.bytes_()
        assert r.pos == start + size
        if attrs & 3:
            inner = decompress(attrs & 3, value)
            out.extend((o, v) for o, _, v, _ in
                       dec_message_set(Reader(inner), len(inner)))
        else:
            out.append((off, value))
    return out


class Falsy(object):
    def __init__(self, uid):
        self.uid = uid

    def __bool__(self):
        return False

    def __eq__(self, other):
        return False

    __hash__ = None


class Call(object):
    def __init__(self, topic, t0):
        self.topic = topic
        self.t0 = t0
        self.expected = {}       # pid -> [uid]
        self.fetches = []
        self.got_fetch_data = False


class Model(object):
    """What the wire says about positions and deliveries, per partition."""

    def __init__(self, w):
        self.w = w
        self.pos = {}            # (topic, pid) -> next offset or None
        self.asked = {}          # topic -> start in force
        self.lost = set()        # partitions found out of range
        self.calls = {}          # topic -> Call in progress
        self.meta_reads = []
        self.closing = False
        self.values = {}         # raw value -> (uid, kind)
        self.delivered = {}
        self.walls = {}
        self.fetch_client = w.plan["client"]
        self.reported = set()    # by the last metadata response
        self.alloc_seen = {}     # topic -> pids ever reported
        self.resets = 0
        self.healthy = False
        # a lookup that failed for good may or may not have set these
        self.unsure = set()      # topics
        self.answered = {}       # (topic, pid) -> offsets answered
        self.used = set()        # (topic, pid) fetched since the answer
        self.lost = set()        # topics with a position out of range

    def v(self, prop, kind, detail):
        self.w.violation(prop, kind, detail)

    def v_order(self, topic, kind, detail):
        """Messages skipped, repeated or lost."""
        self.v("P09", kind, detail)
        if topic in self.lost:
            self.v("P12", kind, detail)

    def on_wire(self, what, rec):
        if rec.process is not None and rec.process is not (
                self.w.sim.main_proc):
            return
        if what == "request":
            if rec.api == 1:
                self.fetch_request(rec)
            elif rec.api == 2:
                self.offset_request(rec)
        elif rec.resp is not None and rec.t_resp is not None:
            if rec.api == 3:
                table = {}
                for err, name, parts in rec.resp["topics"]:
                    for perr, pid, leader, _, _ in parts:
                        self.alloc_seen.setdefault(name, set()).add(pid)
                        if perr != 5 and leader != -1:
                            table[(name, pid)] = leader
                self.meta_reads.append((rec.seq_end, table))
                self.reported = set(
                    (name, q[1]) for err, name, parts in rec.resp["topics"]
                    if not err for q in parts)
            elif rec.api == 1:
                self.fetch_response(rec)
            elif rec.api == 2:
                self.offset_response(rec)

    # -- offsets
    def expected_times(self, topic, call):
        kind = self.asked.get(topic, ["none"])
        if kind[0] in ("end", "none"):
            return (-1, -1)
        if kind[0] == "begin":
            return (-2, -2)
        if kind[0] == "date":
            d = self.w.date_of(kind)
            n = int((d - EPOCH).total_seconds())
            return (n, n)
        lo, hi = call.walls
        now = self.w.wall()
        lo, hi = min(lo, now), max(hi, now)
        return (int(lo - kind[1]) - 1, int(hi - kind[1]) + 1)

    def offset_request(self, rec):
        body = rec.req.body
        if body["replica"] != -1:
            self.v("P13", "foreign-replica", body["replica"])
        for topic, parts in body["topics"]:
            call = self.calls.get(topic)
            if call is None:
                # a failed lookup may leave requests behind that are
                # written only now
                if topic not in self.unsure:
                    self.v("P13", "offsets-unasked",
                           "offset request for %s outside a call" % topic)
                continue
            lo, hi = self.expected_times(topic, call)
            for pid, time, maxo in parts:
                key = (topic, pid)
                if self.pos.get(key) is not None and (
                        topic not in self.unsure):
                    d = "offsets asked for %s/%d at valid position %d" % (
                        topic, pid, self.pos[key])
                    self.v("P12", "valid-position-discarded", d)
                    if key not in self.used:
                        self.v("P10", "answer-ignored", d)
                unit = self.w.kafka.time_unit
                if time == -2 and key in self.w.before:
                    pass
                elif unit != 1 and lo > 0 and not (
                        lo * unit <= time <= (hi + 1) * unit):
                    self.v("P10", "time-unit",
                           "%s/%d: asked for time %s, brokers count in 1/%d "
                           "s and %d..%d is wanted" % (
                               topic, pid, time, unit, lo * unit,
                               (hi + 1) * unit))
                elif unit == 1 and not lo <= time <= hi:
                    d = "%s/%d: asked for time %s, wanted %s..%s (%s)" % (
                        topic, pid, time, lo, hi, self.asked.get(topic))
                    self.v("P10", "wrong-time", d)
                    if key in self.lost:
                        self.v("P12", "wrong-time", d)
                if maxo < 1:
                    self.v("P10", "max-offsets", maxo)
                self.leader_check(rec, topic, pid)

    def offset_response(self, rec):
        times = {(t, p): time for t, ps in rec.req.body["topics"]
                 for p, time, _ in ps}
        for topic, parts in rec.resp:
            if any(code and code not in RETRIABLE for _, code, _ in parts):
                self.unsure.add(topic)
            for pid, code, offs in parts:
                if code != 0:
                    continue
                key = (topic, pid)
                if offs:
                    old = self.pos.get(key)
                    if old is not None and old != offs[0] and (
                            topic not in self.unsure):
                        self.v("P09", "skip" if offs[0] > old else "repeat",
                               "position of %s/%d went from %d to %d by "
                               "another lookup" % (topic, pid, old, offs[0]))
                    self.answered.setdefault(key, set()).add(offs[0])
                    self.pos[key] = offs[0]
                    self.used.discard(key)
                    self.w.before.discard(key)
                    self.w.sim.count("positions-established")
                elif times.get(key) != -2:
                    self.w.before.add(key)

    # -- fetches
    def leader_check(self, rec, topic, pid):
        tabs = [t for s, t in self.meta_reads if (topic, pid) in t]
        allowed = set(t[(topic, pid)] for t in tabs[-3:])
        if rec.broker not in allowed:
            self.v("P13", "not-at-leader",
                   "%s for %s/%d went to broker %s; metadata names %s"
                   % (rec.req.name, topic, pid, rec.broker, sorted(allowed)))

    def fetch_request(self, rec):
        body, cl = rec.req.body, self.fetch_client
        if body["replica"] != -1:
            self.v("P13", "foreign-replica", body["replica"])
        if body["wait"] != cl["wait"] or body["min_bytes"] != cl["min_bytes"]:
            self.v("P13", "limits", "wait %s min %s instead of %s, %s" % (
                body["wait"], body["min_bytes"], cl["wait"],
                cl["min_bytes"]))
        total = 0
        for topic, parts in body["topics"]:
            call = self.calls.get(topic)
            if call is None:
                self.v("P13", "fetch-unasked",
                       "fetch for %s outside a call" % topic)
                continue
            call.fetches.append(rec)
            for pid, off, mx in parts:
                total += mx
                key = (topic, pid)
                p = self.pos.get(key)
                self.used.add(key)
                if topic in self.unsure and off in self.answered.get(
                        key, ()):
                    self.pos[key] = p = off
                if p is None:
                    self.v("P10", "unestablished",
                           "%s/%d fetched at %d without a position from the "
                           "broker" % (topic, pid, off))
                elif off != p:
                    self.v_order(
                        topic, "gap" if off > p else "repeat",
                        "%s/%d fetched at %d, position is %d"
                        % (topic, pid, off, p))
                if mx <= 0:
                    self.v("P13", "no-room", "%s/%d max_bytes %d" % (
                        topic, pid, mx))
                for other in call.fetches:
                    for t2, ps in other.req.body["topics"]:
                        n = len([1 for q in ps if q[0] == pid])
                        if t2 == topic and n > (other is rec):
                            self.v("P13", "asked-twice",
                                   "%s/%d twice in one call" % (topic, pid))
                if pid not in self.alloc_seen.get(topic, ()):
                    self.v("P13", "foreign-partition", "%s/%s" % key)
                self.leader_check(rec, topic, pid)
            for other in call.fetches:
                if other is not rec and other.broker == rec.broker:
                    self.v("P13", "leader-asked-twice",
                           "broker %s asked twice in one call for %s"
                           % (rec.broker, topic))
        if total > self.w.max_bytes:
            self.v("P13", "too-much",
                   "a request asks for %d bytes, limit %d"
                   % (total, self.w.max_bytes))

    def fetch_response(self, rec):
        asked = {(t, p): off for t, ps in rec.req.body["topics"]
                 for p, off, _ in ps}
        for topic, parts in rec.resp:
            call = self.calls.get(topic)
            for pid, code, hw, raw in parts:
                key = (topic, pid)
                if code == 1:
                    self.lost.add(key)
                    self.pos[key] = None
                    self.resets += 1
                    self.lost.add(topic)
                    self.w.sim.count("positions-lost")
                elif code == 0:
                    msgs = complete_messages(raw)
                    for off, value in msgs:
                        if call is not None:
                            call.expected.setdefault(pid, []).append(value)
                            call.got_fetch_data = True
                    if msgs:
                        self.pos[key] = msgs[-1][0] + 1
                        if msgs[0][0] < asked[key]:
                            self.w.sim.count("below-position")

    # -- calls
    def begin(self, topic, start):
        if start is not None:
            self.asked[topic] = start
        elif topic not in self.asked:
            self.asked[topic] = ["none"]
        c = Call(topic, self.w.t)
        n = self.w.wall()
        c.walls = (n, n)
        self.calls[topic] = c
        return c

    def want(self, call):
        """Expected uids per partition."""
        out = []
        for pid in sorted(call.expected):
            ids = []
            for raw in call.expected[pid]:
                uid, kind = self.values.get(raw, (None, "null"))
                if kind in ("ok", "falsy"):
                    ids.append(uid)
            out.append((pid, ids))
        return out

    def finish(self, call, r):
        del self.calls[call.topic]
        want = self.want(call)
        if r.exc is not None:
            lost = [x for x in want if x[1]]
            if lost:
                self.v_order(
                    call.topic, "lost-in-failure",
                    "consume(%s) raised %r after reading messages %s"
                    % (call.topic, r.exc, lost))
            return
        res = r.value
        if res is None:
            res = []
        got = []
        for x in res:
            got.append(x.uid if isinstance(x, Falsy) else (
                x["id"] if isinstance(x, dict) else x))
        if self.closing:
            # what the socket took just before it was closed is lost with it
            want = [(k, [u for u in ids if u in got]) for k, ids in want]
        flat = [u for _, ids in want for u in ids]
        if sorted(got) != sorted(flat):
            miss = [u for u in flat if u not in got]
            extra = [u for u in got if u not in flat]
            dup = len(got) != len(set(got))
            badk = any(k == "bad" for k in
                       (self.values.get(v, (0, ""))[1]
                        for vs in call.expected.values() for v in vs))
            kind = "missing" if miss else "extra"
            detail = "consume(%s): missing %s extra %s dup %s; read %s" % (
                call.topic, miss[:10], extra[:10], dup, want)
            self.v_order(call.topic, kind, detail)
            if badk:
                self.v("P11", kind, detail)
            if any(raw and len(raw) for vs in call.expected.values()
                   for raw in vs):
                self.v("P06", kind, detail)
            return
        for pid, ids in want:
            mine = [u for u in got if u in set(ids)]
            if mine != ids:
                self.v("P09", "reordered", "%s/%d: %s instead of %s" % (
                    call.topic, pid, mine[:20], ids[:20]))
        self.w.sim.count("messages-returned", len(got))


# ---------------------------------------------------------------------------

def run(plan, keep_trace=False):
    w = World(plan, keep_trace)
    w.before = set()
    return w.run(main)


def value_of(uid, item, mode):
    kind, size = item[:2]
    if kind == "null":
        return None
    if mode == "json":
        if kind == "bad":
            return b"\xff{%d" % uid + b"x" * size
        if kind == "none":
            # told apart by the white space after it
            return b"null" + b"".join(
                b" \t\n\r"[uid >> i & 3:][:1] for i in range(0, 24, 2))
        return json.dumps({"id": uid, "pad": "z" * size}).encode()
    rr = random.Random(uid)
    return b"%d|%s|" % (uid, kind.encode()) + bytes(
        rr.getrandbits(8) for _ in range(size))


def attach(w, m):
    """Feeds the logs according to the plan; returns the largest batch."""
    mode = w.plan["client"]["deserializer"]
    uid = [0]

    def append(b):
        p = w.kafka.topics.get(b["topic"], {}).get(b["pid"])
        if p is None:
            return
        items = []
        for item in b["items"]:
            uid[0] += 1
            kind = item[0]
            if mode == "json" and kind == "falsy":
                kind = "ok"
            raw = value_of(uid[0], [kind] + item[1:], mode)
            if raw is not None:
                m.values[raw] = (uid[0], kind)
            key = item[2].encode() if item[2] else None
            items.append((key, raw, item[3]))
        p.append(items, b["codec"], None, b["block"])

    sim = w.sim
    for b in w.plan["appends"]:
        if b["at"] <= 0:
            now = sim.now
            sim.now = sim.t_start + b["at"]
            append(b)
            sim.now = now
        else:
            sim.at(sim.t_start + b["at"], append, b)
    return append


def batch_bytes(plan):
    """An upper bound of the size of any one batch on the wire."""
    top = 100
    for b in plan["appends"]:
        n = 0
        for kind, size, key, gap in b["items"]:
            n += size + 80
        # incompressible data may grow a little, block headers add up
        top = max(top, n + 120 + n // 8 + 8 * (n // 64 + 1))
    return top


def make_deserializer(w, m):
    if w.plan["client"]["deserializer"] == "json":
        return None

    class Weird(Exception):
        pass

    def deserialize(raw):
        if raw is None:
            w.sim.count("null-values")
            raise TypeError("null")
        # text is handed over as such
        data = raw.encode("utf-8") if isinstance(raw, str) else raw
        info = m.values.get(data)
        if info is None:
            w.violation("P06", "altered",
                        "deserializer given %r, which is in no log"
                        % (raw[:100] if isinstance(raw, bytes) else raw,))
            return None
        uid, kind = info
        if kind == "bad":
            raise [ValueError, KeyError, Weird, UnicodeError,
                   ZeroDivisionError, AttributeError][uid % 6]("bad %d" % uid)
        if kind == "none":
            return None
        if kind == "falsy":
            return Falsy(uid)
        return uid
    return deserialize


def setup(w):
    plan = w.plan
    m = Model(w)
    w.model = m
    w.kafka.wire.listeners.append(m.on_wire)
    sim = w.sim

    def wall():
        return sim.now + sim.main_proc.clock_offset
    w.wall = wall
    base = datetime.datetime(1970, 1, 1) + datetime.timedelta(
        seconds=sim.t_start)
    w.date_of = lambda s: EPOCH if s[1] is None else (
        base + datetime.timedelta(seconds=s[1]))
    w.append = attach(w, m)
    nparts = max([len(v) for v in plan["cluster"]["topics"].values()] + [3])
    nparts += sum(1 for f in plan["faults"]
                  if f.get("kind") == "add_partition")
    room = plan["client"]["room"]
    if room == "default":
        w.max_bytes = 1024 * 1024
        while w.max_bytes / nparts < batch_bytes(plan):
            w.max_bytes *= 2
    else:
        w.max_bytes = int(batch_bytes(plan) * nparts * (
            1.0 if room == "tight" else 2.7)) + 1
    return m


def start_value(w, s):
    from kiel.clients import SingleConsumer
    if s[0] == "begin":
        return SingleConsumer.BEGINNING
    if s[0] == "end":
        return SingleConsumer.END
    if s[0] == "date":
        return w.date_of(s)
    if s[0] == "age":
        return datetime.timedelta(seconds=s[1])
    return None


async def connect(w, consumer):
    for attempt in range(40):
        r = await w.op("connect", consumer.connect)
        if r.ok:
            return
        if r.hang:
            raise Skip()
        await w.sleep(0.3)
        if attempt == 25:
            w.quiesce()
    w.violation("P16", "never-connected", "connect kept failing")
    raise Skip()


async def consume(w, m, consumer, topic, again, idle=0.0):
    s = w.plan["starts"].get(topic, ["none"])
    first = topic not in m.asked
    start = start_value(w, s) if (first or again) else None
    c = m.begin(topic, s if start is not None else None)
    if s[0] == "none" and first:
        m.asked[topic] = ["none"]
    r = await w.op("consume:%s" % topic,
                   lambda: consumer.consume(topic, start)
                   if start is not None else consumer.consume(topic))
    if r.hang:
        raise Skip()
    m.finish(c, r)
    c.result = r
    return c


async def main(w):
    from kiel import clients
    plan = w.plan
    cl = plan["client"]
    m = setup(w)
    kw = {}
    if cl["room"] != "default" or w.max_bytes != 1024 * 1024:
        kw["max_bytes"] = w.max_bytes
    consumer = clients.SingleConsumer(
        list(cl["hosts"]), deserializer=make_deserializer(w, m),
        max_wait_time=cl["wait"], min_bytes=cl["min_bytes"], **kw)
    w.client = consumer
    w.install_faults(plan["faults"])
    await connect(w, consumer)

    stop = []

    async def actor(ops):
        for op in ops:
            if op["d"]:
                await w.sleep(op["d"])
            if stop:
                return
            if op["op"] == "consume":
                await consume(w, m, consumer, op["topic"], op["again"])
            elif op["op"] == "heal":
                r = await w.op("heal", consumer.heal)
                if r.hang:
                    raise Skip()

    actors = {}
    for op in plan["ops"]:
        actors.setdefault(op["a"], []).append(op)
    coros = [actor(v) for _, v in sorted(actors.items())]

    if plan["profile"] == "close":
        async def closer():
            await w.sleep(plan["close_at"])
            stop.append(1)
            await close(w, m, consumer)
        await w.gather(closer(), *coros)
        await after_close(w, m, consumer)
        return

    await w.gather(*coros)
    rest = plan["T"] * 1.35 - w.t
    if rest > 0:
        await w.sleep(rest)
    w.quiesce()
    await w.sleep(0.1)
    await recover(w, m, consumer)
    await close(w, m, consumer)
    await after_close(w, m, consumer)


def behind(w, m, topics):
    """Partitions the consumer has not read to the end."""
    out = []
    for t in topics:
        for pid, p in sorted(w.kafka.topics.get(t, {}).items()):
            if m.pos.get((t, pid)) != p.end:
                out.append((t, pid, m.pos.get((t, pid)), p.end))
    return out


async def recover(w, m, consumer):
    """Faults are over: within a bounded number of calls all is read."""
    topics = sorted(t for t in w.kafka.topics if t in m.asked)
    if w.plan.get("unaided"):
        # (a later topic's refresh may yet report more)
        reported = set(m.reported)
        for t in topics:
            batches = max([len(p.batches)
                           for p in w.kafka.topics[t].values()] + [0])
            for i in range(12 + batches):
                await consume(w, m, consumer, t, i % 2 == 0)
                if not behind(w, m, [t]):
                    break
        left = [x for x in behind(w, m, topics)
                if (x[0], x[1]) in reported]
        if left:
            w.violation("P16", "not-caught-up", "by calls alone: (topic, "
                        "partition, position, end) %s" % left[:5])
    # partitions created meanwhile show up with a metadata refresh
    r = await w.op("heal", consumer.heal)
    if r.hang:
        raise Skip()
    if r.exc is not None:
        r = await w.op("heal", consumer.heal)
        if r.exc is not None:
            w.violation("P16", "no-heal", "heal fails in a healthy cluster: "
                        "%r" % r.exc)
    for t in topics:
        batches = max([len(p.batches) for p in w.kafka.topics[t].values()]
                      + [0])
        for i in range(8 + batches):
            await consume(w, m, consumer, t, i % 2 == 0)
            if not behind(w, m, [t]):
                break
    left = behind(w, m, topics)
    if left:
        d = "(topic, partition, position, end) %s" % left[:5]
        w.violation("P16", "not-caught-up", d)
        w.violation("P09", "not-caught-up", d)
        if any(x[2] is None for x in left):
            w.violation("P10", "not-established", d)
            w.violation("P12", "not-established", d)
        elif any(k == "bad" for _, k in m.values.values()):
            w.violation("P11", "not-caught-up", d)
        if any((x[0], x[1]) not in m.used for x in left):
            w.violation("P10", "not-started", d)
        if any(x[0] in m.lost for x in left):
            w.violation("P12", "not-caught-up", d)
        return
    # a message appended now comes back from the next calls
    m.healthy = True
    for t in topics:
        pids = sorted(w.kafka.topics[t])
        for pid in pids:
            w.append(dict(topic=t, pid=pid, items=[["ok", 4, None, 0]] * 2,
                          codec=0, block=100))
        want = dict((pid, w.kafka.topics[t][pid].end) for pid in pids)
        c = await consume(w, m, consumer, t, False)
        asked = sorted(p for f in c.fetches for _, ps in f.req.body["topics"]
                       for p, _, _ in ps)
        if asked != pids:
            w.violation("P13", "coverage",
                        "a call in a healthy cluster fetched %s of %s/%s"
                        % (asked, t, pids))
            if any((t, p) not in m.used for p in set(pids) - set(asked)):
                w.violation("P10", "not-started",
                            "%s of %s/%s" % (asked, t, pids))
        wrong = [(f.broker, p) for f in c.fetches
                 for _, ps in f.req.body["topics"] for p, _, _ in ps
                 if w.kafka.topics[t][p].leader != f.broker]
        if wrong:
            w.violation("P13", "wrong-leader", "%s: %s" % (t, wrong))
        left = [(t, pid, m.pos.get((t, pid)), e) for pid, e in want.items()
                if m.pos.get((t, pid)) != e]
        if left:
            w.violation("P09", "not-returned", "%s" % left)
            w.violation("P16", "not-returned", "%s" % left)


async def close(w, m, consumer):
    m.closing = True
    r = await w.op("close", consumer.close)
    if r.hang:
        raise Skip()


async def after_close(w, m, consumer):
    left = w.net.open_conns()
    if left:
        w.violation("P24", "open-after-close",
                    "sockets still open: %s" % [s.peer for s in left])
    n0 = len(w.kafka.wire.recs)
    k0 = len(w.net.connect_log)
    t = sorted(w.plan["cluster"]["topics"])[0]
    r = await w.op("consume:closed", lambda: consumer.consume(t), timeout=5)
    if r.ok and r.value:
        w.violation("P24", "consumed-after-close", r.value)
    await w.sleep(3.0)
    new = w.kafka.wire.recs[n0:]
    if new:
        w.violation("P24", "sent-after-close",
                    "request %s sent after close" % new[0].req.name)
    if len(w.net.connect_log) > k0:
        w.violation("P24", "connect-after-close",
                    "%s" % (w.net.connect_log[k0:],))
    left = w.net.open_conns()
    if left:
        w.violation("P24", "open-after-close",
                    "sockets still open: %s" % [s.peer for s in left])
