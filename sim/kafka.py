"""
Model Kafka cluster: brokers speaking protocol version 0 over the simulated
network, authoritative logs, metadata views that lag, and injected faults.
"""
import struct

from . import codec
from .codec import (
    PRODUCE, FETCH, OFFSETS, METADATA, OFFSET_COMMIT, OFFSET_FETCH,
    COORDINATOR, API_NAMES)

NONE, OOR, UNKNOWN_TOPIC, LEADER_NA, NOT_LEADER = 0, 1, 3, 5, 6
TIMED_OUT, REPLICA_NA, TOO_LARGE, META_TOO_LONG = 7, 9, 10, 12
LOADING, COORD_NA, NOT_COORD = 14, 15, 16

RETRIABLE = {2, 3, 5, 6, 7, 14, 15, 16, 19, 20}


class Rec(object):
    """A request as seen by the client side of a connection."""
    __slots__ = ("n", "cid", "addr", "corr", "api", "req", "t_sent", "resp",
                 "t_resp", "t_dead", "process", "broker", "seq_sent",
                 "seq_end", "raw_resp", "call")

    def ended(self):
        return self.t_resp is not None or self.t_dead is not None


class Tap(object):
    """Watches both directions of a connection at the client's socket."""

    def __init__(self, wire, conn):
        self.wire = wire
        self.conn = conn
        self.out = bytearray()
        self.inp = bytearray()
        self.open = {}
        self.bad = False
        self.is_dead = False

    def sent(self, data):
        self.out += data
        w = self.wire
        while len(self.out) >= 4 and not self.bad:
            n = struct.unpack_from("!i", self.out)[0]
            if n < 8 or n > 100000000:
                self.bad = True
                w.malformed(self.conn, "frame size %d" % n)
                return
            if len(self.out) < 4 + n:
                return
            payload = bytes(self.out[4:4 + n])
            del self.out[:4 + n]
            try:
                req = codec.parse_request(payload)
            except codec.Malformed as e:
                self.bad = True
                w.malformed(self.conn, str(e))
                return
            w.request(self, req)

    def read(self, data):
        if self.bad:
            return
        self.inp += data
        while len(self.inp) >= 4:
            n = struct.unpack_from("!i", self.inp)[0]
            if n < 4 or n > 100000000:
                self.bad = True
                return
            if len(self.inp) < 4 + n:
                return
            payload = bytes(self.inp[4:4 + n])
            del self.inp[:4 + n]
            self.wire.response(self, payload)

    def read_eof(self):
        self.dead()

    def closed(self):
        self.dead()

    def dead(self):
        if self.is_dead:
            return
        self.is_dead = True
        for rec in self.open.values():
            rec.t_dead = self.wire.sim.now
            rec.seq_end = self.wire.next_seq()
            self.wire.on_end(rec)


class Wire(object):
    """History of everything sent and received by clients."""

    def __init__(self, sim, cluster):
        self.sim = sim
        self.cluster = cluster
        self.recs = []
        self.seq = 0
        self.listeners = []
        self.max_frame_bad = 0
        self.seen_corr = {}

    def next_seq(self):
        self.seq += 1
        return self.seq

    def tap(self, conn):
        if conn.addr not in self.cluster.addrs:
            return None
        return Tap(self, conn)

    def malformed(self, conn, why):
        self.sim.violation("P06", "malformed-request", why)

    def request(self, tap, req):
        rec = Rec()
        rec.n = len(self.recs)
        rec.cid = tap.conn.cid
        rec.addr = tap.conn.addr
        rec.corr = req.corr
        rec.api = req.api
        rec.req = req
        rec.t_sent = self.sim.now
        rec.resp = rec.t_resp = rec.t_dead = rec.raw_resp = None
        sock = tap.conn.sock()
        rec.process = sock.process if sock else None
        rec.broker = self.cluster.addrs.get(tap.conn.addr)
        rec.seq_sent = self.next_seq()
        rec.seq_end = None
        if req.corr in tap.open:
            self.sim.violation("P07", "corr-reuse",
                               "correlation id %d reused while outstanding"
                               % req.corr)
        tap.open[req.corr] = rec
        self.recs.append(rec)
        self.sim.trace("req", rec.cid, req.name, rec.n)
        self.sim.order("req", req.name, rec.broker)
        for l in self.listeners:
            l("request", rec)

    def response(self, tap, payload):
        if len(payload) < 4:
            tap.bad = True
            return
        corr = struct.unpack_from("!i", payload)[0]
        rec = tap.open.pop(corr, None)
        if rec is None:
            return
        rec.raw_resp = payload
        try:
            rec.resp = codec.parse_response(rec.api, payload[4:])
        except codec.Malformed:
            rec.resp = None       # the broker sent garbage on purpose
        rec.t_resp = self.sim.now
        rec.seq_end = self.next_seq()
        self.sim.trace("resp", rec.cid, rec.req.name, rec.n)
        self.on_end(rec)

    def on_end(self, rec):
        for l in self.listeners:
            l("end", rec)


class Partition(object):
    def __init__(self, cluster, topic, pid, leader):
        self.cluster = cluster
        self.topic = topic
        self.pid = pid
        self.leader = leader
        self.replicas = []
        self.start = 0
        self.end = 0
        self.msgs = []        # (offset, key, value, rec number or None)
        self.base = 0         # offset of msgs[0]
        self.batches = []     # (first, last, raw bytes, mtime)

    def append(self, items, codec_id=0, src=None, block=32 * 1024):
        """items: [(key, value)]; one wire batch."""
        if not items:
            return self.end
        entries = []
        for item in items:
            k, v = item[0], item[1]
            if len(item) > 2:
                self.end += item[2]       # a gap left by compaction
            self.msgs.append((self.end, k, v, src))
            entries.append((self.end, codec.enc_entry(
                self.end, codec.enc_message(k, v))))
            self.end += 1
        first = entries[0][0]
        now = self.cluster.sim.now
        if codec_id:
            wrapped = codec.enc_message(
                None, codec.compress(codec_id, b"".join(
                    e for _, e in entries), block), codec_id)
            self.batches.append((first, self.end - 1, codec.enc_entry(
                self.end - 1, wrapped), now))
        else:
            for off, e in entries:
                self.batches.append((off, off, e, now))
        self.cluster.appended(self)
        return first

    def expire(self, upto):
        """Retention: drops whole batches below `upto`."""
        upto = min(upto, self.end)
        if upto <= self.start:
            return
        for first, last, _, _ in self.batches:
            if first <= upto <= last:
                upto = first
                break
        if upto <= self.start:
            return
        self.start = upto
        self.batches = [b for b in self.batches if b[0] >= upto]

    def truncate(self, to):
        """Unclean leader election: drops whole batches from `to` on."""
        to = max(to, self.start)
        keep = [b for b in self.batches if b[1] < to]
        self.batches = keep
        new_end = keep[-1][1] + 1 if keep else self.start
        self.msgs = [m for m in self.msgs if m[0] < new_end]
        self.end = new_end

    def read(self, offset, max_bytes):
        out = []
        size = 0
        for first, last, raw, _ in self.batches:
            if last < offset:
                continue
            if size + len(raw) > max_bytes:
                if self.cluster.cut_tails:
                    out.append(raw[:max_bytes - size])
                break
            out.append(raw)
            size += len(raw)
        return b"".join(out)

    def available(self, offset):
        return sum(len(b[2]) for b in self.batches if b[1] >= offset)

    def offsets_before(self, time, max_offsets):
        """Version 0 answer: descending offsets of segments before time."""
        if time == -1:
            return [self.end][:max_offsets]
        if time == -2:
            return [self.start][:max_offsets]
        segs = self.segments()
        offs = [s for s, mtime in segs if mtime <= time]
        return sorted(set(offs), reverse=True)[:max_offsets]

    def segments(self):
        """(base offset, modification time in the clients' time unit)"""
        unit = self.cluster.time_unit
        segs = []
        for first, last, _, mtime in self.batches:
            if not segs or last // self.cluster.seg_size != (
                    segs[-1][0] // self.cluster.seg_size):
                segs.append([first, mtime * unit])
            else:
                segs[-1][1] = mtime * unit
        if segs:
            segs.append([self.end, self.cluster.sim.now * unit])
        return segs


class Broker(object):
    def __init__(self, cluster, bid, host, port):
        self.cluster = cluster
        self.sim = cluster.sim
        self.bid = bid
        self.host = host
        self.port = port
        self.up = False
        self.conns = []
        self.waiting = []
        self.view = None
        self.lagging = 0
        self.slow = 0.0

    @property
    def addr(self):
        return (self.host, self.port)

    def start(self):
        self.up = True
        self.cluster.addrs[self.addr] = self.bid
        self.cluster.net.listen(self.addr, self)

    def stop(self, reset=True):
        self.up = False
        self.cluster.net.unlisten(self.addr)
        self.waiting = []
        for conn in list(self.conns):
            if reset:
                conn.reset()
            else:
                conn.close()
        self.conns = []

    # network callbacks
    def on_connect(self, conn):
        conn.ctx = dict(buf=bytearray(), queue=[], busy=False)
        self.conns.append(conn)

    def on_close(self, conn, how):
        if conn in self.conns:
            self.conns.remove(conn)
        conn.ctx["queue"] = []
        conn.server_closed = True
        conn.s2c.push("fin")

    def on_data(self, conn, data):
        buf = conn.ctx["buf"]
        buf += data
        while len(buf) >= 4:
            n = struct.unpack_from("!i", buf)[0]
            if n < 0 or n > 100000000:
                conn.reset()
                return
            if len(buf) < 4 + n:
                return
            payload = bytes(buf[4:4 + n])
            del buf[:4 + n]
            try:
                req = codec.parse_request(payload)
            except codec.Malformed:
                conn.reset()
                return
            fault = self.cluster.match_fault(self, req)
            if fault and fault["kind"] == "drop_before":
                self.sim.fault("drop-before")
                self.cluster.end_conn(self, conn, fault)
                return
            if self.cluster.out_of_order:
                self._begin(conn, req, fault)
            else:
                conn.ctx["queue"].append((req, fault))
                self._next(conn)

    def _next(self, conn):
        ctx = conn.ctx
        if ctx["busy"] or not ctx["queue"] or conn.server_closed:
            return
        ctx["busy"] = True
        req, fault = ctx["queue"].pop(0)
        self._begin(conn, req, fault)

    def _begin(self, conn, req, fault):
        delay = self.cluster.rng.random() * self.cluster.proc_delay
        delay += self.slow
        if fault and fault["kind"] == "slow":
            delay += fault.get("delay", 1.0)
            self.sim.fault("slow-request")
        if self.cluster.out_of_order:
            delay += self.cluster.rng.random() * 0.02
        self.sim.after(delay, self._process, conn, req, fault)

    def _process(self, conn, req, fault):
        if not self.up or conn.server_closed:
            return
        self.sim.trace("broker", self.bid, req.name, req.corr & 0xffff)
        self.sim.order("b", self.bid, req.name)
        self.cluster.handle(self, conn, req, fault)

    def reply(self, conn, req, body, fault=None):
        if not self.up or conn.server_closed:
            return
        data = struct.pack("!ii", len(body) + 4, req.corr) + body
        kind = fault["kind"] if fault else None
        if kind == "drop_after":
            self.sim.fault("drop-after")
            self.cluster.end_conn(self, conn, fault)
            return
        if kind == "drop_mid":
            self.sim.fault("drop-mid-response")
            cut = min(len(data) - 1, fault.get("cut", 6))
            conn.send(data[:cut])
            conn.close()
            if conn in self.conns:
                self.conns.remove(conn)
            return
        if kind == "garbage":
            self.sim.fault("garbage-response")
            body = body[:max(0, len(body) // 2)]
            data = struct.pack("!ii", len(body) + 4, req.corr) + body
        if kind == "stray":
            # a response nobody asked for
            self.sim.fault("stray-response")
            conn.send(struct.pack("!ii", len(body) + 4,
                                  (req.corr + 77777) & 0x7fffffff) + body)
        if kind == "bad_size":
            self.sim.fault("bad-frame-size")
            data = struct.pack("!ii", (-5, -1, 0, 1, 3)[
                fault.get("cut", 0) % 5], req.corr) + body
        if kind == "reply_then_close":
            self.sim.fault("reply-then-close")
            conn.send(data)
            conn.close()
            if conn in self.conns:
                self.conns.remove(conn)
            return
        conn.send(data)
        conn.ctx["busy"] = False
        self._next(conn)


class Cluster(object):
    def __init__(self, sim, net, cfg):
        self.sim = sim
        self.net = net
        self.cfg = cfg
        self.rng = sim.rng("kafka")
        self.brokers = {}
        self.addrs = {}
        self.topics = {}
        self.proc_delay = cfg.get("proc_delay", 0.002)
        self.out_of_order = cfg.get("out_of_order", False)
        self.cut_tails = cfg.get("cut_tails", True)
        self.max_message = cfg.get("max_message", None)
        self.meta_max = cfg.get("meta_max", 4096)
        self.seg_size = cfg.get("seg_size", 5)
        self.view_lag = cfg.get("view_lag", 0.0)
        self.time_unit = cfg.get("time_unit", 1)
        self.absent_mode = cfg.get("absent_mode", "error3")
        # what a broker that doesn't coordinate a group (any more) answers
        self.coord_gone = cfg.get("coord_gone", NOT_COORD)
        self.faults = []
        self.api_index = {}
        self.committed = {}      # group -> {(topic, pid): (offset, meta)}
        self.commit_log = []
        self.coordinators = {}   # group -> broker id
        self.coord_loading = {}  # group -> until
        self.wire = Wire(sim, self)
        net.tap_factory = self.wire.tap
        self.append_listeners = []
        self.pending_topics = {}
        for b in cfg["brokers"]:
            bid = b["id"]
            self.brokers[bid] = Broker(self, bid, b["host"], b["port"])
            self.addrs[(b["host"], b["port"])] = bid
            if b.get("up", True):
                self.brokers[bid].start()
        for name, spec in sorted(cfg["topics"].items()):
            self.add_topic(name, spec)
        self.refresh_views(now=True)

    # -- state ------------------------------------------------------------

    def add_topic(self, name, leaders):
        """leaders: list of leader ids, index = partition id, or a dict"""
        if isinstance(leaders, list):
            leaders = {i: l for i, l in enumerate(leaders)}
        self.topics[name] = {
            int(pid): Partition(self, name, int(pid), leader)
            for pid, leader in leaders.items()}
        if self.cfg.get("replicas"):
            ids = sorted(self.brokers)
            for pid, p in sorted(self.topics[name].items()):
                p.replicas = sorted({
                    p.leader, ids[(ids.index(p.leader) + 1 + pid) % len(ids)]
                    if p.leader in ids else ids[0]})

    def live(self):
        return [b for _, b in sorted(self.brokers.items()) if b.up]

    def snapshot(self):
        brokers = [(b.bid, b.host, b.port) for b in self.live()]
        topics = {}
        replicas = {}
        up = set(b[0] for b in brokers)
        for name, parts in self.topics.items():
            topics[name] = {
                pid: p.leader for pid, p in parts.items()}
            for pid, p in parts.items():
                reps = sorted(set(p.replicas) | {p.leader})
                replicas[name, pid] = (
                    reps, [b for b in reps if b in up or b == p.leader])
        return dict(brokers=brokers, topics=topics, replicas=replicas,
                    topic_errors=dict(self.pending_topics))

    def refresh_views(self, now=False):
        """Propagates the truth to the brokers' metadata caches."""
        for b in self.brokers.values():
            if now or self.view_lag <= 0:
                b.view = None
            else:
                if b.view is None:
                    b.view = self._last_snapshot
                lag = self.rng.random() * self.view_lag
                b.lagging += 1
                self.sim.after(lag, self._catch_up, b)
        self._last_snapshot = self.snapshot()

    def _catch_up(self, b):
        b.lagging -= 1
        if b.lagging == 0:
            b.view = None

    def changed(self):
        self.refresh_views()

    def set_leader(self, topic, pid, leader):
        if topic not in self.topics:
            return                   # deleted meanwhile
        if leader != -1:
            live = [b.bid for b in self.live()]
            if leader not in live:
                leader = live[0] if live else -1
        self.topics[topic][pid].leader = leader
        self.changed()

    # -- faults -----------------------------------------------------------

    def match_fault(self, broker, req):
        idx = self.api_index.get(req.api, 0)
        self.api_index[req.api] = idx + 1
        self.sim.count("req-" + req.name)
        for f in self.faults:
            if f.get("api") not in (req.name, "any"):
                continue
            if "broker" in f and f["broker"] != broker.bid:
                continue
            if f.get("after_t", 0) > self.sim.now - self.sim.t_start:
                continue
            if "any" == f.get("api"):
                i = sum(self.api_index.values()) - 1
            else:
                i = idx
            if f["nth"] <= i < f["nth"] + f.get("count", 1):
                return f
        return None

    def end_conn(self, broker, conn, fault):
        if conn in broker.conns:
            broker.conns.remove(conn)
        if fault.get("how") == "fin":
            conn.close()
        else:
            conn.reset()

    def crash(self, bid, elect=True, window=0.0):
        b = self.brokers.get(bid)
        if b is None or not b.up:
            return
        self.sim.fault("broker-crash")
        b.stop()
        for name, parts in sorted(self.topics.items()):
            for pid, p in sorted(parts.items()):
                if p.leader == bid and elect:
                    p.leader = -1
        self.changed()
        if elect:
            self.sim.after(window, self.elect_orphans)
        self.move_coordinators()

    def elect_orphans(self):
        live = self.live()
        if not live:
            return
        for name, parts in sorted(self.topics.items()):
            for pid, p in sorted(parts.items()):
                if p.leader == -1 or p.leader not in self.brokers or (
                        not self.brokers[p.leader].up):
                    p.leader = live[self.rng.randrange(len(live))].bid
        self.changed()

    def restart(self, bid, port=None):
        b = self.brokers.get(bid)
        if b is None or b.up:
            return
        if port:
            b.port = port
        self.sim.fault("broker-restart")
        b.start()
        self.changed()
        self.elect_orphans()
        self.move_coordinators()

    def move_coordinators(self):
        live = self.live()
        for g, bid in sorted(self.coordinators.items()):
            if live and (bid not in self.brokers or
                         not self.brokers[bid].up):
                self.coordinators[g] = live[
                    self.rng.randrange(len(live))].bid

    def quiesce(self):
        """Ends every fault: everything up, reachable, elected, prompt."""
        self.faults = []
        self.net.unreachable.clear()
        for a in list(self.net.blocked):
            self.net.unblock(a)
        for b in self.brokers.values():
            b.slow = 0.0
            if not b.up and not getattr(b, "removed", False):
                b.start()
        self.pending_topics = {}
        self.view_lag = 0.0
        self.elect_orphans()
        self.move_coordinators()
        self.refresh_views(now=True)
        for b in self.brokers.values():
            b.lagging = 0
            b.view = None

    # -- requests ---------------------------------------------------------

    def handle(self, broker, conn, req, fault):
        getattr(self, "do_" + req.name)(broker, conn, req, fault)

    def _hit(self, fault, topic=None, pid=None):
        """The error code injected for this partition, or else 0."""
        if not fault or fault["kind"] not in ("error", "append_error"):
            return 0
        if fault.get("pids") is not None and pid not in fault["pids"]:
            return 0
        if fault.get("topics") is not None and topic not in fault["topics"]:
            return 0
        # partitions may well fail for different reasons
        code = fault.get("by_pid", {}).get(str(pid), fault["code"])
        if code:
            self.sim.fault("error-%d" % code)
        return code

    def do_metadata(self, broker, conn, req, fault):
        snap = broker.view or self.snapshot()
        names = req.body["topics"] or sorted(snap["topics"])
        topics = []
        for n in names:
            if self._hit(fault, n):
                topics.append((fault["code"], n, []))
                continue
            if n not in snap["topics"]:
                topics.append((UNKNOWN_TOPIC, n, []))
                continue
            err = snap["topic_errors"].get(n, 0)
            if err:
                topics.append((err, n, []))
                continue
            parts = []
            order = sorted(snap["topics"][n])
            if fault and fault["kind"] == "shuffle":
                self.rng.shuffle(order)
            for pid in order:
                leader = snap["topics"][n][pid]
                if leader == -1:
                    parts.append((LEADER_NA, pid, -1, [], []))
                else:
                    e = 0
                    if fault and fault["kind"] == "rna":
                        e = REPLICA_NA
                    reps, isr = snap["replicas"][n, pid]
                    if reps != isr:
                        # a follower is down, which is no obstacle
                        e = REPLICA_NA
                        self.sim.count("replica-not-available")
                    parts.append((e, pid, leader, reps, isr))
            topics.append((0, n, parts))
        body = codec.enc_metadata(snap["brokers"], topics)
        broker.reply(conn, req, body, fault)

    def do_produce(self, broker, conn, req, fault):
        out = []
        for name, parts in req.body["topics"]:
            res = []
            for pid, msgs, size in parts:
                code, base = self._append(
                    broker, conn, req, name, pid, msgs, fault)
                res.append((pid, code, base))
            out.append((name, res))
        if self.out_of_order:
            self.rng.shuffle(out)
        if req.body["acks"] == 0:
            conn.ctx["busy"] = False
            broker._next(conn)
            return
        broker.reply(conn, req, codec.enc_produce(out), fault)

    def _append(self, broker, conn, req, name, pid, msgs, fault):
        part = self.topics.get(name, {}).get(pid)
        hit = self._hit(fault, name, pid)
        if hit and fault["kind"] == "error":
            return hit, -1
        if part is None:
            return UNKNOWN_TOPIC, -1
        if part.leader != broker.bid:
            self.sim.count("not-leader-answers")
            return NOT_LEADER, -1
        if self.max_message is not None and any(
                len(v or b"") > self.max_message for _, _, v, _ in msgs):
            return TOO_LARGE, -1
        codec_id = msgs[0][3] if msgs else 0
        base = part.append([(k, v) for _, k, v, _ in msgs], codec_id,
                           src=(conn.cid, req.corr))
        if hit:
            return hit, -1
        return 0, base

    def appended(self, part):
        for l in self.append_listeners:
            l(part)
        if part.leader in self.brokers:
            b = self.brokers[part.leader]
            for w in list(b.waiting):
                w["check"]()

    def do_fetch(self, broker, conn, req, fault):
        t0 = self.sim.now
        wait = req.body["wait"] / 1000.0
        min_bytes = req.body["min_bytes"]
        state = {"done": False}

        def size():
            total = 0
            for name, parts in req.body["topics"]:
                for pid, off, max_bytes in parts:
                    p = self.topics.get(name, {}).get(pid)
                    if p is None or p.leader != broker.bid:
                        return None
                    if off < p.start or off > p.end:
                        return None
                    total += min(p.available(off), max(0, max_bytes))
            return total

        def finish():
            if state["done"]:
                return
            state["done"] = True
            if state in broker.waiting:
                broker.waiting.remove(state)
            if broker.up and not conn.server_closed:
                self._fetch_reply(broker, conn, req, fault)

        def check():
            n = size()
            if n is None or n >= min_bytes or self.sim.now >= t0 + wait or (
                    fault and fault["kind"] == "error"):
                finish()
                return True
            return False

        state["check"] = check
        if not check():
            broker.waiting.append(state)
            self.sim.after(max(0.0, wait), finish)

    def _fetch_reply(self, broker, conn, req, fault):
        out = []
        for name, parts in req.body["topics"]:
            res = []
            for pid, off, max_bytes in parts:
                p = self.topics.get(name, {}).get(pid)
                hit = self._hit(fault, name, pid)
                if hit:
                    res.append((pid, hit, -1, b""))
                elif p is None:
                    res.append((pid, UNKNOWN_TOPIC, -1, b""))
                elif p.leader != broker.bid:
                    self.sim.count("not-leader-answers")
                    res.append((pid, NOT_LEADER, -1, b""))
                elif off < p.start or off > p.end:
                    self.sim.count("out-of-range-answers")
                    res.append((pid, OOR, -1, b""))
                else:
                    res.append((pid, 0, p.end,
                                p.read(off, max(0, max_bytes))))
            out.append((name, res))
        broker.reply(conn, req, codec.enc_fetch(out), fault)

    def do_offsets(self, broker, conn, req, fault):
        out = []
        for name, parts in req.body["topics"]:
            res = []
            for pid, time, maxo in parts:
                p = self.topics.get(name, {}).get(pid)
                hit = self._hit(fault, name, pid)
                if hit:
                    res.append((pid, hit, []))
                elif p is None:
                    res.append((pid, UNKNOWN_TOPIC, []))
                elif p.leader != broker.bid:
                    self.sim.count("not-leader-answers")
                    res.append((pid, NOT_LEADER, []))
                else:
                    res.append((pid, 0, p.offsets_before(time, maxo)))
            out.append((name, res))
        broker.reply(conn, req, codec.enc_offsets(out), fault)

    def coordinator_of(self, group):
        live = self.live()
        if group not in self.coordinators and live:
            self.coordinators[group] = live[
                self.rng.randrange(len(live))].bid
        return self.coordinators.get(group)

    def do_coordinator(self, broker, conn, req, fault):
        if self._hit(fault):
            body = codec.enc_coord(fault["code"], -1, "", -1)
        else:
            bid = self.coordinator_of(req.body["group"])
            b = self.brokers.get(bid)
            never = self.cfg.get("no_lookup", ())
            if broker.bid in never and any(
                    b2.bid not in never for b2 in self.live()):
                # brokers that never know, while others do
                self.sim.count("lookup-refused")
                b = None
            if b is None or not b.up:
                body = codec.enc_coord(COORD_NA, -1, "", -1)
            else:
                body = codec.enc_coord(0, bid, b.host, b.port)
        broker.reply(conn, req, body, fault)

    def _coord_error(self, broker, group):
        if self.coordinator_of(group) != broker.bid:
            return self.coord_gone
        if self.coord_loading.get(group, 0) > self.sim.now:
            return LOADING
        return 0

    def do_offset_fetch(self, broker, conn, req, fault):
        group = req.body["group"]
        err = self._coord_error(broker, group)
        table = self.committed.get(group, {})
        out = []
        for name, pids in req.body["topics"]:
            res = []
            for pid in pids:
                hit = self._hit(fault, name, pid)
                if hit:
                    res.append((pid, -1, "", hit))
                elif err:
                    res.append((pid, -1, "", err))
                elif (name, pid) in table:
                    off, meta = table[(name, pid)]
                    res.append((pid, off, meta, 0))
                elif self.absent_mode == "error3":
                    res.append((pid, -1, "", UNKNOWN_TOPIC))
                else:
                    res.append((pid, -1, "", 0))
            out.append((name, res))
        broker.reply(conn, req, codec.enc_ofetch(out), fault)

    def do_offset_commit(self, broker, conn, req, fault):
        group = req.body["group"]
        err = self._coord_error(broker, group)
        table = self.committed.setdefault(group, {})
        out = []
        for name, parts in req.body["topics"]:
            res = []
            for pid, off, meta in parts:
                hit = self._hit(fault, name, pid)
                if hit and fault["kind"] == "error":
                    res.append((pid, hit))
                elif err:
                    res.append((pid, err))
                elif len(meta or "") > self.meta_max:
                    self.sim.count("metadata-too-long")
                    res.append((pid, META_TOO_LONG))
                else:
                    table[(name, pid)] = (off, meta)
                    self.commit_log.append(
                        (self.sim.now, group, name, pid, off, conn.cid))
                    res.append((pid, hit))
            out.append((name, res))
        broker.reply(conn, req, codec.enc_commit(out), fault)
