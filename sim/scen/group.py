"""
Grouped consumers of several processes sharing topics by way of the model
Kafka cluster and the model ZooKeeper ensemble (P18-P21, parts of P17, P22,
P24 and others).
"""
import asyncio
import random

from .. import gen, proc
from ..kafka import RETRIABLE
from ..world import World, Skip
from . import consumer as single
from . import zk as zks

NAME = "group"
GROUP = zks.GROUP
NO_LIMIT = float("inf")


# ---------------------------------------------------------------------------
# plans

def gen_coord_fault(r, cluster, T):
    if r.random() < 0.3:
        f = dict(at=round(r.random() * T, 4), kind="move_coordinator",
                 to=r.choice([b["id"] for b in cluster["brokers"]]),
                 loading=r.choice([None, None, 0.1, 1.0]))
        return gen.triggered(r, f, COORD_APIS)
    f = gen.gen_request_fault(
        r, ["coordinator", "offset_fetch", "offset_fetch", "offset_commit",
            "offset_commit", "offset_commit"], cluster, max_nth=20)
    return f


def sane(f):
    """Errors that would be lies are left out."""
    if f.get("kind") in ("error", "append_error"):
        if f.get("api") == "offset_fetch" and f.get("code") == 3:
            f["code"] = 14
        if f.get("api") == "fetch" and f.get("code") == 1:
            f["code"] = 6
        for pid, code in sorted(f.get("by_pid", {}).items()):
            if (f["api"], code) in (("offset_fetch", 3), ("fetch", 1)):
                f["by_pid"][pid] = 6
        if f["kind"] == "append_error" and f["api"] not in (
                "produce", "offset_commit"):
            f["kind"] = "error"
        if f.get("api") == "coordinator":
            f.pop("pids", None)
            f.pop("topics", None)
    return f


KAFKA_KINDS = ["crash", "crash", "migrate", "reset", "reset", "partition",
               "slow", "add_broker", "remove_broker", "readdress", "outage"]


COORD_APIS = ["offset_commit", "offset_commit", "offset_fetch", "fetch",
              "coordinator"]


def gen_plan(seed, profile="mix"):
    r = random.Random("group|%s|%s" % (profile, seed))
    topics = r.choice([1, 1, 2])
    if r.random() < 0.08:
        topics = r.choice([3, 4, 6])
    cluster = gen.gen_cluster(r, max_brokers=3, topics=topics,
                              max_parts=r.choice([4, 7]))
    if r.random() < 0.25:
        cluster["coord_gone"] = 15
    cluster["seg_size"] = r.choice([1, 5])
    cluster["absent_mode"] = r.choice(["error3", "minus"])
    cluster["meta_max"] = r.choice([4096, 4096, 4096, 12, 0])
    T = r.choice([2.0, 5.0, 9.0])
    zkc = zks.gen_zk(r, T)
    plan = dict(scenario=NAME, profile=profile, seed=seed, cluster=cluster,
                zk=zkc, net=gen.gen_net(r), T=T, allocator="naive",
                preempt=r.choice([0.0, 0.0, 0.05, 0.3]),
                line_p=r.choice([0.0, 0.0, 0.01, 0.1]),
                line_pause=r.choice([0.002, 0.02]),
                max_steps=6000000)
    bad = r.choice([0, 0, 0.1])
    gaps = r.choice([0, 0, 0, 0.2])
    if len(cluster["brokers"]) > 1 and r.random() < 0.2:
        ids = [b["id"] for b in cluster["brokers"]]
        cluster["no_lookup"] = r.sample(ids, r.choice(
            [1, 1, len(ids) - 1]))
    names = sorted(cluster["topics"])
    appends = []
    for t in names:
        for pid in range(len(cluster["topics"][t])):
            for _ in range(r.choice([0, 1, 2, 4])):
                b = single.gen_batch(r, t, pid, bad, False, gaps)
                b["at"] = round(-r.random() * 25, 3)
                appends.append(b)
            for _ in range(r.choice([0, 1, 2, 4])):
                b = single.gen_batch(r, t, pid, bad, False, gaps)
                b["at"] = round(r.random() * T * 1.1, 3)
                appends.append(b)
    appends.sort(key=lambda b: b["at"])
    plan["appends"] = appends
    auto = r.random() < 0.4
    if profile == "crash":
        auto = r.random() < 0.15
    plan["client"] = dict(
        hosts=gen.bootstrap(r, cluster), wait=r.choice([0, 10, 100, 300]),
        min_bytes=r.choice([1, 1, 1, 0]), deserializer="custom",
        room=r.choice(["tight", "loose"]), autocommit=auto,
        commit=r.choice(["each", "each", "some", "batch"]),
        pause=r.choice([0.01, 0.05, 0.2]),
        work=r.choice([0.0, 0.0, 0.02]),
        start=r.random() < 0.15,
        overlap=r.choice([None, None, "topics", "committer"]))
    n = r.choice([1, 2, 2, 3])
    if profile == "coord":
        n = r.choice([1, 1, 1, 2])
    members = []
    for i in range(n):
        m = dict(name="m%d" % i, host=r.choice(["alpha", "beta", "gamma"]),
                 at=round(r.choice([0, 0, 0.002, r.random() * T,
                                    r.random() * T]), 4))
        if profile in ("mix", "crash", "oor") and r.random() < 0.3:
            m["stop_at"] = round(m["at"] + r.random() ** 2 * T, 4)
        if profile == "close":
            m["stop_at"] = round(m["at"] + r.random() ** 2 * T, 4)
            m["abrupt"] = r.random() < 0.8
            m["back"] = r.choice([None, 0.0, 0.2])
        x = r.random()
        if profile == "crash" and x < 0.7 or profile == "mix" and x < 0.2:
            m["how"] = r.choice(["fin", "rst", "vanish", "vanish"])
            m["back"] = r.choice([None, 0.0, 0.01, 0.5, 3.0])
            if r.random() < 0.5:
                m["crash_at"] = round(m["at"] + r.random() ** 2 * T, 4)
            else:
                m["crash_on"] = [
                    r.choice([8, 8, 8, 9, 1, 1, 10]),
                    r.choice(["request", "end"]),
                    int(r.random() ** 1.5 * 12)]
        members.append(m)
    plan["members"] = members
    procs = [m["name"] for m in members]
    faults = []
    if profile == "mix":
        kf = gen.gen_faults(
            r, cluster, T, ["coordinator", "offset_fetch", "offset_commit",
                            "fetch", "metadata"],
            level=r.choice([0, 1, 1, 2, 3]), kinds=KAFKA_KINDS)
        faults += kf
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            faults.append(zks.gen_zk_fault(r, T, zkc, procs))
        if r.random() < 0.3:
            faults.append(gen_coord_fault(r, cluster, T))
    elif profile == "coord":
        for _ in range(r.choice([1, 2, 3, 4])):
            faults.append(gen_coord_fault(r, cluster, T))
        if len(names) > 1 and r.random() < 0.5:
            # commits of several topics, some of which are refused
            plan["client"].update(
                autocommit=False, commit=r.choice(["some", "batch"]),
                overlap=r.choice([None, None, "committer"]))
            for t in r.choice([names[:1], names[:1], names, names[1:]]):
                f = dict(api="offset_commit", kind="error", topics=[t],
                         code=r.choice(gen.CODES_RETRIABLE),
                         nth=r.choice([0, 0, 1, 2, 3]),
                         count=r.choice([1, 1, 2]))
                if r.random() < 0.3:
                    f["pids"] = [r.choice([0, 1, 2])]
                faults.append(f)
        for _ in range(r.choice([0, 1, 1, 2])):
            faults.append(gen.gen_timed_fault(
                r, cluster, T, KAFKA_KINDS, COORD_APIS))
    elif profile == "crash":
        for _ in range(r.choice([0, 0, 1, 2])):
            faults.append(gen_coord_fault(r, cluster, T))
        if r.random() < 0.3:
            faults.append(zks.gen_zk_fault(r, T, zkc, procs))
    elif profile == "rebalance":
        # one stays, others come and go
        del members[1:]
        members[0].pop("stop_at", None)
        for i in range(r.choice([1, 2, 3, 4])):
            at = r.random() * T
            m = dict(name="m%d" % (i + 1), at=round(at, 4),
                     host=r.choice(["alpha", "beta", "gamma"]))
            if r.random() < 0.75:
                m["stop_at"] = round(at + 0.2 + r.random() ** 2 * T / 2, 4)
            members.append(m)
        procs = [m["name"] for m in members]
        if r.random() < 0.6:
            # answers take long enough for rebalances to happen meanwhile
            for api in ("offset_fetch", "offset_fetch", "offset_commit",
                        "fetch"):
                for _ in range(r.choice([0, 1, 3])):
                    faults.append(dict(
                        api=api, kind="slow", delay=r.choice([0.1, 0.4, 1.0]),
                        nth=int(r.random() ** 1.5 * 15), count=1))
        for _ in range(r.choice([0, 1, 2])):
            f = zks.gen_zk_fault(r, T, zkc, procs)
            if "at" in f and r.random() < 0.7:
                f["kind"] = "zk_expire"
                f.setdefault("process", r.choice(procs))
            faults.append(f)
        for _ in range(r.choice([0, 0, 1])):
            faults.append(gen_coord_fault(r, cluster, T))
    elif profile == "close":
        for _ in range(r.choice([0, 1, 2])):
            faults.append(gen_coord_fault(r, cluster, T))
        for _ in range(r.choice([0, 0, 1])):
            faults.append(gen.gen_timed_fault(
                r, cluster, T, KAFKA_KINDS, COORD_APIS))
    elif profile == "oor":
        for _ in range(r.choice([1, 1, 2, 3])):
            t = r.choice(names)
            faults.append(dict(
                at=round(r.random() * T, 3), topic=t, kind="expire",
                pid=r.randrange(len(cluster["topics"][t])),
                n=r.choice([1, 3, 10, 100])))
        for _ in range(r.choice([0, 0, 1])):
            faults.append(gen_coord_fault(r, cluster, T))
    plan["faults"] = [sane(f) for f in faults]
    plan["after"] = r.choice(["none", "join", "join", "crash", "stop"])
    return plan


# ---------------------------------------------------------------------------
# reference

class Cand(object):
    """A position a member may hold for a partition."""
    __slots__ = ("base", "pos", "held", "src", "t", "found")

    def __init__(self, base, pos, src, t, found):
        self.base = base
        self.pos = pos
        self.held = pos          # up to where messages were handed out
        self.src = src
        self.t = t               # when it began to be looked up
        self.found = found

    def __repr__(self):
        return "%d..%d (%s)" % (self.base, self.pos, self.src)


class Call(object):
    def __init__(self, kind, topic, t0, d0):
        self.kind = kind
        self.topic = topic
        self.t0 = t0
        self.disturbances = d0
        self.expected = []       # [(key, uid, kind, raw)]
        self.fetched = set()
        self.refused = False
        self.outstanding = 0     # fetch requests without an answer
        self.committed = []      # positions of messages not returned yet
        self.overlapped = False


class Member(object):
    """One incarnation of a member of the group."""

    def __init__(self, w, spec, inc):
        self.w = w
        self.spec = spec
        self.inc = inc
        pid = 100 + w.next_pid
        w.next_pid += 1
        self.proc = proc.Proc(w, spec["name"], spec["host"], pid, self.main)
        self.rng = random.Random("%s|%s" % (w.plan["seed"], pid))
        self.consumer = None
        self.name = None
        self.started = self.stopping = self.stopped = False
        self.want_stop = False
        self.busy = None
        self.reset()
        self.wire_count = {}
        self.commands = []

    def reset(self):
        """A consumer instance is made."""
        self.alloc_set = None
        self.alloc_log = []      # (t, frozenset)
        self.est = {}            # key -> [Cand]
        self.past = {}           # key -> ([Cand], t_lost)
        self.basis = {}          # key -> why a lookup is in order
        self.past_basis = {}
        self.gained = {}
        self.rebals = []
        self.active = []         # calls under way
        self.last = None
        self.commit_over = None  # when a commit call was last over
        self.dropped = {}        # key -> ([Cand], t) found out of range
        self.seen = {}           # uid -> Call
        self.oor_at = {}         # key -> time of the last out of range
        self.dirty = set()
        self.named = []          # coordinators named to this member

    @property
    def alloc(self):
        return self.consumer.allocator

    @property
    def live(self):
        return self.started and not self.stopping and not self.proc.dead

    def v(self, prop, kind, detail):
        self.w.violation(prop, kind, "%s: %s" % (self.spec["name"], detail))

    # -- rebalances

    def allocate(self, members, partitions):
        from kiel.clients.grouped import naive_allocator
        mapping = naive_allocator(members, partitions)
        mine = frozenset(
            (t, pid) for t, pids in mapping.get(self.name, {}).items()
            for pid in pids)
        now = self.w.sim.now
        self.w.sim.count("rebalances")
        self.w.sim.trace("rebalance", self.spec["name"], len(members),
                         len(mine))
        before = self.alloc_set or frozenset()
        self.alloc_set = mine
        self.alloc_log.append((now, mine))
        self.rebals.append(now)
        for key in sorted(before - mine):
            self.past[key] = (self.est.pop(key, []), now)
            if key in self.basis:
                self.past_basis[key] = now
                del self.basis[key]
        for key in mine - before:
            self.gained[key] = now
            if before:
                self.w.sim.count("partitions-gained")
        return mapping

    def disturbed(self, t0, t1):
        """Was there a rebalance from t0 until t1, or about then?"""
        return any(t0 - self.w.eps <= t <= t1 + self.w.eps
                   for t in self.rebals)

    def begun_before(self, t):
        calls = self.active or ([self.last] if self.last else [])
        return any(c.t0 <= t + self.w.eps for c in calls)

    def consuming(self, topic):
        """The consume call under way for a topic."""
        for c in self.active:
            if c.topic == topic:
                return c

    def handed(self, c, key):
        """
        Up to where a position may be committed: what was returned, or is
        about to be by the call that commits.
        """
        call = self.consuming(key[0])
        if call is None or not call.outstanding:
            return c.pos         # perhaps on its way to the caller, see over()
        return c.held

    def cands(self, key):
        out = list(self.est.get(key, []))
        if key in self.past and self.begun_before(self.past[key][1]):
            out += self.past[key][0]
        return out

    def allocated(self, key):
        if self.alloc_set and key in self.alloc_set:
            return True
        return key in self.past and self.begun_before(self.past[key][1])

    def establish(self, key, off, src, rec):
        if not self.alloc_set or key not in self.alloc_set:
            return
        now = self.w.sim.now
        if rec.t_sent < self.gained.get(key, 0):
            return               # asked for before it was lost and regained
        call = self.consuming(key[0])
        new = Cand(off, off, src, min(rec.t_sent, call.t0) if call else
                   rec.t_sent, now)
        if self.disturbed(rec.t_sent, now):
            self.est.setdefault(key, []).append(new)
        else:
            self.est[key] = [new]
        self.w.sim.count("positions-established")

    # -- wire

    def on_wire(self, what, rec):
        n = (rec.api, what)
        self.wire_count[n] = self.wire_count.get(n, 0) + 1
        on = self.spec.get("crash_on")
        if on and not self.inc and n == (on[0], on[1]) and (
                self.wire_count[n] == on[2] + 1):
            self.w.halt_soon(self)
        if what == "end" and getattr(rec, "call", None) is not None:
            rec.call.outstanding -= 1
        if self.proc.dead:
            return
        if what == "request":
            f = {1: self.fetch_request, 2: self.offset_request,
                 8: self.commit_request, 9: self.ofetch_request}.get(rec.api)
            if self.stopped:
                self.v("P24", "sent-after-close", rec.req.name)
            if f:
                f(rec)
        elif rec.resp is not None and rec.t_resp is not None:
            f = {1: self.fetch_response, 2: self.offset_response,
                 8: self.commit_response, 9: self.ofetch_response,
                 10: self.coord_response}.get(rec.api)
            if f:
                f(rec)

    def coord_response(self, rec):
        err, bid, host, port = rec.resp
        if err == 0:
            self.named.append(bid)
            self.w.sim.count("coordinators-named")

    def coordinator_check(self, rec):
        if not self.named:
            self.v("P20", "coordinator-unasked", "%s sent to broker %s "
                   "before any coordinator was named" % (
                       rec.req.name, rec.broker))
        elif rec.broker != self.named[-1]:
            self.v("P20", "not-at-coordinator",
                   "%s sent to broker %s, the coordinator named last is %s"
                   % (rec.req.name, rec.broker, self.named[-3:]))
        if rec.req.body["group"] != GROUP:
            self.v("P20", "foreign-group", rec.req.body["group"])

    def ofetch_request(self, rec):
        self.coordinator_check(rec)

    def ofetch_response(self, rec):
        for topic, parts in rec.resp:
            for pid, off, meta, code in parts:
                key = (topic, pid)
                if code == 0 and off >= 0:
                    self.establish(key, off, "resumed", rec)
                elif code in (0, 3):
                    if self.alloc_set and key in self.alloc_set:
                        if not self.disturbed(rec.t_sent, self.w.sim.now):
                            self.est[key] = []
                        self.basis[key] = "none"
                    else:
                        self.past_basis[key] = self.w.sim.now
                    self.w.sim.count("nothing-committed")

    def offset_request(self, rec):
        for topic, parts in rec.req.body["topics"]:
            for pid, time, maxo in parts:
                key = (topic, pid)
                if time != -2:
                    self.v("P19", "wrong-start", "%s/%d asked for the offset"
                           " at %d" % (topic, pid, time))
                if key in self.basis:
                    continue
                if key in self.past_basis and self.begun_before(
                        self.past_basis[key]):
                    continue
                self.v("P19", "position-discarded",
                       "looks up the beginning of %s/%d, position %s" % (
                           topic, pid, self.est.get(key)))

    def offset_response(self, rec):
        for topic, parts in rec.resp:
            for pid, code, offs in parts:
                if code == 0 and offs and (topic, pid) in self.basis:
                    self.establish((topic, pid), offs[0], "beginning", rec)

    def fetch_request(self, rec):
        w = self.w
        for topic, parts in rec.req.body["topics"]:
            call = self.consuming(topic)
            if call is not None:
                call.outstanding += 1
                rec.call = call
            for pid, off, mx in parts:
                key = (topic, pid)
                w.fetch_log.append((w.sim.now, key, self))
                if call is not None:
                    call.fetched.add(key)
                if not self.allocated(key):
                    self.v("P17", "foreign-fetch", "fetches %s/%d, allocated "
                           "are %s" % (topic, pid, sorted(
                               self.alloc_set or ())))
                    continue
                cs = self.cands(key)
                if not cs:
                    for p in ("P19", "P18"):
                        self.v(p, "unestablished", "fetches %s/%d at %d "
                               "without a position from the broker" % (
                                   topic, pid, off))
                    continue
                hit = [c for c in cs if c.pos == off]
                if not hit:
                    top = max(c.pos for c in cs)
                    self.v("P19", "gap" if off > top else "repeat",
                           "fetches %s/%d at %d, position is %s" % (
                               topic, pid, off, cs))
                    continue
                if key in self.est and hit[0] in self.est[key]:
                    self.est[key] = [hit[0]]
                    if not self.disturbed(hit[0].t, w.sim.now):
                        self.basis.pop(key, None)

    def fetch_response(self, rec):
        w = self.w
        asked = {(t, p): off for t, ps in rec.req.body["topics"]
                 for p, off, _ in ps}
        for topic, parts in rec.resp:
            call = self.consuming(topic)
            for pid, code, hw, raw in parts:
                key = (topic, pid)
                if code == 1:
                    self.oor_at[key] = w.sim.now
                    w.sim.count("positions-lost")
                    if self.alloc_set and key in self.alloc_set:
                        self.dropped[key] = (self.est.get(key, []), w.sim.now)
                        if not self.disturbed(rec.t_sent, w.sim.now):
                            self.est[key] = []
                        self.basis[key] = "oor"
                    else:
                        self.past_basis[key] = w.sim.now
                if code != 0:
                    continue
                msgs = single.complete_messages(raw)
                for off, value in msgs:
                    uid, kind = self.values.get(value, (None, "null"))
                    if call is not None:
                        call.expected.append((key, uid, kind))
                    elif not self.stopping and kind in ("ok", "falsy"):
                        self.v("P19", "lost-in-failure", "%s of %s/%d read "
                               "with no call to return them" % (
                                   uid, topic, pid))
                if msgs:
                    for c in self.cands(key):
                        if c.pos == asked[key]:
                            c.pos = msgs[-1][0] + 1

    @property
    def values(self):
        return self.w.values

    def commit_request(self, rec):
        self.coordinator_check(rec)
        if not (self.w.plan["client"]["autocommit"]
                or any(c.kind == "commit" for c in self.active)
                or (self.commit_over is not None
                    and rec.t_sent <= self.commit_over + self.w.eps)):
            self.v("P18", "unasked", "commits %s on its own, automatic "
                   "commits are off" % (rec.req.body["topics"],))
        for topic, parts in rec.req.body["topics"]:
            for pid, off, meta in parts:
                key = (topic, pid)
                cs = self.cands(key)
                if key in self.dropped and self.begun_before(
                        self.dropped[key][1]):
                    cs = cs + self.dropped[key][0]
                self.w.sim.count("commits-sent")
                if self.consuming(topic):
                    self.w.sim.count("commits-amid-consume")
                if not cs:
                    self.v("P18", "unestablished-commit",
                           "commits %d for %s/%d without a position (it is "
                           "allocated %s)" % (off, topic, pid, sorted(
                               self.alloc_set or ())))
                    continue
                if any(c.base <= off <= self.handed(c, key) for c in cs):
                    call = self.consuming(topic)
                    if call and not any(c.base <= off <= c.held for c in cs):
                        call.committed.append((self.w.sim.now, key, off))
                    continue
                self.v("P18", "ahead" if off > max(
                    self.handed(c, key) for c in cs)
                       else "fallen-back", "commits %d for %s/%d, position "
                       "is %s" % (off, topic, pid, cs))

    def commit_response(self, rec):
        for topic, parts in rec.resp:
            for pid, code in parts:
                if code not in RETRIABLE and code not in (0, 12):
                    for call in self.active:
                        call.refused = True

    # -- the application

    def begin(self, kind, topic=None):
        c = Call(kind, topic, self.w.sim.now, self.w.disturbances)
        for other in self.active:
            if other.kind == "commit" or (
                    self.w.plan["client"]["autocommit"]):
                other.overlapped = c.overlapped = True
            if kind == "commit":
                other.overlapped = True
        self.active.append(c)
        return c

    def over(self, c):
        self.active.remove(c)
        self.last = c
        if c.kind == "commit":
            self.commit_over = self.w.sim.now
        if not self.w.plan["client"]["autocommit"]:
            for t, key, off in c.committed:
                if t < self.w.sim.now - self.w.eps:
                    self.v("P18", "ahead", "commits %d for %s, messages up to"
                           " there were returned only %.3fs later" % (
                               off, key, self.w.sim.now - t))
        for key, cs in list(self.est.items()):
            if key[0] == c.topic:
                for x in cs:
                    x.held = x.pos

    async def op(self, label, fn, allowed=(), timeout=180.0):
        from kiel import exc as kexc
        from kazoo import exceptions as ke
        r = await self.w.op("%s:%s" % (label, self.spec["name"]), fn,
                            timeout=timeout,
                            allowed=(kexc.KielError,) + tuple(allowed))
        if r.hang:
            self.v("P21", "hang:%s" % label, "%s never returns" % label)
        return r

    def make(self):
        from kiel import clients
        w = self.w
        cl = w.plan["client"]
        c = clients.GroupedConsumer(
            list(cl["hosts"]), GROUP, w.zk.hosts(),
            deserializer=single.make_deserializer(w, w),
            partition_allocator=self.allocate, autocommit=cl["autocommit"],
            max_wait_time=cl["wait"], min_bytes=cl["min_bytes"],
            max_bytes=w.max_bytes)
        self.reset()
        self.name = c.name
        return c

    async def connect(self):
        from kazoo import exceptions as ke
        from kazoo.handlers.threading import KazooTimeoutError
        w = self.w
        for attempt in range(40):
            if self.want_stop:
                return False
            self.consumer = self.make()
            self.busy = "connect"
            d0 = w.disturbances
            r = await self.op("connect", self.consumer.connect,
                              (ke.KazooException, KazooTimeoutError))
            self.busy = None
            if r.ok:
                if d0 == w.disturbances and not w.noisy:
                    self.check_registered("connect returned")
                return True
            w.sim.count("connect-failed")
            await self.op("close", self.consumer.close,
                          (ke.KazooException,))
            await w.sleep(0.5 + attempt * 0.1)
        return False

    session_id = zks.Member.session_id
    check_registered = zks.Member.check_registered

    async def main(self, p):
        if not await self.connect():
            return
        self.started = True
        w, cl = self.w, self.w.plan["client"]
        self.app = asyncio.ensure_future(self.loop())
        while not self.app.done() and not self.want_stop:
            await w.sleep(0.02 if not w.quiesced else 0.1)
        if self.want_stop and self.spec.get("abrupt") and not w.quiesced:
            await self.close()
        await asyncio.wait([self.app])
        self.app.result()
        if not self.stopped:
            await self.close()
        await self.after_close()

    async def loop(self):
        w = self.w
        topics = sorted(w.plan["cluster"]["topics"])
        overlap = w.plan["client"].get("overlap")
        if overlap == "topics":
            await w.gather(*[self.cycle([t]) for t in topics])
        elif overlap == "committer":
            await w.gather(self.cycle(topics), self.committer())
        else:
            await self.cycle(topics)

    async def committer(self):
        """Commits now and then while messages are being consumed."""
        w = self.w
        while not self.want_stop:
            await w.sleep(self.rng.choice([0.02, 0.1, 0.3, 0.8]))
            if not self.want_stop:
                await self.commit()

    async def cycle(self, topics):
        w, cl = self.w, self.w.plan["client"]
        n = 0
        while not self.want_stop:
            for t in topics:
                if self.want_stop:
                    return
                got = await self.consume(t)
                if cl["work"] and got:
                    await w.sleep(cl["work"])
                n += 1
                style = cl["commit"]
                if w.quiesced or style == "each" or (
                        style == "batch" and n % 5 == 0) or (
                        style == "some" and self.rng.random() < 0.3):
                    if (not cl["autocommit"] or style == "some") and (
                            not self.want_stop):
                        await self.commit()
            await w.sleep(cl["pause"] if not w.quiesced else 0.35)

    async def consume(self, topic):
        w = self.w
        c = self.begin("consume", topic)
        args = [topic]
        if w.plan["client"]["start"]:
            args.append(self.consumer.BEGINNING)
        r = await self.op("consume", lambda: self.consumer.consume(*args))
        self.over(c)
        if self.proc.dead or r.hang:
            return None
        t1 = w.sim.now
        want = [u for _, u, k in c.expected if k in ("ok", "falsy")]
        if r.exc is not None:
            if want:
                for p in ("P19", "P21", "P18"):
                    self.v(p, "lost-in-failure", "consume(%s) raised %r "
                           "having read %s" % (topic, r.exc, want[:10]))
            return None
        got = [x.uid if isinstance(x, single.Falsy) else x
               for x in (r.value or [])]
        if c.fetched:
            self.dirty.add(topic)
        if self.stopping:
            # what the socket took just before it was closed is lost with it
            want = [u for u in want if u in got]
            c.expected = [x for x in c.expected if x[1] in got]
        if sorted(got) != sorted(want):
            miss = [u for u in want if u not in got]
            for p in ("P19", "P18") + (("P21",) if miss else ()):
                self.v(p, "missing" if miss else "extra",
                       "consume(%s) returned %s, read were %s" % (
                           topic, got[:20], want[:20]))
        by_key = {}
        for key, u, k in c.expected:
            if k in ("ok", "falsy"):
                by_key.setdefault(key, []).append(u)
        for key, us in sorted(by_key.items()):
            if [u for u in got if u in us] != us:
                self.v("P09", "reordered", "%s: %s" % (key, got[:20]))
            for u in us:
                w.delivered.setdefault(u, []).append(self)
                old = self.seen.get(u)
                if old is not None and not self.disturbed(old.t0, t1) and (
                        self.oor_at.get(key, -1) < old.t0):
                    self.v("P19", "returned-twice", "message %s of %s "
                           "returned at %.3f and %.3f with no rebalance in "
                           "between" % (u, key, old.t0 - w.sim.t_start,
                                        c.t0 - w.sim.t_start))
                self.seen[u] = c
        w.sim.count("messages-returned", len(got))
        return got

    async def commit(self):
        w = self.w
        c = self.begin("commit")
        before = {k: [(x.base, x.held if self.consuming(k[0]) else x.pos,
                       x.src, x.t, x.found) for x in v]
                  for k, v in self.est.items()}
        dirty, self.dirty = self.dirty, set()
        r = await self.op("commit", self.consumer.commit_offsets)
        self.over(c)
        if self.proc.dead:
            return
        if not r.ok:
            self.dirty |= dirty
            return
        if self.disturbed(c.t0, w.sim.now) or c.refused or self.stopping or (
                c.overlapped):
            return
        w.sim.count("commits-returned")
        for key in sorted(before):
            if key[0] not in dirty or len(before[key]) != 1 or (
                    key not in self.alloc_set):
                continue
            base, pos, src, t, found = before[key][0]
            if any(t - w.eps < x <= c.t0 for x in self.rebals):
                continue
            if c.t0 - found < w.eps:
                continue    # read off the socket, yet to be handled
            mine = [e for e in w.kafka.commit_log
                    if e[1] == GROUP and (e[2], e[3]) == key and
                    w.cids.get(e[5]) is self]
            if mine and mine[-1][4] == pos:
                continue
            if w.plan["client"].get("overlap") and any(
                    e[4] >= pos for e in mine):
                continue
            if src == "resumed" and pos == base:
                continue
            self.v("P20", "not-committed", "commit returned at %.3f, %s is "
                   "at %d, last commit held %s" % (
                       w.t, key, pos, [e[4] for e in mine[-2:]]))

    async def close(self):
        w = self.w
        self.stopping = True
        self.busy = "close"
        d0 = w.disturbances
        r = await self.op("close", self.consumer.close)
        self.busy = None
        if r.exc is not None:
            self.v("P24", "close-failed", repr(r.exc))
        self.stopped = True
        self.n_sent = len(w.net.connect_log)
        if self.proc.sockets():
            self.v("P24", "open-after-close", [
                s.peer for s in self.proc.sockets()])
        if d0 == w.disturbances and not w.noisy and (
                self.name in w.registered()) and (
                w.registered()[self.name] == self.session_id):
            self.v("P22", "not-removed", "still registered once closed")

    async def after_close(self):
        w = self.w
        await w.sleep(0.5)
        topic = sorted(w.plan["cluster"]["topics"])[0]
        r = await self.op("consume-closed",
                          lambda: self.consumer.consume(topic), timeout=5.0)
        if r.ok and r.value:
            self.v("P24", "consumed-after-close", r.value)
        await w.sleep(1.0)
        mine = [c for c in w.net.connect_log[self.n_sent:]
                if c[2] == self.proc.p.name and c[0] > self.proc.t_start]
        if self.proc.sockets() or (mine and not any(
                m is not self and m.proc.p.name == self.proc.p.name
                and not m.proc.done for m in w.members)):
            self.v("P24", "connects-after-close", "%s %s" % (
                mine, [s.peer for s in self.proc.sockets()]))


# ---------------------------------------------------------------------------

def run(plan, keep_trace=False):
    w = World(plan, keep_trace)
    proc.arm()
    w.sim.preempt_p = plan.get("preempt", 0.0)
    w.sim.line_p = plan.get("line_p", 0.0)
    w.sim.line_pause = plan.get("line_pause", 0.02)
    w.sim.multi = True
    w.eps = 0.15 + 8 * w.sim.line_pause if w.sim.line_p else 0.01
    w.members = []
    w.history = []
    w.next_pid = 0
    w.quiesced = False
    w.values = {}
    w.delivered = {}
    w.fetch_log = []
    w.cids = {}
    w.registered = lambda: zks.registered(w)
    return w.run(main)


def spawn(w, spec, inc=0):
    m = Member(w, spec, inc)
    w.members.append(m)
    m.proc.start()
    return m


def on_wire(w, what, rec):
    for m in reversed(w.members):
        if m.proc.p is rec.process:
            w.cids[rec.cid] = m
            m.on_wire(what, rec)
            return


async def main(w):
    plan, sim = w.plan, w.sim
    zks.install(w)
    w.kafka.wire.listeners.append(lambda what, rec: on_wire(w, what, rec))
    append = single.attach(w, w)
    w.append = append
    nparts = max(len(v) for v in plan["cluster"]["topics"].values())
    w.max_bytes = int(single.batch_bytes(plan) * nparts * (
        1.0 if plan["client"]["room"] == "tight" else 2.7)) + 1
    w.install_faults([f for f in plan["faults"]
                      if not f["kind"].startswith("zk_")])
    w.crashed = False
    halted = []
    boots = []
    w.halts = []

    def halt(m):
        if m.proc.dead or m.proc.done or w.quiesced and not m.spec.get(
                "late"):
            return
        w.disturbances += 1
        w.crashed = True
        m.proc.halt(m.spec.get("how", "vanish"))
        halted.append(m)
        if m.spec.get("back") is not None and not m.inc:
            boots.append((sim.now + m.spec["back"], m.spec, 1))
    w.halt = halt
    w.halt_soon = lambda m: sim.after(0, halt, m)

    for spec in plan["members"]:
        boots.append((sim.t_start + spec["at"], spec, 0))

    def boot(spec, inc):
        m = spawn(w, spec, inc)
        if inc:
            return
        if spec.get("stop_at") is not None:
            sim.at(max(sim.now, sim.t_start + spec["stop_at"]), stop, m)
        if spec.get("crash_at") is not None:
            sim.at(max(sim.now, sim.t_start + spec["crash_at"]), halt, m)

    def stop(m):
        if w.quiesced or m.proc.dead:
            return
        m.want_stop = True
        if m.spec.get("back") is not None and "crash_at" not in m.spec and (
                "crash_on" not in m.spec):
            boots.append((sim.now + m.spec["back"], m.spec, 1))

    def turn():
        while halted:
            halted.pop(0).proc.reap()
        for b in list(boots):
            if b[0] <= sim.now:
                boots.remove(b)
                boot(b[1], b[2])
    while w.t < plan["T"]:
        turn()
        await w.sleep(0.003 if w.t < 0.1 else 0.01)
    turn()
    for b in boots:
        boot(b[1], 1)
    w.quiesce()
    w.zk.quiesce()
    if all(m.proc.done or m.want_stop for m in w.members):
        spawn(w, dict(name="fresh", host="delta"), 1)
    await settle(w)
    check(w, "faults ended")
    await finish_reading(w, "faults ended")
    kind = plan["after"]
    live = [m for m in w.members if m.live]
    if kind != "none" and live:
        m = live[plan["seed"] % len(live)]
        if kind == "stop":
            m.want_stop = True
        elif kind == "crash":
            w.crashed = True
            m.proc.crash("vanish")
        if kind == "join" or len(live) == 1:
            spawn(w, dict(name="late", host="delta", late=True), 1)
        await w.sleep(1.0)
        for t in sorted(plan["cluster"]["topics"]):
            for pid in sorted(w.kafka.topics.get(t, {})):
                append(dict(topic=t, pid=pid, items=[["ok", 4, None, 0]] * 2,
                            codec=0, block=100))
        await settle(w)
        if kind == "join" or len(live) == 1:
            have = zks.shared(w)
            want = set("%s:%d" % (t, pid) for t in w.kafka.topics
                       for pid in w.kafka.topics[t])
            if have != want:
                w.violation("P23", "incomplete", "the set holds %s after a "
                            "member that knows %s joined" % (
                                sorted(have), sorted(want)))
        check(w, "after %s" % kind)
        await finish_reading(w, "after %s" % kind)
    sim.line_p = 0.0
    for m in w.members:
        m.want_stop = True
    await zks.until(w, lambda: all(m.proc.done for m in w.members), 60.0)
    for m in w.members:
        if not m.proc.done:
            w.violation("P24", "hang:stop", "%s: %s" % (m.name, m.busy))
    left = sorted(zks.registered(w))
    mine = set(m.name for m in w.members if m.stopped)
    if mine.intersection(left):
        w.violation("P22", "not-removed", "%s registered with everything "
                    "closed" % left)


def problems(w):
    out = [x for x in zks.problems(w)
           if x[1] not in ("update-lost", "invented")]
    return out


async def settle(w):
    """Sessions of the dead expire, clients reconnect, members start."""
    def idle():
        return all(m.proc.done or m.stopping or (
            m.started and m.busy is None) for m in w.members)
    if not await zks.until(w, idle, w.plan["zk"]["max_timeout"] + 124.0):
        for m in w.members:
            if not m.proc.done and m.busy is not None:
                for p in ("P17", "P21", "P22"):
                    w.violation(p, "hang:%s" % m.busy, "%s of %s never "
                                "returns" % (m.busy, m.spec["name"]))
                raise Skip()
            if not m.proc.done and not m.started:
                w.violation("P21", "never-connected", "%s keeps failing to "
                            "connect" % m.spec["name"])
                raise Skip()
    end = w.sim.now + w.plan["zk"]["max_timeout"] + 45.0
    good = w.sim.now
    while w.sim.now < end and w.sim.now < good + 1.5:
        await w.sleep(0.25)
        if problems(w) or not attached(w):
            good = w.sim.now


def attached(w):
    """Do all live members have a connected session?"""
    reg = zks.registered(w)
    for m in w.members:
        if m.live:
            s = w.zk.sessions.get(reg.get(m.name))
            if s is None or s.closed or s.conn is None:
                return False
    return True


def check(w, when):
    for prop, kind, detail in problems(w):
        w.violation(prop, kind, "%s: %s" % (when, detail))
    if w.sim.violations:
        raise Skip()


def logged(w):
    """{uid: (key, offset)} of what is in the logs."""
    out = {}
    for t in sorted(w.kafka.topics):
        for pid, p in sorted(w.kafka.topics[t].items()):
            for off, value in single_log(p):
                uid, kind = w.values.get(value, (None, "null"))
                if kind in ("ok", "falsy") and off >= p.start:
                    out[uid] = ((t, pid), off)
    return out


def single_log(p):
    return [(m[0], m[2]) for m in p.msgs]


def left_over(w):
    """[(property, kind, detail)] of what isn't read or committed yet."""
    have = zks.shared(w)
    out = []
    committed = w.kafka.committed.get(GROUP, {})
    for t in sorted(w.kafka.topics):
        for pid, p in sorted(w.kafka.topics[t].items()):
            if "%s:%d" % (t, pid) not in have or not p.end:
                continue
            off = committed.get((t, pid), (None,))[0]
            if off != p.end:
                out.append(("P21", "not-committed", "%s/%d: committed is %s, "
                            "its end is %d" % (t, pid, off, p.end)))
    if w.plan["client"]["autocommit"] and w.crashed:
        return out
    for uid, (key, off) in sorted(logged(w).items()):
        if "%s:%d" % key in have and uid not in w.delivered:
            out.append(("P19", "never-returned", "message %s of %s at %d" % (
                uid, key, off)))
    return out


async def finish_reading(w, when):
    batches = max(len(p.batches) for ps in w.kafka.topics.values()
                  for p in ps.values())
    many = max(1.0, len(w.kafka.topics) / 2.0)   # taken in turns
    end = w.sim.now + (10.0 + batches * 1.5) * many
    while w.sim.now < end and left_over(w):
        await w.sleep(0.3)
    left = left_over(w)
    for prop, kind, detail in left[:3]:
        w.violation(prop, kind, "%s: %s" % (when, detail))
        if prop == "P21":
            w.violation("P20", "never-committed", "%s: %s" % (when, detail))
    if left:
        raise Skip()
    # every partition is fetched by its one owner
    n = len(w.fetch_log)
    t0 = w.sim.now
    await w.sleep((2.0 + w.plan["client"]["wait"] / 1000.0 * 4) * many)
    have = zks.shared(w)
    who = {}
    for t, key, m in w.fetch_log[n:]:
        who.setdefault("%s:%d" % key, set()).add(m.spec["name"])
    for it in sorted(have):
        if len(who.get(it, ())) != 1:
            w.violation("P17", "fetched-by", "%s: %s is fetched by %s" % (
                when, it, sorted(who.get(it, ()))))
    if w.sim.violations:
        raise Skip()
