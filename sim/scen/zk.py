"""
Partition allocators of several processes sharing a model ZooKeeper ensemble
(P17, P22, P23 and the allocator's part of P24).
"""
import random

from .. import gen, proc
from ..world import World, Skip

NAME = "zk"
GROUP = "workers"


def gen_zk(r, T, servers=None):
    n = servers or r.choice([1, 1, 3, 3])
    cfg = dict(servers=[["zk%d" % i, 2181 + i] for i in range(n)],
               min_timeout=r.choice([4.0, 6.0, 10.0]))
    cfg["max_timeout"] = max(cfg["min_timeout"], r.choice([4.0, 10.0]))
    if r.random() < 0.4:
        cfg["apply_delay"] = r.choice([0.02, 0.1, 0.4])
    if r.random() < 0.3:
        cfg["straggle"] = r.choice([0.05, 0.3])
    if r.random() < 0.3:
        cfg["commit_delay"] = r.choice([0.02, 0.1])
    if r.random() < 0.3:
        cfg["proc_delay"] = r.choice([0.01, 0.05])
    return cfg


ZK_APIS = ["create", "create", "delete", "exists", "get", "set", "set",
           "children", "multi", "multi", "close"]


def gen_zk_fault(r, T, zk, procs, apis=ZK_APIS):
    """One fault of the ensemble or of a connection to it."""
    n = len(zk["servers"])
    if r.random() < 0.5:
        api = r.choice(apis)
        f = dict(kind=r.choice(["zk_drop_before", "zk_drop_after",
                                "zk_drop_after", "zk_slow",
                                "zk_slow_commit"]),
                 api=api, nth=int(r.random() ** 1.5 * 12),
                 count=r.choice([1, 1, 1, 2]))
        if f["kind"] == "zk_slow_commit" and api in (
                "exists", "get", "children"):
            f["kind"] = "zk_slow"
        f["how"] = r.choice(["rst", "fin"])
        f["delay"] = r.choice([0.05, 0.3, 1.0, 2.5])
        if r.random() < 0.3:
            f["process"] = r.choice(procs)
        return f
    kind = r.choice(["zk_crash", "zk_outage", "zk_reset", "zk_expire",
                     "zk_expire", "zk_partition", "zk_partition",
                     "zk_lag", "zk_slow_server", "zk_stall"])
    f = dict(at=round(r.random() * T, 4), kind=kind)
    if kind in ("zk_crash", "zk_lag", "zk_slow_server"):
        f["server"] = r.randrange(n)
        f["dur"] = r.choice([0.2, 1.0, 5.0])
    if kind == "zk_outage":
        f["dur"] = r.choice([0.2, 2.0, 8.0])
    if kind == "zk_stall":
        f["dur"] = r.choice([0.3, 1.5])
    if kind in ("zk_lag", "zk_slow_server"):
        f["delay"] = r.choice([0.05, 0.4, 1.5])
    if kind in ("zk_reset", "zk_expire", "zk_partition"):
        f["process"] = r.choice(procs)
        f["how"] = r.choice(["rst", "fin"])
        f["dur"] = r.choice([0.5, 3.0, 9.0, 14.0])
    return f


def gen_stall(r, procs):
    """A thread that stops for long, its session perhaps expiring."""
    return dict(kind="thread_stall", process=r.choice(procs),
                part=r.choice(["shared_set.py", "shared_set.py",
                               "shared_set.py", "party.py",
                               "allocator.py"]),
                nth=int(r.random() ** 1.3 * 40),
                dur=r.choice([0.3, 1.0, 3.0, 9.0]),
                expire=r.random() < 0.6, when=r.choice([0.0, 0.1, 0.5]))


def gen_plan(seed, profile="mix"):
    r = random.Random("zk|%s|%s" % (profile, seed))
    T = r.choice([2.0, 6.0, 12.0])
    zk = gen_zk(r, T)
    n = r.choice([1, 2, 2, 3, 3, 4])
    topics = ["t%d" % i for i in range(r.choice([1, 1, 2, 3]))]
    allp = ["%s:%d" % (t, p) for t in topics
            for p in range(r.choice([1, 2, 3, 5, 11]))]
    members = []
    for i in range(n):
        seeds = [p for p in allp if r.random() < r.choice([0.5, 0.9, 1.0])]
        ops = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            kind = r.choice(["add", "add", "remove"])
            items = r.sample(allp, min(len(allp), r.choice([1, 1, 2, 4])))
            if kind == "add" and r.random() < 0.5:
                items = ["new%d:%d" % (r.randrange(4), r.randrange(3))
                         for _ in range(r.choice([1, 2, 3]))]
            ops.append(dict(op=kind, d=round(r.random() ** 2 * T / 2, 3),
                            items=sorted(set(items))))
        members.append(dict(
            name="m%d" % i, host=r.choice(["alpha", "beta", "gamma"]),
            at=round(r.choice([0, 0, 0.002, r.random() * T,
                               r.random() * T]), 4),
            seeds=seeds, ops=ops,
            same_name=r.random() < 0.3))
        if r.random() < 0.3:
            members[-1]["stop_at"] = round(
                members[-1]["at"] + r.random() ** 2 * T, 4)
        if r.random() < 0.3:
            members[-1]["crash_at"] = round(
                members[-1]["at"] + r.random() ** 2 * T, 4)
            members[-1]["how"] = r.choice(["fin", "rst", "vanish", "vanish"])
            members[-1]["back"] = r.choice([None, 0.0, 0.01, 0.5, 3.0, 9.0])
    procs = [m["name"] for m in members]
    faults = []
    if profile == "mix":
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            faults.append(gen_zk_fault(r, T, zk, procs))
    elif profile == "session":
        for _ in range(r.choice([1, 2, 3])):
            f = gen_zk_fault(r, T, zk, procs)
            if "at" in f:
                f["kind"] = r.choice(["zk_expire", "zk_partition"])
                f.setdefault("process", r.choice(procs))
                f.setdefault("how", "rst")
                f["dur"] = r.choice([3.0, 9.0, 14.0])
            faults.append(f)
            if "at" in f and r.random() < 0.5:
                # coming back fails just as well
                faults.append(dict(
                    kind=r.choice(["zk_drop_before", "zk_drop_after",
                                   "zk_slow"]),
                    api=r.choice(["exists", "create", "create", "multi",
                                  "children"]),
                    nth=r.choice([0, 0, 0, 1]), count=r.choice([1, 1, 2, 3]),
                    process=f["process"], how=r.choice(["rst", "fin"]),
                    delay=r.choice([0.3, 2.5]), **{"from": f["at"]}))
        if r.random() < 0.3:
            # lost, cut off before it's back, and stopped
            m = r.choice(members)
            at = round(r.random() * T, 4)
            d = r.choice([0.02, 0.1, 0.5, 1.5])
            faults.append(dict(at=at, kind="zk_expire", process=m["name"],
                               how="rst", dur=1.0))
            faults.append(dict(at=round(at + r.random() * d, 4),
                               kind="zk_partition", process=m["name"],
                               how="rst", dur=r.choice([3.0, 9.0])))
            m["stop_at"] = round(at + d + r.random() * 2, 4)
    elif profile == "set":
        # contention for the shared set
        for m in members:
            m["at"] = round(r.random() * 0.05, 4)
            m.pop("stop_at", None)
            if r.random() < 0.7:
                m.pop("crash_at", None)
        for _ in range(r.choice([0, 1, 2, 3])):
            f = gen_zk_fault(r, 2.0, zk, procs, ["create", "delete", "get",
                                                 "set", "set", "children"])
            faults.append(f)
    plan = dict(scenario=NAME, profile=profile, seed=seed, zk=zk, T=T,
                net=gen.gen_net(r), members=members, faults=faults,
                preempt=r.choice([0.0, 0.0, 0.05, 0.3]),
                line_p=r.choice([0.0, 0.01, 0.1, 0.3]),
                line_pause=r.choice([0.002, 0.02, 0.2]),
                allocator=r.choice(["naive"] * 6 + ["first"]),
                max_steps=1500000)
    if r.random() < 0.35:
        for _ in range(r.choice([1, 1, 2, 3])):
            faults.append(gen_stall(r, procs))
    plan["after"] = r.choice(["stop", "crash", "remove", "none", "join"])
    return plan


# ---------------------------------------------------------------------------

def first_allocator(members, partitions):
    mapping = {}
    for p in (partitions if members else []):
        t, pid = p.split(":")
        mapping.setdefault(members[0], {}).setdefault(t, []).append(int(pid))
    return mapping


def to_dict(items):
    out = {}
    for p in items:
        t, pid = p.split(":")
        out.setdefault(t, []).append(int(pid))
    return out


class Member(object):
    """One incarnation of a member: a process with an allocator."""

    def __init__(self, w, spec, inc):
        self.w = w
        self.spec = spec
        self.inc = inc
        pid = 100 + w.next_pid
        w.next_pid += 1
        self.name = "%s:%d" % (spec["host"], 7000 + (
            w.names.setdefault(spec["name"], len(w.names))
            if spec["same_name"] else pid))
        self.proc = proc.Proc(w, spec["name"], spec["host"], pid, self.main)
        self.alloc = None
        self.started = False
        self.stopping = False
        self.stopped = False
        self.want_stop = False
        self.commands = []
        self.rebalances = 0
        self.busy = None

    @property
    def live(self):
        return self.started and not self.stopping and not self.proc.dead

    def history(self, kind, items):
        h = dict(kind=kind, items=set(items), t0=self.w.sim.now, t1=None,
                 ok=None, member=self)
        self.w.history.append(h)
        return h

    async def call(self, label, fn, h=None):
        from kazoo import exceptions as ke
        self.busy = label
        r = await self.w.op("%s:%s" % (label, self.spec["name"]), fn,
                            allowed=(ke.KazooException,))
        self.busy = None
        if h is not None:
            h["t1"] = self.w.sim.now
            h["ok"] = r.ok
        if r.exc is not None:
            self.w.sim.count("zk-op-failed")
        return r

    def on_rebalance(self):
        self.rebalances += 1
        self.w.sim.count("rebalances")

    def make(self):
        from kiel.zookeeper.allocator import PartitionAllocator
        from kiel.clients.grouped import naive_allocator
        fn = naive_allocator
        if self.w.plan["allocator"] == "first":
            fn = first_allocator
        return PartitionAllocator(
            self.w.zk.hosts(), GROUP, self.name, fn,
            on_rebalance=self.on_rebalance)

    async def main(self, p):
        w = self.w
        for attempt in range(30):
            if self.want_stop:
                return
            self.alloc = self.make()
            faults0 = w.disturbances
            h = self.history("add", self.spec["seeds"])
            r = await self.call(
                "start", lambda: self.alloc.start(to_dict(
                    self.spec["seeds"])), h)
            if r.ok:
                break
            if not w.disturbances and not w.noisy:
                w.violation("P22", "start-failed",
                            "%s could not join: %r" % (self.name, r.exc))
            await self.call("stop", self.alloc.stop)
            await w.sleep(0.5 + attempt * 0.2)
        else:
            return
        self.started = True
        if faults0 == w.disturbances and not w.noisy:
            self.check_registered("start returned")
        todo = list(self.spec["ops"])
        while not self.want_stop:
            if self.commands:
                op = self.commands.pop(0)
            elif todo and not w.quiesced:
                op = todo.pop(0)
                end = w.sim.now + op["d"]
                while w.sim.now < end and not self.want_stop and (
                        not w.quiesced):
                    await w.sleep(min(0.25, end - w.sim.now))
                if self.want_stop:
                    break
            else:
                await w.sleep(0.1)
                continue
            fn = (self.alloc.add_partitions if op["op"] == "add"
                  else self.alloc.remove_partitions)
            h = self.history(op["op"], op["items"])
            await self.call(op["op"], lambda: fn(to_dict(op["items"])), h)
        await self.stop()

    async def stop(self):
        w = self.w
        self.stopping = True
        d0 = w.disturbances
        r = await self.call("stop", self.alloc.stop)
        self.stopped = True
        if r.exc is not None:
            w.violation("P24", "stop-failed", "%s: %r" % (self.name, r.exc))
        if self.proc.sockets():
            w.violation("P24", "open-after-close", "%s holds %s" % (
                self.name, [s.peer for s in self.proc.sockets()]))
        if d0 == w.disturbances and not w.noisy:
            if self.name in w.registered() and w.registered()[
                    self.name] == self.session_id:
                w.violation("P22", "not-removed",
                            "%s still registered once closed" % self.name)
        n0 = len(w.net.connect_log)
        await w.sleep(1.0)
        mine = [c for c in w.net.connect_log[n0:]
                if c[2] == self.proc.p.name]
        if mine or self.proc.sockets():
            w.violation("P24", "connects-after-close", mine)
        await w.sleep(12.0)
        left = [(th.name, th.target) for th in self.proc.p.threads
                if th is not w.sim.current() and th.state != "dead"]
        if left:
            w.violation("P24", "threads-after-close", "%s: %s still run" % (
                self.name, left))

    @property
    def session_id(self):
        return self.alloc.conn.client_id[0] if self.alloc and (
            self.alloc.conn.client_id) else None

    def check_registered(self, when):
        w = self.w
        reg = w.registered()
        if self.name not in reg:
            w.violation("P22", "not-registered", "%s: %s isn't among %s" % (
                when, self.name, sorted(reg)))
        elif reg[self.name] != self.session_id:
            w.violation("P22", "foreign-registration",
                        "%s: node of %s belongs to session %x" % (
                            when, self.name, reg[self.name]))


def members_path():
    return "/kiel/groups/%s/members" % GROUP


def registered(w):
    """{member: owner session} at the leader."""
    nodes = w.zk.tree.nodes
    root = members_path()
    n = nodes.get(root)
    if n is None:
        return {}
    return {c: nodes[root + "/" + c].owner for c in sorted(n.children)}


def install(w):
    """Timed and counted faults of the ensemble."""
    from ..world import Fatal
    zk, sim, net = w.zk, w.sim, w.net
    w.disturbances = 0
    w.noisy = False

    def timed(f):
        if w.quiesced:
            return
        kind = f["kind"]
        w.disturbances += 1
        srv = zk.servers[f.get("server", 0) % len(zk.servers)]
        ps = [m.proc.p for m in w.members
              if m.spec["name"] == f.get("process") and not m.proc.dead]
        p = ps[-1] if ps else None
        if kind == "zk_crash":
            zk.crash(srv.i, f["dur"])
        elif kind == "zk_outage":
            zk.outage(f["dur"])
        elif kind == "zk_stall":
            sim.fault("zk-commit-stall")
            zk.stall_until = sim.now + f["dur"]
        elif kind == "zk_lag":
            sim.fault("zk-follower-lag")
            srv.lag = f["delay"]
            sim.after(f["dur"], setattr, srv, "lag", 0.0)
        elif kind == "zk_slow_server":
            sim.fault("zk-slow-server")
            srv.slow = f["delay"]
            sim.after(f["dur"], setattr, srv, "slow", 0.0)
        elif p is None:
            return
        elif kind == "zk_reset":
            for s in zk.servers:
                for c in list(s.conns):
                    if c.process is p:
                        sim.fault("zk-connection-reset")
                        s.drop(c, f["how"])
        elif kind == "zk_expire":
            for sid in sorted(zk.sessions):
                s = zk.sessions[sid]
                if s.process is p and not s.closed:
                    sim.fault("zk-session-expiry")
                    zk.expire(s)
        elif kind == "zk_partition":
            sim.fault("zk-partition")
            keys = [(p.name, s.addr) for s in zk.servers]
            for k in keys:
                net.block(k)

            def over():
                for k in keys:
                    net.unblock(k)
            sim.after(f["dur"], over)
        else:
            raise Fatal("unknown fault %s" % kind)

    def expire(f):
        timed(dict(kind="zk_expire", process=f["process"]))

    sim.stall_end = sim.t_start + w.plan["T"]
    for f in w.plan["faults"]:
        if f["kind"] == "thread_stall":
            w.noisy = True
            sim.line_stalls.append(dict(f, hook=expire if f["expire"]
                                        else None))
        elif f["kind"].startswith("zk_"):
            if "at" in f:
                sim.at(sim.t_start + f["at"], timed, f)
            else:
                w.noisy = True
                zk.faults.append(dict(f))


def run(plan, keep_trace=False):
    w = World(plan, keep_trace)
    proc.arm()
    w.sim.preempt_p = plan.get("preempt", 0.0)
    w.sim.line_p = plan.get("line_p", 0.0)
    w.sim.line_pause = plan.get("line_pause", 0.02)
    w.sim.multi = True
    w.members = []
    w.history = []
    w.names = {}
    w.next_pid = 0
    w.quiesced = False
    w.registered = lambda: registered(w)
    return w.run(main)


def spawn(w, spec, inc=0):
    m = Member(w, spec, inc)
    w.members.append(m)
    m.proc.start()
    return m


async def main(w):
    plan, sim = w.plan, w.sim
    install(w)

    def boot(spec, inc=0):
        if w.quiesced and inc == 0:
            return
        m = spawn(w, spec, inc)
        if inc:
            return
        if spec.get("stop_at") is not None:
            sim.at(max(sim.now, sim.t_start + spec["stop_at"]),
                   setattr, m, "want_stop", True)
        if spec.get("crash_at") is not None:
            sim.at(max(sim.now, sim.t_start + spec["crash_at"]),
                   crash, m, spec)

    w.pending_crashes = []

    def crash(m, spec):
        w.pending_crashes.append((m, spec))

    for spec in plan["members"]:
        sim.at(sim.t_start + spec["at"], crash, None, spec)
    end = plan["T"]
    backs = []
    while w.t < end:
        todo, w.pending_crashes = w.pending_crashes, []
        for m, spec in todo:
            if m is None:
                boot(spec)
            elif not m.proc.done:
                w.disturbances += 1
                m.proc.crash(spec["how"])
                if spec["back"] is not None:
                    backs.append((w.t + spec["back"], spec))
        for b in list(backs):
            if b[0] <= w.t:
                backs.remove(b)
                boot(b[1], 1)
        await w.sleep(0.003 if w.t < 0.1 else 0.01)
    for _, spec in backs:
        boot(spec, 1)
    w.quiesced = True
    w.zk.quiesce()
    sim.trace("quiesce")
    await settle(w)
    check(w, "faults ended")
    await aftermath(w)
    sim.line_p = 0.0
    del sim.line_stalls[:]
    for m in w.members:
        m.want_stop = True
    await until(w, lambda: all(m.proc.done for m in w.members), 40.0)
    for m in w.members:
        if not m.proc.done:
            w.violation("P24", "hang:stop", "%s: %s" % (m.name, m.busy))
    reg = registered(w)
    mine = set(m.name for m in w.members if m.stopped)
    left = [n for n in reg if n in mine]
    if left:
        w.violation("P22", "not-removed", "%s registered with everything "
                    "closed" % left)


async def until(w, cond, limit):
    end = w.sim.now + limit
    while not cond():
        if w.sim.now >= end:
            return False
        await w.sleep(0.05)
    return True


async def settle(w):
    """
    Sessions of the dead expire, clients reconnect (backing off), the rest of
    the members start.
    """
    def idle():
        return all(m.proc.done or m.stopping or (
            m.started and m.busy is None) for m in w.members)
    await w.sleep(w.plan["zk"]["max_timeout"] + 4.0)
    if not await until(w, idle, 90.0):
        for m in w.members:
            if m.busy is not None and not m.proc.dead:
                for p in ("P17", "P22", "P23"):
                    w.violation(p, "hang:%s" % m.busy,
                                "%s of %s never returns" % (m.busy, m.name))
                raise Skip()
    end = w.sim.now + 45.0
    while w.sim.now < end and problems(w):
        await w.sleep(0.5)
    await w.sleep(0.2)


def shared(w):
    import json
    n = w.zk.tree.nodes.get("/kiel/groups/%s/partitions" % GROUP)
    if n is None or not n.data:
        return set()
    return set(json.loads(n.data.decode()))


def verdict(w, item):
    """True: must be in the set, False: must not, None: can't tell."""
    hs = [h for h in w.history if item in h["items"]]
    adds = [h for h in hs if h["kind"] == "add"]
    rems = [h for h in hs if h["kind"] == "remove"]

    def begun(h):
        return h["t0"]

    def over(h):
        return h["t1"] if h["ok"] else float("inf")
    if not adds:
        return False
    for h in hs:
        if not h["ok"]:
            continue
        others = rems if h["kind"] == "add" else adds
        if all(over(o) < begun(h) for o in others):
            return h["kind"] == "add"
    return None


def problems(w):
    """[(property, kind, detail)] in what should be a stable state."""
    out = []
    live = [m for m in w.members if m.live]
    have = shared(w)
    items = set()
    for h in w.history:
        items |= h["items"]
    for it in sorted(items | have):
        v = verdict(w, it)
        if v is True and it not in have:
            out.append(("P23", "update-lost", "%s was added" % it))
        elif v is False and it in have:
            out.append(("P23", "update-lost" if it in items else "invented",
                        "%s was removed or never added" % it))
    reg = registered(w)
    names = sorted(m.name for m in live)
    for m in live:
        if m.name not in reg:
            out.append(("P22", "not-registered", "%s isn't among %s" % (
                m.name, sorted(reg))))
            continue
        s = w.zk.sessions.get(reg[m.name])
        if s is None or s.closed or s.process is not m.proc.p:
            out.append(("P22", "foreign-registration",
                        "node of %s isn't owned by its live session" %
                        m.name))
    for n in sorted(reg):
        if n not in names:
            out.append(("P22", "left-behind", "%s is registered, live "
                        "members are %s" % (n, names)))
    for m in live:
        if set(m.alloc.partitions) != have:
            out.append(("P23", "stale-set", "%s has %s instead of %s" % (
                m.name, sorted(m.alloc.partitions), sorted(have))))
    if live:
        plain = [plain_mapping(m.alloc.mapping) for m in live]
        for m, p in zip(live, plain):
            if p != plain[0]:
                out.append(("P17", "disagreement", "%s has %s, %s has %s" % (
                    live[0].name, plain[0], m.name, p)))
                break
        owners = {}
        counts = {}
        for m in live:
            for t, pids in sorted(m.alloc.allocation.items()):
                for pid in pids:
                    owners.setdefault("%s:%d" % (t, pid), []).append(m.name)
                    counts[m.name] = counts.get(m.name, 0) + 1
        for it in sorted(have | set(owners)):
            n = owners.get(it, [])
            if it not in have:
                out.append(("P17", "foreign", "%s allocated to %s, isn't in "
                            "the set" % (it, n)))
            elif len(n) != 1:
                out.append(("P17", "shared" if n else "unallocated",
                            "%s is allocated to %s" % (it, n)))
        if w.plan["allocator"] == "naive":
            c = [counts.get(m.name, 0) for m in live]
            if max(c) - min(c) > 1:
                out.append(("P17", "uneven", "%s" % c))
    return out


def plain_mapping(mapping):
    return sorted((m, t, sorted(pids)) for m, ts in mapping.items()
                  for t, pids in ts.items() if pids)


def check(w, when):
    for prop, kind, detail in problems(w):
        w.violation(prop, kind, "%s: %s" % (when, detail))
    if w.sim.violations:
        raise Skip()


async def aftermath(w):
    """One more change in a healthy ensemble, promptly taken account of."""
    live = [m for m in w.members if m.live]
    kind = w.plan["after"]
    if not live or kind == "none":
        return
    m = live[w.plan["seed"] % len(live)]
    wait = 3.0
    if kind == "stop":
        m.want_stop = True
    elif kind == "crash":
        m.proc.crash("vanish")
        wait = w.plan["zk"]["max_timeout"] + 3.0
    elif kind == "remove":
        have = sorted(shared(w))
        if not have:
            return
        m.commands.append(dict(op="remove", items=have[:2]))
    elif kind == "join":
        spec = dict(w.plan["members"][0])
        spec.update(name="late", host="delta", same_name=False, ops=[])
        spawn(w, spec, 1)
    # lines are still preempted: the callbacks take a little
    await w.sleep(wait + w.plan["line_pause"] * 20)
    end = w.sim.now + 3.0
    while w.sim.now < end and problems(w):
        await w.sleep(0.2)
    check(w, "after %s" % kind)
