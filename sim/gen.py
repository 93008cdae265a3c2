"""Shared plan generation: layouts, networks, fault mixes."""

CODES_RETRIABLE = [2, 3, 5, 6, 7, 14, 15, 16, 19, 20]
CODES_FATAL = [-1, 4, 10, 13, 17, 18, 21, 29, 31, 35, 56]

WIDE = 0.04       # share of plans with a topic of many partitions


def gen_net(r):
    p = {"seg": r.choice(["none", "some", "some", "tiny"])}
    if r.random() < 0.35:
        p["short_read"] = r.choice([0.05, 0.3])
    if r.random() < 0.35:
        p["short_write"] = r.choice([0.1, 0.4])
    if r.random() < 0.3:
        p["lat_hi"] = r.choice([0.0005, 0.02, 0.08])
    return p


def gen_cluster(r, max_brokers=4, topics=None, max_parts=5, lag=True):
    n = r.choice([1, 2, 2, 3, 3, max_brokers])
    ids = r.sample([0, 1, 2, 3, 4, 7, 11, 1001], n)
    brokers = [dict(id=b, host="kafka%d" % i, port=9092 + (i % 2) * 100)
               for i, b in enumerate(ids)]
    if topics is None:
        topics = r.choice([1, 1, 2, 3])
    wide = r.random()
    names = ["orders", "audit.log", "t-%d" % r.randrange(10)]
    if topics == 3 and wide > 0.85:
        topics = r.choice([4, 5, 7])
    if topics > 3:
        names += ["extra-%d" % i for i in range(4)]
    names = names[:topics]
    tmap = {}
    for t in names:
        k = r.choice([1, 2, 3, max_parts])
        if wide < WIDE and t == names[-1]:
            k = r.choice([12, 34, 66, 130])    # far more than usual
        tmap[t] = [r.choice(ids) for _ in range(k)]
    c = dict(brokers=brokers, topics=tmap)
    if lag and r.random() < 0.3:
        c["view_lag"] = r.choice([0.05, 0.5, 2.0])
    if r.random() < 0.3:
        c["proc_delay"] = r.choice([0.0001, 0.02, 0.1])
    if n > 1 and r.random() < 0.5:
        c["replicas"] = True
    return c


def bootstrap(r, cluster, n=None):
    hosts = []
    for b in cluster["brokers"]:
        h = b["host"]
        if b["port"] != 9092 or r.random() < 0.5:
            h = "%s:%d" % (h, b["port"])
        hosts.append(h)
    r.shuffle(hosts)
    return hosts[:n] if n else hosts


def lone_bootstrap(r, plan, T):
    """Some of the brokers are for bootstrapping, and get decommissioned."""
    hosts = plan["client"]["hosts"]
    n = r.choice([1, 1, 2])
    if len(hosts) <= n or r.random() > 0.15:
        return
    plan["client"]["hosts"] = hosts[:n]
    plan["lone"] = True
    at = round(r.random() * T, 4)
    for b in plan["cluster"]["brokers"]:
        if any(h.split(":")[0] == b["host"] for h in hosts[:n]):
            plan["faults"].append(dict(
                kind="remove_broker", broker=b["id"],
                at=round(at + r.choice([0.0, 0.0, 0.3]), 4)))
    if r.random() < 0.5:
        plan["faults"].append(dict(
            kind="reset", at=round(at + r.random(), 4), how="rst",
            broker=r.choice(plan["cluster"]["brokers"])["id"]))


def gen_request_fault(r, apis, cluster, retriable_only=False, max_nth=25,
                      drops=True):
    api = r.choice(apis)
    kinds = ["error", "error", "append_error", "drop_before", "drop_after",
             "drop_mid", "slow", "reply_then_close"]
    if not drops:
        kinds = ["error", "error", "append_error", "slow"]
    kind = r.choice(kinds)
    if api == "metadata" and kind in ("error", "append_error"):
        kind = "error"
    f = dict(api=api, kind=kind, nth=int(r.random() ** 1.6 * max_nth),
             count=r.choice([1, 1, 1, 2, 4]))
    if kind in ("error", "append_error"):
        if retriable_only or r.random() < 0.75 or kind == "append_error":
            f["code"] = r.choice(
                [2, 3, 5, 6, 7, 19, 20] if api in ("produce", "fetch")
                else CODES_RETRIABLE)
        else:
            f["code"] = r.choice(CODES_FATAL)
        if r.random() < 0.6:
            f["pids"] = sorted(r.sample(range(5), r.choice([1, 1, 2, 3])))
        if r.random() < 0.3:
            f["topics"] = [r.choice(sorted(cluster["topics"]))]
        if api == "metadata":
            f["code"] = r.choice([9, 3, 5])
            f.pop("pids", None)
        elif api != "coordinator" and r.random() < 0.25:
            f.pop("pids", None)
            codes = [0, f["code"], 2, 3, 5, 6, 7, 19, 20]
            if not retriable_only and kind == "error":
                codes += [r.choice(CODES_FATAL), r.choice(CODES_FATAL)]
            f["by_pid"] = {str(i): r.choice(codes)
                           for i in r.sample(range(5), r.choice([2, 3, 5]))}
    elif kind in ("drop_before", "drop_after"):
        f["how"] = r.choice(["rst", "rst", "fin"])
    elif kind == "drop_mid":
        f["cut"] = r.choice([1, 3, 4, 6, 8, 12, 20, 40])
    elif kind == "slow":
        f["delay"] = r.choice([0.05, 0.3, 1.5])
    return f


API_IDS = dict(produce=0, fetch=1, offsets=2, metadata=3, offset_commit=8,
               offset_fetch=9, coordinator=10)


def triggered(r, f, apis, max_nth=20, share=0.35):
    """Has a timed fault start at a point of the protocol instead."""
    if apis and "at" in f and r.random() < share:
        del f["at"]
        f["on"] = [API_IDS[r.choice(apis)], r.choice(["request", "end"]),
                   int(r.random() ** 1.6 * max_nth)]
        f["after"] = r.choice([0.0, 0.0, 0.0, 0.0005, 0.005])
    return f


def gen_timed_fault(r, cluster, T, kinds=None, on=None, max_nth=20):
    return triggered(r, _gen_timed_fault(r, cluster, T, kinds), on, max_nth)


def _gen_timed_fault(r, cluster, T, kinds=None):
    ids = [b["id"] for b in cluster["brokers"]]
    kinds = kinds or ["crash", "crash", "migrate", "migrate", "reset",
                      "reset", "partition", "slow", "add_broker",
                      "remove_broker", "readdress", "outage",
                      "add_partition"]
    kind = r.choice(kinds)
    f = dict(at=round(r.random() * T, 4), kind=kind)
    if kind in ("crash", "reset", "partition", "slow", "remove_broker",
                "readdress"):
        f["broker"] = r.choice(ids)
    if kind == "crash":
        f["down"] = r.choice([0.05, 0.5, 2.0, 4.0])
        f["elect"] = r.random() < 0.7
        f["window"] = r.choice([0.0, 0.0, 0.1, 1.0])
        if r.random() < 0.2:
            f["port"] = 9200 + r.randrange(50)
    elif kind == "migrate":
        f["topic"] = r.choice(sorted(cluster["topics"]))
        f["pid"] = r.randrange(len(cluster["topics"][f["topic"]]))
        f["to"] = r.choice(ids)
        f["window"] = r.choice([0.0, 0.0, 0.1, 1.0])
    elif kind == "reset":
        f["how"] = r.choice(["rst", "fin"])
    elif kind == "partition":
        f["dur"] = r.choice([0.2, 1.0, 3.0])
        f["then"] = r.choice(["heal", "heal", "rst"])
    elif kind == "slow":
        f["dur"] = r.choice([0.5, 2.0])
        f["delay"] = r.choice([0.05, 0.3, 1.0])
    elif kind == "add_broker":
        nid = 20 + r.randrange(5)
        f.update(broker=nid, host="kafka-new%d" % nid, port=9092)
    elif kind == "readdress":
        f["port"] = 9300 + r.randrange(50)
        f["how"] = r.choice(["rst", "fin"])
    elif kind == "outage":
        f["dur"] = r.choice([0.3, 2.0])
    elif kind == "add_partition":
        f["topic"] = r.choice(sorted(cluster["topics"]))
    return f


def gen_faults(r, cluster, T, apis, level=None, kinds=None, **kw):
    if level is None:
        level = r.choice([0, 1, 1, 2, 3, 5, 8])
    out = []
    for _ in range(level):
        if r.random() < 0.55:
            out.append(gen_request_fault(r, apis, cluster, **kw))
        else:
            out.append(gen_timed_fault(r, cluster, T, kinds, apis))
    return out
