"""What each property's check explores: (scenario, profile, quick runs)."""

REAL = [
    "kiel (all modules, from /repo's working tree)",
    "tornado coroutines, IOStream and TCPClient", "asyncio event loop code",
    "kazoo (client, connection, watch and lock recipes) in the scenarios "
    "with ZooKeeper",
]
STUB = [
    "TCP network (byte streams with seeded latency, segmentation, short "
    "reads/writes, resets, blackholes)",
    "Kafka brokers (executable model of protocol version 0)",
    "ZooKeeper servers (executable model: replicated log, replicas that lag, "
    "watches, sessions, ephemeral nodes)",
    "clock, timers, selector, DNS, random seeds, host name and process ids",
]
ASSUMPTIONS = [
    "the model brokers answer as protocol version 0 documents",
    "seeded search: only the explored schedules and fault sequences are "
    "judged",
]

PROPS = {
    "P01": dict(explore=[("producer", "mix", 12000), ("producer", "order", 4500),
                         ("producer", "route", 900),
                         ("producer", "close", 1500)]),
    "P02": dict(explore=[("producer", "mix", 15000), ("producer", "order", 4500),
                         ("producer", "close", 900)]),
    "P03": dict(explore=[("producer", "order", 21000),
                         ("producer", "mix", 1200)]),
    "P04": dict(explore=[("producer", "route", 12000),
                         ("producer", "mix", 7500),
                         ("producer", "calm", 900)]),
    "P05": dict(explore=[("producer", "close", 12000),
                         ("producer", "calm", 3000),
                         ("producer", "order", 1800)]),
    "P06": dict(explore=[("conn", "codec", 10500), ("conn", "mix", 2400),
                         ("producer", "mix", 1800), ("consumer", "mix", 1500),
                         ("consumer", "limits", 900)]),
    "P07": dict(explore=[("conn", "mix", 18000), ("conn", "drop", 4500),
                         ("conn", "codec", 1200)]),
    "P08": dict(explore=[("conn", "drop", 21000), ("conn", "mix", 4500),
                         ("producer", "mix", 1500), ("consumer", "mix", 1200),
                         ("cluster", "mix", 1500)]),
    "P09": dict(explore=[("consumer", "mix", 8400), ("consumer", "oor", 1050),
                         ("consumer", "limits", 1450),
                         ("consumer", "bad", 1050),
                         ("consumer", "close", 1050)]),
    "P10": dict(explore=[("consumer", "start", 8400),
                         ("consumer", "mix", 2500),
                         ("consumer", "oor", 1050)]),
    "P11": dict(explore=[("consumer", "bad", 9450),
                         ("consumer", "mix", 1450)]),
    "P12": dict(explore=[("consumer", "oor", 9450),
                         ("consumer", "mix", 1450),
                         ("consumer", "start", 1050)]),
    "P13": dict(explore=[("consumer", "limits", 8400),
                         ("consumer", "mix", 2500),
                         ("consumer", "calm", 850)]),
    "P14": dict(explore=[("cluster", "mix", 27000), ("cluster", "boot", 1200)]),
    "P15": dict(explore=[("cluster", "boot", 48000),
                         ("cluster", "mix", 1200)]),
    "P16": dict(explore=[("cluster", "mix", 6000), ("producer", "mix", 5400),
                         ("producer", "route", 1800),
                         ("consumer", "mix", 4500),
                         ("consumer", "oor", 900)]),
    "P17": dict(explore=[("zk", "mix", 1600), ("zk", "session", 750),
                         ("zk", "set", 300), ("group", "rebalance", 200)]),
    "P18": dict(explore=[("group", "rebalance", 750), ("group", "mix", 500),
                         ("group", "crash", 300), ("group", "oor", 200)]),
    "P19": dict(explore=[("group", "crash", 750), ("group", "mix", 400),
                         ("group", "rebalance", 300), ("group", "oor", 150),
                         ("group", "close", 150)]),
    "P20": dict(explore=[("group", "coord", 950), ("group", "mix", 400),
                         ("group", "rebalance", 200)]),
    "P21": dict(explore=[("group", "coord", 1150), ("group", "mix", 400),
                         ("group", "crash", 200)]),
    "P22": dict(explore=[("zk", "session", 2250), ("zk", "mix", 1500),
                         ("group", "rebalance", 225)]),
    "P23": dict(explore=[("zk", "set", 2250), ("zk", "mix", 900),
                         ("zk", "session", 600)]),
    "P24": dict(explore=[("producer", "close", 5400),
                         ("consumer", "close", 5400),
                         ("cluster", "stop", 9000),
                         ("zk", "mix", 450), ("zk", "session", 600),
                         ("group", "close", 600)]),
}
NOT_APPLICABLE = {}
