"""Writes properties.jsonl (the texts live here so that they are easy to edit)."""
import json, os

P = []


def add(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))


PROD, CONS, SING, GRP = ("kiel/clients/producer.py", "kiel/clients/consumer.py",
                         "kiel/clients/single.py", "kiel/clients/grouped.py")
CLI, CLU, CON = "kiel/clients/client.py", "kiel/cluster.py", "kiel/connection.py"
MSG, PRIM = "kiel/protocol/messages.py", "kiel/protocol/primitives.py"
ALLOC, PARTY, SSET = ("kiel/zookeeper/allocator.py", "kiel/zookeeper/party.py",
                      "kiel/zookeeper/shared_set.py")

add("P01", "Accepted messages are never lost by the producer",
    "A message accepted by the producer (topic known, producer not closing) with acknowledgements required stays the producer's responsibility until a broker confirms it or refuses it with a non-retriable error: it is either confirmed, or still counted as unsent, or in flight. "
    "Once brokers answer again, repeating flush until nothing is unsent leaves every accepted message in a log of its topic. "
    "Lost connections, retriable error codes, leader changes, dead brokers and failed metadata refreshes never make one disappear.",
    ["schedules", "fault_sequences", "histories"],
    "all sequences of produce/flush/close calls (sequential or overlapping), batch sizes, compressions, partitioners, and all broker, connection and metadata faults that eventually stop",
    "The unit tests stub the connections and inject one error code at a time into a single flush; loss needs a fault at a particular point of a request's life (before the write, after the append, during the response, during the refresh) combined with later flushes.",
    [PROD, CLI, CON, CLU],
    [("unsent queue, in-flight table and requeueing of retriable partitions", PROD), ("error classification of a request's outcome", CLI)],
    [("unsent", "messages accepted but not part of a request", PROD), ("sent", "messages in a request whose answer is outstanding", PROD)],
    ["the broker logs", "unsent_count", "produce requests on the wire"])

add("P02", "The producer neither fabricates, alters nor needlessly repeats messages",
    "Every message a broker receives from the producer is one that was accepted, under the topic it was produced to, with exactly the bytes its serializer and key maker gave, whatever the compression. "
    "A message is put in a second request only after its previous attempt ended in a retriable error code or in the loss of the connection before its answer was read: never while an attempt is outstanding, and never after the producer received its confirmation or a non-retriable refusal.",
    ["schedules", "fault_sequences", "inputs"],
    "all message values and keys, batches, compressions, overlapping produce/flush calls, and fault sequences in which some partitions of a request succeed and others fail",
    "Tests compare whole request objects for one or two messages with one partition failing; partially failing multi-topic, multi-partition batches under concurrency are not sampled.",
    [PROD, MSG, "kiel/compression"],
    [("per-partition retry from the in-flight table", PROD), ("message set rendering and compression", MSG)],
    [("sent", "messages of each outstanding request", PROD)],
    ["produce requests on the wire", "the broker logs"])

add("P03", "Per-partition order of sequentially produced messages",
    "When messages are produced one call after the other with a partitioner whose choice depends on the message alone, the first appearances of the messages that it sends to one partition are, in that partition's log, in the order of the calls: within a batch, across batches and across retries. "
    "A message retried after an error is not overtaken by messages produced later to the same partition.",
    ["schedules", "fault_sequences", "histories"],
    "all sequential histories of produce calls with a deterministic partitioner, batch sizes and compressions, under faults that affect whole requests or single partitions",
    "Order across a retry boundary depends on which attempt failed and what was queued in between; tests only look at one flush.",
    [PROD], [("append-ordered unsent queue", PROD), ("stable grouping by leader, topic and partition", PROD)],
    [("unsent", "queue in order of acceptance", PROD)], ["the broker logs"])

add("P04", "Messages are routed to the chosen partition at its leader",
    "The partitioner is called with the message's key and the topic's available partitions, and the message is only ever sent for the partition it returned for that attempt. "
    "Each request goes to the broker that the latest metadata the client has processed names as the leader; when a broker answers that it is not the leader, or the leader is gone, the client refreshes its metadata and a later attempt goes to the new leader.",
    ["schedules", "fault_sequences", "configurations"],
    "all topic/partition/leader layouts, leader migrations, stale brokers and partitioner functions",
    "Tests hold metadata fixed; leader movement between metadata read and send is not modelled.",
    [PROD, CLU], [("leader lookup from processed metadata", CLU), ("grouping by leader", PROD)],
    [("leaders", "leader of every partition as last learned", CLU)],
    ["produce requests on the wire", "metadata responses read by the client", "partitioner arguments"])

add("P05", "Batching, flushing and closing of the producer",
    "While fewer messages than the batch size are queued nothing is sent by produce; the call that fills the batch returns only after every queued message was sent and answered. "
    "Closing sends whatever is still unsent, retrying retriable failures, before connections are closed; after close has begun, produce accepts nothing.",
    ["histories", "schedules", "fault_sequences"],
    "all histories of produce, flush and close with every batch size, including overlapping calls and a close with retriable faults outstanding",
    "Tests cover one batch and one close without failures.",
    [PROD, CLI], [("batch threshold", PROD), ("wind-down flush", PROD)],
    [("unsent_count", "number of queued messages", PROD)], ["produce requests on the wire", "unsent_count", "the broker logs at close"])

add("P06", "Wire encoding and decoding are exact for any byte segmentation",
    "However TCP splits or merges the byte stream, and for plain, gzip and snappy message sets of any size, every request the client sends parses as a valid request of the documented protocol with correct lengths and checksums, and every response is decoded to exactly the values the broker encoded (message values being handed over as text where they are valid UTF-8, as bytes otherwise). "
    "A message cut off at the end of a fetch response is left for the next fetch: it is neither delivered in part nor does it disturb the messages of other partitions.",
    ["inputs", "schedules", "fault_sequences"],
    "all keys and values (binary, text, empty, null), message counts and sizes, compression codecs and block sizes, truncation points of fetched data, short reads and short writes",
    "Tests encode and decode a handful of fixed payloads in memory; truncation points, block boundaries and segmentations are not sampled.",
    [MSG, PRIM, "kiel/protocol/request.py", "kiel/compression/snappy.py", "kiel/compression/gzip.py", CON],
    [("length-prefixed reads", CON), ("message set parsing", MSG), ("block decompression", "kiel/compression/snappy.py")],
    [], ["bytes on the wire", "values handed to the deserializer"])

add("P07", "Every response reaches exactly the request it answers",
    "Requests pipelined on one connection, by one or many callers, are resolved with the response carrying their own correlation id and decoded as the kind of request they were, in whatever order and interleaving the broker answers. "
    "Correlation ids of outstanding requests are distinct and stay encodable however long the process runs.",
    ["schedules", "histories"],
    "all interleavings of concurrent requests of different kinds on one connection, all answer orders, arbitrarily long-lived processes",
    "Tests have one or two outstanding requests and ids near the start of their range.",
    [CON, "kiel/protocol/request.py"], [("table of pending requests by correlation id", CON), ("id generation", "kiel/protocol/request.py")],
    [("pending", "requests awaiting a response", CON)], ["futures returned for requests", "correlation ids on the wire"])

add("P08", "No request outlives its connection",
    "When a connection is closed or lost, by the peer, by the network, by an undecodable response or by the client itself, every request outstanding on it fails promptly with an error instead of staying unresolved, and later requests on it fail at once. "
    "Consequently every client operation finishes, with a result or an error, within a bounded time after the network stops losing data.",
    ["fault_sequences", "schedules"],
    "all points of a request's life at which the connection can end (before, during and after the write, before, during and after the response), orderly or by reset, and any number of outstanding requests",
    "Tests raise one mocked error from one mocked stream call.",
    [CON, CLI, CLU], [("abort of pending requests", CON), ("error handling around reads and writes", CON)],
    [("pending", "requests awaiting a response", CON), ("closing", "connection no longer usable", CON)],
    ["futures returned for requests", "completion of API calls"])

add("P09", "A consumer delivers each partition's log in order, without gaps or repeats",
    "From its starting position on, the values a consumer's calls for a topic, made one after the other, return for one partition are that partition's values in offset order, each exactly once, with nothing skipped that the log still holds, apart from values that are null or cannot be deserialized. "
    "Broker errors, lost connections, leader moves, partial responses, compressed batches, failed calls and failed refreshes do not skip or repeat messages, and once faults stop every message up to the end of the log is returned.",
    ["schedules", "fault_sequences", "histories", "inputs"],
    "all logs (plain and compressed, with cut-off tails), partition layouts, concurrent appends, and fault sequences that eventually stop",
    "Tests feed single canned responses; gaps and repeats arise from sequences of fetches with faults in between.",
    [CONS, SING, CLI, MSG], [("position advanced per delivered message", CONS), ("fetch from position", CONS)],
    [("offsets", "next position per topic and partition", CONS)], ["values returned by consume", "fetch requests on the wire"])

add("P10", "Consumption starts where the caller asked",
    "A single consumer's first call for a topic starts every partition at the position asked for: the beginning, the end, or the position the broker gives for the time given as a date or as an age relative to now. "
    "This holds for every partition even if the topic appears only later, or if errors, leader changes or lost connections interrupt the lookup; no partition silently starts elsewhere.",
    ["fault_sequences", "configurations", "inputs"],
    "all start values, partition layouts, retention states, clock values, and faults during the lookup",
    "Tests check a lookup without follow-up and one retriable error.",
    [SING, CONS], [("offset lookup before the first fetch", SING), ("start conversion", SING)],
    [("synced_offsets", "topics with known positions", CONS)], ["offset requests on the wire", "first fetch position per partition"])

add("P11", "An undecodable message never blocks or corrupts a partition",
    "A message whose value the deserializer rejects is skipped, and only that one: the messages before and after it are delivered, in this and in other partitions, and it is not fetched again once skipped. "
    "No number or placement of such messages stops the consumer from reaching the end of the log.",
    ["inputs", "histories"],
    "all placements and runs of rejected messages (first, last, whole fetch windows, inside compressed batches) and fetch sizes",
    "Tests have one bad message in one response and do not look at the next fetch.",
    [CONS], [("deserialization errors are logged and skipped", CONS)],
    [("offsets", "next position per topic and partition", CONS)], ["values returned by consume", "fetch positions on the wire"])

add("P12", "A consumer recovers from positions outside the log",
    "When a partition's position is no longer available (data expired, log truncated) the consumer re-establishes a position the broker offers for the requested start and continues from there, without an error reaching the caller and without disturbing the partitions whose positions are still valid. "
    "Afterwards consumption is again gap-free.",
    ["histories", "fault_sequences"],
    "all interleavings of retention, truncation, fetches and position lookups, on any subset of partitions",
    "Tests check that one error clears a flag.",
    [CONS, SING], [("out-of-range handling", CONS)],
    [("synced_offsets", "topics with known positions", CONS)], ["fetch and offset requests on the wire", "values returned by consume"])

add("P13", "Fetches respect the configured limits and cover every allocated partition",
    "Every call asks each leader once, for exactly the partitions it leads among those the consumer is responsible for, with the configured wait time and minimum size, and with per-partition sizes whose total per request does not exceed the configured maximum. "
    "A consumer never sends fetches with a foreign replica id or for partitions it was not given.",
    ["configurations", "schedules"],
    "all layouts of partitions over brokers, limits, allocation changes and leader moves",
    "Tests check one layout of two partitions.",
    [CONS], [("grouping of partitions by leader", CONS)], [], ["fetch requests on the wire"])

add("P14", "The cluster view converges to the brokers' metadata",
    "After a refresh in a quiet cluster the client knows exactly the topics, partitions and leaders the brokers report, has one open connection to each reported broker at its current address, and none to any other. "
    "Refreshes that overlap, that find brokers missing, that see elections in progress or that run while connections drop neither leak or duplicate connections, nor fail with internal errors, and one that succeeds never forgets a topic or leader that the brokers it asked reported.",
    ["schedules", "fault_sequences", "histories"],
    "all histories of broker additions, removals, address changes, leader elections, topic creation, and overlapping refreshes",
    "Tests run one refresh against mocks with fixed responses.",
    [CLU], [("sync loop until nothing is missing", CLU)],
    [("conns", "open connections by broker id", CLU), ("topics", "partitions by topic", CLU), ("leaders", "leader by partition", CLU)],
    ["cluster topics and leaders", "open sockets per broker address"])

add("P15", "Bootstrap succeeds if any bootstrap host is usable",
    "Connecting tries the bootstrap hosts in order, with or without a port, and succeeds with the first that accepts a connection and answers the metadata request, however the earlier ones fail: refusing, unreachable, closing before or during the answer. "
    "If none is usable it fails with the documented no-brokers error, never hangs and never fails with another error.",
    ["fault_sequences", "configurations"],
    "all subsets and orders of usable and failing bootstrap hosts, and all points at which a host can fail",
    "Tests mock connect failures only, not failures after a successful connect.",
    [CLU], [("bootstrap loop", CLU)], [], ["outcome of connect", "connection attempts on the network"])

add("P16", "Clients regain service once brokers do",
    "After any sequence of broker crashes, restarts, leader migrations, broker replacements, partitions and error responses ends, and a known broker or a bootstrap host is reachable, a producer delivers and a consumer reads again within a bounded number of further calls, without being recreated; calls made meanwhile return or raise a documented error, at the latest within bounded time of the faults' end. "
    "This includes the case in which every known connection was lost.",
    ["fault_sequences", "schedules", "histories"],
    "all fault sequences that eventually stop, including total outages and complete replacement of the brokers",
    "Liveness after arbitrary outages is not expressible with one mocked response.",
    [CLI, CLU, PROD, CONS], [("refresh on error", CLI), ("retry loops", CLU)],
    [("heal_cluster", "refresh needed", CLI)], ["outcome and duration of API calls"])

add("P17", "Group members share out the partitions exactly",
    "Once membership of a consumer group and the set of partitions have been stable for a while, every partition is allocated to exactly one member, all members agreeing, and with the default allocation the members' counts differ by at most one. "
    "Members fetch the partitions allocated to them and, once a rebalance has taken effect, no others. This holds however joins, departures, crashes, coordination-service disconnects and notifications interleave.",
    ["schedules", "crash_points", "fault_sequences", "configurations"],
    "all interleavings of member start, stop, crash and session expiry with watch notifications and partition additions; thread schedules between the event loop and the coordination client's threads",
    "Tests call the callbacks directly on one allocator with a mocked client.",
    [ALLOC, PARTY, SSET, GRP], [("rebalance on membership or partition change", ALLOC), ("round robin over sorted members", GRP)],
    [("mapping", "partitions by member", ALLOC), ("members", "known members", ALLOC)],
    ["allocation of every member", "fetch requests on the wire"])

add("P18", "Commits never run ahead of delivery or fall back",
    "The position a member commits for a partition is the one after the last message it has itself handed to the application or skipped there since it established its position, or that established position itself: it is never beyond what was delivered and never an unestablished or stale value. "
    "In particular a member that gains a partition first looks up the group's committed position, and commits none earlier than the one it resumed from unless that turned out to be out of the log's range. With automatic commits turned off, a member commits only when the application asks it to.",
    ["schedules", "histories", "fault_sequences"],
    "all interleavings of consuming, committing (automatic or manual), rebalancing and coordinator faults",
    "Tests check the content of one commit after one fetch, with no rebalance in between.",
    [GRP, CONS], [("commit of current positions of allocated partitions", GRP)],
    [("offsets", "next position per topic and partition", CONS), ("topics_to_commit", "topics with uncommitted progress", GRP)],
    ["offset commit requests on the wire", "values returned by consume", "committed positions at the coordinator"])

add("P19", "A consumer group processes every message at least once",
    "With manual commits after processing, every message appended to the topic is returned to some member of the group at least once, across any number of crashes, restarts, rebalances and coordinator failures; after a rebalance or restart a partition resumes at the group's committed position. "
    "As long as a member sees neither a rebalance nor a position out of the log's range it is returned no message twice.",
    ["crash_points", "schedules", "fault_sequences", "histories"],
    "all crash points of members, rebalance timings and coordinator faults that eventually stop",
    "Needs several members, a crash and a takeover; the tests have a single member and mocks.",
    [GRP, CONS, ALLOC], [("offset fetch after rebalance", GRP), ("clearing of positions on rebalance", GRP)],
    [("synced_offsets", "topics with known positions", CONS)], ["values returned by consume over all members", "offset fetch requests on the wire"])

add("P20", "A successful commit is durable at the coordinator",
    "When a commit call returns without error, no partition was refused with a non-retriable error and no rebalance is under way, the coordinator has been given, for every allocated partition of the topics consumed since the last commit whose position was established since the last rebalance, the position the member had reached; retriable refusals of some or all partitions and over-long metadata are retried until they succeed. "
    "Commits and lookups of committed positions are sent to the coordinator that was named to the member last.",
    ["fault_sequences", "schedules"],
    "all patterns of per-partition commit errors, metadata refusals, lost connections before or after the commit is stored, and coordinator moves",
    "Tests give one retriable error to a single-partition commit.",
    [GRP], [("commit retry loop", GRP)], [("topics_to_commit", "topics with uncommitted progress", GRP)],
    ["committed positions at the coordinator", "outcome of commit calls"])

add("P21", "The group follows its coordinator",
    "A member finds the coordinator through any broker that can name it, and when the coordinator moves, crashes or loses its connection it finds the new one and carries on with offset fetches and commits; messages already fetched are still returned to the caller. "
    "No sequence of coordinator faults that ends leaves a member permanently unable to consume or commit.",
    ["fault_sequences", "schedules"],
    "all timings of coordinator crash, migration, load-in-progress and unavailability relative to lookups, offset fetches and commits",
    "Tests answer one coordinator lookup with one error.",
    [GRP], [("coordinator lookup loop", GRP)], [("coordinator_id", "broker coordinating the group", GRP)],
    ["coordinator, offset fetch and commit requests on the wire", "outcome of API calls"])

add("P22", "Group membership follows the members' liveness",
    "A member is registered from the time connect returns until it closes; closing removes it promptly, a crash removes it when its session ends, and a member that outlives the loss of its session or a coordination-service restart is registered again under its own live session once it has reconnected. "
    "A registration left behind by an earlier session of the same member is replaced by one it owns.",
    ["crash_points", "fault_sequences", "schedules"],
    "all timings of disconnects, session expiry, service restarts, crashes and closes",
    "Tests mock the service client and never lose a session.",
    [PARTY, ALLOC], [("ephemeral registration", PARTY), ("connection state handling", ALLOC)],
    [("connected", "connection to the coordination service is up", ALLOC)], ["registrations and their owning sessions at the coordination service"])

add("P23", "The shared partition set loses no update",
    "Partitions added by concurrently starting members all end up in the group's shared set, and partitions removed are all removed, regardless of how the members' updates interleave and of connection loss and retries in between. "
    "Every live member eventually sees the final set.",
    ["schedules", "crash_points", "fault_sequences"],
    "all interleavings of adds and removes by several members, crashes while holding the lock, and connection losses during an update",
    "The repository has no test of the shared set.",
    [SSET, ALLOC], [("lock around read-modify-write", SSET), ("data watch", SSET)], [("partitions", "known shared set", ALLOC)],
    ["content of the shared set at the coordination service", "allocations of live members"])

add("P24", "Closing a client releases everything it holds",
    "After close returns, no socket to any broker or to the coordination service stays open, nothing is sent any more, no callbacks fail, and further produce or consume calls return at once without effect; this holds at whatever moment close is called, including during refreshes, outages and pending requests. "
    "The operations pending at that moment finish.",
    ["schedules", "fault_sequences"],
    "all moments of close relative to the other operations, refreshes, faults and thread schedules",
    "Tests close idle clients with mocked connections.",
    [CLI, CLU, CON, GRP, ALLOC], [("close of every connection", CLU), ("closing flags", CLI)],
    [("closing", "client is shutting down", CLI)], ["open sockets", "traffic after close", "loop exceptions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
