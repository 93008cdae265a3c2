"""
Model ZooKeeper ensemble: servers with replicated trees that lag, sessions,
ephemeral nodes, watches, and injected faults.  Speaks the wire protocol with
a codec of its own.
"""
import struct

OK = 0
CONNECTIONLOSS, NONODE, NOCHILDEPH, NODEEXISTS, NOTEMPTY, BADVERSION = (
    -4, -101, -108, -110, -111, -103)
RUNTIME_INCONSISTENCY = -2
EV_CREATED, EV_DELETED, EV_CHANGED, EV_CHILD = 1, 2, 3, 4

NAMES = {1: "create", 2: "delete", 3: "exists", 4: "get", 5: "set",
         8: "children", 9: "sync", 11: "ping", 12: "children2", 13: "check",
         14: "multi", 15: "create2", -11: "close", 0: "connect"}
WRITES = (1, 2, 5, 14, 15, -11)


class R(object):
    def __init__(self, data):
        self.d = data
        self.p = 0

    def i32(self):
        v = struct.unpack_from("!i", self.d, self.p)[0]
        self.p += 4
        return v

    def i64(self):
        v = struct.unpack_from("!q", self.d, self.p)[0]
        self.p += 8
        return v

    def flag(self):
        v = self.d[self.p]
        self.p += 1
        return bool(v)

    def buf(self):
        n = self.i32()
        if n < 0:
            return None
        v = bytes(self.d[self.p:self.p + n])
        self.p += n
        return v

    def string(self):
        b = self.buf()
        return None if b is None else b.decode("utf-8")


def w_str(s):
    if s is None:
        return struct.pack("!i", -1)
    b = s.encode("utf-8") if isinstance(s, str) else s
    return struct.pack("!i", len(b)) + b


class Node(object):
    __slots__ = ("data", "czxid", "mzxid", "pzxid", "ctime", "mtime",
                 "version", "cversion", "owner", "children", "seq")

    def __init__(self, data, zxid, t, owner=0):
        self.data = data
        self.czxid = self.mzxid = self.pzxid = zxid
        self.ctime = self.mtime = int(t * 1000)
        self.version = self.cversion = 0
        self.owner = owner
        self.children = set()
        self.seq = 0

    def stat(self):
        return struct.pack(
            "!qqqqiiiqiiq", self.czxid, self.mzxid, self.ctime, self.mtime,
            self.version, self.cversion, 0, self.owner,
            len(self.data or b""), len(self.children), self.pzxid)


def parent_of(path):
    p = path.rsplit("/", 1)[0]
    return p or "/"


class Tree(object):
    def __init__(self):
        self.nodes = {"/": Node(b"", 0, 0)}

    def apply(self, txn):
        """txn: (zxid, t, [primitive]); returns [(event, path)]."""
        zxid, t, prims = txn
        events = []
        for p in prims:
            kind, path = p[0], p[1]
            if kind == "create":
                self.nodes[path] = Node(p[2], zxid, t, p[3])
                par = self.nodes[parent_of(path)]
                par.children.add(path.rsplit("/", 1)[1])
                par.cversion += 1
                par.seq += 1
                par.pzxid = zxid
                events.append((EV_CREATED, path))
                events.append((EV_CHILD, parent_of(path)))
            elif kind == "delete":
                del self.nodes[path]
                par = self.nodes[parent_of(path)]
                par.children.discard(path.rsplit("/", 1)[1])
                par.cversion += 1
                par.pzxid = zxid
                events.append((EV_DELETED, path))
                events.append((EV_CHILD, parent_of(path)))
            elif kind == "set":
                n = self.nodes[path]
                n.data = p[2]
                n.version += 1
                n.mzxid = zxid
                n.mtime = int(t * 1000)
                events.append((EV_CHANGED, path))
        return events


class Session(object):
    def __init__(self, sid, timeout, passwd, now):
        self.sid = sid
        self.timeout = timeout
        self.passwd = passwd
        self.last = now
        self.closed = False
        self.expired = False
        self.conn = None          # where it is attached
        self.process = None


class Server(object):
    """One server of the ensemble."""

    def __init__(self, ens, i, host, port):
        self.ens = ens
        self.sim = ens.sim
        self.i = i
        self.host = host
        self.port = port
        self.up = False
        self.tree = Tree()
        self.applied = 0          # index into the log
        self.zxid = 0
        self.conns = []
        self.data_watches = {}
        self.child_watches = {}
        self.lag = 0.0
        self.slow = 0.0
        self.t_apply = 0.0
        self.waiting = []         # (log index, callback)

    @property
    def addr(self):
        return (self.host, self.port)

    def start(self):
        self.up = True
        self.ens.net.listen(self.addr, self)
        self.catch_up(len(self.ens.log))

    def stop(self, how="rst"):
        self.up = False
        self.ens.net.unlisten(self.addr)
        self.drop_all(how)
        self.waiting = []

    def drop_all(self, how):
        for c in list(self.conns):
            self.drop(c, how)

    def drop(self, conn, how="rst"):
        if conn in self.conns:
            self.conns.remove(conn)
        self.forget(conn)
        if how == "fin":
            conn.close()
        else:
            conn.reset()

    def forget(self, conn):
        for table in (self.data_watches, self.child_watches):
            for path in sorted(table):
                if conn in table[path]:
                    table[path].remove(conn)
                if not table[path]:
                    del table[path]
        s = conn.ctx.get("session")
        if s is not None and s.conn is conn:
            s.conn = None
        conn.ctx["queue"] = []
        conn.ctx["dead"] = True

    # -- replication
    def schedule_apply(self, index):
        rng = self.ens.rng
        d = rng.random() * self.ens.apply_delay + self.lag
        if rng.random() < self.ens.straggle:
            d += rng.random() * 0.5
        t = max(self.t_apply, self.sim.now + d)
        self.t_apply = t
        self.sim.at(t, self.catch_up, index)

    def catch_up(self, index):
        if not self.up:
            return
        while self.applied < index:
            txn = self.ens.log[self.applied]
            self.applied += 1
            self.zxid = txn[0]
            for ev, path in self.tree.apply(txn):
                self.fire(ev, path)
            self.sim.order("zkapply", self.i, self.applied)
        done = [w for w in self.waiting if w[0] <= self.applied]
        self.waiting = [w for w in self.waiting if w[0] > self.applied]
        for _, fn in done:
            fn()

    def fire(self, ev, path):
        conns = []
        if ev in (EV_CREATED, EV_CHANGED, EV_DELETED):
            conns += self.data_watches.pop(path, [])
        if ev in (EV_CHILD, EV_DELETED):
            for c in self.child_watches.pop(path, []):
                if c not in conns:
                    conns.append(c)
        for c in conns:
            self.sim.count("zk-watch-events")
            body = struct.pack("!iqi", -1, -1, 0) + struct.pack(
                "!ii", ev, 3) + w_str(path)
            self.send(c, body)

    def send(self, conn, body, extra=0.0):
        conn.send(struct.pack("!i", len(body)) + body, extra)

    # -- network
    def on_connect(self, conn):
        conn.ctx = dict(buf=bytearray(), queue=[], busy=False, session=None,
                        dead=False)
        self.conns.append(conn)

    def on_close(self, conn, how):
        if conn in self.conns:
            self.conns.remove(conn)
        self.forget(conn)
        conn.s2c.push("fin")

    def on_data(self, conn, data):
        ctx = conn.ctx
        if ctx["dead"]:
            return
        ctx["buf"] += data
        buf = ctx["buf"]
        while len(buf) >= 4:
            n = struct.unpack_from("!i", buf)[0]
            if len(buf) < 4 + n:
                return
            payload = bytes(buf[4:4 + n])
            del buf[:4 + n]
            if ctx["session"] is None and not ctx.get("connecting"):
                ctx["connecting"] = True
                ctx["queue"].append((0, 0, payload))
            else:
                r = R(payload)
                xid = r.i32()
                typ = r.i32()
                ctx["queue"].append((xid, typ, payload[8:]))
                if ctx["session"] is not None:
                    ctx["session"].last = self.sim.now
            self.next(conn)

    def next(self, conn):
        ctx = conn.ctx
        if ctx["busy"] or not ctx["queue"] or ctx["dead"]:
            return
        ctx["busy"] = True
        item = ctx["queue"].pop(0)
        delay = self.ens.rng.random() * self.ens.proc_delay + self.slow
        self.sim.after(delay, self.process, conn, item)

    def process(self, conn, item):
        if not self.up or conn.ctx["dead"] or conn.server_closed:
            return
        xid, typ, payload = item
        self.sim.trace("zk", self.i, conn.cid, NAMES.get(typ, typ), xid)
        self.sim.order("zk", self.i, typ)
        self.sim.count("zk-requests")
        if typ == 0:
            self.connect(conn, payload)
            return
        fault = self.ens.match_fault(self, conn, typ)
        if fault and fault["kind"] == "zk_drop_before":
            self.sim.fault("zk-drop-before")
            self.drop(conn, fault.get("how", "rst"))
            return
        if typ in WRITES:
            self.ens.submit(self, conn, xid, typ, payload, fault)
            return
        self.finish(conn, xid, self.read(conn, typ, payload), fault)

    def finish(self, conn, xid, answer, fault=None, close=False):
        """Sends a reply: answer is (err, body)."""
        if not self.up or conn.ctx["dead"] or conn.server_closed:
            return
        if fault and fault["kind"] == "zk_drop_after":
            self.sim.fault("zk-drop-after")
            self.drop(conn, fault.get("how", "rst"))
            return
        err, body = answer
        data = struct.pack("!iqi", xid, self.zxid, err) + (
            body if not err else b"")
        extra = 0.0
        if fault and fault["kind"] == "zk_slow":
            self.sim.fault("zk-slow-reply")
            extra = fault.get("delay", 0.3)
        self.send(conn, data, extra)
        if close:
            self.forget(conn)
            if conn in self.conns:
                self.conns.remove(conn)
            conn.close()
            return
        conn.ctx["busy"] = False
        self.next(conn)

    def connect(self, conn, payload):
        r = R(payload)
        r.i32()
        last_zxid, timeout, sid = r.i64(), r.i32(), r.i64()
        passwd = r.buf()
        ens = self.ens
        if not ens.quorum():
            self.drop(conn, "fin")
            return
        if last_zxid > self.zxid:
            # a client that has seen a newer state is turned away
            self.sim.count("zk-newer-client-refused")
            self.drop(conn, "fin")
            return
        ens.attach(self, conn, timeout, sid, passwd)

    def attached(self, conn, s):
        """s: the session, or None if it is no more."""
        if not self.up or conn.ctx["dead"] or conn.server_closed:
            return
        if s is None or s.closed:
            self.sim.count("zk-expired-sessions-told")
            body = struct.pack("!iiq", 0, 0, 0) + w_str(b"\0" * 16) + b"\0"
            self.send(conn, body)
            self.forget(conn)
            if conn in self.conns:
                self.conns.remove(conn)
            conn.close()
            return
        self.move(conn, s)
        s.process = conn.process
        conn.ctx["session"] = s
        body = struct.pack("!iiq", 0, int(s.timeout * 1000), s.sid) + (
            w_str(s.passwd) + b"\0")
        self.send(conn, body)
        conn.ctx["busy"] = False
        self.next(conn)

    def move(self, conn, s):
        """The session goes on by means of the given connection."""
        old = s.conn
        if old is not None and old is not conn:
            for srv in self.ens.servers:
                if old in srv.conns:
                    srv.drop(old, "fin")
        s.conn = conn
        s.last = self.sim.now

    # -- reads
    def read(self, conn, typ, payload):
        r = R(payload)
        if typ == 11:
            return 0, b""
        path = r.string()
        if typ == 9:
            return 0, w_str(path)
        watch = r.flag()
        node = self.tree.nodes.get(path)
        if typ == 3:
            if watch:
                self.data_watches.setdefault(path, [])
                if conn not in self.data_watches[path]:
                    self.data_watches[path].append(conn)
            if node is None:
                return NONODE, b""
            return 0, node.stat()
        if node is None:
            return NONODE, b""
        table = self.data_watches if typ == 4 else self.child_watches
        if watch:
            table.setdefault(path, [])
            if conn not in table[path]:
                table[path].append(conn)
        if typ == 4:
            return 0, w_str(node.data) + node.stat()
        if typ in (8, 12):
            kids = sorted(node.children)
            self.ens.rng.shuffle(kids)
            body = struct.pack("!i", len(kids)) + b"".join(
                w_str(k) for k in kids)
            if typ == 12:
                body += node.stat()
            return 0, body
        return -6, b""


class Ensemble(object):
    def __init__(self, sim, net, cfg):
        self.sim = sim
        self.net = net
        self.rng = sim.rng("zk")
        self.proc_delay = cfg.get("proc_delay", 0.001)
        self.commit_delay = cfg.get("commit_delay", 0.004)
        self.apply_delay = cfg.get("apply_delay", 0.004)
        self.straggle = cfg.get("straggle", 0.0)
        self.min_timeout = cfg.get("min_timeout", 4.0)
        self.max_timeout = cfg.get("max_timeout", 40.0)
        self.tree = Tree()        # the leader's
        self.log = []
        self.zxid = 0
        self.sessions = {}
        self.next_sid = 0x1000000
        self.faults = []
        self.index = {}
        self.write_log = []       # (t, zxid, sid, process, primitives)
        self.listeners = []
        self.stall_until = 0.0
        self.quiet = False
        self.had_quorum = True
        self.servers = [Server(self, i, h, p)
                        for i, (h, p) in enumerate(cfg["servers"])]
        for s in self.servers:
            s.start()
        self.sim.after(0.5, self.check_sessions)

    def hosts(self):
        return ["%s:%d" % s.addr for s in self.servers]

    def quorum(self):
        n = len([s for s in self.servers if s.up])
        return n > len(self.servers) // 2

    def match_fault(self, server, conn, typ):
        if self.quiet:
            return None
        name = NAMES.get(typ, str(typ))
        hit = None
        for f in self.faults:
            if f["api"] != name:
                continue
            if f.get("process") is not None and conn.process.name != (
                    f["process"]):
                continue
            if self.sim.now < self.sim.t_start + f.get("from", 0.0):
                continue
            k = f.setdefault("_seen", 0)
            f["_seen"] = k + 1
            if hit is None and f["nth"] <= k < f["nth"] + f.get("count", 1):
                hit = f
        return hit

    # -- sessions
    def attach(self, server, conn, timeout, sid, passwd):
        def done():
            if not self.quorum():
                if conn in server.conns:
                    server.drop(conn, "fin")
                return
            if sid == 0:
                self.next_sid += 1
                s = Session(self.next_sid, min(max(
                    timeout / 1000.0, self.min_timeout), self.max_timeout),
                    bytes(self.rng.getrandbits(8) for _ in range(16)),
                    self.sim.now)
                self.sessions[s.sid] = s
                self.sim.count("zk-sessions")
            else:
                s = self.sessions.get(sid)
                if s is not None and s.passwd != passwd:
                    s = None
            if s is None or s.closed or server.applied >= len(self.log):
                server.attached(conn, s)
                return
            # The start of a session is a transaction, that comes after those
            # before it.  And what a session did through another connection is
            # seen through the next one: kazoo's recipes rely upon it.
            server.move(conn, s)
            server.waiting.append(
                (len(self.log), lambda: server.attached(conn, s)))
        self.sim.after(self.rng.random() * self.commit_delay, done)

    def check_sessions(self):
        now = self.sim.now
        if self.quorum():
            if not self.had_quorum:
                # a new leader gives everybody another timeout
                for s in self.sessions.values():
                    s.last = now
            self.had_quorum = True
            for sid in sorted(self.sessions):
                s = self.sessions[sid]
                if not s.closed and now - s.last > s.timeout:
                    self.sim.count("zk-session-timeouts")
                    self.expire(s)
        else:
            self.had_quorum = False
        if not self.sim.finished:
            self.sim.after(0.25, self.check_sessions)

    def expire(self, s):
        if s.closed:
            return
        s.closed = True
        s.expired = True
        self.sim.trace("zk-expire", s.sid)
        self.commit(s, self.ephemerals(s))
        if s.conn is not None:
            for srv in self.servers:
                if s.conn in srv.conns:
                    srv.drop(s.conn, "fin")
                    break

    def ephemerals(self, s):
        return [("delete", p) for p in sorted(self.tree.nodes)
                if self.tree.nodes[p].owner == s.sid]

    # -- writes
    def submit(self, server, conn, xid, typ, payload, fault):
        s = conn.ctx["session"]
        d = self.rng.random() * self.commit_delay
        if fault and fault["kind"] == "zk_slow_commit":
            self.sim.fault("zk-slow-commit")
            d += fault.get("delay", 0.5)

        def commit():
            if not self.quorum() or not server.up:
                if conn in server.conns:
                    server.drop(conn, "fin")
                return
            if self.stall_until > self.sim.now:
                self.sim.at(self.stall_until, commit)
                return
            if s.closed:
                return
            if s.conn is not conn and s.conn is not None:
                return            # the session has moved
            if typ == -11:
                s.closed = True
                self.sim.trace("zk-close", s.sid)
                index = self.commit(s, self.ephemerals(s))
                answer = (0, b"")
            else:
                answer, prims = self.evaluate(s, typ, payload)
                if prims is None:
                    index = len(self.log)
                else:
                    index = self.commit(s, prims)

            def reply():
                server.finish(conn, xid, answer, fault, close=typ == -11)
            if server.applied >= index:
                reply()
            else:
                server.waiting.append((index, reply))
        self.sim.after(d, commit)

    def commit(self, s, prims):
        self.zxid += 1
        txn = (self.zxid, self.sim.now, prims)
        self.tree.apply(txn)
        self.log.append(txn)
        self.write_log.append((self.sim.now, self.zxid, s.sid, s.process,
                               prims))
        self.sim.trace("zk-commit", self.zxid, s.sid,
                       [(p[0], p[1]) for p in prims])
        for l in self.listeners:
            l(s, prims)
        for srv in self.servers:
            if srv.up:
                srv.schedule_apply(len(self.log))
        return len(self.log)

    def evaluate(self, s, typ, payload):
        """Returns ((err, body), primitives or None)."""
        scratch = {}
        r = R(payload)
        if typ == 14:
            prims, bodies, err = [], [], 0
            n = 0
            while True:
                t = r.i32()
                fin = r.flag()
                r.i32()
                if fin:
                    break
                if err:
                    self.op(s, t, r, {}, dry=True)
                    n += 1
                    continue
                e, body, pr = self.op(s, t, r, scratch)
                n += 1
                if e:
                    err, at = e, n - 1
                else:
                    prims += pr
                    bodies.append((t, body))
            if err:
                out = b""
                for i in range(n):
                    code = 0 if i < at else (
                        err if i == at else RUNTIME_INCONSISTENCY)
                    out += struct.pack("!iBi", -1, 0, code) + struct.pack(
                        "!i", code)
                out += struct.pack("!iBi", -1, 1, -1)
                return (0, out), None
            # bodies with stats are made up after the fact: apply to a copy
            out = b""
            for t, body in bodies:
                out += struct.pack("!iBi", t, 0, 0)
                if t == 5:
                    body = self.tree.nodes[body].stat()
                out += body
            out += struct.pack("!iBi", -1, 1, -1)
            return (0, out), prims
        e, body, prims = self.op(s, typ, r, scratch)
        if e:
            return (e, b""), None
        if typ == 5:
            path = body
            n = self.tree.nodes[path]
            zx = self.zxid + 1
            body = struct.pack(
                "!qqqqiiiqiiq", n.czxid, zx, n.ctime,
                int(self.sim.now * 1000), n.version + 1, n.cversion, 0,
                n.owner, len(prims[0][2] or b""), len(n.children), n.pzxid)
        elif typ == 15:
            zx = self.zxid + 1
            now = int(self.sim.now * 1000)
            body = body + struct.pack(
                "!qqqqiiiqiiq", zx, zx, now, now, 0, 0, 0, prims[0][3],
                len(prims[0][2] or b""), 0, zx)
        return (0, body), prims

    def exists(self, path, scratch):
        if path in scratch:
            return scratch[path]
        return path in self.tree.nodes

    def op(self, s, typ, r, scratch, dry=False):
        """One primitive operation: (err, body, primitives)."""
        nodes = self.tree.nodes
        path = r.string()
        if typ in (1, 15):
            data = r.buf()
            for _ in range(r.i32()):
                r.i32(), r.string(), r.string()
            flags = r.i32()
            par = parent_of(path)
            if dry:
                return 0, b"", []
            if not self.exists(par, scratch):
                return NONODE, b"", []
            if par in nodes and nodes[par].owner:
                return NOCHILDEPH, b"", []
            if flags & 2:
                path += "%010d" % nodes[par].seq
            if self.exists(path, scratch):
                return NODEEXISTS, b"", []
            scratch[path] = True
            return 0, w_str(path), [
                ("create", path, data, s.sid if flags & 1 else 0)]
        version = None
        if typ == 5:
            data = r.buf()
        version = r.i32()
        if dry:
            return 0, b"", []
        if not self.exists(path, scratch):
            return NONODE, b"", []
        node = nodes.get(path)
        if version != -1 and node is not None and node.version != version:
            return BADVERSION, b"", []
        if typ == 2:
            if node is not None and node.children:
                return NOTEMPTY, b"", []
            scratch[path] = False
            return 0, b"", [("delete", path)]
        if typ == 5:
            return 0, path, [("set", path, data)]
        if typ == 13:
            return 0, b"", []
        return -6, b"", []

    # -- faults
    def crash(self, i, down):
        srv = self.servers[i % len(self.servers)]
        if not srv.up:
            return
        self.sim.fault("zk-server-crash")
        had = self.quorum()
        srv.stop()
        # losing the leader makes everybody look for a new one
        if had and (i == 0 or not self.quorum()):
            self.stall_until = max(self.stall_until, self.sim.now + 0.3)
            for other in self.servers:
                other.drop_all("fin")
        self.sim.after(down, self.restart, srv)

    def restart(self, srv):
        if not srv.up:
            srv.start()

    def outage(self, dur):
        self.sim.fault("zk-outage")
        for srv in self.servers:
            if srv.up:
                srv.stop()
        self.had_quorum = False
        self.sim.after(dur, lambda: [self.restart(s) for s in self.servers])

    def quiesce(self):
        self.quiet = True
        self.faults = []
        self.straggle = 0.0
        for srv in self.servers:
            srv.slow = srv.lag = 0.0
            self.restart(srv)
        for key in sorted(self.net.blocked, key=repr):
            addr = key[1] if isinstance(key[1], tuple) else key
            if addr in [s.addr for s in self.servers]:
                self.net.unblock(key)
