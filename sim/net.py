"""
The simulated network: non-blocking client sockets, model servers.

A connection is two byte pipes with latency.  Servers are callback objects:
``on_connect(conn)``, ``on_data(conn, bytes)``, ``on_close(conn, how)``.
"""
import errno
import socket as _socket
import weakref

from . import core

AF_INET = _socket.AF_INET
SOCK_STREAM = _socket.SOCK_STREAM


class Pipe(object):
    """One direction of a connection."""

    def __init__(self, conn, name, deliver):
        self.conn = conn
        self.name = name
        self.deliver = deliver
        self.last_t = 0.0
        self.stalled = []
        self.dead = False
        self.in_flight = 0

    def push(self, kind, data=b"", extra=0.0):
        net = self.conn.net
        sim = net.sim
        t = max(self.last_t, sim.now + net.latency(self.conn) + extra)
        self.last_t = t
        self.in_flight += len(data)
        sim.at(t, self.arrive, kind, data)

    def arrive(self, kind, data):
        if self.dead:
            return
        if self.stalled or self.conn.net.is_blocked(self.conn):
            self.stalled.append((kind, data))
            return
        self._deliver(kind, data)

    def _deliver(self, kind, data):
        self.in_flight -= len(data)
        sim = self.conn.net.sim
        sim.trace("net", self.conn.cid, self.name, kind, len(data))
        sim.order(self.conn.cid, self.name, kind)
        self.deliver(kind, data)

    def flush(self):
        items, self.stalled = self.stalled, []
        for kind, data in items:
            if not self.dead:
                self._deliver(kind, data)

    def kill(self):
        self.dead = True
        self.stalled = []
        self.in_flight = 0


class Conn(object):
    """A TCP connection between a SimSocket and a server object."""

    def __init__(self, net, cid, sock, addr, server):
        self.net = net
        self.cid = cid
        self.sock = weakref.ref(sock)
        self.process = sock.process
        self.addr = addr
        self.server = server
        self.c2s = Pipe(self, "c>s", self._to_server)
        self.s2c = Pipe(self, "s>c", self._to_client)
        self.server_closed = False   # server called close/reset
        self.client_closed = False   # client closed
        self.server_saw_close = False
        self.ctx = None              # server-side state
        self.tap = None
        self.t_open = net.sim.now
        self.slow = 0.0

    def __repr__(self):
        return "<conn %d %s:%s>" % ((self.cid,) + tuple(self.addr))

    # server side API
    def send(self, data, extra=0.0):
        if self.server_closed or self.s2c.dead:
            return
        for i, chunk in enumerate(self.net.segment(data)):
            self.s2c.push("data", chunk, extra if i == 0 else 0.0)

    def close(self):
        """Orderly shutdown by the server after pending data."""
        if self.server_closed:
            return
        self.server_closed = True
        self.s2c.push("fin")

    def reset(self, immediate=False):
        """Abortive shutdown; data in flight is lost."""
        if self.server_closed:
            return
        self.server_closed = True
        self.c2s.kill()
        if immediate:
            self.s2c.kill()
            self._to_client("rst", b"")
        else:
            old = self.s2c
            keep = self.net.rng.random() < 0.5
            if not keep:
                old.kill()
                self.s2c = Pipe(self, "s>c", self._to_client)
            self.s2c.push("rst")

    # deliveries
    def _to_server(self, kind, data):
        if self.server_closed and kind == "data":
            # data for a socket that is gone: the peer answers with a reset
            if not self.client_closed:
                self.c2s.kill()
                self.s2c.push("rst")
            return
        if kind == "data":
            sock = self.sock()
            self.server.on_data(self, data)
            if sock is not None:
                sock._poke()
        else:
            self.server_saw_close = True
            if not self.server_closed:
                self.server_closed = True
                self.server.on_close(self, kind)

    def _to_client(self, kind, data):
        sock = self.sock()
        if sock is None or sock.closed:
            return
        if kind == "data":
            sock.rx += data
        elif kind == "fin":
            sock.eof = True
        elif kind == "rst":
            sock.error = errno.ECONNRESET
            # a write that meets the reset aborts the connection before
            # what arrived ahead of it is read: count that as never read
            sock.rx = bytearray()
            sock.eof = True
        sock._poke()


class Network(object):
    def __init__(self, sim, params=None):
        self.sim = sim
        self.rng = sim.rng("net")
        p = params or {}
        self.lat_lo = p.get("lat_lo", 0.0002)
        self.lat_hi = p.get("lat_hi", 0.003)
        self.seg = p.get("seg", "some")       # none|some|tiny
        self.short_write = p.get("short_write", 0.0)
        self.short_read = p.get("short_read", 0.0)
        self.listeners = {}
        self.conns = {}
        self.blocked = set()       # (host, port) whose traffic is stalled
        self.unreachable = set()   # (host, port): SYNs vanish
        self.resolve = {}          # names that fail to resolve
        self.next_cid = 1
        self.sockets = {}          # fd -> weakref
        self.connect_log = []
        self.connect_timeout = 20.0
        self.tap_factory = None
        sim.net = self

    def latency(self, conn):
        return (self.lat_lo + self.rng.random() * (self.lat_hi - self.lat_lo)
                + conn.slow)

    def segment(self, data):
        n = len(data)
        if self.seg == "none" or n < 2:
            return [data]
        if self.seg == "some":
            if self.rng.random() < 0.7:
                return [data]
            parts = self.rng.randrange(2, 5)
        else:
            parts = self.rng.randrange(2, 12)
        cuts = set()
        for _ in range(parts - 1):
            if self.rng.random() < 0.4:
                cuts.add(min(n - 1, self.rng.randrange(1, 14)))
            else:
                cuts.add(self.rng.randrange(1, n))
        cuts = sorted(cuts)
        out, prev = [], 0
        for c in cuts + [n]:
            out.append(data[prev:c])
            prev = c
        return [c for c in out if c]

    def is_blocked(self, conn):
        return conn.addr in self.blocked or (
            (conn.process.name, conn.addr) in self.blocked)

    def listen(self, addr, server):
        self.listeners[addr] = server

    def unlisten(self, addr):
        self.listeners.pop(addr, None)

    def block(self, addr):
        self.blocked.add(addr)

    def unblock(self, addr):
        self.blocked.discard(addr)
        for conn in list(self.conns.values()):
            if addr in (conn.addr, (conn.process.name, conn.addr)) and (
                    not self.is_blocked(conn)):
                conn.c2s.flush()
                conn.s2c.flush()

    def open_conns(self, process=None):
        """Client sockets that are connecting or connected, not closed."""
        out = []
        for fd in sorted(self.sockets):
            sock = self.sockets[fd]()
            if sock is None or sock.closed:
                continue
            if process is not None and sock.process is not process:
                continue
            if sock.state in ("connecting", "connected"):
                out.append(sock)
        return out

    # connecting
    def connect(self, sock, addr):
        sim = self.sim
        self.connect_log.append((sim.now, addr, sock.process.name))
        sim.trace("connect", addr[0], addr[1])
        delay = self.lat_lo + self.rng.random() * (self.lat_hi - self.lat_lo)
        ref = weakref.ref(sock)

        def done():
            s = ref()
            if s is None or s.closed:
                return
            if (addr in self.unreachable or addr in self.blocked or
                    (s.process.name, addr) in self.blocked):
                # the SYN is sent again after 1, 3, 7... seconds
                wait = 1.0
                while start + wait <= sim.now:
                    wait = 2 * wait + 1
                if wait < self.connect_timeout:
                    sim.at(start + wait, done)
                else:
                    sim.at(max(sim.now, start + self.connect_timeout),
                           timeout)
                return
            server = self.listeners.get(addr)
            if server is None:
                s.error = errno.ECONNREFUSED
                s.state = "failed"
                s._poke()
                return
            conn = Conn(self, self.next_cid, s, addr, server)
            self.next_cid += 1
            self.conns[conn.cid] = conn
            s.conn = conn
            s.state = "connected"
            if self.tap_factory:
                conn.tap = self.tap_factory(conn)
            server.on_connect(conn)
            s._poke()

        def timeout():
            s = ref()
            if s is None or s.closed or s.state != "connecting":
                return
            if (addr not in self.unreachable and addr not in self.blocked
                    and (s.process.name, addr) not in self.blocked):
                done()      # a retransmitted SYN gets through
                return
            s.error = errno.ETIMEDOUT
            s.state = "failed"
            s._poke()

        start = sim.now
        sim.after(delay, done)


class SimSocket(object):
    """Stands in for socket.socket."""

    def __init__(self, family=AF_INET, type=SOCK_STREAM, proto=0,
                 fileno=None):
        self.sim = core.CURRENT
        self.net = self.sim.net
        self.family = family
        self.type = type
        self.proto = proto
        self.process = self.sim.current().process
        self._fd = self.sim.next_fd
        self.sim.next_fd += 1
        self.net.sockets[self._fd] = weakref.ref(self)
        self.process.sockets.append(weakref.ref(self))
        self.state = "new"
        self.conn = None
        self.rx = bytearray()
        self.eof = False
        self.error = 0
        self.closed = False
        self.timeout = None
        self.blocked_until = 0.0
        self.peer = None

    # plumbing
    def _poke(self):
        self.sim.wakeups += 1

    def __del__(self):
        try:
            if not self.closed and not self.sim.finished:
                self.close()
        except Exception:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def readable(self):
        if self.closed:
            return False
        return bool(self.rx) or self.eof or bool(self.error)

    def writable(self):
        if self.closed:
            return False
        if self.error:
            return True
        if self.state != "connected":
            return False
        return self.sim.now >= self.blocked_until

    def hangup(self):
        return bool(self.error)

    # API
    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def getsockopt(self, level, opt, *a):
        if opt == _socket.SO_ERROR:
            e = self.error
            if self.state == "failed":
                self.error = 0
            return e
        return 0

    def fileno(self):
        return -1 if self.closed else self._fd

    def getpeername(self):
        if self.conn is None:
            raise OSError(errno.ENOTCONN, "not connected")
        return self.conn.addr

    def getsockname(self):
        return ("10.0.0.99", self._fd)

    def bind(self, addr):
        pass

    def connect(self, addr):
        self._check()
        host, port = addr[0], int(addr[1])
        self.peer = (host, port)
        if not 0 <= port <= 65535:
            raise OverflowError("connect(): port must be 0-65535.")
        host.encode("idna")
        if host in self.net.resolve:
            raise _socket.gaierror(-2, "Name or service not known")
        self.state = "connecting"
        self.net.connect(self, (host, port))
        if self.timeout == 0.0:
            raise BlockingIOError(errno.EINPROGRESS, "in progress")
        deadline = None
        if self.timeout is not None:
            deadline = self.sim.now + self.timeout
        self.sim.block(
            lambda: self.state != "connecting" or self.closed, deadline)
        if self.state == "connecting":
            raise _socket.timeout("timed out")
        if self.state == "failed":
            raise OSError(self.error, "connect failed")

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno
        return 0

    def _check(self):
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if self.process.dead:
            raise OSError(errno.EBADF, "process is dead")

    def send(self, data, flags=0):
        self._check()
        if self.error:
            e, self.error_seen = self.error, True
            raise OSError(errno.EPIPE if e == errno.ECONNRESET else e, "send")
        if self.state != "connected":
            raise OSError(errno.ENOTCONN, "not connected")
        if self.timeout == 0.0 and not self.writable():
            raise BlockingIOError(errno.EAGAIN, "would block")
        data = bytes(data)
        n = len(data)
        net = self.net
        if net.short_write and self.timeout == 0.0 and n > 1 and (
                net.rng.random() < net.short_write):
            n = 1 + net.rng.randrange(n - 1)
            if net.rng.random() < 0.5:
                n = min(n, 1 + net.rng.randrange(16))
            self.blocked_until = self.sim.now + net.rng.random() * 0.003
            self.sim.at(self.blocked_until, self._poke)
            self.sim.fault("short-write")
            data = data[:n]
        conn = self.conn
        if conn.tap:
            conn.tap.sent(data)
        conn.c2s.push("data", data)
        return n

    def sendall(self, data, flags=0):
        self.send(data)

    def _recv(self, n):
        self._check()
        if not self.rx:
            if self.error:
                e = self.error
                raise OSError(e, "recv")
            if self.eof:
                if self.conn is not None and self.conn.tap:
                    self.conn.tap.read_eof()
                return b""
            if self.state != "connected":
                raise OSError(errno.ENOTCONN, "not connected")
            if self.timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, "would block")
            deadline = None
            if self.timeout is not None:
                deadline = self.sim.now + self.timeout
            if not self.sim.block(self.readable, deadline):
                raise _socket.timeout("timed out")
            return self._recv(n)
        net = self.net
        if net.short_read and n > 1 and net.rng.random() < net.short_read:
            n = 1 + net.rng.randrange(min(n, 64))
            self.sim.fault("short-read")
        data = bytes(self.rx[:n])
        del self.rx[:n]
        if self.conn.tap:
            self.conn.tap.read(data)
        return data

    def recv(self, n, flags=0):
        return self._recv(n)

    def recv_into(self, buf, nbytes=0, flags=0):
        n = nbytes or len(buf)
        data = self._recv(n)
        buf[:len(data)] = data
        return len(data)

    def shutdown(self, how):
        pass

    def detach(self):
        return self._fd

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.net.sockets.pop(self._fd, None)
        if self.conn is not None:
            conn = self.conn
            conn.client_closed = True
            if conn.tap:
                conn.tap.closed()
            self.sim.trace("close", conn.cid)
            unread = bool(self.rx)
            conn.s2c.kill()
            conn.c2s.push("rst" if unread else "fin")
        self.state = "closed"

    def abandon(self, how):
        """The process is gone: how the peer learns of it, if at all."""
        if self.closed:
            return
        self.closed = True
        self.net.sockets.pop(self._fd, None)
        conn = self.conn
        if conn is not None:
            conn.client_closed = True
            if conn.tap:
                conn.tap.closed()
            conn.s2c.kill()
            if how == "vanish":
                conn.c2s.kill()
            else:
                conn.c2s.push("rst" if self.rx or how == "rst" else "fin")
        self.state = "closed"


class PairSocket(SimSocket):
    """One end of a socket pair within a process."""

    def __init__(self):
        super(PairSocket, self).__init__()
        self.state = "pair"
        self.other = None

    def writable(self):
        return not self.closed

    def send(self, data, flags=0):
        self._check()
        other = self.other() if self.other else None
        if other is None or other.closed:
            raise OSError(errno.EPIPE, "Broken pipe")
        other.rx += data
        other._poke()
        return len(data)

    def _recv(self, n):
        self._check()
        if not self.rx:
            if self.eof:
                return b""
            if self.timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, "would block")
            self.sim.block(lambda: self.closed or self.readable())
            self._check()
        data = bytes(self.rx[:n])
        del self.rx[:n]
        return data

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.net.sockets.pop(self._fd, None)
        other = self.other() if self.other else None
        if other is not None:
            other.eof = True
            other._poke()


def socketpair():
    a, b = PairSocket(), PairSocket()
    a.other, b.other = weakref.ref(b), weakref.ref(a)
    return a, b


def select(rlist, wlist, xlist, timeout=None):
    for s in list(rlist) + list(wlist):
        if s.fileno() < 0:
            raise TypeError("Invalid file descriptor: -1")
    sim = core.CURRENT

    def ready():
        return ([s for s in rlist if s.readable()],
                [s for s in wlist if s.writable()], [])

    def some():
        r, w, _ = ready()
        return bool(r or w)
    if timeout is not None and timeout <= 0:
        sim.tick()
        sim.yield_now()
    else:
        sim.block(some, None if timeout is None else sim.now + timeout)
    return ready()
