"""
Kafka wire codec used by the model brokers and by the observing taps.

Written from the protocol guide, independently of kiel's: byte-by-byte with
explicit bounds checks; anything out of the format raises Malformed.
"""
import gzip as _gzip
import io
import struct
import zlib

import snappy as _snappy

PRODUCE, FETCH, OFFSETS, METADATA = 0, 1, 2, 3
OFFSET_COMMIT, OFFSET_FETCH, COORDINATOR = 8, 9, 10
API_NAMES = {0: "produce", 1: "fetch", 2: "offsets", 3: "metadata",
             8: "offset_commit", 9: "offset_fetch", 10: "coordinator"}
XERIAL = b"\x82SNAPPY\x00\x00\x00\x00\x01\x00\x00\x00\x01"


class Malformed(Exception):
    pass


class Reader(object):
    def __init__(self, buf, pos=0, end=None):
        self.buf = buf
        self.pos = pos
        self.end = len(buf) if end is None else end

    def _num(self, fmt, n):
        if self.pos + n > self.end:
            raise Malformed("short read at %d of %d" % (self.pos, self.end))
        v = struct.unpack_from(fmt, self.buf, self.pos)[0]
        self.pos += n
        return v

    def i8(self):
        return self._num("!b", 1)

    def i16(self):
        return self._num("!h", 2)

    def i32(self):
        return self._num("!i", 4)

    def u32(self):
        return self._num("!I", 4)

    def i64(self):
        return self._num("!q", 8)

    def raw(self, n):
        if n < 0 or self.pos + n > self.end:
            raise Malformed("bad length %d at %d" % (n, self.pos))
        v = bytes(self.buf[self.pos:self.pos + n])
        self.pos += n
        return v

    def string(self):
        n = self.i16()
        if n == -1:
            return None
        if n < 0:
            raise Malformed("bad string length %d" % n)
        try:
            return self.raw(n).decode("utf-8")
        except UnicodeDecodeError:
            raise Malformed("string is not utf-8")

    def bytes_(self):
        n = self.i32()
        if n == -1:
            return None
        if n < 0:
            raise Malformed("bad bytes length %d" % n)
        return self.raw(n)

    def array(self, fn):
        n = self.i32()
        if n < 0 or n > 1000000:
            raise Malformed("bad array length %d" % n)
        return [fn(self) for _ in range(n)]

    def done(self):
        if self.pos != self.end:
            raise Malformed("%d trailing bytes" % (self.end - self.pos))


def s16(s):
    if s is None:
        return struct.pack("!h", -1)
    b = s if isinstance(s, bytes) else s.encode("utf-8")
    return struct.pack("!h", len(b)) + b


def b32(b):
    if b is None:
        return struct.pack("!i", -1)
    return struct.pack("!i", len(b)) + b


def arr(items):
    return struct.pack("!i", len(items)) + b"".join(items)


# -- messages ---------------------------------------------------------------

def enc_message(key, value, attributes=0, magic=0, bad_crc=False):
    body = struct.pack("!bb", magic, attributes) + b32(key) + b32(value)
    crc = zlib.crc32(body) & 0xffffffff
    if bad_crc:
        crc ^= 1
    return struct.pack("!I", crc) + body


def enc_entry(offset, msg):
    return struct.pack("!qi", offset, len(msg)) + msg


def compress(codec, raw, block=32 * 1024):
    if codec == 1:
        out = io.BytesIO()
        with _gzip.GzipFile(fileobj=out, mode="wb", mtime=0) as f:
            f.write(raw)
        return out.getvalue()
    out = [XERIAL]
    for i in range(0, len(raw), block):
        c = _snappy.compress(raw[i:i + block])
        out.append(struct.pack("!i", len(c)) + c)
    return b"".join(out)


def decompress(codec, data):
    if codec == 1:
        try:
            return _gzip.decompress(data)
        except Exception as e:
            raise Malformed("gzip: %s" % e)
    if codec == 2:
        if data[:8] != XERIAL[:8]:
            try:
                return _snappy.uncompress(data)
            except Exception as e:
                raise Malformed("snappy: %s" % e)
        r = Reader(data, 16)
        out = []
        while r.pos < r.end:
            n = r.i32()
            try:
                out.append(_snappy.uncompress(r.raw(n)))
            except Malformed:
                raise
            except Exception as e:
                raise Malformed("snappy: %s" % e)
        return b"".join(out)
    raise Malformed("unknown codec %d" % codec)


def dec_message_set(r, end, nested=False):
    """[(offset, key, value, codec)] with compressed messages expanded."""
    out = []
    while r.pos < end:
        off = r.i64()
        size = r.i32()
        if size < 14 or r.pos + size > end:
            raise Malformed("message size %d does not fit" % size)
        m_end = r.pos + size
        crc = r.u32()
        if zlib.crc32(bytes(r.buf[r.pos:m_end])) & 0xffffffff != crc:
            raise Malformed("bad crc")
        magic = r.i8()
        attrs = r.i8()
        if magic != 0:
            raise Malformed("magic %d" % magic)
        if attrs & ~0x3:
            raise Malformed("attributes %d" % attrs)
        key = r.bytes_()
        value = r.bytes_()
        if r.pos != m_end:
            raise Malformed("message length mismatch")
        if attrs:
            if nested:
                raise Malformed("nested compression")
            raw = decompress(attrs, value or b"")
            inner = dec_message_set(Reader(raw), len(raw), nested=True)
            if not inner:
                raise Malformed("empty compressed set")
            out.extend((o, k, v, attrs) for o, k, v, _ in inner)
        else:
            out.append((off, key, value, 0))
    return out


# -- requests ---------------------------------------------------------------

class Req(object):
    """A parsed request."""

    def __init__(self, api, corr, client_id, body, size):
        self.api = api
        self.name = API_NAMES[api]
        self.corr = corr
        self.client_id = client_id
        self.body = body
        self.size = size


def parse_request(payload):
    r = Reader(payload)
    api = r.i16()
    version = r.i16()
    corr = r.i32()
    client = r.string()
    if api not in API_NAMES:
        raise Malformed("unknown api %d" % api)
    if version != 0:
        raise Malformed("api %d version %d" % (api, version))
    body = PARSERS[api](r)
    r.done()
    return Req(api, corr, client, body, len(payload))


def _produce(r):
    acks, timeout = r.i16(), r.i32()

    def part(r):
        pid = r.i32()
        size = r.i32()
        if size < 0 or r.pos + size > r.end:
            raise Malformed("message set size %d" % size)
        end = r.pos + size
        msgs = dec_message_set(r, end)
        return (pid, msgs, size)

    def topic(r):
        return (r.string(), r.array(part))
    return dict(acks=acks, timeout=timeout, topics=r.array(topic))


def _fetch(r):
    d = dict(replica=r.i32(), wait=r.i32(), min_bytes=r.i32())
    d["topics"] = r.array(lambda r: (
        r.string(), r.array(lambda r: (r.i32(), r.i64(), r.i32()))))
    return d


def _offsets(r):
    d = dict(replica=r.i32())
    d["topics"] = r.array(lambda r: (
        r.string(), r.array(lambda r: (r.i32(), r.i64(), r.i32()))))
    return d


def _metadata(r):
    return dict(topics=r.array(lambda r: r.string()))


def _commit(r):
    return dict(group=r.string(), topics=r.array(lambda r: (
        r.string(), r.array(lambda r: (r.i32(), r.i64(), r.string())))))


def _ofetch(r):
    return dict(group=r.string(), topics=r.array(lambda r: (
        r.string(), r.array(lambda r: r.i32()))))


def _coord(r):
    return dict(group=r.string())


PARSERS = {PRODUCE: _produce, FETCH: _fetch, OFFSETS: _offsets,
           METADATA: _metadata, OFFSET_COMMIT: _commit,
           OFFSET_FETCH: _ofetch, COORDINATOR: _coord}


# -- responses --------------------------------------------------------------

def enc_produce(topics):
    """topics: [(name, [(pid, err, offset)])]"""
    return arr([s16(t) + arr([struct.pack("!ihq", *p) for p in ps])
                for t, ps in topics])


def enc_fetch(topics):
    """topics: [(name, [(pid, err, hw, raw)])]"""
    return arr([s16(t) + arr([
        struct.pack("!ihqi", p, e, hw, len(raw)) + raw
        for p, e, hw, raw in ps]) for t, ps in topics])


def enc_offsets(topics):
    return arr([s16(t) + arr([
        struct.pack("!ih", p, e) + arr([struct.pack("!q", o) for o in offs])
        for p, e, offs in ps]) for t, ps in topics])


def enc_metadata(brokers, topics):
    """brokers: [(id, host, port)], topics: [(err, name, [(err, pid, leader,
    replicas, isrs)])]"""
    return (arr([struct.pack("!i", b) + s16(h) + struct.pack("!i", p)
                 for b, h, p in brokers]) +
            arr([struct.pack("!h", e) + s16(n) + arr([
                struct.pack("!hii", pe, pid, leader) +
                arr([struct.pack("!i", x) for x in reps]) +
                arr([struct.pack("!i", x) for x in isrs])
                for pe, pid, leader, reps, isrs in ps])
                for e, n, ps in topics]))


def enc_commit(topics):
    return arr([s16(t) + arr([struct.pack("!ih", p, e) for p, e in ps])
                for t, ps in topics])


def enc_ofetch(topics):
    return arr([s16(t) + arr([
        struct.pack("!iq", p, o) + s16(m) + struct.pack("!h", e)
        for p, o, m, e in ps]) for t, ps in topics])


def enc_coord(err, bid, host, port):
    return struct.pack("!hi", err, bid) + s16(host) + struct.pack("!i", port)


def parse_response(api, payload):
    r = Reader(payload)
    if api == PRODUCE:
        v = r.array(lambda r: (r.string(), r.array(
            lambda r: (r.i32(), r.i16(), r.i64()))))
    elif api == METADATA:
        brokers = r.array(lambda r: (r.i32(), r.string(), r.i32()))
        topics = r.array(lambda r: (r.i16(), r.string(), r.array(
            lambda r: (r.i16(), r.i32(), r.i32(),
                       r.array(lambda r: r.i32()),
                       r.array(lambda r: r.i32())))))
        v = dict(brokers=brokers, topics=topics)
    elif api == FETCH:
        def part(r):
            pid, err, hw, n = r.i32(), r.i16(), r.i64(), r.i32()
            return (pid, err, hw, r.raw(n))
        v = r.array(lambda r: (r.string(), r.array(part)))
    elif api == OFFSETS:
        v = r.array(lambda r: (r.string(), r.array(
            lambda r: (r.i32(), r.i16(), r.array(lambda r: r.i64())))))
    elif api == OFFSET_COMMIT:
        v = r.array(lambda r: (r.string(), r.array(
            lambda r: (r.i32(), r.i16()))))
    elif api == OFFSET_FETCH:
        v = r.array(lambda r: (r.string(), r.array(
            lambda r: (r.i32(), r.i64(), r.string(), r.i16()))))
    else:
        v = (r.i16(), r.i32(), r.string(), r.i32())
    r.done()
    return v
