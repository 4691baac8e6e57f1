# C39: the Python bindings behave like the library they wrap.
import ctypes, os, time
from pypbt import Fail, put_msg, FATAL_EXIT
# virtual time, for whichever clock the bindings use
_now = [1000.0]
time.time = time.monotonic = time.perf_counter = lambda: _now[0]
time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(_now[0] * 1e9)
import embc
from embc import ec, lib
from embc.collections import list as elist
from embc.memory import buffer as ebuf
from embc.stream import framer as efr

ID = "C39"
QUICK, THOROUGH = 80000, 1200000
RULE = ("random histories through the Python bindings: two Framers joined by a link that delays, loses and damages whole frames (at most 2 between two idle moments) with virtual time, messages, pings, status "
        "requests, port registration changes and resyncs in both directions; buffers allocated from random pools, written, read, copied, erased and freed; pattern generator and receiver fed as "
        "bytes, lists and arrays with skipped and damaged words; error names compared with the C library, constants and structure layouts with its headers; the bytes of frames received at once, in pieces up to 32 KiB and singly; non-trivial: 3 or more operations with at least one checked result")
_tape = [None]


def _fatal(obj, filename, line, message):
    if _tape[0] is not None:
        put_msg(_tape[0].shared, "fatal error %s:%d: %s" % (os.path.basename((filename or b"?").decode()), line, (message or b"").decode()))
    os._exit(FATAL_EXIT)


_keep = lib.FATAL_CBK(_fatal)
lib.fatal_set(_keep, None)
_quiet = lib.PRINT_CBK(lambda obj, text: None)
lib.print_set(_quiet, None)
_name = lib.dll.embc_error_code_name
_name.restype, _name.argtypes = ctypes.c_char_p, [ctypes.c_int]


def codes(t):
    n = t.range(-5, 40) if t.chance(3, 4) else t.pick(1 << 31) - (1 << 30)
    c = _name(n).decode()
    t.note("error code %d is %s", n, c)
    if n in ec.num_to_name:
        t.equal(ec.num_to_name[n], c, "name of error %d", n)
        t.equal(ec.name_to_num[c], n, "number of error %s", c)
        t.equal(getattr(ec, c), n, "constant of error %s", c)
    else:
        t.check(c not in ec.name_to_num, "error %d is %s in the library and unknown to Python", n, c)


class _Row(ctypes.Structure):
    _fields_ = [("group", ctypes.c_char_p), ("name", ctypes.c_char_p), ("offset", ctypes.c_int), ("size", ctypes.c_int)]


_shim = ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(embc.__file__))), "shim.so"))
_shim.c39_table.restype = ctypes.POINTER(_Row)
_table = []
while _shim.c39_table()[len(_table)].name:
    _r = _shim.c39_table()[len(_table)]
    _table.append((_r.group.decode(), _r.name.decode(), _r.offset, _r.size))


def constants(t):
    """A constant or a field of a structure against the headers."""
    group, name, offset, size = _table[t.pick(len(_table))]
    t.note("%s %s is %d, %d", group, name, offset, size)
    if group == "sizeof":
        c = next(getattr(m, name) for m in (efr, ebuf, embc.pattern_32a) if hasattr(m, name))
        t.equal(ctypes.sizeof(c), offset, "size of %s", name)
    elif size:
        f = getattr(getattr(ebuf if "buffer" in group else efr, group), name, None)
        t.check(f is not None, "%s has no %s", group, name)
        t.equal((f.offset, f.size), (offset, size), "place of %s", name)
        c = getattr(ebuf if "buffer" in group else efr, group)
        v = getattr(c.from_buffer_copy(b"\xff" * ctypes.sizeof(c)), name)
        t.check(not isinstance(v, int) or v == (1 << 8 * size) - 1, "the greatest value of %s is %s", name, v)
    else:
        t.equal(getattr(getattr(efr, group) if group else efr, name), offset, "constant %s", name)


def receive(t):
    """Bytes received in any pieces, through the class and through the functions it wraps."""
    src, wire = efr.Framer(), []
    src.hal_tx = wire.append
    sent, data = [], b""
    for _ in range(t.range(1, 3)):
        m = (t.range(1, 15), t.pick(256), t.u(16), t.blob(t.oneof([0, 240, t.pick(241)])))
        sent.append(m)
        src.send(*m)
    junk = t.oneof([0, 0, 10, 300, 70000])
    data = b"".join(wire) + b"\0" * junk + b"".join(wire)
    t.note("%d frames, %d zero bytes and the frames again", len(sent), junk)
    got = []
    for way in range(3):
        f, out = efr.Framer(), []
        for p in range(16):
            f.register_port(p, lambda *a: out.append(a), lambda *a: None)
        if way == 0:
            f.hal_rx(data)
        elif way == 1:
            i = 0
            while i < len(data):
                n = t.range(1, 400) if t.flip() else t.range(1, 1 << 15)
                f.hal_rx(data[i:i + n])
                i += n
        elif len(data) < 2000:
            for x in data:
                efr.hal_rx_byte(f.framer, x)
        else:
            continue
        for _ in range(12):
            _now[0] += 0.1
            f.process()
        t.equal(out, sent, "messages received %s", ["at once", "in pieces", "byte by byte"][way])
        got.append({n: getattr(f.status, n) for n, _ in f.status._fields_})
        t.equal(got[-1], got[0], "status %s and at once", ["at once", "in pieces", "byte by byte"][way])
        x = str(f.status)
        t.check(all("%s=%d" % k in x for k in got[-1].items()), "the text of a status is %s, not %s", x, got[-1])
    src.hal_tx = lambda x: None
    t.label("received in pieces")
    t.nontrivial()


def word(i):
    """Word i of the test pattern."""
    if i & 1:
        c = (i >> 1) & 0xffff
        return ((~c & 0xffff) << 16) | c
    k = (i >> 1) % 33
    return 0 if k == 0 else 1 << (k - 1)


def pattern(t):
    tx, rx = embc.PatternTx(), embc.PatternRx()
    pos, received, missing = 0, 0, 0
    for _ in range(t.range(1, 6)):
        n = t.range(1, 12) if t.chance(2, 3) else t.range(1, 150) if t.chance(199, 200) else 16384 + t.pick(8000)
        way = t.pick(2)
        if way:
            b = embc.allocate_pattern_buffer(n)
            t.equal(len(b), n, "words in a pattern buffer")
            tx.next_buffer(b)
            words = [b[i] for i in range(n)]
        else:
            words = [tx.next_u32() for _ in range(n)]
        t.equal(words, [word(pos + i) for i in range(n)], "pattern words from %d", pos)
        pos += n
        how = t.pick(4)
        t.note("%d pattern words %s, received as %s", n, "as buffer" if way else "one by one", ["words", "bytes", "list", "array"][how])
        if how == 0:
            for w in words:
                rx.next_u32(w)
        elif how == 1:
            rx.next_buffer(b"".join(w.to_bytes(4, "little") for w in words))
        elif how == 2:
            rx.next_buffer(list(words))
        else:
            rx.next_buffer((ctypes.c_uint32 * n)(*words))
        received += n
        t.equal((rx.receive_count, rx.missing_count, rx.error_count, rx.resync_count), (received, 0, 0, 0), "received, missing, error, resync counts")
    if received >= 4 and t.chance(1, 2):
        skip = t.range(1, 300)
        for _ in range(skip):
            tx.next_u32()
        more = t.range(4, 40)
        for _ in range(more):
            rx.next_u32(tx.next_u32())
        t.note("skip %d words, then %d", skip, more)
        t.equal((rx.receive_count, rx.missing_count, rx.error_count, rx.resync_count), (received + more, skip, 1, 1), "received, missing, error, resync counts after a skip of %d", skip)
    t.label("pattern")


SIZES = [32, 64, 128, 256, 512]


def buffers(t):
    counts = [t.range(1, 4) for _ in range(t.range(1, 5))]
    a = ebuf.initialize((ctypes.c_size_t * len(counts))(*counts), len(counts))
    t.check(a, "no allocator")
    live = []   # [pointer, bytearray, cursor]
    used = [0] * len(counts)
    t.note("buffer classes %s", counts)

    def look(e):
        b = e[0][0]
        t.equal(b.length, len(e[1]), "length")
        t.equal(b.cursor, e[2], "cursor")
        t.equal(b.capacity, SIZES[e[3]], "capacity")
        t.equal((b.reserve, b.flags), (0, 0), "reserve and flags")
        t.equal(b.write_remaining, b.capacity - e[2], "room to write")
        t.equal(getattr(b, "read_reamaining", b.length - b.cursor), len(e[1]) - e[2], "room to read")
        t.equal(b.read_all(), bytes(e[1]), "contents")
        t.equal(b.read_remaining(), bytes(e[1][e[2]:]), "rest of the contents")

    def put(e, data):
        e[1][e[2]:e[2] + len(data)] = data
        e[2] += len(data)
    for _ in range(t.range(1, 25)):
        op = t.weighted([3, 3, 4, 1, 2, 3, 1, 1, 2, 2])
        if op == 0 or not live:
            k = t.pick(len(counts))
            if used[k] >= counts[k]:
                continue
            size = t.range(SIZES[k] // 2 + 1 if k else 1, SIZES[k])
            t.note("alloc %d", size)
            p = ebuf.alloc(a, size)
            t.check(bool(p), "no buffer")
            t.check(all(ctypes.addressof(p.contents) != ctypes.addressof(o[0].contents) for o in live), "buffer handed out twice")
            used[k] += 1
            live.append([p, bytearray(), 0, k])
            look(live[-1])
            continue
        i = t.pick(len(live))
        e = live[i]
        b = e[0][0]
        room = SIZES[e[3]] - e[2]
        if op == 1:
            t.note("free %d", i)
            if t.flip():
                b.free()
            else:
                ebuf.free(e[0])
            used[e[3]] -= 1
            live.pop(i)
            for o in live:
                look(o)
            continue
        if op == 2:
            n = room if t.chance(1, 8) else t.pick(room + 1) if t.chance(1, 4) else min(room, t.pick(9))
            d = t.blob(n)
            t.note("buffer %d: write %d bytes", i, n)
            b.write(d)
            put(e, d)
        elif op == 3:
            if e[1] and t.flip():
                s = t.pick(len(e[1]))
                x = t.range(s, len(e[1]))
                t.note("buffer %d: erase %d..%d of %d, cursor %d", i, s, x, len(e[1]), e[2])
                b.cursor_set(len(e[1]))
                b.erase(s, x)
                del e[1][s:x]
                e[2] = b.cursor
                t.check(e[2] <= len(e[1]), "cursor beyond the contents")
            else:
                t.note("buffer %d: reset", i)
                b.reset()
                e[1].clear()
                e[2] = 0
        elif op == 4:
            e[2] = t.pick(len(e[1]) + 1)
            t.note("buffer %d: cursor %d", i, e[2])
            b.cursor_set(e[2])
        elif op == 5:
            w = t.oneof([1, 2, 4, 8])
            be = w > 1 and t.flip()
            if room < w:
                continue
            v = t.u(8 * w)
            name = "u%d" % (8 * w) + ("" if w == 1 else "_be" if be else "_le")
            t.note("buffer %d: write_%s %x", i, name, v)
            getattr(ebuf, "write_" + name)(e[0], v)
            put(e, v.to_bytes(w, "big" if be else "little"))
        elif op == 6:
            w = t.oneof([1, 2, 4, 8])
            be = w > 1 and t.flip()
            if len(e[1]) - e[2] < w:
                continue
            name = "u%d" % (8 * w) + ("" if w == 1 else "_be" if be else "_le")
            t.note("buffer %d: read_%s at %d", i, name, e[2])
            t.equal(getattr(ebuf, "read_" + name)(e[0]), int.from_bytes(e[1][e[2]:e[2] + w], "big" if be else "little"), "read_%s", name)
            e[2] += w
        elif op == 7:
            n = t.pick(len(e[1]) - e[2] + 1)
            t.note("buffer %d: read %d", i, n)
            d = ctypes.create_string_buffer(n + 1)
            ebuf.read(e[0], d, n)
            t.equal(d.raw, bytes(e[1][e[2]:e[2] + n]) + b"\0", "bytes read")
            e[2] += n
        elif op == 8:
            s = bytes(33 + t.pick(90) for _ in range(t.pick(12)))
            if len(s) + 1 >= room:
                continue
            t.note("buffer %d: write string %r", i, s)
            if t.flip():
                ebuf.write_str(e[0], s)
            else:
                ebuf.write_str_truncate(e[0], s)
            put(e, s)
        else:
            j = t.pick(len(live))
            if i == j:
                continue
            o = live[j]
            n = t.pick(min(len(o[1]) - o[2], room) + 1)
            t.note("copy %d bytes from buffer %d to %d", n, j, i)
            ebuf.copy(e[0], o[0], n)
            d = bytes(o[1][o[2]:o[2] + n])
            put(e, d)
            look(o)
        look(e)
    for e in live:
        look(e)
        e[0][0].free()
    # everything is available again
    for k, c in enumerate(counts):
        got = [ebuf.alloc(a, SIZES[k]) for _ in range(c)]
        t.equal(len({ctypes.addressof(p.contents) for p in got}), c, "buffers of class %d after freeing all", k)
        for p in got:
            p[0].free()
    ebuf.finalize(a)
    lib.free(a)
    t.label("buffer")


def lists(t):
    i = elist.new()
    t.check(i is not None, "a new list is nothing")
    t.check(ctypes.addressof(i.next.contents) == ctypes.addressof(i) and ctypes.addressof(i.prev.contents) == ctypes.addressof(i), "a new list is not empty")
    n = t.oneof([1, 8, 100, 5000])
    p = lib.alloc(n)
    t.check(p and not any(ctypes.string_at(p, n)), "allocated memory is not cleared")
    lib.free(p)
    lib.free(None)
    t.label("list")


PING_REQ, PING_RSP, STATUS_REQ, STATUS_RSP, RESYNC = 4, 5, 6, 7, 2


class Side:
    def __init__(self, t, name):
        self.t, self.name = t, name
        self.f = efr.Framer()
        self.wire = []           # frames on their way to the other side: [time, bytes]
        self.f.hal_tx = self.tx
        self.expect = []         # messages of the peer not yet received
        self.done = []           # own messages not yet completed
        self.answers = []        # port 0 answers not yet received
        self.reg = {}
        self.delay = 0.0
        self.faults = None
        self.peer = None
        self.rx_count = 0

    def tx(self, data):
        t = self.t
        self.t.check(isinstance(data, bytes) and data[:1] == b"\xaa", "transmitted %r", data)
        if self.faults[0] and t.chance(1, 4):
            self.faults[0] -= 1
            if t.flip():
                t.note("  frame of %d bytes from %s is lost", len(data), self.name)
                return
            i = t.pick(len(data))
            t.note("  byte %d of a frame of %d bytes from %s is damaged", i, len(data), self.name)
            data = data[:i] + bytes([data[i] ^ (1 << t.pick(8))]) + data[i + 1:]
        self.wire.append((_now[0] + self.delay, data))

    def register(self, port, tag):
        def rx(port_id, mid, pd, data):
            self.rx_count += 1
            t = self.t
            if port_id == 0:
                t.check((mid, pd & 0xff, data) in self.answers or (pd & 0xff) == STATUS_RSP and (mid, STATUS_RSP, None) in self.answers,
                        "%s got answer %r that it did not ask for", self.name, (mid, pd, data))
                if pd & 0xff == STATUS_RSP:
                    t.check(len(data) == ctypes.sizeof(efr.embc_framer_status_s), "status of %d bytes", len(data))
                    s = efr.embc_framer_status_s.from_buffer_copy(data)
                    now = self.peer.f.status
                    for n, _ in s._fields_:
                        t.check(getattr(s, n) <= getattr(now, n), "remote status %s = %d, the peer is at %d", n, getattr(s, n), getattr(now, n))
                    self.answers.remove((mid, STATUS_RSP, None))
                else:
                    self.answers.remove((mid, pd & 0xff, data))
                return
            t.check(self.expect, "%s received port %d id %d, nothing is outstanding", self.name, port_id, mid)
            w = self.expect.pop(0)
            t.equal((port_id, mid, pd, data), w, "%s received", self.name)
            t.equal(tag, self.reg[port_id], "registration of port %d", port_id)

        def tx_done(port_id, mid, pd, status):
            t = self.t
            t.equal(status, 0, "status of %s message %d", self.name, mid)
            t.check((port_id, mid, pd) in self.done, "%s completed %r, which is not outstanding", self.name, (port_id, mid, pd))
            self.done.remove((port_id, mid, pd))
        self.reg[port] = tag
        self.f.register_port(port, rx, tx_done)

    def busy(self):
        return self.expect or self.done or self.answers or self.wire


def framers(t):
    _now[0] = 1000.0 + t.pick(1000000) / 7.0
    a, b = Side(t, "A"), Side(t, "B")
    a.peer, b.peer = b, a
    faults = [t.oneof([0, 0, 1, 2])]   # between two idle moments; more can make the receiver give up on a frame (see C25)
    for s in (a, b):
        s.faults = faults
        s.delay = t.oneof([0.0, 0.0005, 0.003])
        for p in range(16):
            s.register(p, 0)
    budget = faults[0]
    ops = n = hits = 0

    def idle():
        return not (a.busy() or b.busy())

    def settle():
        """Let all timeouts pass."""
        for _ in range(150):
            while step() and (a.wire or b.wire):
                pass
            _now[0] += 0.01
            a.f.process()
            b.f.process()

    def step():
        """Deliver the next frame or let time pass; False when nothing is left to do."""
        q = [s for s in (a, b) if s.wire]
        due = [s for s in q if s.wire[0][0] <= _now[0]]
        if due:
            s = due[t.pick(len(due))]
            d = s.wire.pop(0)[1]
            s.peer.f.hal_rx(d) if t.chance(3, 4) else [s.peer.f.hal_rx(d[i:i + 7]) for i in range(0, len(d), 7)]
            return True
        if not q and not a.busy() and not b.busy():
            return False
        _now[0] += 0.001
        for x in (a, b):
            x.f.process()
            t.check(x.f.timeout is None or x.f.timeout > x.f.current_time - 0.001, "after the timer of %s has fired the next one is set to %s at %s", x.name, x.f.timeout, x.f.current_time)
            t.check(x.f.timeout is None or x.f.timeout < x.f.current_time + 60, "the timer of %s is set to %s at %s", x.name, x.f.timeout, x.f.current_time)
        return True
    for _ in range(t.range(1, 40)):
        if faults[0] != budget and idle():
            hits += budget - faults[0]
            faults[0] = 0
            settle()
            faults[0] = budget
        s = (a, b)[t.pick(2)]
        op = t.weighted([4, 5, 1, 1, 1])
        load = len(s.done) + len(s.peer.answers)
        if op == 0:
            for _ in range(t.pick(12)):
                step()
        elif op == 1:
            if load >= 2:   # the 8 frame buffers of a Framer must suffice
                continue
            port, mid, pd = t.range(1, 15), t.pick(256), t.u(16)
            data = t.blob(t.oneof([0, 1, 240, t.pick(241), t.pick(20)]))
            if (port, mid, pd) in s.done:
                continue
            t.note("%s sends port %d id %d port_def %04x, %d bytes", s.name, port, mid, pd, len(data))
            s.peer.expect.append((port, mid, pd, data))
            s.done.append((port, mid, pd))
            if t.chance(3, 4):
                s.f.send(port, mid, pd, data)
            else:       # in a buffer, through the functions the class wraps
                p = efr.alloc(s.f.framer)
                t.check(bool(p), "no buffer")
                p[0].write(data)
                efr.send(s.f.framer, port, mid, pd, p)
            n += 1
        elif op == 2:
            if load >= 2 or len(s.peer.done) + len(s.answers) >= 2:
                continue
            if budget and (not idle() or faults[0] != budget):
                continue
            mid = t.pick(256)
            cmd, rsp = ((PING_REQ, PING_RSP), (STATUS_REQ, STATUS_RSP))[t.pick(2)]
            data = t.blob(t.pick(241)) if cmd == PING_REQ else b""
            if (0, mid, cmd) in s.done or any(x[0] == mid for x in s.answers):
                continue
            t.note("%s asks for %s id %d, %d bytes", s.name, "ping" if cmd == PING_REQ else "status", mid, len(data))
            s.answers.append((mid, rsp, data if cmd == PING_REQ else None))
            s.done.append((0, mid, cmd))
            s.f.send(0, mid, cmd, data)
            n += 1
        elif op == 3:
            port = t.range(0, 15)
            t.note("%s registers port %d again", s.name, port)
            s.register(port, s.reg[port] + 1)
        else:
            if a.busy() or b.busy():
                continue
            t.note("%s resyncs", s.name)
            s.done.append((0, 0, RESYNC))
            s.f.resync()
            for _ in range(4000):
                if not s.done:
                    break
                step()
            t.check(not s.done, "resync of %s was not completed", s.name)
        ops += 1
    left = 6000
    while step():
        left -= 1
        t.check(left > 0, "after %d faults %s still waits: to receive %r, to complete %r, answers %r", budget - faults[0],
                "A" if a.busy() else "B", (a.expect or b.expect)[:2], (a.done or b.done)[:2], (a.answers or b.answers)[:2])
    if budget == 0:
        for s in (a, b):
            st = s.f.status
            t.equal((st.rx_mic_error, st.rx_synchronization_error), (0, 0), "error counts of %s on a clean link", s.name)
    if hits or budget != faults[0]:
        t.label("faults on the link")
    t.label("framer")
    if n >= 3:
        t.nontrivial()
    for s in (a, b):
        s.f.hal_tx = lambda x: None


def prop(t):
    _tape[0] = t
    k = t.weighted([8, 24, 32, 8, 48, 8, 1])
    (codes, pattern, buffers, lists, framers, constants, receive)[k](t)
    if k in (1, 2):
        t.nontrivial()
