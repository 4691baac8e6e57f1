# C40: the ping qualification tool accounts for every ping exactly once.
import functools, importlib.util, logging, os, re, signal, sys, time, types
from pypbt import Fail, put_msg, FATAL_EXIT
_now = [1000.0]
time.time = time.monotonic = time.perf_counter = lambda: _now[0]
time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(_now[0] * 1e9)
import embc
from embc import lib
from embc.stream import framer as efr

ID = "C40"
QUICK, THOROUGH = 50000, 800000
RULE = ("random histories of the ping queue (responses in order, out of order, damaged, unknown or repeated; completions and failures in any order; lost ones; time from 0 to over 5 s; any count) against a model of "
        "its accounting, and the whole tool on a stand-in serial port with a Framer behind it (also through its command line), frames lost and damaged singly and the bytes cut anywhere; non-trivial: 3 or more pings sent")
BASE = os.path.dirname(os.path.dirname(os.path.abspath(embc.__file__)))


class Serial:
    """Stand-in for the serial package: the far end of the port is the one that was set last."""
    far = last = None

    def __init__(self, port=None, baudrate=115200, timeout=None):
        self.port, self.baudrate, self.is_open = port, baudrate, False
        Serial.last = self

    def open(self):
        self.is_open = True

    def close(self):
        self.is_open = False

    def write(self, data):
        Serial.far.write(bytes(data))
        return len(data)

    def read(self, size=1):
        return Serial.far.read(size)


sys.modules["serial"] = types.SimpleNamespace(Serial=Serial)
_spec = importlib.util.spec_from_file_location("framer_qual", os.path.join(BASE, "bin", "framer_qual.py"))
tool = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(tool)
_tape = [None]


def _fatal(obj, filename, line, message):
    if _tape[0] is not None:
        put_msg(_tape[0].shared, "fatal error %s:%d: %s" % (os.path.basename((filename or b"?").decode()), line, (message or b"").decode()))
    os._exit(FATAL_EXIT)


_keep = lib.FATAL_CBK(_fatal)
lib.fatal_set(_keep, None)
_quiet = lib.PRINT_CBK(lambda obj, text: None)
lib.print_set(_quiet, None)
_stats = []


class Catch(logging.Handler):
    def emit(self, record):
        m = re.match(r"(-?\d+) Bps in (-?\d+) frames: total errors:? tx=(-?\d+), rx_missing=(-?\d+), timeout=(-?\d+)$", record.getMessage())
        if m:
            _stats.append(tuple(int(x) for x in m.groups()))


logging.getLogger().addHandler(Catch())
logging.getLogger().setLevel(logging.INFO)


def word(i):
    """Word i of the test pattern."""
    if i & 1:
        c = (i >> 1) & 0xffff
        return ((~c & 0xffff) << 16) | c
    k = (i >> 1) % 33
    return 0 if k == 0 else 1 << (k - 1)


@functools.lru_cache(maxsize=1024)
def payload(n):
    """The payload of ping n."""
    return b"".join(word(60 * n + k).to_bytes(4, "little") for k in range(60))


class Model:
    """What becomes of the pings: [number, time sent, response, completion]."""

    def __init__(self, count):
        self.count, self.sent, self.q = count, 0, []
        self.completed = self.tx_error = self.missing = self.timeout = 0
        self.hold, self.start, self.last, self.last_completed = _now[0], None, None, 0
        self.stats = []

    def process(self):
        t = _now[0]
        if self.start is None:
            self.start = self.last = t
        keep = []
        for m in self.q:
            if m[2] and m[3]:
                self.completed += 1
            elif t - m[1] >= 5.0:
                self.timeout += 1
            else:
                keep.append(m)
        self.q = keep
        if t >= self.hold:
            while (self.count < 0 or self.sent < self.count) and sum(not m[2] for m in self.q) < 3 and sum(not m[3] for m in self.q) < 3:
                self.q.append([self.sent, t, False, False])
                self.sent += 1
        if t - self.last > 1.0:
            k = self.completed - self.last_completed
            self.stats.append((int(k * 240 / (t - self.last)), k, self.tx_error, self.missing, self.timeout))
            self.last, self.last_completed = t, self.completed

    def rx(self, mid, data):
        wait = [m for m in self.q if not m[2]]
        for k, m in enumerate(wait):
            if m[0] & 255 == mid and payload(m[0]) == data:
                self.missing += k
                for x in wait[:k]:
                    self.q.remove(x)
                m[2] = True
                self.process()
                return True
        return False

    def tx_done(self, mid, status):
        for m in self.q:
            if not m[3] and m[0] & 255 == mid:
                m[3] = True
                if status:
                    self.tx_error += 1
                    self.q.remove(m)
                    self.hold = _now[0] + 1.0
                self.process()
                return True
        return False


def queue(t):
    _now[0] = 1000.0 + t.pick(64) / 4.0
    count = t.oneof([-1, -1, 0, 1, t.pick(12), 400])
    sent = []
    q = tool.PingQueue(count, sent.append)
    m = Model(count)
    del _stats[:]
    t.note("count %d", count)
    done_first = t.flip()
    skip = t.oneof([100, 250, 254, 300]) if (count < 0 or count == 400) and t.chance(1, 25) else 0
    n = 0

    def look(what):
        t.equal(len(sent), m.sent, "pings sent after %s", what)
        for i in range(max(0, len(sent) - 4), len(sent)):
            t.equal((sent[i].message_id, bytes(sent[i].payload)), (i & 255, payload(i)), "ping %d", i)
        t.equal(_stats, m.stats, "running statistics after %s", what)

    q.process()
    m.process()
    look("the start")
    for _ in range(skip):       # undisturbed pings, so that message ids wrap
        if not m.q:
            break
        x = m.q[0]
        for f in (q, m):
            f.tx_done(x[0] & 255, 0)
            f.rx(x[0] & 255, payload(x[0]))
        if _ % 16 == 0:
            _now[0] += 0.25
    if skip:
        t.label("long session")
        look("an undisturbed session")
    while t.more(30):
        op = t.weighted([6, 6, 3, 3, 2])
        waiting = [x for x in m.q if not x[2]]
        unsent = [x for x in m.q if not x[3]]
        if op == 0 and waiting:
            k = 0 if t.chance(3, 4) else t.pick(len(waiting))
            x = waiting[k]
            what = "the response to ping %d" % x[0]
            t.note("%s", what)
            if k:
                t.label("response out of order")
            if not x[3]:
                t.label("response before completion")
            a = (x[0] & 255, payload(x[0]))
            q.rx(*a)
            m.rx(*a)
        elif op == 1 and unsent:
            x = unsent[0 if t.chance(3, 4) else t.pick(len(unsent))]
            status = 0 if t.chance(7, 8) else t.oneof([1, 6, 12, 1000, -1])
            what = "completion of ping %d with status %d" % (x[0], status)
            t.note("%s", what)
            if status:
                t.label("failed send")
            q.tx_done(x[0] & 255, status)
            m.tx_done(x[0] & 255, status)
        elif op == 2:
            _now[0] += t.oneof([0.0, 0.25, 0.5, 1.0, 1.25, 2.0, 4.75, 5.0, 5.25])
            what = "%.2f s" % (_now[0] - 1000.0)
            t.note("%s", what)
            if t.chance(3, 4):
                q.process()
                m.process()
        elif op == 3:
            k = t.pick(5)
            i = t.pick(m.sent + 3) if t.flip() else max(0, m.sent - t.pick(6))
            mid, data = i & 255, payload(i)
            if k == 0:
                j = t.pick(240)
                data = data[:j] + bytes([data[j] ^ (1 << t.pick(8))]) + data[j + 1:]
            elif k == 1:
                data = data[:t.pick(240)]
            elif k == 2:
                mid = t.pick(256)
            elif k == 3:
                data = payload(i + t.pick(3))
            what = "response id %d (variant %d of ping %d)" % (mid, k, i)
            t.note("%s", what)
            q.rx(mid, data)
            m.rx(mid, data)
            t.label("stray response")
        elif op == 4:
            mid, status = t.pick(256) if t.flip() else max(0, m.sent - t.pick(6)) & 255, t.oneof([0, 0, 0, 5])
            what = "completion of id %d with status %d" % (mid, status)
            t.note("%s", what)
            q.tx_done(mid, status)
            m.tx_done(mid, status)
        else:
            continue
        look(what)
        n += 1
    if _now[0] > m.start and m.stats == _stats:
        del _stats[:]
        q.log_total_stats()
        t.equal(_stats, [(int(m.completed * 240 / (_now[0] - m.start)), m.completed, m.tx_error, m.missing, m.timeout)],
                "rate, completed, failed, missing and timed out of %d sent, %d outstanding", m.sent, len(m.q))
    if m.timeout:
        t.label("timeout")
    if m.sent >= 3 and n:
        t.nontrivial()
    t.label("ping queue")


class Far:
    """The far end of the serial line: a Framer, which answers pings by itself."""

    def __init__(self, t, faults):
        self.t, self.left, self.hits = t, faults, 0
        self.f = efr.Framer()
        self.f.hal_tx = self.tx
        self.wire = b""                 # bytes on their way to the tool
        self.inbox = []                 # frames on their way to the far end
        self.quiet, self.hook = 0, None
        for p in range(16):
            self.f.register_port(p, lambda *a: None, lambda *a: None)

    def fault(self, data, who):
        t = self.t
        if self.left and self.quiet <= 0 and t.chance(1, 12):
            self.left -= 1
            self.hits += 1
            self.quiet = 40
            if t.flip():
                t.note("  frame of %d bytes from %s is lost", len(data), who)
                return b""
            i = t.pick(len(data))
            t.note("  byte %d of a frame of %d bytes from %s is damaged", i, len(data), who)
            return data[:i] + bytes([data[i] ^ (1 << t.pick(8))]) + data[i + 1:]
        self.quiet -= 1
        return data

    def tx(self, data):
        self.wire += self.fault(data, "the far end")

    def write(self, data):
        data = self.fault(data, "the tool")
        if data:
            self.inbox.append(data)

    def read(self, size):
        if self.hook:
            self.hook()
        n = max(1, size)
        b, self.wire = self.wire[:n], self.wire[n:]
        if not b:
            _now[0] += 0.002
        return b


def whole(t):
    _now[0] = 1000.0 + t.pick(1000) / 7.0
    far = Serial.far = Far(t, t.oneof([0, 0, 1, 2]))
    faults, far.left = far.left, 0
    count = t.range(1, 12)
    main = t.chance(1, 3)       # through the command line
    t.note("%d pings, %d faults%s", count, faults, ", command line" if main else "")
    del _stats[:]

    def far_end():
        if far.inbox and (len(far.inbox) > 1 or t.chance(1, 2)):
            d = far.inbox.pop(0)
            cut = t.pick(len(d)) if t.chance(1, 4) else 0
            for part in (d[:cut], d[cut:]):
                if part:
                    far.f.hal_rx(part)
        far.f.process()

    class Quiet:
        quiet = jumps = turns = 0

        def over(self):         # nothing has happened for 7 s
            self.turns += 1
            t.check(self.turns < 60000, "the pings never end")
            if far.wire or far.inbox:
                self.quiet = self.jumps = 0
            else:
                self.quiet += 1
            if self.quiet >= 200 or (self.jumps and self.quiet >= 2):
                self.quiet = 0
                self.jumps += 1
                _now[0] += 1.1
            return self.jumps >= 7
    quiet = Quiet()
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        if main:
            args = ["framer_qual.py", "--port", "COM1", "--ping", str(count)]
            rate = t.oneof([0, 9600, 1000000])
            if rate:
                args += ["--baudrate", str(rate)]
            old = sys.argv, signal.getsignal(signal.SIGINT)
            sys.argv = args
            ended = []

            def hook():
                far_end()
                if quiet.turns == 60:
                    far.left = faults
                if quiet.over() and not ended:
                    ended.append(1)
                    signal.getsignal(signal.SIGINT)(signal.SIGINT, None)    # ^C
                else:
                    t.check(len(ended) < 5, "the tool does not end")
                    if ended:
                        ended.append(1)
            far.hook = hook
            try:
                rc = tool.run()
            finally:
                sys.argv = old[0]
                signal.signal(signal.SIGINT, old[1])
            t.check(not rc, "the tool returns %s", rc)
            t.equal((Serial.last.port, int(Serial.last.baudrate)), ("COM1", rate or 115200), "port and rate")
            t.label("command line")
        else:
            m = tool.MasterFramer(port="COM1", baudrate=115200)
            m.open()
            t.check(Serial.last.is_open, "open does not open the port")
            for _ in range(60):     # the resync of open
                m.process()
                far_end()
            m.start_ping(count)
            far.left = faults
            while not quiet.over():
                m.process()
                far_end()
            m.close()
        s = (sum(x[1] for x in _stats),) + _stats[-1][2:] if _stats else ()
    finally:
        sys.stdout.close()
        sys.stdout = out
    t.equal(s, (count, 0, 0, 0), "completed, failed, missing and timed out of %d pings with %d faults on the line", count, far.hits)
    t.check(not Serial.last.is_open, "close does not close the port")
    far.f.hal_tx = lambda x: None
    if far.hits:
        t.label("faults on the line")
    if count >= 3:
        t.nontrivial()
    t.label("whole tool")


def prop(t):
    _tape[0] = t
    (queue if t.chance(39, 40) else whole)(t)
