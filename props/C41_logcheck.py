# C41: the buffer log checker reports exactly the allocations and frees of a log that do not pair.
import ctypes, importlib.util, io, os, re, sys
import embc
from pypbt import Fail

ID = "C41"
QUICK, THOROUGH = 200000, 3000000
RULE = ("random histories of allocations (both kinds, also of exhausted pools) and frees over one or two buffer allocators with other log messages in between, logged by the library itself; log lines lost, cut at "
        "the start or end, prefixed, with either line ending and with or without a final one; the report of the checker on that file against a model of the pairing; non-trivial: 4 or more logged buffer operations")
BASE = os.path.dirname(os.path.dirname(os.path.abspath(embc.__file__)))
_spec = importlib.util.spec_from_file_location("buffer_log_check", os.path.join(BASE, "bin", "buffer_log_check.py"))
tool = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(tool)
dll = ctypes.CDLL(os.path.join(BASE, "shim.so"))
VP = ctypes.c_void_p
for n in ("c41_new", "c41_alloc", "c41_alloc_unsafe"):
    getattr(dll, n).restype = VP
dll.c41_text.restype = ctypes.c_char_p
dll.c41_new.argtypes = [ctypes.POINTER(ctypes.c_longlong), ctypes.c_int]
dll.c41_alloc.argtypes = dll.c41_alloc_unsafe.argtypes = [VP, ctypes.c_int]
dll.c41_free.argtypes = dll.c41_delete.argtypes = [VP]
NOISE = ["framer started", "buffer pool 3 of 4", "alloc", "free", "embc_list_free(0x55d0c0ffee10)", "rx 12 bytes at 0x7ffe01020304", "%", ""]


def report(path):
    """What the checker reports about a log file."""
    old = sys.argv, sys.stdout
    sys.argv, sys.stdout = ["buffer_log_check.py", path], io.StringIO()
    try:
        rc = tool.run()
        out = sys.stdout.getvalue()
    except SystemExit as e:
        rc, out = e.code, sys.stdout.getvalue()
    finally:
        sys.argv, sys.stdout = old
    return rc, out


class History:
    def __init__(self, t):
        self.t, self.lines, self.seen = t, [], 0     # lines: (text, event or None)

    def collect(self, event):
        """The log lines since the last call; the last one is that of the event."""
        text = dll.c41_text().decode()
        new = text[self.seen:].split("\n")
        self.t.check(new[-1] == "", "incomplete log line %r", new[-1])
        self.seen = len(text)
        new = [(x, None) for x in new[:-1]]
        if event:
            self.t.check(new, "no log line for the %s of %s", event[0], event[1])
            new[-1] = (new[-1][0], event)
        self.lines += new


def prop(t):
    h, live = History(t), []
    dll.c41_start()
    allocators = []
    ops = 0
    try:
        for _ in range(t.range(1, 2)):
            sizes = [t.pick(4) for _ in range(t.range(1, 3))]
            sizes[-1] = max(1, sizes[-1])
            allocators.append((dll.c41_new((ctypes.c_longlong * len(sizes))(*sizes), len(sizes)), sizes, [0] * len(sizes)))
            h.collect(None)
        while t.more(14):
            op = t.weighted([5, 4, 2])
            if op == 0:
                a, sizes, used = allocators[t.pick(len(allocators))]
                k = t.pick(len(sizes))
                n = (32 << k) - t.pick(10)
                full = used[k] == sizes[k]
                kind = "alloc_unsafe" if full or t.flip() else "alloc"
                b = (dll.c41_alloc_unsafe if kind == "alloc_unsafe" else dll.c41_alloc)(a, n)
                t.check(bool(b) != full, "%s of %d bytes with %d of %d buffers in use gives %s", kind, n, used[k], sizes[k], b)
                t.note("%s %d -> 0x%x", kind, n, b or 0)
                if b:
                    used[k] += 1
                    live.append((b, used, k))
                    h.collect(("alloc", b))
                else:
                    h.collect(None)
                    t.label("exhausted pool")
                ops += 1
            elif op == 1:
                if not live:
                    continue
                b, used, k = live.pop(t.pick(len(live)))
                used[k] -= 1
                t.note("free 0x%x", b)
                dll.c41_free(b)
                h.collect(("free", b))
                ops += 1
            else:
                dll.c41_say(t.oneof(NOISE).encode())
                h.collect(None)
        if t.flip():
            t.note("free the other %d", len(live))
            while live:
                b, used, k = live.pop(t.pick(len(live)))
                dll.c41_free(b)
                h.collect(("free", b))
                ops += 1
    finally:
        dll.c41_stop()
        for a in allocators:
            dll.c41_delete(a[0])
    t.check(dll.c41_fatals() == 0, "fatal error in an ordinary history")
    lines = h.lines
    if t.chance(1, 4):
        k = t.pick(len(lines) + 1)
        lines = lines[k:] if t.flip() else lines[:k]
        t.note("%d lines of %d are in the file", len(lines), len(h.lines))
    if t.chance(1, 3) and lines:
        for _ in range(t.range(1, 3)):
            k = t.pick(len(lines))
            t.note("line %d is lost", k + 1)
            lines = lines[:k] + lines[k + 1:]
            if not lines:
                break
    prefix, end = t.oneof(["", "", "00:12.345 ", "[17] "]), t.oneof(["\n", "\n", "\r\n"])
    blank = t.chance(1, 4)
    if blank:   # blank lines in the file
        for _ in range(t.range(1, 4)):
            lines = list(lines)
            lines.insert(t.pick(len(lines) + 1), ("", None))
    text = end.join((prefix if x or not blank else "") + x for x, _ in lines) + (end if lines and not t.chance(1, 4) else "")
    # the spellings of pointers by other C libraries
    spell, null = t.oneof([("0x%x", "(nil)"), ("0x%x", "(nil)"), ("%016x", "0" * 16), ("0x%016X", "0x" + "0" * 16), ("%X", "(null)"), ("0x%x", "0x0"), ("%x", "0")])
    text = re.sub(r"0x([0-9a-f]+)", lambda x: spell % int(x[1], 16), text).replace("(nil)", null)
    hex = lambda v: spell % v
    path = os.path.join(os.environ.get("PBT_WORK", "/tmp"), "c41_%d.log" % os.getpid())
    with open(path, "w", newline="") as f:
        f.write(text)
    try:
        rc, out = report(path)
    finally:
        os.unlink(path)
    # the pairing by definition
    current, last, want = {}, {}, []
    for i, (_, e) in enumerate(lines):
        if e and e[0] == "alloc":
            if e[1] in current:
                want.append(("again", i + 1, hex(e[1]), current[e[1]][0]))
            current[e[1]] = last[e[1]] = [i + 1, None]
        elif e:
            if e[1] in current:
                current.pop(e[1])[1] = i + 1
            else:
                want.append(("free", i + 1) + ((hex(e[1]),) + tuple(last[e[1]]) if e[1] in last else ()))
    want += sorted(("leak", hex(p), v[0]) for p, v in current.items())
    got, leaks, tail = [], [], False
    number = lambda s: int(s) if s.isdigit() else None
    for l in out.split("\n"):
        m = re.match(r"line (\d+): alloc without free: (\S+): alloc on line (\d+)", l)
        f = re.match(r"line (\d+): free without alloc: (?:None|(\S+): alloc on line (\d+), free on line (\w+))$", l)
        e = re.match(r"(\S+): alloc on line (\d+)", l)
        if m:
            got.append(("again", int(m[1]), m[2], int(m[3])))
        elif f:
            got.append(("free", int(f[1])) + ((f[2], int(f[3]), number(f[4])) if f[2] else ()))
        elif tail and e:
            leaks.append(("leak", e[1], int(e[2])))
        elif l == "Alloc without free":
            tail = True
        else:
            t.check(l == "", "unexpected report %r", l)
    t.equal(got + sorted(leaks), want, "report on a log of %d lines", len(lines))
    if not want:
        t.label("balanced log")
    for w in want:
        t.label({"again": "allocated again", "free": "freed unallocated", "leak": "leak"}[w[0]])
    if ops >= 4:
        t.nontrivial()
