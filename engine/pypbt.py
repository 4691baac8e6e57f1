"""Property-based testing engine for the Python bindings: the counterpart of pbt.cpp.

A property is a function prop(t) of a choice tape.  Cases are split over forked workers; every draw is also written to shared
memory, so that a crash, an exit or an endless loop of the library leaves its tape behind.  A failing tape is confirmed, shrunk
and written as the replay file.
usage: pypbt.py PROP.py --seed N --tier T --out DIR [--evidence FILE] [--replay FILE] [--cases N] [--tmax S] [--workers N]
"""
import ctypes, importlib.util, json, mmap, os, random, selectors, signal, struct, sys, traceback
from time import time as _wall

CAP = 1 << 16
FATAL_EXIT = 70


class Fail(Exception):
    pass


class Stop(Exception):
    pass


class Tape:
    def __init__(self, shared, src=None, seed=None, trace=False):
        self.shared, self.src, self.tracing = shared, src, trace
        self.rng = random.Random(seed) if src is None else None
        self.n, self.labels, self.hash = 0, set(), 0
        self.is_nontrivial = False
        self.notes = []

    def pick(self, n):
        """A choice in [0, n)."""
        if self.n >= CAP - 2:
            v = 0
        elif self.src is None:
            v = self.rng.randrange(n)
        else:
            v = self.src[self.n] % n if self.n < len(self.src) else 0
        if self.n < CAP - 2:
            struct.pack_into("<Q", self.shared, 16 + 8 * self.n, v)
            self.n += 1
            struct.pack_into("<Q", self.shared, 8, self.n)
        self.hash = hash((self.hash, v))
        return v

    def range(self, lo, hi):
        return lo + self.pick(hi - lo + 1)

    def chance(self, num, den):
        return self.pick(den) >= den - num

    def flip(self):
        return self.pick(2) != 0

    def more(self, mean):
        return self.pick(mean + 1) != 0

    def weighted(self, w):
        v = self.pick(sum(w))
        for i, x in enumerate(w):
            if v < x:
                return i
            v -= x

    def oneof(self, l):
        return l[self.pick(len(l))]

    def u(self, bits):
        """An integer of up to bits bits, biased to small values and boundaries."""
        m = (1 << bits) - 1
        k = self.pick(5)
        if k == 0:
            return self.pick(16) & m
        if k == 1:
            return ((1 << self.pick(bits + 1)) + self.pick(5) - 2) & m
        if k == 2:
            return self.pick(256) & m
        if k == 3:
            return (m - self.pick(16)) & m
        return self.pick(m + 1)

    def blob(self, n):
        """n bytes that depend on two choices."""
        a, b = self.pick(256), self.pick(256)
        return bytes((a + i * b + (i * i >> 3)) & 0xff for i in range(n))

    def note(self, fmt, *args):
        if self.tracing:
            s = fmt % args if args else fmt
            self.notes.append(s)
            if self.tracing == "print":
                print("  " + s, flush=True)

    def label(self, s):
        self.labels.add(s)

    def nontrivial(self):
        self.is_nontrivial = True

    def check(self, ok, fmt, *args):
        if not ok:
            raise Fail(fmt % args if args else fmt)

    def equal(self, got, want, fmt, *args):
        if got != want:
            raise Fail((fmt % args if args else fmt) + ": %r, expected %r" % (got, want))


def new_shared():
    return mmap.mmap(-1, 16 + 8 * CAP + 4096)


def read_tape(sh):
    n = struct.unpack_from("<Q", sh, 8)[0]
    return list(struct.unpack_from("<%dQ" % n, sh, 16))


def put_msg(sh, s):
    b = s.encode("utf-8", "replace")[:4000]
    struct.pack_into("<I", sh, 16 + 8 * CAP, len(b))
    sh[20 + 8 * CAP:20 + 8 * CAP + len(b)] = b


def get_msg(sh):
    n = struct.unpack_from("<I", sh, 16 + 8 * CAP)[0]
    return sh[20 + 8 * CAP:20 + 8 * CAP + n].decode("utf-8", "replace")


def one_case(mod, t, sh):
    """Runs a case; returns None or the failure."""
    hooked = []
    old = sys.unraisablehook
    sys.unraisablehook = lambda a: hooked.append("".join(traceback.format_exception_only(a.exc_type, a.exc_value)).strip())
    try:
        put_msg(sh, "")
        mod.prop(t)
        if hooked:
            return "exception in a callback: " + hooked[0]
    except Fail as e:
        return str(e) or "failed"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return "exception %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    finally:
        sys.unraisablehook = old
    return None


def run_tape(mod, tape, trace=False, limit=20):
    """Runs a tape in a child; returns (failure or None, tape as used)."""
    sh = new_shared()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(limit)
            t = Tape(sh, src=tape, trace=trace)
            m = one_case(mod, t, sh)
            if m:
                put_msg(sh, m)
            sys.stdout.flush()
            os._exit(1 if m else 0)
        finally:
            os._exit(99)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        return None, read_tape(sh)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (1, FATAL_EXIT):
        return get_msg(sh) or "failed", read_tape(sh)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
        return "endless loop", read_tape(sh)
    return "crash (status %d)" % st, read_tape(sh)


def shrink(mod, tape, msg, budget=float(os.environ.get("PBT_SHRINK", 60))):
    end = _wall() + budget
    best = tape

    def good(c):
        nonlocal best, msg
        if _wall() > end:
            raise Stop
        m, used = run_tape(mod, c, limit=10)
        if m and (len(used), used) < (len(best), best):
            best, msg = used, m
            return True
        return False
    try:
        changed = True
        while changed:
            changed = False
            size = max(1, len(best) // 2)
            while size:
                i = len(best) - size
                while i >= 0:
                    if good(best[:i] + best[i + size:]):
                        changed = True
                    i -= size
                size //= 2
            for i in range(len(best) - 1, -1, -1):
                if i < len(best) and best[i]:
                    for v in (0, best[i] // 2, best[i] - 1):
                        if i < len(best) and v < best[i] and good(best[:i] + [v] + best[i + 1:]):
                            changed = True
                            break
    except Stop:
        pass
    return best, msg


def main():
    a = sys.argv[1:]
    path = a.pop(0)
    o = dict(seed="1", tier="quick", out="out", evidence="", replay="", cases="", tmax="600", workers="8", known="", work="")
    while a:
        k = a.pop(0)
        o[k[2:]] = a.pop(0)
    spec = importlib.util.spec_from_file_location("prop", path)
    mod = importlib.util.module_from_spec(spec)
    try:
        spec.loader.exec_module(mod)
    except Exception as e:
        # the bindings themselves fail to load: every case fails, and any replay file reports it again
        where = [f for f in traceback.extract_tb(e.__traceback__) if "/py/embc/" in f.filename or "/py/bin/" in f.filename]
        if not where:
            raise
        where = where[-1]
        pid = os.path.basename(path).split("_")[0]
        rp = o["replay"] or os.path.join(os.path.abspath(o["out"]), pid + "-import.replay")
        traceback.print_exc(file=sys.stdout)
        if not o["replay"]:
            os.makedirs(o["out"], exist_ok=True)
            with open(rp, "w") as f:
                f.write("# property %s\n# replay: python3 /verif/check.py %s --replay %s\n# import embc: %s\n" % (pid, pid, rp, str(e).replace("\n", " ")))
        if o["evidence"]:
            with open(o["evidence"], "w") as f:
                json.dump(dict(property=pid, tier=o["tier"], seed=int(o["seed"]), level="exploration", wall_s=0.0, violations=1,
                               coverage=dict(evaluations=1, distinct_nontrivial=0, rule="import of the bindings", labels={}, samples=["import embc"])), f)
        print("FAIL: the bindings cannot be imported: %s (%s:%d)" % (e, os.path.basename(where.filename), where.lineno))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    mod.Fail = Fail
    if o["replay"]:
        tape = [int(x) for l in open(o["replay"]) if not l.startswith("#") for x in l.split()]
        m, _ = run_tape(mod, tape, trace="print", limit=120)
        if m:
            print("FAIL: " + m)
            print("VIOLATION property=%s replay=%s" % (mod.ID, o["replay"]))
            return 1
        print("replay: held")
        return 0
    seed, tier = int(o["seed"]), o["tier"]
    total = int(o["cases"] or (mod.QUICK if tier == "quick" else mod.THOROUGH))
    tmax, nw = float(o["tmax"]), int(o["workers"])
    t0 = _wall()
    shared = [new_shared() for _ in range(nw)]
    pipes, pids = [], {}

    def work(w, first):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            os.close(wr)
            return pid, r
        os.close(r)
        sh = shared[w]
        nont, labels, samples, n = set(), {}, [], 0
        try:
            for c in range(first, total, nw):
                if _wall() - t0 > tmax:
                    break
                struct.pack_into("<QQ", sh, 0, c, 0)
                signal.alarm(60)
                t = Tape(sh, seed=(seed << 32) + c, trace=c < 40 or c % 1000 == 0)
                m = one_case(mod, t, sh)
                signal.alarm(0)
                if m:
                    put_msg(sh, m)
                    os._exit(1)
                n += 1
                for l in t.labels:
                    labels[l] = labels.get(l, 0) + 1
                if t.is_nontrivial:
                    nont.add(t.hash)
                    if t.tracing and len(samples) < 3:
                        samples.append(t.notes[:30])
            with os.fdopen(wr, "w") as f:
                json.dump(dict(n=n, nont=sorted(nont), labels=labels, samples=samples), f)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(98)
    for w in range(nw):
        pid, r = work(w, w)
        pids[pid] = (w, r)
    n, nont, labels, samples, failing = 0, set(), {}, [], None
    sel = selectors.DefaultSelector()
    for pid, (w, r) in pids.items():
        sel.register(r, selectors.EVENT_READ, (pid, w, []))
    left = set(pids)
    while sel.get_map():
        for key, _ in sel.select():
            pid, w, parts = key.data
            d = os.read(key.fd, 1 << 16)
            if d:
                parts.append(d)
                continue
            sel.unregister(key.fd)
            os.close(key.fd)
            left.discard(pid)
            _, st = os.waitpid(pid, 0)
            txt = b"".join(parts)
            if st == 0 and txt:
                d = json.loads(txt)
                n += d["n"]
                nont.update(d["nont"])
                for l, k in d["labels"].items():
                    labels[l] = labels.get(l, 0) + k
                samples += d["samples"]
            elif os.WIFEXITED(st) and os.WEXITSTATUS(st) == 98:
                return 2
            elif failing is None:
                failing = read_tape(shared[w])
                for p in left:
                    os.kill(p, signal.SIGKILL)
    rc = 0
    if failing is not None:
        res = [run_tape(mod, failing, limit=60)[0] for _ in range(3)]
        if not all(res):
            print("%s: a worker ended without a reproducible failure" % mod.ID)
            return 2
        tape, msg = shrink(mod, failing, res[0])
        os.makedirs(o["out"], exist_ok=True)
        rp = os.path.join(os.path.abspath(o["out"]), mod.ID + ".replay")
        with open(rp, "w") as f:
            f.write("# property %s\n# replay: python3 /verif/check.py %s --replay %s\n# %s\n" % (mod.ID, mod.ID, rp, msg.replace("\n", " ")))
            f.write(" ".join(map(str, tape)) + "\n")
        run_tape(mod, tape, trace="print")
        print("FAIL: " + msg)
        print("VIOLATION property=%s replay=%s" % (mod.ID, rp))
        rc = 1
    wall = _wall() - t0
    if o["evidence"]:
        ev = dict(property=mod.ID, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=n, distinct_nontrivial=len(nont), rule=mod.RULE, labels=labels,
                                samples=samples[:5] or ["none"]), wall_s=wall, violations=rc)
        with open(o["evidence"], "w") as f:
            json.dump(ev, f, indent=1)
    if not rc:
        print("%s: held on %d cases, %d distinct non-trivial, %.1f s" % (mod.ID, n, len(nont), wall))
    return rc


if __name__ == "__main__":
    sys.modules["pypbt"] = sys.modules["__main__"]
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
