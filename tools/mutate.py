#!/usr/bin/env python3
"""Mutation campaign (development aid, no check uses it).
mutate.py OUT.jsonl FILE[:CHECK,CHECK..] ...   mutate each line of FILE (below /repo); mutants that build and pass the tests run
against the checks; OUT.jsonl gets one line per mutant."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import seed
src = open(V + "/check.py").read().replace("\nsys.exit(main())", "\n")
ck = {"__file__": V + "/check.py", "__name__": "ck"}; exec(src, ck)
TMAX = os.environ.get("TMAX", "6")
OPS = [(r"==", ["!="]), (r"!=", ["=="]), (r"(?<![<>=-])<=(?!=)", ["<"]), (r"(?<![<>=-])>=(?!=)", [">"]),
       (r"(?<![<=\w])<(?![<=\w\"])", ["<=", ">="]), (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<= )\+ 1\b", ["", "+ 2"]), (r"(?<= )- 1\b", ["", "- 2"]),
       (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )(?!.*;.*=)", ["/"]), (r"<<", [">>"]), (r">>", ["<<"]),
       (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&"]), (r"(?<= )\^(?= )", ["|"]), (r"\+\+", ["--"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["=", "&="]), (r"&=", ["|="]),
       (r"(?<=[\s(])!(?=\w)", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\bint64_t\b", ["int32_t"]), (r"\buint32_t\b", ["uint16_t"]), (r"\buint16_t\b", ["uint8_t"]),
       (r"(?<![\w.])(\d+)(?![\w.])", ["N+1", "N-1"]), (r"(?<![\w.])0x([0-9a-fA-F]+)\b", ["H"]),
       (r"\breturn ([^;]+);", ["return 0;", "return 1;"]), (r"~", [""])]
if os.environ.get("NARROW"):   # only narrowed types and values
    OPS = [(r"\bembc_size_t\b", ["uint16_t", "uint8_t", "int32_t"]), (r"\bint32_t\b", ["int16_t", "int8_t"]), (r"\buint32_t\b", ["uint8_t", "uint16_t"]),
           (r"\bint\b", ["int8_t", "int16_t"]), (r"\buint16_t\b", ["int16_t"]), (r"\bint64_t\b", ["int32_t", "uint64_t"]), (r"\buint8_t\b(?! const)(?! \*)", ["int8_t"]),
           (r"\bint16_t\b", ["int8_t"]), (r"\bdouble\b", ["float"]),
           (r"\b(?:length|size|count|sz|n|num|remaining|key|hash|timeout|timestamp|time_current|current_time|index|idx|idx\w+|offset|mask|id|\w*_count|\w*_length|\w*_size|\w*_id|event_id|frame_id|digit|limit|blocks|mem_size)\b(?!\()(?! (?:[-+|&]?=[^=]))(?!\+\+)",
            ["((uint8_t) @)", "((uint16_t) @)", "((int16_t) @)"]),
           (r"(?:\w+->)+(?:length|size|count|key|hash|timeout|timestamp|cursor|capacity|reserve|offset|\w*_count|\w*_length|\w*_size|\w*_id|\w*_offset|remaining|value|counter|shift32)\b(?! (?:[-+|&]?=[^=]))(?!\+\+)",
            ["((uint8_t) @)", "((uint16_t) @)"])]
PAIRS = [("tx", "rx"), ("head", "tail"), ("next", "prev"), ("start", "end"), ("min", "max"), ("first", "last"), ("offset", "length"), ("size", "length"),
         ("size", "count"), ("hash", "key"), ("duplicate", "missing"), ("missing", "error"), ("current", "next"), ("enter", "exit"), ("cursor", "length"),
         ("capacity", "length"), ("reserve", "cursor"), ("items", "free"), ("pending", "active"), ("s1", "s2"), ("a", "b"), ("x", "y"), ("src", "tgt"),
         ("mtu", "sz"), ("idx", "i"), ("expected", "received"), ("last", "next"), ("left", "right"), ("up", "down"), ("num", "den"), ("port", "message"), ("value", "key")]
if os.environ.get("SWAP"): OPS = []
def code_lines(text):
    """(index, line) of code lines, comments blanked."""
    t = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
    t = re.sub(r"//[^\n]*", lambda m: " " * len(m.group(0)), t)
    return t.split("\n")
def mutants(path):
    text = open(path).read(); orig = text.split("\n"); code = code_lines(text); seen = set()
    def emit(i, new, what):
        if new != orig[i] and (i, new) not in seen:
            seen.add((i, new)); out.append((i, new, what))
    out = []
    for i, c in enumerate(code):
        s = c.strip()
        if not s or s.startswith("#include") or (s.startswith("#") and not s.startswith("#define")): continue
        if re.match(r"EMBC_(LOG|DBC|ASSERT|CPP)|typedef|extern|const char|static const char", s) or "LOG_" in s or "LOGI" in s: continue
        nostr = re.sub(r'"[^"]*"', lambda m: "_" * len(m.group(0)), c)
        for rx, reps in OPS:
            for m in re.finditer(rx, nostr):
                for r in reps:
                    if r in ("N+1", "N-1"):
                        if re.match(r"\s*#define \w+_H", c): continue
                        n = int(m.group(1)) + (1 if r == "N+1" else -1)
                        if n < 0: continue
                        r = str(n)
                    elif "@" in r: r = r.replace("@", m.group(0))
                    elif r == "H": r = "0x%X" % (int(m.group(1), 16) ^ 1)
                    emit(i, c[:m.start()] + r + c[m.end():], rx + " -> " + r)
        if os.environ.get("NARROW"): continue
        if os.environ.get("SWAP"):   # statement order, repetition, neighbouring names
            simple = lambda x: re.search(r";\s*\\?$", x) and not re.match(r"\s*(return|break|continue|\}|#|for|while)|\s*(?:struct |const |static )*\w+\s[\s\*]*\w+(\[.*\])?( = .*)?;", x)
            if simple(c):
                emit(i, re.sub(r"\S.*;", lambda m: m.group(0) + " " + m.group(0), c, count=1), "twice")
                if i + 1 < len(code) and simple(code[i + 1]) and re.match(r"\s*", c).group(0) == re.match(r"\s*", code[i + 1]).group(0):
                    emit(i, code[i + 1].rstrip(" \\") + " " + orig[i].strip() + "\0", "swap")
                if i + 1 < len(code) and re.match(r"\s*\}\s*\\?$", code[i + 1]):
                    emit(i, re.sub(r"(\S.*;)(\s*\\?)$", lambda m: "} " + m.group(1) + m.group(2) + "\0", c), "move out")
            for a, b in PAIRS:
                for x, y in ((a, b), (b, a)):
                    for m in re.finditer(r"(?<![a-z])" + x + r"(?![a-z])", nostr): emit(i, c[:m.start()] + y + c[m.end():], x + " -> " + y)
            continue
        body = not s.startswith("#define")
        if body and re.search(r";\s*\\?$", c) and not re.match(r"(return|[\w\s\*]+\s\**\w+(\[.*\])?( = .*)?;$|\})", s) :
            emit(i, re.sub(r"\S.*?;(?=\s*\\?$)", ";", c, count=1), "delete")
        if body and re.match(r"(break|continue);", s): emit(i, c.replace(s.split(";")[0] + ";", ";"), "delete")
        m = re.match(r"(\s*(?:\} else )?if \()(.*)(\) \{.*)$", c)
        if m:
            emit(i, m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3), "if 0"); emit(i, m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3), "if 1")
    return out
class Worker:
    def __init__(s):
        s.d = tempfile.mkdtemp(prefix="mut_"); os.rmdir(s.d); seed.copy_repo(s.d); seed.build(s.d); s.base = seed.tests(s.d); s.pre = {}
    def kill(s):
        shutil.rmtree(s.d)
        for b in s.pre.values(): shutil.rmtree(b)
    def check(s, f, cid):
        args = ["--seed", "1", "--tier", "quick", "--tmax", TMAX, "--workers", "4", "--known", V + "/known_findings.txt"]
        out = tempfile.mkdtemp(prefix="muto_")
        try:
            if f.endswith(".h") or f.endswith(".in") or f == "src/lib.c":
                r = seed.sh([sys.executable, V + "/check.py", cid, "--repo", s.d, "--tmax", TMAX, "--workers", "4"])
                return r.returncode
            if cid not in s.pre:
                b = tempfile.mkdtemp(prefix="mutb_"); seed.sh(["git", "stash", "-q"], s.d)
                exe, err = ck["build"](cid, s.d, b, "clang"); seed.sh(["git", "stash", "pop", "-q"], s.d)
                assert exe, err
                s.pre[cid] = b
            b = s.pre[cid]
            o = os.path.join(b, f.replace("/", "_") + ".o"); sv = o + ".orig"
            if not os.path.exists(sv): shutil.copy(o, sv)
            inc = ["-I" + b + "/include", "-I" + s.d + "/include", "-I" + s.d + "/third-party/uthash/src", "-I" + V + "/engine"]
            common = ["-g", "-O1", "-w", "-fexceptions", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", ck["SAN"], "-fno-sanitize-recover=all"] + inc
            r = seed.sh(["clang", "-std=gnu99", "-c", s.d + "/" + f, "-o", o, '-D__FILENAME__="%s"' % os.path.basename(f)] + common +
                        ["-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types", "-fsanitize-coverage=inline-8bit-counters"])
            if r.returncode: return "compile"
            ld = re.findall(r"^// LDFLAGS: (.*)$", open(glob.glob(V + "/props/" + cid + "_*.cpp")[0]).read(), re.M)
            r = seed.sh(["clang++", ck["SAN"], "-fno-sanitize-recover=all"] + glob.glob(b + "/*.o") + ["-o", b + "/check"] + sum((x.split() for x in ld), []))
            shutil.copy(sv, o)
            if r.returncode: return "link"
            r = subprocess.run([b + "/check", "--work", out, "--out", out] + args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            return r.returncode
        finally:
            shutil.rmtree(out)
    def run(s, f, i, new, what, checks):
        p = s.d + "/" + f; old = open(p).read(); L = old.split("\n"); o = L[i]; L[i] = new.replace("\0", "")
        if "\0" in new: L[i + 1] = "\\" if L[i + 1].endswith("\\") else ""
        res = dict(file=f, line=i + 1, old=o.strip(), new=new.strip(), what=what)
        try:
            open(p, "w").write("\n".join(L))
            b = seed.sh(["ninja", "-C", s.d + "/_build"])
            if b.returncode: res["r"] = "nobuild"; return res
            if [t for t in seed.tests(s.d) if t not in s.base]: res["r"] = "tests"; return res
            for c in checks:
                rc = s.check(f, c)
                if rc: res["r"] = "caught"; res["by"] = c; res["rc"] = rc; return res
            res["r"] = "SURVIVED"; return res
        finally:
            open(p, "w").write(old)
def main():
    outp = sys.argv[1]; jobs = []; done = set()
    if os.path.exists(outp):
        for l in open(outp): j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
    for a in sys.argv[2:]:
        f, c = a.split(":")
        jobs += [(f, i, new, w, c.split(",")) for i, new, w in mutants("/repo/" + f) if (f, i + 1, new.strip()) not in done]
    print(len(jobs), "mutants", flush=True)
    n = int(os.environ.get("PAR", "4")); ws = [Worker() for _ in range(n)]; free = list(ws); lock = threading.Lock()
    def one(j):
        with lock: w = free.pop()
        try: r = w.run(*j)
        except Exception as e: r = dict(file=j[0], line=j[1] + 1, new=j[2].strip(), old="", what=j[3], r="error " + repr(e)[:200])
        finally:
            with lock: free.append(w)
        with lock: open(outp, "a").write(json.dumps(r) + "\n")
    with concurrent.futures.ThreadPoolExecutor(n) as ex: list(ex.map(one, jobs))
    for w in ws: w.kill()
if __name__ == "__main__": main()
