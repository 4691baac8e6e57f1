#!/usr/bin/env python3
"""Mutation campaign for the Python files (development aid, no check uses it).
mutate_py.py OUT.jsonl FILE:CHECK[,CHECK] ...   FILE is below /repo; mutants that still compile run against the checks."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r"==", ["!="]), (r"!=", ["=="]), (r"<=", ["<"]), (r">=", [">"]), (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )>(?= )", [">=", "<"]), (r"\band\b", ["or"]), (r"\bor\b", ["and"]),
       (r"\bis not None\b", ["is None"]), (r"\bis None\b", ["is not None"]), (r"\bnot (?!None)", [""]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]),
       (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]), (r"\*\*", ["*"]), (r"(?<![\w.])(\d+)(?![\w.])", ["N+1", "N-1"]), (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]),
       (r"\bc_uint8\b", ["ctypes.c_int8", "ctypes.c_uint16"]), (r"\bc_uint16\b", ["ctypes.c_uint8", "ctypes.c_int16"]), (r"\bc_uint32\b", ["ctypes.c_uint16", "ctypes.c_int32"]), (r"\bc_int32\b", ["ctypes.c_uint32", "ctypes.c_int16"]),
       (r"\bc_int64\b", ["ctypes.c_int32"]), (r"\bc_size_t\b", ["ctypes.c_uint16", "ctypes.c_uint8"]), (r"'([^']+)'", ["S"]), (r"\bcontinue\b", ["pass"]), (r"\bbreak\b", ["pass"]), (r"\breturn (?!None)(.+)", ["return None"]),
       (r"\brx\b", ["tx"]), (r"\btx\b", ["rx"]), (r"\bport_def\b", ["port"]), (r"\bmessage_id\b", ["port"]), (r"&", ["|"]), (r"<<", [">>"]), (r"//", ["/"])]
def mutants(f):
    L = open("/repo/" + f).read().split("\n"); out = []; seen = set(); doc = False
    for i, l in enumerate(L):
        s = l.strip(); q = s.count('"""')
        if doc or q:
            if q % 2: doc = not doc
            continue
        if not s or s.startswith(("#", "import", "from", "log.", "@")): continue
        def emit(n, w):
            if n != l and n not in seen:
                seen.add(n)
                t = L[:i] + [n] + L[i + 1:]
                try: compile("\n".join(t), f, "exec")
                except SyntaxError: return
                out.append((i, n, w))
        for rx, reps in OPS:
            for m in re.finditer(rx, l):
                for r in reps:
                    if r in ("N+1", "N-1"):
                        n = int(m.group(1)) + (1 if r == "N+1" else -1)
                        if n < 0: continue
                        r = str(n)
                    elif r == "S": r = "'x" + m.group(1)[1:] + "'"
                    emit(l[:m.start()] + r + l[m.end():], rx + " -> " + r)
        m = re.match(r"(\s*)(?:el)?if (.*):$", l)
        if m: emit(l.replace(m.group(2), "True", 1), "if true"); emit(l.replace(m.group(2), "False", 1), "if false")
        if re.match(r"\s+[\w.\[\]]+( [-+*/|]?=|\().*$", l) and not s.startswith(("def", "if", "for", "while", "elif", "else", "class", "return")):
            emit(re.match(r"\s*", l).group(0) + "pass", "delete")
    return out
def main():
    outp = sys.argv[1]; jobs = []
    for a in sys.argv[2:]:
        f, c = a.split(":"); jobs += [(f, i, n, w, c.split(",")) for i, n, w in mutants(f)]
    print(len(jobs), "mutants", flush=True); lock = threading.Lock(); tl = threading.local(); dirs = []
    def one(j):
        f, i, n, w, cs = j
        if not hasattr(tl, "d"):
            tl.d = tempfile.mkdtemp(prefix="mutp_"); os.rmdir(tl.d); shutil.copytree("/repo", tl.d, symlinks=True); dirs.append(tl.d)
        p = tl.d + "/" + f; old = open(p).read(); L = old.split("\n"); o = L[i]; L[i] = n; open(p, "w").write("\n".join(L)); r = "SURVIVED"
        try:
            for c in cs:
                k = subprocess.run([sys.executable, V + "/check.py", c, "--repo", tl.d, "--tmax", os.environ.get("TMAX", "8"), "--workers", "2"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if k.returncode: r = "caught"; break
        finally: open(p, "w").write(old)
        with lock: open(outp, "a").write(json.dumps(dict(file=f, line=i + 1, old=o.strip(), new=n.strip(), what=w, r=r)) + "\n")
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("PAR", "4"))) as ex: list(ex.map(one, jobs))
    for d in dirs: shutil.rmtree(d)
if __name__ == "__main__": main()
