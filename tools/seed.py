#!/usr/bin/env python3
"""Planted bugs: write them from a spec and confirm them in a scratch copy of /repo.

seed.py add SPEC.py      write seeded/<id>/ for each bug(...) in SPEC.py, then confirm
seed.py verify [ID..]    confirm: applies, builds, baseline tests pass, demo 0 without / nonzero with the patch
seed.py check [ID..]     run the property's check (and any given with +CXX) against the patched copy
"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = r'''#!/bin/bash
# Compiles demo.c with the library sources of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$here" <<'P'
import glob, os, subprocess, sys, tempfile
here = sys.argv[1]
with tempfile.TemporaryDirectory() as w:
    exe = os.path.join(w, "demo")
    r = subprocess.run(["gcc", "-std=gnu99", "-g", "-w", "-fsanitize=address", "-I_build/src/include", "-Iinclude",
                        "-Ithird-party/uthash/src", "-I" + here, '-D__FILENAME__="demo"', os.path.join(here, "demo.c")]
                       + sorted(glob.glob("src/**/*.c", recursive=True)) + ["-o", exe, "-lm"])
    if r.returncode:
        sys.exit(2)
    try:
        rc = subprocess.run([exe], timeout=100, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")).returncode
    except subprocess.TimeoutExpired:
        rc = 99
    print("demo exit", rc)
    sys.exit(0 if rc == 0 else 1)
P
'''
DEMO_H = r'''/* shared by the demonstrations */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "embc.h"
#include "embc/lib.h"
#define CHECK(x) do { if (!(x)) { printf("%s:%d: failed: %s\n", __FILE__, __LINE__, #x); exit(1); } } while (0)
static void demo_fatal(void * u, char const * file, int line, char const * msg) {
    (void) u; printf("fatal: %s:%d: %s\n", file, line, msg); exit(3);
}
static void demo_quiet(const char * fmt, ...) { (void) fmt; }
static void demo_init(void) {
    embc_lib_initialize();
    embc_lib_fatal_set(demo_fatal, 0);
    embc_log_initialize(demo_quiet);
}
'''
DEMO_PY = r'''#!/bin/bash
# Builds the shared library from the current directory into a scratch copy of the Python package and runs demo.py with it.
here=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$here" <<'P'
import glob, os, shutil, subprocess, sys, tempfile
here = sys.argv[1]
with tempfile.TemporaryDirectory() as w:
    shutil.copytree("py/embc", os.path.join(w, "embc"), ignore=shutil.ignore_patterns("*.dll", "__pycache__"))
    shutil.copytree("py/bin", os.path.join(w, "bin"), ignore=shutil.ignore_patterns("__pycache__"))
    r = subprocess.run(["gcc", "-std=gnu99", "-g", "-w", "-shared", "-fPIC", "-I_build/src/include", "-Iinclude", "-Ithird-party/uthash/src",
                        '-D__FILENAME__="demo"'] + sorted(glob.glob("src/**/*.c", recursive=True)) + ["-o", os.path.join(w, "embc", "libembc.dll"), "-lm"])
    if r.returncode:
        sys.exit(2)
    try:
        rc = subprocess.run([sys.executable, "-B", os.path.join(here, "demo.py")], timeout=100, env=dict(os.environ, PYTHONPATH=w)).returncode
    except subprocess.TimeoutExpired:
        rc = 99
    print("demo exit", rc)
    sys.exit(0 if rc == 0 else 1)
P
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy_repo(dst):
    subprocess.check_call(["cp", "-a", "/repo", dst])
    shutil.rmtree(dst + "/_build", ignore_errors=True)
    sh(["git", "checkout", "-q", "--", "."], dst)
def build(d):
    env = dict(os.environ, CC="/usr/bin/gcc", LC_ALL="C.UTF-8")
    a = sh(["cmake", "-S", d, "-B", d + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DEMBC_UNIT_TEST=ON", "-Wno-deprecated"], env=env)
    b = sh(["ninja", "-C", d + "/_build"], env=env)
    return a.returncode == 0 and b.returncode == 0, b.stdout[-1500:]
def tests(d):
    bad = []
    for t in sorted(glob.glob(d + "/_build/test/**/*_test", recursive=True)):
        if os.path.isfile(t) and os.access(t, os.X_OK):
            try:
                r = subprocess.run([t], cwd=os.path.dirname(t), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30).returncode
            except subprocess.TimeoutExpired:
                r = -1
            if r:
                bad.append(os.path.basename(t))
    return bad
def touched_own(diff, d):
    """Removed (or neighbouring, for pure insertions) lines that were added by a later commit than the first of /repo's pinned history."""
    f = None; out = []; n = 0
    for l in open(diff):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l[0] in " -" and not l.startswith("---"):
            n += 1
            if l[0] == "-" and l[1:].strip():
                b = sh(["git", "blame", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", f], d).stdout
                if not b.startswith("^"): out.append("%s:%d" % (f, n))
    return out
def verify(i, d):
    p = os.path.join(S, i)
    demo = lambda: sh(["bash", p + "/demo.sh"], d, timeout=300)
    sh(["git", "checkout", "-q", "--", "."], d)
    build(d)
    base = tests(d)
    r0 = demo()
    a = sh(["git", "apply", p + "/patch.diff"], d)
    if a.returncode: return "patch does not apply " + a.stdout
    ok, out = build(d)
    if not ok: return "does not build: " + out
    bad = [t for t in tests(d) if t not in base]
    r1 = demo()
    sh(["git", "checkout", "-q", "--", "."], d)
    if touched_own(p + "/patch.diff", d): return "changes only lines of own commits: %s" % touched_own(p + "/patch.diff", d)
    if bad: return "tests fail: %s" % bad
    if r0.returncode: return "demo fails on the unchanged tree: " + r0.stdout
    if not r1.returncode: return "demo passes with the patch"
    return "ok (%s)" % r1.stdout.strip().splitlines()[0][:100]
def check(i, d, extra=()):
    p = os.path.join(S, i); res = []
    sh(["git", "checkout", "-q", "--", "."], d)
    sh(["git", "apply", p + "/patch.diff"], d)
    for c in [json.load(open(p + "/meta.json"))["property"]] + list(extra):
        r = sh([sys.executable, V + "/check.py", c, "--repo", d])
        res.append("%s:%s" % (c, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode)) + (" " + r.stdout.splitlines()[0][:90] if r.returncode == 1 else ""))
    sh(["git", "checkout", "-q", "--", "."], d)
    return "; ".join(res)
def each(ids, fn, par):
    dirs = []
    for k in range(min(par, len(ids))):
        d = tempfile.mkdtemp(prefix="seedw_"); os.rmdir(d); copy_repo(d); dirs.append(d)
    free = list(dirs)
    def one(i):
        d = free.pop()
        try: return i, fn(i, d)
        finally: free.append(d)
    with concurrent.futures.ThreadPoolExecutor(len(dirs)) as ex:
        for i, r in ex.map(one, ids): print(i, "-", r, flush=True)
    for d in dirs: shutil.rmtree(d)
def add(spec):
    ids = []
    def bug(id, prop, edits, needs, breaks, demo):
        d = tempfile.mkdtemp(prefix="seedm_"); os.rmdir(d); copy_repo(d)
        for f, old, new in edits:
            s = open(d + "/" + f).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(d + "/" + f, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=d, text=True)
        shutil.rmtree(d)
        p = os.path.join(S, id); os.makedirs(p, exist_ok=True)
        open(p + "/patch.diff", "w").write(diff)
        py = demo.lstrip().startswith("#py")      # demo.py over the built library instead of demo.c
        open(p + "/demo.sh", "w").write(DEMO_PY if py else DEMO); os.chmod(p + "/demo.sh", 0o755)
        if not py: open(p + "/demo.h", "w").write(DEMO_H)
        open(p + ("/demo.py" if py else "/demo.c"), "w").write(demo.strip() + "\n")
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(p + "/meta.json", "w"), indent=1)
        ids.append(id)
    exec(open(spec).read(), dict(bug=bug))
    return ids
if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    extra = [a[1:] for a in args if a[0] == "+"]; args = [a for a in args if a[0] != "+"]
    ids = add(args[0]) if cmd == "add" else args or sorted(os.listdir(S))
    if cmd in ("add", "verify"): each(ids, verify, 6)
    else: each(ids, lambda i, d: check(i, d, extra), 2)
