#!/usr/bin/env python3
"""Build one property's check from /repo's working tree and run it.

usage: check.py ID [--replay FILE] [--cases N] [--repo DIR]
VERIF_SEED and VERIF_TIER select seed and tier.
"""
import concurrent.futures, glob, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
SAN = "-fsanitize=address,bounds,integer-divide-by-zero,null,return,unreachable,vla-bound"


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def make_config(repo, dst):
    """What cmake's configure_file does for src/config.h.in."""
    text = open(os.path.join(repo, "src/config.h.in")).read()
    cm = open(os.path.join(repo, "CMakeLists.txt")).read()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
    ver = m.groups() if m else ("0", "2", "0")
    sub = {"EMBC_PLATFORM": "STDLIB", "PROJECT_PREFIX": "EMBC",
           "PROJECT_VERSION_MAJOR": ver[0], "PROJECT_VERSION_MINOR": ver[1], "PROJECT_VERSION_PATCH": ver[2]}
    text = re.sub(r"@(\w+)@", lambda k: sub.get(k.group(1), ""), text)
    os.makedirs(os.path.join(dst, "include/embc"), exist_ok=True)
    open(os.path.join(dst, "include/embc/config.h"), "w").write(text)


def build(pid, repo, bld, tool):
    make_config(repo, bld)
    inc = ["-I" + os.path.join(bld, "include"), "-I" + os.path.join(repo, "include"),
           "-I" + os.path.join(repo, "third-party/uthash/src"), "-I" + os.path.join(VERIF, "engine")]
    if tool == "clang":
        cc, cxx = "clang", "clang++"
        cfl = ["-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion",
               "-Wno-error=incompatible-function-pointer-types",
               "-fsanitize-coverage=inline-8bit-counters"]
        san = [SAN, "-fno-sanitize-recover=all"]
        cxxfl = []
    else:
        cc, cxx = "gcc", "g++"
        cfl = []
        san = ["-fsanitize=address,bounds,integer-divide-by-zero,null,return,unreachable", "-fno-sanitize-recover=all"]
        cxxfl = ["-fpermissive"]
    common = ["-g", "-O1", "-w", "-fexceptions", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"] + san + inc
    jobs = []
    srcs = [s for s in glob.glob(os.path.join(repo, "src/**/*.c"), recursive=True)
            if os.path.relpath(s, repo) != "src/lib.c"]
    objs = []
    for s in srcs:
        o = os.path.join(bld, os.path.relpath(s, repo).replace("/", "_") + ".o")
        objs.append(o)
        jobs.append([cc, "-std=gnu99", "-c", s, "-o", o, '-D__FILENAME__="%s"' % os.path.basename(s)] + common + cfl)
    for extra in sorted(glob.glob(os.path.join(VERIF, "props", pid + "_shim*.c"))):
        o = os.path.join(bld, os.path.basename(extra) + ".o")
        objs.append(o)
        jobs.append([cc, "-std=gnu99", "-c", extra, "-o", o, '-D__FILENAME__="shim.c"'] + common +
                    [f for f in cfl if not f.startswith("-fsanitize-cov")])
    prop = glob.glob(os.path.join(VERIF, "props", pid + "_*.cpp"))
    assert len(prop) == 1, prop
    for s in prop + [os.path.join(VERIF, "engine/pbt.cpp")]:
        o = os.path.join(bld, os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append([cxx, "-std=gnu++17", "-c", s, "-o", o, '-D__FILENAME__="%s"' % os.path.basename(s)] + common + cxxfl)
    jobs.sort(key=lambda j: not j[3].endswith("cpp"))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode and "_shim_" in r.args[3]:  # a part for another platform that this host cannot compile
                r = sh(r.args + ["-DSHIM_FALLBACK"])
            if r.returncode:
                return None, " ".join(r.args) + "\n" + r.stdout
    exe = os.path.join(bld, "check")
    ld = re.findall(r"^// LDFLAGS: (.*)$", open(prop[0]).read(), re.M)
    r = sh([cxx] + san + objs + ["-o", exe] + sum((x.split() for x in ld), []))
    if r.returncode:
        return None, r.stdout
    return exe, ""


def build_python(pid, repo, bld):
    """The Python package with the shared library, both from the tree."""
    make_config(repo, bld)
    pkg = os.path.join(bld, "py")
    shutil.copytree(os.path.join(repo, "py/embc"), os.path.join(pkg, "embc"), symlinks=True,
                    ignore=shutil.ignore_patterns("libembc.*", "__pycache__"))
    shutil.copytree(os.path.join(repo, "py/bin"), os.path.join(pkg, "bin"), ignore=shutil.ignore_patterns("__pycache__"))
    srcs = glob.glob(os.path.join(repo, "src/**/*.c"), recursive=True)
    inc = ["-I" + os.path.join(bld, "include"), "-I" + os.path.join(repo, "include"),
           "-I" + os.path.join(repo, "third-party/uthash/src")]
    r = sh(["gcc", "-shared", "-fPIC", "-std=gnu99", "-D_GNU_SOURCE", "-O1", "-g", "-w", '-D__FILENAME__="embc"'] + inc + srcs +
           ["-o", os.path.join(pkg, "embc/libembc.dll")])
    shim = os.path.join(VERIF, "props", pid + "_shim.c")
    if r.returncode == 0 and os.path.exists(shim):  # the library with all its log statements
        srcs = [s for s in srcs if os.path.relpath(s, repo) != "src/lib.c"]
        r = sh(["gcc", "-shared", "-fPIC", "-std=gnu99", "-D_GNU_SOURCE", "-O1", "-g", "-w", "-DEMBC_LOG_LEVEL=EMBC_LOG_LEVEL_ALL",
                '-D__FILENAME__="embc"'] + inc + srcs + [shim, "-o", os.path.join(pkg, "shim.so")])
    return (pkg, "") if r.returncode == 0 else (None, r.stdout)


def uses_broken(pid, repo, bld):
    """Only when the harness does not compile: a public macro that cannot be used as documented.

    props/ID_uses.c names one use per line; each is compiled alone against the headers."""
    src = os.path.join(VERIF, "props", pid + "_uses.c")
    if not os.path.exists(src):
        return False
    make_config(repo, bld)
    text = open(src).read()
    head, uses = text.split("// uses\n")
    uses = [u for u in uses.split("\n") if u.strip()]

    def compiles(body):
        c = os.path.join(bld, "uses.c")
        open(c, "w").write(head + body + "\n")
        return sh(["gcc", "-std=gnu99", "-fsyntax-only", "-Werror=implicit-function-declaration", "-I" + os.path.join(bld, "include"),
                   "-I" + os.path.join(repo, "include"), "-I" + os.path.join(repo, "third-party/uthash/src"), c])
    if compiles("").returncode:
        return False
    for u in uses:
        r = compiles(u)
        if r.returncode:
            os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
            replay = os.path.join(VERIF, "out", pid + "-uses.c")
            open(replay, "w").write(head + u + "\n")
            print("cannot be compiled: %s\n%s" % (u, r.stdout))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return True
    return False


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    repo = "/repo"
    opts = []
    replay = False
    evidence = True
    while args:
        a = args.pop(0)
        if a == "--repo":
            repo = args.pop(0)
            evidence = False
        elif a == "--tier":
            os.environ["VERIF_TIER"] = args.pop(0)
        else:
            replay |= a == "--replay"
            opts += [a, args.pop(0)]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    if not re.fullmatch(r"\d+", seed):
        seed = "1"
    bld = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    try:
        if replay and opts[opts.index("--replay") + 1].endswith("-uses.c"):
            return 1 if uses_broken(pid, repo, bld) else 0
        errs = []
        pyprop = glob.glob(os.path.join(VERIF, "props", pid + "_*.py"))
        for tool in ("python",) if pyprop else ():
            exe, err = build_python(pid, repo, bld)
            errs.append(err)
        for tool in (() if pyprop else ("clang", "gcc")):
            exe, err = build(pid, repo, bld, tool)
            if exe:
                break
            errs.append(err)
        if not exe and uses_broken(pid, repo, bld):
            return 1
        if not exe:
            print("check %s: build failed\n%s" % (pid, "\n".join(errs)))
            return 2
        cmd = [exe]
        if pyprop:
            os.environ["PYTHONPATH"] = exe
            os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
            cmd = [sys.executable, os.path.join(VERIF, "engine/pypbt.py"), pyprop[0]]
        os.environ["PBT_WORK"] = bld   # for cases that compile a program of their own
        os.environ["PBT_INC"] = " ".join("-I" + d for d in (os.path.join(bld, "include"), os.path.join(repo, "include")))
        cmd += ["--seed", seed, "--tier", tier, "--work", bld,
               "--out", os.path.join(VERIF, "out"), "--known", os.path.join(VERIF, "known_findings.txt")]
        if evidence and not replay:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            cmd += ["--evidence", os.path.join(VERIF, "evidence", pid + ".json")]
        if "--tmax" not in opts:
            cmd += ["--tmax", "600" if tier == "quick" else "780"]
        return subprocess.run(cmd + opts).returncode
    finally:
        shutil.rmtree(bld, ignore_errors=True)


sys.exit(main())
