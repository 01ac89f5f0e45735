"""Build the resolved program: compile every library translation unit of /repo's
current working tree (plus witness units from /verif/witness) to LLVM IR with
clang-18, link, run mem2reg/SROA, and load the JSON dump."""
import os, subprocess, json, tempfile, shutil, glob, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
from .engine import Module

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CLANG = "clang-18"
# what gcc 13 accepts with a warning
LENIENT = ["-Wno-error=int-conversion", "-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=incompatible-function-pointer-types"]
TOOL = os.path.join(HERE, "build", "irdump")

class BuildError(Exception): pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, **kw)   # the same paths wherever the check is started
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-4000:]))
    return r

def build_tool():
    src = os.path.join(HERE, "tools", "irdump.cpp")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src): return TOOL
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    cxx = subprocess.check_output(["llvm-config-18", "--cxxflags"]).decode().split()
    cxx = [x for x in cxx if not x.startswith("-std=")]
    ld = subprocess.check_output(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "support"]).decode().split()
    tmp = TOOL + ".%d" % os.getpid()
    run(["clang++-18", "-O1", "-std=c++17"] + cxx + ["-o", tmp, src] + ld)
    os.rename(tmp, TOOL)
    return TOOL

def lib_sources(repo=None):
    repo = repo or REPO
    return sorted(glob.glob(os.path.join(repo, "src/libcork/**/*.c"), recursive=True))

def version_header(dst, repo):
    src = open(os.path.join(repo, "include/libcork/config/version.h.in")).read()
    for k, v in (("CORK_VERSION_MAJOR", "0"), ("CORK_VERSION_MINOR", "0"), ("CORK_VERSION_PATCH", "0"),
                 ("CORK_VERSION", "0.0.0-dev"), ("CORK_GIT_SHA1", "unknown")):
        src = src.replace("@%s@" % k, v)
    os.makedirs(os.path.join(dst, "libcork/config"), exist_ok=True)
    open(os.path.join(dst, "libcork/config/version.h"), "w").write(src)

def build(extra=(), defines=(), sources=None, repo=None, flags=(), exclude=()):
    """returns (Module, info)"""
    repo = repo or REPO
    build_tool()
    tmp = tempfile.mkdtemp(prefix="sa-build-")
    try:
        inc = os.path.join(tmp, "inc")
        version_header(inc, repo)
        srcs = list(sources) if sources is not None else lib_sources(repo)
        if sources is None and len(srcs) < 20:
            raise BuildError("only %d library sources found" % len(srcs))
        if exclude:
            n = len(srcs)
            srcs = [x for x in srcs if os.path.relpath(x, os.path.join(repo, "src/libcork")) not in exclude]
            if len(srcs) != n - len(exclude): raise BuildError("excluded source missing: %s" % (exclude,))
        extra = [e if os.path.isabs(e) else os.path.join(HERE, "witness", e) for e in extra]
        base = [CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-strict-aliasing", "-fno-builtin",
                "-emit-llvm", "-c", "-w", *LENIENT, "-DCORK_API=", "-D__NO_CTYPE", "-I" + os.path.join(repo, "include"), "-I" + inc,
                "-I" + os.path.join(HERE, "witness"), "-I" + os.path.join(repo, "src/libcork")]
        base += ["-D" + d for d in defines] + list(flags)
        def comp(a):
            i, s = a
            o = os.path.join(tmp, "%d.bc" % i)
            run(base + ["-o", o, s])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, enumerate(srcs + extra + [os.path.join(HERE, "witness", "libc.c")])))
        allbc = os.path.join(tmp, "all.bc")
        run(["llvm-link-18", "-o", allbc + ".lib"] + objs[:-1])
        run(["llvm-link-18", "-only-needed", "-o", allbc, allbc + ".lib", objs[-1]])
        opt = os.path.join(tmp, "opt.bc")
        run(["opt-18", "-passes=lower-expect,function(sroa)", "-o", opt, allbc])
        r = run([TOOL, opt])
        m = Module(json.loads(r.stdout))
        info = {"units": [os.path.relpath(s, repo) for s in srcs],
                "witness": [os.path.basename(e) for e in extra],
                "functions": sum(1 for f in m.funcs.values() if not f.decl)}
        return m, info
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
