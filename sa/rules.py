"""Whole-program rules over the resolved program: who may call what, which shared
state is touched from where, typestate of argument lists, the declared interface."""
import os, subprocess, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from . import frontend
from .runner import Broken

ALL_HEADERS = ["cli.h", "core.h", "ds.h", "os.h", "threads.h", "helpers/errors.h", "helpers/gc.h", "helpers/posix.h"]

def header_unit(tmp):
    p = os.path.join(tmp, "all_headers.c")
    with open(p, "w") as f:
        for h in ALL_HEADERS: f.write("#include <libcork/%s>\n" % h)
    return p

class Program:
    """the library and every inline function of its headers, with its direct call graph"""
    def __init__(self, defines=()):
        tmp = tempfile.mkdtemp(prefix="sa-hdr-")
        try: self.mod, self.info = frontend.build([header_unit(tmp)], defines, flags=("-femit-all-decls",))
        except frontend.BuildError as e: raise Broken("build failed: %s" % e)
        finally: shutil.rmtree(tmp, ignore_errors=True)
        self.funcs = {n: f for n, f in self.mod.funcs.items() if not f.decl}
        self.calls = {}          # function -> [(callee name or None, inst, block index)]
        for n, f in self.funcs.items():
            self.calls[n] = [(i["callee"][1] if i["callee"][0] == "g" else None, i, b)
                             for b, blk in enumerate(f.blocks) for i in blk if i["op"] == "call"]
    def loc(self, i):
        l = i.get("loc")
        return "%s:%s" % (os.path.relpath(l[0], frontend.REPO) if l[0].startswith("/") else l[0], l[1]) if l else None
    def path(self, root, target, stop=()):
        """a shortest chain of direct calls"""
        prev = {root: None}; todo = [root]
        for x in todo:
            if x == target:
                out = []
                while x is not None: out.append(x); x = prev[x]
                return out
            for c, i, b in self.calls.get(x, ()):
                if c in self.funcs and c not in prev and c not in stop: prev[c] = x; todo.append(c)
        return None

def declared(defines=()):
    """functions and variables the public headers declare: name -> has a body; from the AST"""
    tmp = tempfile.mkdtemp(prefix="sa-hdr-")
    try:
        inc = os.path.join(tmp, "inc"); frontend.version_header(inc, frontend.REPO)
        r = frontend.run([frontend.CLANG, "-I" + os.path.join(frontend.REPO, "include"), "-I" + inc, "-w", *frontend.LENIENT, "-fsyntax-only",
                          "-Xclang", "-ast-dump=json", header_unit(tmp)])
        ast = json.loads(r.stdout)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    root = os.path.join(frontend.REPO, "include") + "/"
    fn = {}; var = {}; cur = None
    for n in ast["inner"]:
        l = n.get("loc", {})
        l = l.get("expansionLoc", l)
        if l.get("file"): cur = l["file"]
        if not cur or not cur.startswith(root): continue
        kinds = [c["kind"] for c in n.get("inner", [])]
        if n["kind"] == "FunctionDecl":
            o = fn.setdefault(n["name"], {"body": False, "visible": False, "file": os.path.relpath(cur, frontend.REPO), "line": l.get("line"),
                                          "static": n.get("storageClass") == "static", "builtin": n["name"].startswith("__builtin")})
            o["body"] |= "CompoundStmt" in kinds; o["visible"] |= "VisibilityAttr" in kinds
        if n["kind"] == "VarDecl": var[n["name"]] = {"file": os.path.relpath(cur, frontend.REPO), "line": l.get("line"), "extern": n.get("storageClass") == "extern"}
    return {k: v for k, v in fn.items() if not v["builtin"]}, var

# ---------------------------------------------------------------- C12: where memory comes from
LIBC_MEMORY = {"malloc", "calloc", "realloc", "reallocarray", "free", "cfree", "aligned_alloc", "posix_memalign", "memalign", "valloc", "pvalloc",
               "strdup", "strndup", "wcsdup", "__strdup", "__strndup", "asprintf", "vasprintf", "__asprintf", "__vasprintf", "getline", "getdelim", "__getdelim",
               "realpath", "canonicalize_file_name", "get_current_dir_name", "tempnam", "open_memstream", "scandir", "glob", "brk", "sbrk", "mmap", "munmap"}
def who_allocates(ctx, prog):
    n = 0; bad = []
    fn, var = declared()
    # what only an allocator's callbacks do, nobody calls directly: start from everything the headers offer
    roots = [f for f in prog.funcs if f in fn]
    if len(roots) < 200: raise Broken("only %d functions of the headers found" % len(roots))
    reach = {}
    for r in roots:
        todo = [r]
        while todo:
            x = todo.pop()
            if x in reach: continue
            reach[x] = r
            todo += [c for c, i, b in prog.calls[x] if c in prog.funcs]
    # functions whose address is stored somewhere (callbacks of other interfaces) run too: all but those given to an allocator
    given = allocator_callbacks(prog)
    for f in address_taken(prog):
        if f not in given:
            todo = [f]
            while todo:
                x = todo.pop()
                if x in reach: continue
                reach[x] = f
                todo += [c for c, i, b in prog.calls[x] if c in prog.funcs]
    for f in sorted(reach):
        for c, i, b in prog.calls[f]:
            n += 1
            null_arg = c == "getcwd" and i["ops"] and i["ops"][0][0] == "n"
            if c in LIBC_MEMORY or null_arg:
                bad.append((f, c, i))
    for f, c, i in bad:
        ctx.fail("allocator-only", f, "direct-allocation", "%s is called other than by an allocator: its memory doesn't come from (or go back to) the installed allocator" % c,
                 prog.loc(i), prog.path(reach[f], f) or ())
    users = sorted(given)
    if len(users) < 4: raise Broken("only %d allocator callbacks found" % len(users))
    ctx.rule("allocator-only", "no function reachable from the interface, or from a callback that isn't an allocator's, calls the C library's memory functions",
             n, 300, ["%s (allocator callback)" % u for u in users])
def address_taken(prog):
    out = set()
    def walk(o, skip):
        if isinstance(o, (list, tuple)):
            if len(o) > 1 and o[0] == "g" and o[1] in prog.funcs: out.add(o[1])
            for x in o: walk(x, skip)
    for f in prog.funcs.values():
        for blk in f.blocks:
            for i in blk:
                walk(i["ops"], None)
    for g in prog.mod.globals.values(): walk(g.get("init", ()), None)
    return out
def allocator_callbacks(prog):
    """functions stored into an allocator (through its setters), and the ones stored in its static instances"""
    out = set()
    setters = {}
    # setters: functions of the interface that store a parameter into the allocator structure
    for n, f in prog.funcs.items():
        for c, i, b in prog.calls[n]:
            if c and c.startswith("cork_alloc_set_"):
                for o in i["ops"]:
                    if o[0] == "g" and o[1] in prog.funcs: out.add(o[1])
        # stores of function addresses within the module that implements the interface
        for blk in f.blocks:
            for i in blk:
                if i["op"] == "store" and i["ops"][0][0] == "g" and i["ops"][0][1] in prog.funcs and (f.file or "").endswith("core/allocator.c"):
                    out.add(i["ops"][0][1])
    for g in prog.mod.globals.values():
        if (g.get("file") or "").endswith("core/allocator.c"):
            def walk(o):
                if isinstance(o, (list, tuple)):
                    if len(o) > 1 and o[0] == "g" and o[1] in prog.funcs: out.add(o[1])
                    for x in o: walk(x)
            walk(g.get("init", ()))
    return out

# ---------------------------------------------------------------- C38: argument lists
CONSUMES = {"vprintf", "vfprintf", "vsprintf", "vsnprintf", "vdprintf", "vasprintf", "vscanf", "vsscanf", "vfscanf", "vsyslog", "verr", "vwarn",
            "__vsnprintf_chk", "__vsprintf_chk", "__vfprintf_chk", "__vprintf_chk"}
def origin(defs, o, depth=0):
    """the object an address points into: ('arg', k) / ('obj', instruction id) / None"""
    if o[0] == "v":
        i = defs.get(o[1])
        if i is None: return ("arg", o[1])
        if i["op"] in ("getelementptr", "bitcast", "freeze"): return origin(defs, i["ops"][0], depth)
        if i["op"] == "alloca": return ("obj", o[1])
    return None
def va_objects(prog, f, eats):
    """the argument lists function f has: allocas and parameters used as one"""
    defs = {i["id"]: i for blk in f.blocks for i in blk if "id" in i}
    objs = set()
    for blk in f.blocks:
        for i in blk:
            if i["op"] != "call" or i["callee"][0] != "g": continue
            c = i["callee"][1]
            if c in ("llvm.va_start", "llvm.va_copy", "llvm.va_end"):
                for o in i["ops"]:
                    r = origin(defs, o)
                    if r: objs.add(r)
            elif c in CONSUMES:
                r = origin(defs, i["ops"][-1])
                if r: objs.add(r)
            elif c in eats:
                for k in eats[c]:
                    if k < len(i["ops"]):
                        r = origin(defs, i["ops"][k])
                        if r: objs.add(r)
    return defs, objs
def va_rule(ctx, prog):
    eats = {}
    while True:
        new = {}
        for n, f in prog.funcs.items():
            defs, objs = va_objects(prog, f, eats)
            pars = {a["id"]: k for k, a in enumerate(f.args)}
            for o in objs:
                if o[0] == "arg" and o[1] in pars and va_uses(prog, f, defs, o, eats): new.setdefault(n, set()).add(pars[o[1]])
        if new == eats: break
        eats = new
    n = 0; sites = []
    for name, f in sorted(prog.funcs.items()):
        defs, objs = va_objects(prog, f, eats)
        for o in sorted(objs, key=str):
            n += 1; sites.append("%s: %s" % (name, "own list" if o[0] == "obj" else "list it is given"))
            va_check(ctx, prog, f, defs, o, eats)
    ctx.rule("argument-lists", "on every path: started before use, passed to at most one consumer (unless copied before), ended before the function returns", n, 12, sites)
def va_event(defs, i, o, eats):
    """what instruction i does to list o"""
    if i["op"] == "call" and i["callee"][0] == "g":
        c = i["callee"][1]; rs = [origin(defs, x) for x in i["ops"]]
        if c == "llvm.va_start" and rs[0] == o: return "start"
        if c == "llvm.va_end" and rs[0] == o: return "end"
        if c == "llvm.va_copy":
            if rs[0] == o: return "start"
            if rs[1] == o: return "copy"
        if c in CONSUMES and rs[-1] == o: return "eat"
        if c in eats and any(k < len(rs) and rs[k] == o for k in eats[c]): return "eat"
        if c and c.startswith("llvm."): return None
    if i["op"] in ("load",) and origin(defs, i["ops"][0]) == o: return "arg"
    if i["op"] == "ret": return "ret"
    return None
def va_uses(prog, f, defs, o, eats):
    return any(va_event(defs, i, o, eats) in ("eat", "arg") for blk in f.blocks for i in blk)
def va_check(ctx, prog, f, defs, o, eats):
    own = o[0] == "obj"
    start = "none" if own else "ready"
    inst = {0: {start}}; todo = [0]; seen = set()
    while todo:
        b = todo.pop()
        st = set(inst[b])
        for i in f.blocks[b]:
            e = va_event(defs, i, o, eats)
            if e is None: continue
            nxt = set()
            for s in st:
                def bad(kind, msg):
                    k = (kind, i.get("id"), str(i.get("loc")))
                    if k not in seen:
                        seen.add(k); ctx.fail("argument-lists", f.name, kind, msg, prog.loc(i))
                if e == "start":
                    if s in ("ready", "eaten"): bad("va-restart", "an argument list is started again before it is ended")
                    nxt.add("ready")
                elif e == "copy":
                    if s != "ready": bad("va-copy", "an argument list is copied %s" % ("after it has been consumed" if s == "eaten" else "before it is started"))
                    nxt.add(s)
                elif e in ("eat", "arg"):
                    if s == "none": bad("va-unstarted", "an argument list is used before it is started, or after it is ended")
                    if s == "eaten": bad("va-reuse", "an argument list is used again after it has been consumed")
                    nxt.add("eaten" if e == "eat" else s)
                elif e == "end":
                    if own and s == "none": bad("va-end", "an argument list is ended that isn't started")
                    nxt.add("none")
                elif e == "ret":
                    if own and s != "none": bad("va-unended", "the function returns without ending its argument list")
                    nxt.add(s)
            st = nxt
        for s in f.succs(b):
            if s not in inst: inst[s] = set(st); todo.append(s)
            elif not st <= inst[s]: inst[s] |= st; todo.append(s)

# ---------------------------------------------------------------- C35: shared state
# documented as program-wide: called while one thread runs, or about the process itself
PROCESS = ("cork_set_allocator", "cork_alloc_", "cork_debug_alloc_", "cork_cleanup_at_exit", "cork_command_", "cork_env_", "cork_exec_")
NOT_REENTRANT = {"strtok", "localtime", "gmtime", "ctime", "asctime", "getpwnam", "getpwuid", "getgrnam", "getgrgid", "rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48",
                 "inet_ntoa", "basename", "dirname", "__xpg_basename", "tmpnam", "setlocale", "localeconv", "ttyname", "getlogin", "strsignal", "gethostbyname", "gethostbyaddr",
                 "getservbyname", "getprotobyname", "ecvt", "fcvt", "gcvt", "l64a", "crypt", "hcreate", "hsearch", "getopt", "getopt_long", "ptsname", "ftw", "nftw"}
PROCESS_WIDE = {"setenv", "putenv", "unsetenv", "clearenv", "chdir", "fchdir", "umask", "chroot", "signal", "sigaction", "sigprocmask", "setitimer", "alarm", "setuid", "setgid"}

def dominators(f):
    n = len(f.blocks); full = set(range(n))
    pred = {b: [] for b in range(n)}
    for b in range(n):
        for s in f.succs(b): pred[s].append(b)
    dom = {b: set(full) for b in range(n)}; dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in range(1, n):
            ps = [dom[p] for p in pred[b]]
            d = (set.intersection(*ps) if ps else set()) | {b}
            if d != dom[b]: dom[b] = d; ch = True
    return dom, pred
def glob(defs, o):
    """the global an address points into"""
    while o[0] == "v":
        i = defs.get(o[1])
        if i is None or i["op"] not in ("getelementptr", "bitcast", "freeze"): return None
        o = i["ops"][0]
    return o[1] if o[0] == "g" else None
def effects(prog, shared, f):
    """(global or None, kind, instruction, context, callee) of everything f does itself"""
    defs = {i["id"]: i for blk in f.blocks for i in blk if "id" in i}
    dom, pred = dominators(f)
    # blocks in which this thread has won a compare-and-swap on a shared variable
    won = {}
    for b, blk in enumerate(f.blocks):
        t = blk[-1]
        if t["op"] != "br" or len(t["succ"]) != 2: continue
        x, flip = casres(defs, t["ops"][0])
        if x is None or x not in shared: continue
        for k, s in enumerate(t["succ"]):
            if (k == 0) == flip or len(pred[s]) != 1: continue
            for d in range(len(f.blocks)):
                if s in dom[d]: won.setdefault(d, x)
    # shared variables looked at earlier on every way to a block
    looked = {}
    for b, blk in enumerate(f.blocks):
        looked[b] = {glob(defs, i["ops"][0]) for i in blk if i["op"] in ("load", "cmpxchg", "atomicrmw")} & shared
    out = []
    for b, blk in enumerate(f.blocks):
        c = won.get(b)
        after = set().union(*[looked[d] for d in dom[b] if d != b])
        for i in blk:
            op = i["op"]
            if op == "load":
                g = glob(defs, i["ops"][0])
                if g in shared: out.append((g, "atomic" if i.get("atomic") else "read", i, c, frozenset(after)))
                continue
            if op in ("atomicrmw", "cmpxchg"):
                g = glob(defs, i["ops"][0])
                if g in shared: out.append((g, "atomic", i, c, None))
                continue
            if op == "store":
                g = glob(defs, i["ops"][1])
                if g in shared: out.append((g, "write", i, c, None))
                g = glob(defs, i["ops"][0])
                if g in shared: out.append((g, "escape", i, c, None))
                continue
            if op in ("icmp", "getelementptr", "bitcast", "freeze"): continue
            for o in i["ops"]:
                g = glob(defs, o) if isinstance(o, (list, tuple)) and o and o[0] in ("v", "g") else None
                if g in shared: out.append((g, "escape", i, c, None))
            if op == "call" and i["callee"][0] == "g": out.append((None, "call", i, c, i["callee"][1]))
    return out
def casres(defs, o):
    """(variable, flipped): o is true exactly if a compare-and-swap on variable succeeded (or, flipped, failed)"""
    flip = False
    while o[0] == "v":
        i = defs.get(o[1])
        if i is None: return None, False
        if i["op"] in ("zext", "sext", "trunc", "freeze"): o = i["ops"][0]; continue
        if i["op"] == "icmp":
            a, b = i["ops"]
            for a, b in ((a, b), (b, a)):
                # old value == expected value
                j = defs.get(a[1]) if a[0] == "v" else None
                while j and j["op"] in ("inttoptr", "ptrtoint", "bitcast", "freeze"): j = defs.get(j["ops"][0][1]) if j["ops"][0][0] == "v" else None
                if j and j["op"] == "extractvalue" and j["ix"] == [0] and j["ops"][0][0] == "v":
                    k = defs.get(j["ops"][0][1])
                    if k and k["op"] == "cmpxchg" and k["ops"][1] == b and i["pred"] in ("eq", "ne"):
                        return glob(defs, k["ops"][0]), flip ^ (i["pred"] == "ne")
            a, b = i["ops"]
            if b[0] == "c" and int(b[2]) in (0, 1):
                x, fl = casres(defs, a)
                if x is not None and i["pred"] in ("eq", "ne"):
                    return x, fl ^ flip ^ ((int(b[2]) == 0) == (i["pred"] == "eq"))
            return None, False
        if i["op"] == "extractvalue" and i["ix"] == [1]:
            j = defs.get(i["ops"][0][1]) if i["ops"][0][0] == "v" else None
            if j and j["op"] == "cmpxchg": return glob(defs, j["ops"][0]), flip
        return None, False
    return None, False

def shared_state(ctx, prog, only=None):
    fn, var = declared()
    shared = {n for n, g in prog.mod.globals.items() if not g["const"] and not g["tls"] and not g["decl"] and not n.startswith("llvm.")}
    if len(shared) < 5: raise Broken("only %d shared variables found" % len(shared))
    eff = {n: effects(prog, shared, f) for n, f in prog.funcs.items()}
    process = lambda n: n.startswith(PROCESS)
    roots = sorted(n for n in prog.funcs if n in fn and not process(n))
    if len(roots) < 200: raise Broken("only %d functions of the headers found" % len(roots))
    if only:
        roots = [n for n in roots if n.startswith(only)]
        if not roots: raise Broken("no function called %s found" % (only,))
    # everything reachable from the ordinary functions by direct calls, with the once-regions passed on the way
    seen = {}; todo = [(r, None) for r in roots]
    for x in todo: seen[x] = None
    acc = []; n = 0
    while todo:
        x = todo.pop()
        f, c = x
        for g, kind, i, ec, callee in eff[f]:
            cc = c or ec
            n += 1
            if kind == "call":
                if callee in NOT_REENTRANT: ctx.fail("reentrant", f, "not-reentrant", "%s keeps its result in storage all threads share" % callee, prog.loc(i), chain(seen, x))
                if callee in PROCESS_WIDE: ctx.fail("reentrant", f, "process-wide", "%s changes the state of the whole process" % callee, prog.loc(i), chain(seen, x))
                if callee in prog.funcs and (callee, cc) not in seen:
                    seen[(callee, cc)] = x; todo.append((callee, cc))
            else: acc.append((g, kind, cc, f, i, x, callee or ()))
    byvar = {}
    for a in acc: byvar.setdefault(a[0], []).append(a)
    sites = []
    for g, l in sorted(byvar.items()):
        plain_w = [a for a in l if a[1] in ("write", "escape")]
        onces = {a[2] for a in plain_w}
        if len(onces) == 1:
            # read in the region, or after having waited for it
            x = list(onces)[0]
            onces |= {None for a in l if a[1] == "read" and a[2] != x and x not in a[6]}
        sites.append("%s: %s" % (g, ", ".join(sorted({"%s%s" % (a[1], " once" if a[2] else "") for a in l}))))
        if not plain_w: continue
        if None not in onces and len(onces) == 1: continue
        rep = set()
        for a in plain_w:
            if (a[3], str(a[4].get("loc"))) in rep: continue
            rep.add((a[3], str(a[4].get("loc"))))
            ctx.fail("shared-state", a[3], "shared-%s" % a[1], "%s, which all threads share, is %s without synchronisation by a function that works on the caller's objects only" % (
                g, "changed" if a[1] == "write" else "handed out"), prog.loc(a[4]), chain(seen, a[5]))
    ctx.rule("shared-state", "variables that all threads share are, from ordinary functions, only read, or accessed atomically, or written in the one region that a compare-and-swap lets one thread through",
             len(acc), 1 if only else 10, sites)
    ctx.rule("reentrant", "ordinary functions call no C library function that keeps results in shared storage or changes process-wide state", n, 1 if only else 500, ["%d functions reached" % len(seen)])
def chain(seen, x):
    out = []
    while x is not None: out.append(x[0]); x = seen[x]
    return out

# ---------------------------------------------------------------- C33: the interface the headers declare
CONFIG_CHECKS = r"""
#include <stddef.h>
#include <limits.h>
#include <stdint.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
#include <libcork/threads.h>
_Static_assert(CORK_SIZEOF_SHORT == sizeof(short), "CORK_SIZEOF_SHORT");
_Static_assert(CORK_SIZEOF_INT == sizeof(int), "CORK_SIZEOF_INT");
_Static_assert(CORK_SIZEOF_LONG == sizeof(long), "CORK_SIZEOF_LONG");
_Static_assert(CORK_SIZEOF_POINTER == sizeof(void *), "CORK_SIZEOF_POINTER");
_Static_assert((CORK_HOST_ENDIANNESS == CORK_LITTLE_ENDIAN) == (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__), "CORK_HOST_ENDIANNESS");
_Static_assert((CORK_OTHER_ENDIANNESS == CORK_BIG_ENDIAN) == (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__), "CORK_OTHER_ENDIANNESS");
_Static_assert(sizeof(cork_u128) == 16, "cork_u128");
_Static_assert(sizeof(cork_hash) == 4 && (cork_hash) -1 > 0, "cork_hash");
_Static_assert(sizeof(cork_big_hash) == 16, "cork_big_hash");
_Static_assert(sizeof(cork_timestamp) == 8 && (cork_timestamp) -1 > 0, "cork_timestamp");
_Static_assert(sizeof(struct cork_ipv4) == 4, "an IPv4 address is its four bytes");
_Static_assert(sizeof(struct cork_ipv6) == 16, "an IPv6 address is its sixteen bytes");
_Static_assert(sizeof(cork_error) >= 4, "cork_error");
_Static_assert(CORK_MAKE_VERSION(1, 2, 3) < CORK_MAKE_VERSION(1, 2, 4) && CORK_MAKE_VERSION(1, 2, 99) < CORK_MAKE_VERSION(1, 3, 0)
               && CORK_MAKE_VERSION(1, 99, 99) < CORK_MAKE_VERSION(2, 0, 0), "versions are ordered");
struct outer { char before; long field; };
int container(struct outer *o) { return cork_container_of(&o->field, struct outer, field) == o; }
"""
def interface(ctx, prog):
    fn, var = declared()
    need = {k: v for k, v in fn.items() if not v["body"]}
    own = {u for u in prog.info["units"]}
    defs = {n: f for n, f in prog.funcs.items() if not f.d["local"]}
    for k, v in sorted(need.items()):
        f = defs.get(k)
        if f is None:
            ctx.fail("interface", k, "undefined", "declared for programs to call, but the library has no definition that they can link with", "%s:%s" % (v["file"], v["line"]))
    for k, v in sorted(var.items()):
        g = prog.mod.globals.get(k)
        if v["extern"] and (g is None or g["decl"] or g["local"]): ctx.fail("interface", k, "undefined", "declared, but not defined by the library", "%s:%s" % (v["file"], v["line"]))
    ctx.rule("interface", "every function and variable that a header declares without defining it is defined, with external linkage, by a library source", len(need) + len(var), 200, sorted(need))
    # what a shared library exports: built as CMakeLists does
    vis = visibility()
    for k, v in sorted(need.items()):
        if k in vis and vis[k] != "default": ctx.fail("exported", k, "hidden", "declared for programs to call, but not exported from the shared library", "%s:%s" % (v["file"], v["line"]))
    ctx.rule("exported", "in the shared library's configuration every declared function has default visibility", len([k for k in need if k in vis]), 200)
    # nothing a program could clash with
    pub = [n for n, f in prog.funcs.items() if not f.d["local"] and n not in fn]
    for n in pub:
        if not n.startswith("cork_"): ctx.fail("namespace", n, "namespace", "an external symbol of the library that doesn't start with cork_", "%s:%s" % (prog.funcs[n].file, prog.funcs[n].line))
    for n, g in prog.mod.globals.items():
        if not g["decl"] and not g["local"] and not n.startswith(("cork_", "CORK_", "llvm.", "_cork_")):
            ctx.fail("namespace", n, "namespace", "an external variable of the library that doesn't start with cork_", n)
    ctx.rule("namespace", "external symbols of the library start with cork_", len(defs), 200)
    headers(ctx)
def visibility():
    tmp = tempfile.mkdtemp(prefix="sa-vis-")
    try:
        inc = os.path.join(tmp, "inc"); frontend.version_header(inc, frontend.REPO)
        def one(a):
            k, src = a
            o = os.path.join(tmp, "%d.s" % k)
            frontend.run([frontend.CLANG, "-O0", "-fPIC", "-S", "-w", *frontend.LENIENT, "-DCORK_API=CORK_EXPORT", "-I" + os.path.join(frontend.REPO, "include"), "-I" + inc, "-o", o, src])
            glob_, hid = set(), set()
            for l in open(o):
                t = l.split()
                if len(t) >= 2 and t[0] == ".globl": glob_.add(t[1].rstrip(","))
                if len(t) >= 2 and t[0] in (".hidden", ".internal", ".protected"): hid.add(t[1])
            return glob_, hid
        out = {}
        with ThreadPoolExecutor(8) as ex:
            for g, h in ex.map(one, enumerate(frontend.lib_sources())):
                for x in g: out[x] = "hidden" if x in h else "default"
        return out
    finally: shutil.rmtree(tmp, ignore_errors=True)
def headers(ctx):
    root = os.path.join(frontend.REPO, "include")
    hs = sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(os.path.join(root, "libcork")) for f in fs if f.endswith(".h"))
    hs = [h for h in hs if os.path.basename(h) not in ("bsd.h", "macosx.h", "linux.h")]     # parts of config.h for one system each
    tmp = tempfile.mkdtemp(prefix="sa-hdr-")
    try:
        inc = os.path.join(tmp, "inc"); frontend.version_header(inc, frontend.REPO)
        def one(a):
            k, (cc, std, text) = a
            src = os.path.join(tmp, "h%d.c" % k)
            open(src, "w").write(text)
            r = subprocess.run([cc, "-std=" + std, "-w", "-fsyntax-only", "-I" + root, "-I" + inc, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            return r.returncode, [l for l in r.stderr.decode(errors="replace").splitlines() if "error:" in l][:1]
        jobs = [(cc, std, "#include <libcork/%s>\n" % h[len("libcork/"):] * 2) for h in hs for cc, std in (("clang-18", "gnu99"), ("gcc", "gnu11"))]
        names = [(h, "%s %s" % x) for h in hs for x in (("clang-18", "gnu99"), ("gcc", "gnu11"))]
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, enumerate(jobs)))
        for (h, how), (rc, err) in zip(names, res):
            if rc: ctx.fail("self-contained", h, "header", "a program that includes only this header doesn't compile (%s): %s" % (how, (err or ["?"])[0].replace(tmp, "")), h)
        ctx.rule("self-contained", "every public header compiles on its own, and twice in a row", len(jobs), 40, hs)
        cfg = [(cc, "gnu11", CONFIG_CHECKS) for cc in ("clang-18", "gcc")]
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, enumerate(cfg, len(jobs))))
        for (cc, _, _), (rc, err) in zip(cfg, res):
            if rc: ctx.fail("configuration", "configuration macros", "static-assert", "%s: %s" % (cc, (err or ["?"])[0].replace(tmp, "")), "include/libcork")
        ctx.rule("configuration", "static assertions: configuration macros and fixed-size types agree with the compiler", CONFIG_CHECKS.count("_Static_assert"), 10)
    finally: shutil.rmtree(tmp, ignore_errors=True)
