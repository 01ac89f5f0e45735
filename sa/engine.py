"""Path-sensitive abstract interpreter over the resolved program (LLVM IR dumped
by tools/irdump).  Abstract domain: convex numeric constraints (lin.Store) x
symbolic heap with write logs and lazily materialised unknown memory x finite
ghost (typestate) component.  Loops are solved by a fixpoint over a partitioned
abstract state (induction-variable recognition + Houdini over projected
candidate constraints); nothing is executed concretely and no path condition is
ever handed to a solver."""
import os, sys, time
from .lin import (Lin, L, sym, new_sym, keyed_sym, SYMS, Store, ZERO, ONE, fm_project)
from . import lin as LN

sys.setrecursionlimit(20000)

import os, math
DEBUG_LOOP = bool(os.environ.get("SA_DEBUG_LOOP"))

class NeedSplit(Exception):
    def __init__(self, cond): self.cond = cond

class PathEnd(Exception):
    """path terminates (noreturn, UB, reported violation)"""

class Incomplete(Exception):
    pass

class Undef:
    __slots__ = ()
    def __repr__(self): return "undef"
UNDEF = Undef()

class P:
    __slots__ = ("base", "off", "h")
    def __init__(self, base, off=ZERO):
        self.base = base; self.off = off; self.h = hash((base, off))
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, P) and self.base == o.base and self.off == o.off
    def __ne__(self, o): return not self == o
    def __add__(self, d): return P(self.base, self.off + d) if (not isinstance(d, int) or d) else self
    def __repr__(self):
        b = self.base
        if b == NB: return "NULL" if self.off == ZERO else "NULL+%r" % self.off
        n = "%s:%s" % (b[0], SYMS[b[1]].name if b[0] == "s" else b[1])
        return "&%s" % n if self.off == ZERO else "&%s+%r" % (n, self.off)
NB = ("null", 0)
NULLP = P(NB, ZERO)

class FP:
    """opaque non-integer scalar (double, vector, ...)"""
    __slots__ = ("k",)
    def __init__(self, k): self.k = k
    def __eq__(self, o): return isinstance(o, FP) and self.k == o.k
    def __hash__(self): return hash(self.k)
    def __repr__(self): return "fp(%s)" % (self.k,)

# ---- conditions -----------------------------------------------------------
def c_ge(l): return ("ge", l)
def c_eq(l): return ("eq", l)
def c_ne(l): return ("ne", l)
TRUE = ("ge", ZERO)
FALSE = ("ge", L(-1))
def neg(c):
    k = c[0]
    if k == "ge": return ("ge", -c[1] - 1)
    if k == "eq": return ("ne", c[1])
    if k == "ne": return ("eq", c[1])
    if k == "peq": return ("pne", c[1], c[2])
    if k == "pne": return ("peq", c[1], c[2])
    if k == "and": return ("or", neg(c[1]), neg(c[2]))
    if k == "or": return ("and", neg(c[1]), neg(c[2]))
    raise AssertionError(k)
def c_b(s): return ("ne", sym(s))

class Reg:
    __slots__ = ("kind", "size", "alive", "entries", "tag", "dirty")
    def __init__(self, kind, size=None, alive=True, entries=(), tag=None, dirty=False):
        self.kind = kind; self.size = size; self.alive = alive
        self.entries = entries; self.tag = tag; self.dirty = dirty
    def with_(self, **kw):
        r = Reg(self.kind, self.size, self.alive, self.entries, self.tag, self.dirty)
        for k, v in kw.items(): setattr(r, k, v)
        return r
    def key(self):
        return (self.kind, self.size, self.alive, self.entries, self.tag)
    def __repr__(self):
        return "Reg(%s,size=%r,alive=%s,%s%s)" % (self.kind, self.size, self.alive, list(self.entries), ",tag=%s" % (self.tag,) if self.tag else "")

class State:
    __slots__ = ("store", "pf", "pne", "mem", "ghost", "trace", "frames", "extra", "lh")
    def __init__(self):
        self.store = Store(); self.pf = {}; self.pne = frozenset(); self.mem = {}
        self.ghost = {}; self.trace = (); self.frames = []; self.extra = None
        self.lh = ()    # cells of not-yet-seen symbolic objects forgotten by loop generalisation
    def copy(self):
        s = State.__new__(State)
        s.store = self.store.copy(); s.pf = dict(self.pf); s.pne = self.pne
        s.mem = dict(self.mem); s.ghost = dict(self.ghost); s.trace = self.trace
        s.frames = self.frames[:-1] + [dict(self.frames[-1])] if self.frames else []
        s.extra = self.extra; s.lh = self.lh
        return s
    # -- pointers
    def res(self, p):
        while p.base[0] == "s":
            f = self.pf.get(p.base[1])
            if f is None or f == "nn": break
            p = P(f.base, f.off + p.off)
        return p
    def nl(self, l): return self.store.norm(l)
    # -- decide
    def decide(self, c):
        k = c[0]
        st = self.store
        if k == "ge":
            if st.ge0(c[1]): return True
            if st.ge0(-c[1] - 1): return False
            return None
        if k == "eq" or k == "ne":
            if st.ne0(c[1]): return k == "ne"
            if st.eq0(c[1]): return k == "eq"
            return None
        if k == "peq" or k == "pne":
            r = self._peq(c[1], c[2])
            if r is None: return None
            if isinstance(r, tuple):
                d = self.decide(r)
                if d is None: return None
                return d if k == "peq" else not d
            return r if k == "peq" else not r
        if k == "and":
            a = self.decide(c[1])
            if a is False: return False
            b = self.decide(c[2])
            if b is False: return False
            return True if a and b else None
        if k == "or":
            a = self.decide(c[1])
            if a is True: return True
            b = self.decide(c[2])
            if b is True: return True
            return False if a is False and b is False else None
        raise AssertionError(k)
    def _peq(self, p, q):
        p = self.res(p); q = self.res(q)
        if p.base == q.base:
            return ("eq", p.off - q.off)
        if p.base == NB: p, q = q, p
        if q.base == NB:
            if p.base[0] != "s": return False
            if self.pf.get(p.base[1]) == "nn": return False
            if p.off.c != 0 or p.off.t: return False
            return None
        if p.base[0] == "s" or q.base[0] == "s":
            if frozenset((p.base, q.base)) in self.pne: return False
            a, b = (p, q) if p.base[0] == "s" else (q, p)
            if b.base[0] in ("a", "h"):
                return False
            if SYMS[a.base[1]].kind == "sep" or (b.base[0] == "s" and SYMS[b.base[1]].kind == "sep"):
                return False
            return None
        return False
    def assume(self, eng, c):
        """returns list of states (self may be reused)"""
        k = c[0]
        if k == "ge":
            return [self] if self.store.add_ge0(c[1]) else []
        if k == "eq":
            return [self] if self.store.add_eq0(c[1]) else []
        if k == "ne":
            return [self] if self.store.add_ne0(c[1]) else []
        if k == "and":
            out = []
            for s in self.assume(eng, c[1]): out += s.assume(eng, c[2])
            return out
        if k == "or":
            d = self.decide(c[1])
            if d is True: return [self]
            if d is False: return self.assume(eng, c[2])
            s2 = self.copy()
            out = self.assume(eng, c[1])
            for s in s2.assume(eng, neg(c[1])): out += s.assume(eng, c[2])
            return out
        r = self._peq(c[1], c[2])
        if r is True or r is False:
            return [self] if r == (k == "peq") else []
        if isinstance(r, tuple):
            return self.assume(eng, r if k == "peq" else neg(r))
        p = self.res(c[1]); q = self.res(c[2])
        if p.base == NB or (q.base[0] == "s" and p.base[0] != "s"): p, q = q, p
        # p is symbolic
        s = p.base[1]
        if q.base == NB:
            if k == "peq":
                self.pf[s] = NULLP
                return [self]
            self.pf[s] = "nn"
            return [self]
        if k == "pne":
            self.pne = self.pne | {frozenset((p.base, q.base))}
            return [self]
        if p.base[0] == "s" and q.base[0] == "s" and p.base[1] < q.base[1]:
            p, q = q, p
            s = p.base[1]
        # alias p := q (+ offset)
        if self.pf.get(s) == "nn" and q.base[0] == "s" and self.pf.get(q.base[1]) is None:
            self.pf[q.base[1]] = "nn"
        tgt = P(q.base, q.off - p.off)
        reg = self.mem.get(p.base)
        self.pf[s] = tgt
        if reg is not None:
            if reg.dirty:
                eng.stats["alias_drop"] = eng.stats.get("alias_drop", 0) + 1
                return []
            del self.mem[p.base]
            sts = [self]
            for e in reg.entries:
                nxt = []
                for x in sts:
                    try:
                        v = eng.load(x, tgt + e[1], e[2], e[4], None)
                    except NeedSplit:
                        nxt.append(x); continue
                    if isinstance(v, Lin) and isinstance(e[3], Lin):
                        nxt += x.assume(eng, c_eq(v - e[3]))
                    elif isinstance(v, P) and isinstance(e[3], P):
                        nxt += x.assume(eng, ("peq", v, e[3]))
                    else: nxt.append(x)
                sts = nxt
            return sts
        return [self]

class Report:
    __slots__ = ("kind", "msg", "loc", "stack", "trace")
    def __init__(self, kind, msg, loc, stack, trace):
        self.kind = kind; self.msg = msg; self.loc = loc; self.stack = stack; self.trace = trace
    def key(self): return (self.kind, self.msg, self.loc)
    def __repr__(self):
        return "%s: %s at %s [%s]" % (self.kind, self.msg, fmtloc(self.loc), " <- ".join("%s" % s for s in self.stack))

def fmtloc(l):
    if not l: return "?"
    p = l[0]
    for d in ("/src/", "/include/", "/witness/"):
        if d in p: p = d[1:] + p.split(d, 1)[1]; break
    return "%s:%d" % (p, l[1])

def width(ty):
    if ty[0] == "i": return int(ty[1:])
    raise AssertionError("width of %s" % ty)

# ---- bit provenance -------------------------------------------------------
def bits_of(st, v, w):
    """list (lsb first) of bit atoms: 0, 1, or (Lin, i)"""
    out = bits_of_(st, v, w)
    wd = {}
    for i, b in enumerate(out):
        if isinstance(b, tuple):
            n = wd.get(b[0])
            if n is None:
                hi = st.store.interval(st.nl(b[0]))[1]
                n = wd[b[0]] = 1 << 20 if hi is None or hi < 0 else hi.bit_length()
            if b[1] >= n: out[i] = 0
    return out
def bits_of_(st, v, w):
    v = st.nl(v)
    if not v.t:
        return [(v.c >> i) & 1 for i in range(w)]
    # a sum of disjoint shifted pieces? handle single keyed symbol with known bits
    if len(v.t) == 1 and v.c == 0:
        m, k = v.t[0]
        if len(m) == 1 and k > 0 and (k & (k - 1)) == 0:
            sh = k.bit_length() - 1
            s = SYMS[m[0]]
            lo, hi = st.store.interval(sym(m[0]))
            n = hi.bit_length() if hi is not None else w
            if s.bits is not None:
                b = list(s.bits)
            else:
                b = [(sym(m[0]), i) for i in range(n)]
            b = [0] * sh + b
            return (b + [0] * w)[:w]
    # sum of positive-coefficient single symbols occupying disjoint bit ranges
    if all(len(m) == 1 and k > 0 and (k & (k - 1)) == 0 for m, k in v.t) and v.c >= 0:
        out = [(v.c >> i) & 1 for i in range(w)]
        ok = True
        for m, k in v.t:
            b = bits_of(st, Lin(0, ((m, k),)), w)
            for i in range(w):
                if b[i] != 0:
                    if out[i] != 0: ok = False; break
                    out[i] = b[i]
            if not ok: break
        if ok: return out
    lo, hi = st.store.interval(v)
    # v = 2^k * u + r with 0 <= r < 2^k: the pieces occupy disjoint bits
    if lo is not None and lo >= 0 and all(len(m) == 1 for m, _ in v.t):
        vals = sorted({(abs(k) & -abs(k)).bit_length() - 1 for _, k in v.t} - {0}, reverse=True)
        for k in vals:
            q = 1 << k
            rt = tuple((m, c) for m, c in v.t if c % q)
            if not rt: 
                if v.c % q == 0: r = ZERO
                else: r = L(v.c % q)
            else:
                r = Lin(0, rt)
                l2, h2 = st.store.interval(r)
                if l2 is None or h2 is None or h2 - l2 >= q: continue
                c = v.c % q
                c += -((l2 + c) // q) * q
                if h2 + c >= q: continue
                r = r + c
            d = v - r
            if d.c % q: continue
            u = Lin(d.c // q, tuple((m, c // q) for m, c in d.t))
            ul, uh = st.store.interval(u)
            if ul is None or ul < 0: continue
            return (bits_of(st, r, k) + bits_of(st, u, w))[:w]
    n = w
    if lo is not None and lo >= 0 and hi is not None: n = min(w, hi.bit_length())
    return [(v, i) for i in range(n)] + [0] * (w - n)

def from_bits(st, b):
    """canonical Lin for a list of bit atoms"""
    n = len(b)
    while n and b[n - 1] == 0: n -= 1
    b = b[:n]
    if n == 0: return ZERO
    if all(isinstance(x, int) for x in b):
        return L(sum(x << i for i, x in enumerate(b)))
    # decompose into maximal runs of consecutive bits of the same Lin
    out = ZERO
    i = 0
    while i < n:
        x = b[i]
        if isinstance(x, int):
            if x: out = out + (1 << i)
            i += 1
            continue
        j = i + 1
        while j < n and not isinstance(b[j], int) and b[j][0] == x[0] and b[j][1] == x[1] + (j - i): j += 1
        out = out + bitrun(st, x[0], x[1], j - i).scale(1 << i)
        i = j
    return out

def bitrun(st, v, lo, n):
    """value of bits lo..lo+n-1 of v"""
    v = st.nl(v)
    if not v.t: return L((v.c >> lo) & ((1 << n) - 1))
    if lo == 0:
        if st.store.ge0(L((1 << n) - 1) - v) and st.store.ge0(v): return v
    key = ("bits", v, lo, n)
    if lo == 0:
        # v mod 2^n = v - 2^n * (v >> n)
        q = shr_sym(v, n)
        r = v - q.scale(1 << n)
        s = keyed_sym(key, "(%r)[%d:%d]" % (v, n - 1, 0), 0, (1 << n) - 1,
                      lambda s: (r - sym(s), sym(s) - r), [(v, i) for i in range(n)])
        return sym(s)
    q = shr_sym(v, lo)
    if st.store.ge0(L((1 << n) - 1) - q): return q
    q2 = shr_sym(v, lo + n)
    r = q - q2.scale(1 << n)
    s = keyed_sym(key, "(%r)[%d:%d]" % (v, lo + n - 1, lo), 0, (1 << n) - 1,
                  lambda s: (r - sym(s), sym(s) - r), [(v, lo + i) for i in range(n)])
    return sym(s)

def mixed(v):
    """a value computed by mixing operations, of which only equality is tracked"""
    if len(v.t) != 1: return False
    m = v.t[0][0]
    return len(m) == 1 and (SYMS[m[0]].key or (0,))[0] == "mix"
def mix(key, w):
    return sym(keyed_sym(("mix",) + key, "mix", 0, (1 << w) - 1))

def shr_sym(v, n):
    """floor(v / 2^n) for v >= 0"""
    k = 1 << n
    s = keyed_sym(("udiv", v, L(k)), "(%r>>%d)" % (v, n), 0, (1 << 128) >> n,
                  lambda s: (v - sym(s).scale(k), sym(s).scale(k) + (k - 1) - v),
                  [(v, n + i) for i in range(128 - n)] if n < 128 else None)
    return sym(s)

# ---- CFG ------------------------------------------------------------------
class Func:
    def __init__(self, name, d, mod):
        self.name = name; self.d = d; self.mod = mod
        self.decl = d["decl"]; self.blocks = d.get("blocks", [])
        self.args = d["args"]; self.file = d.get("file"); self.line = d.get("line")
        self.names = d.get("names", {})
        self._loops = None
    def succs(self, b):
        t = self.blocks[b][-1]
        if t["op"] == "br": return t["succ"]
        if t["op"] == "switch": return [x[1] for x in t["cases"]] + [t["default"]]
        return []
    def loops(self):
        """dict header -> set(blocks) of natural loops"""
        if self._loops is not None: return self._loops
        n = len(self.blocks)
        succ = [self.succs(b) for b in range(n)]
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]: pred[s].append(b)
        order = []; seen = set()
        stack = [(0, iter(succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ[s]))); break
            else:
                order.append(b); stack.pop()
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if num[s] <= num[b]:
                    if not dom(s, b): raise Incomplete("irreducible loop in %s" % self.name)
                    body = loops.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x in body: continue
                        body.add(x)
                        todo.extend(p for p in pred[x] if p in num)
        self._loops = loops
        return loops

class Module:
    def __init__(self, d):
        self.funcs = {n: Func(n, f, self) for n, f in d["funcs"].items()}
        self.globals = d["globals"]
        self.structs = d["structs"]
        self._freeze()
    def _freeze(self):
        """interface tables: globals with function pointers in their initialiser that
        no instruction of the program stores into are treated as constants"""
        cand = {n for n, g in self.globals.items() if not g["const"] and any(
            isinstance(e[2], list) and e[2] and e[2][0] == "g" and e[2][1] in self.funcs for e in g.get("init", ()) if len(e) > 2)}
        for f in self.funcs.values():
            if f.decl: continue
            der = {}
            def root(o):
                if o[0] == "g": return o[1]
                if o[0] == "v": return der.get(o[1])
                return None
            for b in f.blocks:
                for i in b:
                    if i["op"] in ("getelementptr", "bitcast", "freeze") and i["ops"]:
                        r = root(i["ops"][0])
                        if r: der[i["id"]] = r
                    elif i["op"] == "store":
                        r = root(i["ops"][1])
                        if r in cand: cand.discard(r)
                    elif i["op"] in ("atomicrmw", "cmpxchg"):
                        r = root(i["ops"][0])
                        if r in cand: cand.discard(r)
        self.frozen = cand
        for n in cand: self.globals[n]["const"] = True
    def field(self, struct, name):
        for m in self.structs[struct]["members"]:
            if m[0] == name: return m[1]
        raise KeyError((struct, name))

class Engine:
    def __init__(self, mod):
        self.mod = mod
        self.hooks = {}
        self.fresh_globals = False
        self.pre_hooks = {}
        self.reports = []
        self.stats = {}
        self.visited = set()
        self.calls_seen = {}
        self.oblig = {}
        self.callstack = []
        self.max_depth = 60
        self.recursion = None      # hook(eng, st, name, args) -> [(st, ret)]
        self.unknown_call = None   # hook(eng, st, inst, fnptr, args)
        self.null_policy = "check"
        self.on_lazy_ptr = None
        self.report_uninit = True
        self.unroll = 1
        self.nl_aff = True         # allow symbolic slopes in induction variables
        self.hid = 0
        self.deadline = None
        self.steps = 0
        self.max_steps = 3000000
        self.wild = {}
        self.merge_returns = True
        self.join = False
        self.mix = False
        self.depth = 4       # functions can be nested in themselves this far
        self.concrete = 0    # loops with a known counter are followed this far
        self.loop_log = None
        self.genb = set()
        self.genmap = None
    # ------------------------------------------------------------------ util
    def report(self, kind, msg, st, loc):
        self.reports.append(Report(kind, msg, tuple(loc) if loc else None,
                                   tuple(self.callstack[::-1]), st.trace))
    def obligation(self, kind, loc=None):
        k = (kind, tuple(loc) if loc else None)
        self.oblig[k] = self.oblig.get(k, 0) + 1
    def fresh_int(self, name, w, lo=0, hi=None):
        return sym(new_sym(name, lo, (1 << w) - 1 if hi is None else hi))
    def fresh_ptr(self, st, name, nonnull=False, kind="ptr"):
        s = new_sym(name, None, None, kind)
        if nonnull: st.pf[s] = "nn"
        return P(("s", s), ZERO)
    def fresh_of(self, st, ty, name):
        if ty == "ptr": return self.fresh_ptr(st, name)
        if ty[0] == "i": return self.fresh_int(name, width(ty))
        if ty[0] == "{":
            return tuple(self.fresh_of(st, t, name + ".%d" % i) for i, t in enumerate(split_agg(ty)))
        return FP((name, new_sym(name, None, None)))
    def heap(self, st, size, kind="undef", tag="heap", name=None):
        self.hid += 1
        b = ("h", "%s#%d" % (name or "heap", self.hid))
        st.mem[b] = Reg(kind, size, True, (), tag)
        return P(b, ZERO)
    def cond_split(self, st, c):
        """require a decision; returns bool"""
        d = st.decide(c)
        if d is None: raise NeedSplit(c)
        return d
    # ------------------------------------------------------------------ operands
    def glob(self, st, name, off=0):
        if name in self.mod.funcs:
            return P(("f", name), L(off))
        return P(("g", name), L(off))
    def opv(self, st, env, o):
        k = o[0]
        if k == "v":
            return env[o[1]]
        if k == "c":
            w = o[1]; v = int(o[2])
            return L(v & ((1 << w) - 1))
        if k == "n": return NULLP
        if k == "g": return self.glob(st, o[1], o[2])
        if k == "u":
            t = o[1]
            if t[0] == "{": return tuple(UNDEF for _ in split_agg(t))
            return UNDEF
        if k == "z":
            t = o[1]
            if t[0] == "{":
                return tuple(self.opv(st, env, ["z", x]) for x in split_agg(t))
            if t == "ptr": return NULLP
            return ZERO
        if k == "a":
            return tuple(self.opv(st, env, x) for x in o[1:])
        if k == "f": return FP(o[1])
        if k == "x":
            if o[1] == "inttoptr":
                v = self.opv(st, env, o[3])
                return self.int2ptr(st, v)
            if o[1] == "ptrtoint":
                return self.ptr2int(st, self.opv(st, env, o[3]))
            raise Incomplete("constexpr %s" % (o,))
        if k in ("m", "bb", "asm"): return None
        raise Incomplete("operand %s" % (o,))
    def int2ptr(self, st, v):
        if isinstance(v, P) or v is UNDEF: return v
        v = st.nl(v)
        if not v.t and v.c == 0: return NULLP
        if len(v.t) == 1 and v.t[0][1] == 1 and len(v.t[0][0]) == 1:
            s = SYMS[v.t[0][0][0]]
            if s.key and s.key[0] == "addr": return P(s.key[1], L(v.c))
        if not v.t:
            return P(("int", v.c), ZERO)
        s = keyed_sym(("i2p", v), "(ptr)%r" % v, None, None)
        return P(("s", s), ZERO)
    def ptr2int(self, st, p):
        if isinstance(p, Lin) or p is UNDEF: return p
        p = st.res(p)
        if p.base == NB: return p.off
        if p.base[0] == "int": return L(p.base[1]) + p.off
        if p.base[0] == "s":
            i = SYMS[p.base[1]]
            if i.key and i.key[0] == "i2p": return i.key[1] + p.off
        s = keyed_sym(("addr", p.base), "addr(%r)" % (P(p.base),), 0, (1 << 48))
        return sym(s) + p.off
    # ------------------------------------------------------------------ memory
    def region(self, st, base, loc):
        r = st.mem.get(base)
        if r is not None: return r
        if base[0] == "g":
            g = self.mod.globals.get(base[1])
            if g is None: raise Incomplete("unknown global %s" % (base,))
            if g["const"] and "init" in g:
                r = Reg("const", L(g["size"]), True, ())
            elif "init" in g and self.fresh_globals:
                # the program's initial state
                es = []
                for o, n, v in g["init"]:
                    if v[0] == "zero": continue
                    x = self.opv(st, {}, v)
                    es.append(("w", L(o), n, x, "ptr" if isinstance(x, P) else "i%d" % (8 * n)))
                r = Reg("zero", L(g["size"]), True, tuple(es))
            elif "init" in g:
                r = Reg("lazy", L(g["size"]), True, ())
            else:
                r = Reg("lazy", L(g["size"]) if g["size"] else None, True, ())
            st.mem[base] = r
            return r
        if base[0] == "s":
            r = Reg("lazy", None, True, tuple(("h", o, n, ("lh", g)) for o, n, g in st.lh))
            st.mem[base] = r
            return r
        if base[0] == "wit": 
            r = Reg("lazy", None, True, ()); st.mem[base] = r; return r
        self.report("bad-deref", "access through non-object pointer %s" % (base,), st, loc)
        raise PathEnd()
    def check_access(self, st, p, size, loc, what):
        """common pointer validity; returns resolved P.  size: Lin or int"""
        if p is UNDEF:
            if self.report_uninit: self.report("uninit", "%s through an uninitialised pointer" % what, st, loc)
            raise PathEnd()
        if isinstance(p, Lin): p = self.int2ptr(st, p)
        if not isinstance(p, P):
            raise Incomplete("deref of %r" % (p,))
        p = st.res(p)
        if p.base == NB:
            self.report("null-deref", "%s through a NULL pointer" % what, st, loc)
            raise PathEnd()
        if p.base[0] in ("f", "int"):
            self.report("bad-deref", "%s through a non-object pointer %r" % (what, p), st, loc)
            raise PathEnd()
        if p.base[0] == "s" and st.pf.get(p.base[1]) is None:
            if self.null_policy == "check" and SYMS[p.base[1]].kind == "mayn":
                raise NeedSplit(("peq", P(p.base), NULLP))
            st.pf[p.base[1]] = "nn"
        r = self.region(st, p.base, loc)
        if not r.alive:
            self.report("use-after-free", "%s of freed object %r" % (what, p), st, loc)
            raise PathEnd()
        if r.size is not None:
            self.obligation("bounds", loc)
            if not self.cond_split(st, c_ge(p.off)) or not self.cond_split(st, c_ge(r.size - p.off - size)):
                self.report("oob", "%s of %s byte(s) at %r outside object of size %r" % (what, size, p, st.nl(r.size)), st, loc)
                raise PathEnd()
        return p
    def lazy_val(self, st, base, gen, off, size, ty):
        off = st.nl(off)
        nm = "%s[%r]" % (base[1] if base[0] != "s" else SYMS[base[1]].name, off)
        if gen is not None: nm += "'%s" % (gen,)
        if ty == "ptr":
            key = ("lz", base, gen, off, "p")
            s = keyed_sym(key, nm, None, None)
            p = P(("s", s), ZERO)
            if self.on_lazy_ptr: 
                q = self.on_lazy_ptr(self, st, base, off, s)
                if q is not None: return q
            return p
        if ty[0] == "i":
            w = width(ty)
            bits = 8 * size
            key = ("lz", base, gen, off, size)
            lo = 0
            if size == 1 and gen is None:
                r = st.mem.get(base)
                if r is not None and isinstance(r.tag, tuple) and r.tag[0] == "cstr": lo = 1    # before the terminator
            s = keyed_sym(key, nm, lo, (1 << min(w, bits)) - 1)
            return sym(s)
        return FP(("lz", base, gen, off, ty))
    def overlap(self, st, off, size, eo, el):
        """relation of load [off,off+size) to entry [eo, eo+el): 'in','out','part'; el None = unbounded"""
        d = st.nl(off - eo)
        if not d.t and el is not None and isinstance(el, int):
            d = d.c
            if d >= el or d + size <= 0: return "out"
            if d >= 0 and d + size <= el: return "in"
            return "part"
        sto = st.store
        if sto.ge0(-d - size): return "out"
        if el is not None and sto.ge0(d - el): return "out"
        if isinstance(el, int) and el == size:
            if sto.eq0(d): return "in"
            if not sto.ne0(d): raise NeedSplit(c_eq(d))
            if not sto.ge0(d) and not sto.ge0(-d - 1): raise NeedSplit(c_ge(d))
            # different offset, same size: split on overlap
            if sto.ge0(d): 
                raise NeedSplit(c_ge(d - el))if not sto.ge0(L(el) - 1 - d) else _Part()
            raise NeedSplit(c_ge(-d - size)) if not sto.ge0(d + size - 1) else _Part()
        if not sto.ge0(d):
            if not sto.ge0(-d - 1): raise NeedSplit(c_ge(d))
            # d < 0
            if not sto.ge0(d + size - 1): raise NeedSplit(c_ge(d + size - 1))
            return "part"
        if el is None: return "in"
        ell = el if isinstance(el, Lin) else L(el)
        if sto.ge0(ell - d - size): return "in"
        if not sto.ge0(ell - d - 1): raise NeedSplit(c_ge(d - ell))
        if size > 1 and not sto.ge0(d + (size - 1) - ell): raise NeedSplit(c_ge(ell - d - size))
        return "part"
    def load(self, st, p, size, ty, loc, check=True):
        if check: p = self.check_access(st, p, size, loc, "read")
        else: p = st.res(p)
        r = self.region(st, p.base, loc)
        return self.rload(st, r, p.base, st.nl(p.off), size, ty, loc)
    def rload(self, st, r, base, off, size, ty, loc):
        for e in r.entries:
            k = e[0]
            try:
                rel = self.overlap(st, off, size, e[1], e[2])
            except _Part:
                rel = "part"
            if rel == "out": continue
            if rel == "part":
                return self.load_bytes(st, r, base, off, size, ty, loc)
            if k == "w":
                if e[2] == size: return self.conv(st, e[3], ty)
                return self.extract(st, e[3], st.nl(off - e[1]), size, ty, e[2])
            if k == "f":
                b = e[3]
                if isinstance(b, Lin) and not st.nl(b).t:
                    b = st.nl(b).c
                    if ty == "ptr":
                        if b == 0: return NULLP
                        return FP("fillptr")
                    v = 0
                    for i in range(size): v |= b << (8 * i)
                    return L(v)
                if size == 1: return b
                return self.opaque(st, ty, "fill")
            if k == "c":
                return self.rload(st, e[3], e[4], st.nl(e[5] + (off - e[1])), size, ty, loc)
            if k == "h":
                return self.lazy_val(st, base, e[3], off, size, ty)
        k = r.kind
        if k == "zero": return NULLP if ty == "ptr" else (ZERO if ty[0] == "i" else FP("0"))
        if k == "undef": return UNDEF
        if k == "const":
            return self.const_load(st, base, off, size, ty, loc)
        v = self.lazy_val(st, base, None if k == "lazy" else k, off, size, ty)
        if not off.t and ty[0] in "ip":
            # overlapping narrower/wider lazy integer reads are related through bits
            pass
        # materialise so that later aliasing / overlapping accesses are coherent
        cur = st.mem.get(base)
        if cur is r and ty[0] in "ip":
            if ty[0] == "i" and not off.t:
                for e in r.entries:
                    pass
            st.mem[base] = r.with_(entries=r.entries + (("w", off, size, v, ty),))
        return v
    def opaque(self, st, ty, why):
        return self.fresh_of(st, ty, why)
    def const_load(self, st, base, off, size, ty, loc):
        g = self.mod.globals[base[1]]
        if off.t:
            # symbolic index into constant table: every byte-cell is possible
            lo, hi = st.store.interval(off)
            cells = [c for c in g["init"]]
            starts = sorted(set(c[0] for c in cells if c[1] == size))
            starts = [s for s in starts if (lo is None or s >= lo) and (hi is None or s <= hi)]
            if len(starts) > 600 or not starts: return self.opaque(st, ty, "table")
            mid = starts[len(starts) // 2]
            if len(starts) > 1:
                if len(starts) <= 300:
                    raise NeedSplit(c_ge(off - mid)) if st.decide(c_ge(off - mid)) is None else Incomplete("table")
                return self.opaque(st, ty, "table")
            if st.decide(c_eq(off - starts[0])) is None: raise NeedSplit(c_eq(off - starts[0]))
            off = L(starts[0])
        o = off.c
        acc = None
        for c in g["init"]:
            if c[0] == o and c[1] == size:
                if c[2][0] == "zero": return NULLP if ty == "ptr" else ZERO
                return self.conv(st, self.opv(st, {}, c[2]), ty)
            if c[0] <= o and o + size <= c[0] + c[1]:
                if c[2][0] == "zero": return NULLP if ty == "ptr" else ZERO
        if ty[0] == "i":
            v = 0
            for i in range(size):
                b = self.const_byte(g, o + i)
                if b is None: return self.opaque(st, ty, "const")
                v |= b << (8 * i)
            return L(v)
        return self.opaque(st, ty, "const")
    def const_byte(self, g, o):
        for c in g["init"]:
            if c[0] <= o < c[0] + c[1]:
                if c[2][0] == "zero": return 0
                if c[2][0] == "c": return (int(c[2][2]) >> (8 * (o - c[0]))) & 255
        return None
    def load_bytes(self, st, r, base, off, size, ty, loc):
        if ty[0] != "i" or size == 1: return self.opaque(st, ty, "mixed")
        bits = []
        for i in range(size):
            v = self.rload(st, r, base, off + i, 1, "i8", loc)
            if v is UNDEF: return UNDEF
            if not isinstance(v, Lin): return self.opaque(st, ty, "mixed")
            bits += bits_of(st, v, 8)
        return from_bits(st, bits)
    def extract(self, st, v, d, size, ty, vsize):
        if v is UNDEF: return UNDEF
        if d.t:
            if isinstance(v, Lin) and ty[0] == "i":     # a function of the word and the position
                return sym(keyed_sym(("subword", st.nl(v), d, size), "subword", 0, (1 << (8 * size)) - 1))
            return self.opaque(st, ty, "subword")
        if isinstance(v, Lin) and ty[0] == "i":
            b = bits_of(st, v, vsize * 8)
            return from_bits(st, b[d.c * 8:(d.c + size) * 8])
        if isinstance(v, P) and st.res(v).base == NB and ty[0] == "i": return ZERO
        return self.opaque(st, ty, "subword")
    def conv(self, st, v, ty):
        if v is UNDEF: return v
        if ty == "ptr":
            if isinstance(v, Lin): return self.int2ptr(st, v)
            return v
        if ty[0] == "i":
            if isinstance(v, P): return self.ptr2int(st, v)
            if isinstance(v, tuple) and v and v[0] in ("ge", "eq", "ne", "peq", "pne", "and", "or"): return v
            return v
        return v
    def store(self, st, p, size, v, ty, loc):
        p = self.check_access(st, p, size, loc, "write")
        r = self.region(st, p.base, loc)
        if r.kind == "const":
            self.report("const-write", "write to constant %r" % p, st, loc); raise PathEnd()
        off = st.nl(p.off)
        ent = r.entries
        if not off.t: ent = self.uncovered(ent, off.c, off.c + size)
        else: ent = tuple(e for e in ent if not (e[0] == "w" and e[2] == size and e[1] == off))
        st.mem[p.base] = r.with_(entries=(("w", off, size, v, ty),) + ent, dirty=True)
    def uncovered(self, ent, lo, hi):
        """older entries some part of which can still be read once [lo, hi) is written"""
        out = [e for e in ent if e[1].t or not isinstance(e[2], int) or e[1].c < lo or e[1].c + e[2] > hi]
        return ent if len(out) == len(ent) else tuple(out)
    def range_write(self, st, p, n, entry, loc):
        """entry: function(off) -> entry tuple; n Lin length"""
        n = st.nl(n)
        if not n.t and n.c == 0: return
        if n.t and not self.cond_split(st, c_ge(n - 1)): return
        p = self.check_access(st, p, n, loc, "write")
        r = self.region(st, p.base, loc)
        off = st.nl(p.off)
        ln = n.c if not n.t else n
        ent = r.entries
        if isinstance(ln, int) and not off.t:
            ent = self.uncovered(ent, off.c, off.c + ln)
        st.mem[p.base] = r.with_(entries=(entry(off, ln),) + ent, dirty=True)
    def memset(self, st, p, byte, n, loc):
        self.range_write(st, p, n, lambda o, l: ("f", o, l, byte), loc)
    def memcpy(self, st, d, s, n, loc):
        n = st.nl(n)
        if not n.t and n.c == 0: return
        if n.t and not self.cond_split(st, c_ge(n - 1)): return
        s = self.check_access(st, s, n, loc, "read")
        sr = self.region(st, s.base, loc)
        soff = st.nl(s.off)
        if not n.t and n.c <= 64 and not soff.t:
            # small copies: cell-wise, keeps later loads simple
            pass
        self.range_write(st, d, n, lambda o, l: ("c", o, l, sr, s.base, soff), loc)
    def havoc_range(self, st, p, n, loc, why="h"):
        self.hid += 1
        g = "%s%d" % (why, self.hid)
        self.range_write(st, p, n, lambda o, l: ("h", o, l, g), loc)
    def havoc_region(self, st, base):
        r = st.mem.get(base)
        if r is None or r.kind == "const": return
        self.hid += 1
        st.mem[base] = r.with_(entries=(("h", ZERO, None, "hv%d" % self.hid),), dirty=True)
    def free_region(self, st, base):
        st.mem[base] = st.mem[base].with_(alive=False)
    # ------------------------------------------------------------------ arithmetic
    def signed(self, st, a, w):
        half = 1 << (w - 1)
        if self.cond_split(st, c_ge(L(half - 1) - a)): return a
        return a - (1 << w)
    def unsign(self, st, a, w):
        if self.cond_split(st, c_ge(a)): return a
        return a + (1 << w)
    def use(self, st, v, loc, what="value"):
        if v is UNDEF:
            if self.report_uninit:
                self.report("uninit", "use of an uninitialised %s" % what, st, loc)
            raise PathEnd()
        return v
    def binop(self, st, op, a, b, w, inst):
        loc = inst.get("loc")
        if op == "and" and w > 1 and (a is UNDEF) != (b is UNDEF):
            k = b if a is UNDEF else a
            # a value assembled piecewise from an undefined word: the kept bits are arbitrary
            if isinstance(k, Lin) and not st.nl(k).t:
                x = self.fresh_int("undef", w)
                return from_bits(st, [y if (st.nl(k).c >> i) & 1 else 0 for i, y in enumerate(bits_of(st, x, w))])
        a = self.use(st, a, loc); b = self.use(st, b, loc)
        if isinstance(a, P): a = self.ptr2int(st, a)
        if isinstance(b, P): b = self.ptr2int(st, b)
        if w == 1:
            ca = self.as_cond(st, a); cb = self.as_cond(st, b)
            if op == "and" or op == "mul": return ("and", ca, cb)
            if op == "or": return ("or", ca, cb)
            if op in ("xor", "add", "sub"):
                da = st.decide(ca)
                db = st.decide(cb)
                if db is not None: return neg(ca) if db else ca
                if da is not None: return neg(cb) if da else cb
                raise NeedSplit(ca)
        if isinstance(a, tuple): a = self.from_cond(st, a)
        if isinstance(b, tuple): b = self.from_cond(st, b)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return self.opaque(st, "i%d" % w, op)
        a = st.nl(a); b = st.nl(b)
        M = 1 << w
        if not a.t and not b.t:
            x, y = a.c, b.c
            r = (x + y if op == "add" else x - y if op == "sub" else x * y if op == "mul" else x & y if op == "and" else x | y if op == "or"
                 else x ^ y if op == "xor" else x << y if op == "shl" and y < w else x >> y if op == "lshr" and y < w else None)
            if r is not None: return L(r % M)
        if self.mix and w <= 64 and (op == "mul" and max(a.c if not a.t else 0, b.c if not b.t else 0) >> 16 or mixed(a) or mixed(b)):
            if op in ("add", "mul", "xor", "and", "or") and b.h < a.h: a, b = b, a
            if op in ("xor", "or", "and"):
                # the width the operands need, whatever type they were widened to
                n = [(st.store.interval(x)[1] or 0).bit_length() or w for x in (a, b)]
                w = min(w, min(n) if op == "and" else max(n))
            return mix((op, w, a, b), w)
        if op == "add":
            if inst.get("nsw") and not b.t and b.c >= M // 2:
                # x + (-k) without signed wrap
                k = M - b.c
                r = a - k
                if st.store.ge0(r): return r
            r = a + b
            if inst.get("nuw"): return r
            if self.cond_split(st, c_ge(L(M - 1) - r)): return r
            return r - M
        if op == "sub":
            r = a - b
            if self.cond_split(st, c_ge(r)): return r
            return r + M
        if op == "mul":
            r = a * b
            if inst.get("nuw"): return r
            if not r.t: return L(r.c % M)
            if a.t and b.t:
                if self.cond_split(st, c_ge(L(M - 1) - r)): return r
                s = keyed_sym(("mulmod", w, r), "(%r mod 2^%d)" % (r, w), 0, M - 1)
                return sym(s)
            if self.cond_split(st, c_ge(L(M - 1) - r)): return r
            k = b.c if not b.t else a.c
            if k >= M // 2 and inst.get("nsw"):
                # negative constant
                x = self.signed(st, a if not b.t else b, w)
                return self.unsign(st, x.scale(k - M), w)
            q = keyed_sym(("wrapmul", w, r), "(%r div 2^%d)" % (r, w), 0, k,
                          lambda s: (r - sym(s).scale(M), sym(s).scale(M) + (M - 1) - r))
            return r - sym(q).scale(M)
        if op in ("udiv", "urem"):
            if not self.cond_split(st, c_ge(b - 1)):
                self.report("div0", "division by zero", st, loc); raise PathEnd()
            return self.udivrem(st, a, b, op)
        if op in ("sdiv", "srem"):
            x = self.signed(st, a, w); y = self.signed(st, b, w)
            if not self.cond_split(st, c_ne(y)):
                self.report("div0", "division by zero", st, loc); raise PathEnd()
            nx = not self.cond_split(st, c_ge(x)); ny = not self.cond_split(st, c_ge(y))
            r = self.udivrem(st, -x if nx else x, -y if ny else y, "udiv" if op == "sdiv" else "urem")
            if op == "sdiv": r = -r if nx != ny else r
            else: r = -r if nx else r
            return self.unsign(st, r, w)
        if op in ("shl", "lshr", "ashr") and not self.cond_split(st, c_ge(L(w - 1) - b)):
            self.report("shift", "shift of a %d-bit value by %d or more" % (w, w), st, loc); raise PathEnd()
        if op == "shl":
            if not b.t:
                bb = bits_of(st, a, w)
                if b.c >= w: return ZERO
                lo, hi = st.store.interval(a)
                r = a.scale(1 << b.c)
                if hi is not None and hi * (1 << b.c) < M: return r
                if st.store.ge0(L(M - 1) - r): return r
                return from_bits(st, ([0] * b.c + bb)[:w])
            return self.opq(st, ("shl", w, a, b), w)
        if op == "lshr":
            if not b.t:
                if b.c >= w: return ZERO
                return from_bits(st, bits_of(st, a, w)[b.c:])
            s = self.opq(st, ("lshr", w, a, b), w)
            st.store.add_ge0(a - s)
            return s
        if op == "ashr":
            if not b.t:
                bb = bits_of(st, a, w)
                return from_bits(st, bb[b.c:] + [bb[-1]] * b.c)
            return self.opq(st, ("ashr", w, a, b), w)
        if op in ("and", "or", "xor"):
            x = bits_of(st, a, w); y = bits_of(st, b, w)
            out = []
            ok = True
            for i in range(w):
                p, q = x[i], y[i]
                if op == "and":
                    if p == 0 or q == 0: out.append(0)
                    elif p == 1: out.append(q)
                    elif q == 1: out.append(p)
                    elif p == q: out.append(p)
                    else: ok = False
                elif op == "or":
                    if p == 1 or q == 1: out.append(1)
                    elif p == 0: out.append(q)
                    elif q == 0: out.append(p)
                    elif p == q: out.append(p)
                    else: ok = False
                else:
                    if p == 0: out.append(q)
                    elif q == 0: out.append(p)
                    elif p == q: out.append(0)
                    elif isinstance(p, int) and isinstance(q, int): out.append(p ^ q)
                    else: ok = False
                if not ok: break
            if ok: return from_bits(st, out)
            if op == "xor" and not b.t and b.c == M - 1: return L(M - 1) - a
            if b.h < a.h: a, b = b, a
            s = self.opq(st, (op, w, a, b), w)
            if op == "and":
                st.store.add_ge0(a - s); st.store.add_ge0(b - s)
            if op == "or":
                st.store.add_ge0(s - a); st.store.add_ge0(s - b); st.store.add_ge0(a + b - s)
            return s
        raise Incomplete("binop %s" % op)
    def opq(self, st, key, w):
        return sym(keyed_sym(("op",) + key, "(%s)" % " ".join(map(repr, key)), 0, (1 << w) - 1))
    def udivrem(self, st, a, b, op):
        if not a.t and not b.t:
            return L(a.c // b.c) if op == "udiv" else L(a.c % b.c)
        if not b.t and b.c == 1: return a if op == "udiv" else ZERO
        if not b.t and (b.c & (b.c - 1)) == 0:
            n = b.c.bit_length() - 1
            bb = bits_of(st, a, 128)
            return from_bits(st, bb[n:]) if op == "udiv" else from_bits(st, bb[:n])
        # exact polynomial quotient?
        if not b.t:
            if all(k % b.c == 0 for _, k in a.t):
                q, r = divmod(a.c, b.c)
                ql = Lin(q, tuple((m, k // b.c) for m, k in a.t))
                return ql if op == "udiv" else L(r)
        if b.t and st.store.ge0(b + b - 1 - a):     # a wrap-around: the quotient is 0 or 1
            one = self.cond_split(st, c_ge(a - b))
            if op == "udiv": return L(1 if one else 0)
            return a - b if one else a
        q = sym(keyed_sym(("udiv", a, b), "(%r/%r)" % (a, b), 0, 1 << 64,
                 lambda s: (a - sym(s) * b, sym(s) * b + b - 1 - a)))
        if not b.t:
            lo, hi = st.store.interval(a)
            if hi is not None and hi >= 0: st.store.set_hi(q, hi // b.c)
        if op == "udiv": return q
        r = sym(keyed_sym(("urem", a, b), "(%r%%%r)" % (a, b), 0, 1 << 64,
                 lambda s: (b - 1 - sym(s), a - q * b - sym(s), sym(s) - a + q * b)))
        return r
    def as_cond(self, st, v):
        if isinstance(v, Lin):
            v = st.nl(v)
            if not v.t: return TRUE if v.c & 1 else FALSE
            return c_ne(v)
        return v
    def from_cond(self, st, c):
        return ONE if self.cond_split(st, c) else ZERO
    def icmp(self, st, pred, a, b, ty, loc):
        a = self.use(st, a, loc, "value in a comparison"); b = self.use(st, b, loc, "value in a comparison")
        if ty == "ptr":
            if isinstance(a, Lin): a = self.int2ptr(st, a)
            if isinstance(b, Lin): b = self.int2ptr(st, b)
            if not isinstance(a, P) or not isinstance(b, P):
                return c_b(new_sym("cmp", 0, 1))
            if pred == "eq": return ("peq", a, b)
            if pred == "ne": return ("pne", a, b)
            a = st.res(a); b = st.res(b)
            if a.base != b.base:
                return c_b(keyed_sym(("pcmp", pred, a, b), "pcmp", 0, 1))
            a, b = a.off, b.off
            if pred == "ult": return c_ge(b - a - 1)
            if pred == "ule": return c_ge(b - a)
            if pred == "ugt": return c_ge(a - b - 1)
            if pred == "uge": return c_ge(a - b)
            raise Incomplete(pred)
        if isinstance(a, P): a = self.ptr2int(st, a)
        if isinstance(b, P): b = self.ptr2int(st, b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, Lin) and not b.t:
                r = a if (b.c & 1) else neg(a)
                if pred == "eq": return r
                if pred == "ne": return neg(r)
            if isinstance(a, tuple): a = self.from_cond(st, a)
            if isinstance(b, tuple): b = self.from_cond(st, b)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return c_b(new_sym("cmp", 0, 1))
        if pred == "eq": return c_eq(a - b)
        if pred == "ne": return c_ne(a - b)
        w = width(ty)
        if pred[0] == "s":
            # sign-split only when needed
            a = self.signed(st, a, w); b = self.signed(st, b, w)
        p = pred[1:]
        if p == "lt": return c_ge(b - a - 1)
        if p == "le": return c_ge(b - a)
        if p == "gt": return c_ge(a - b - 1)
        if p == "ge": return c_ge(a - b)
        raise Incomplete(pred)
    def cast(self, st, op, v, sty, ty, inst):
        if v is UNDEF: return UNDEF
        if op in ("bitcast", "freeze", "addrspacecast"): return v
        if op == "inttoptr": return self.int2ptr(st, v)
        if op == "ptrtoint": return self.ptr2int(st, v)
        if op in ("zext", "sext", "trunc"):
            ws = width(sty); wd = width(ty)
            if op == "trunc":
                if isinstance(v, tuple): return v
                if isinstance(v, P): v = self.ptr2int(st, v)
                if not isinstance(v, Lin): return self.opaque(st, ty, op)
                if wd == 1:
                    v = st.nl(v)
                    lo, hi = st.store.interval(v)
                    if lo is not None and hi is not None and lo >= 0 and hi <= 1: return c_ne(v)
                    b = bits_of(st, v, ws)[0]
                    if isinstance(b, int): return L(b)
                    return c_ne(from_bits(st, [b]))
                if st.store.ge0(L((1 << wd) - 1) - v): return v
                lo, hi = st.store.interval(st.nl(v))
                if lo is not None and hi is not None and lo >= 0 and lo >> wd == hi >> wd: return v - ((lo >> wd) << wd)
                if hi is not None:
                    low = min(hi, (1 << ws) - 1) >> wd << wd
                    if st.store.ge0(v - low): return v - low
                if self.mix and mixed(v): return mix(("trunc", wd, v), wd)
                return from_bits(st, bits_of(st, v, ws)[:wd])
            if isinstance(v, tuple): 
                one = L((1 << wd) - 1) if op == "sext" else ONE
                return one if self.cond_split(st, v) else ZERO
            if not isinstance(v, Lin): return self.opaque(st, ty, op)
            if op == "zext": return v
            if ws == 1: return L((1 << wd) - 1) if self.cond_split(st, c_ne(v)) else ZERO
            half = 1 << (ws - 1)
            if self.cond_split(st, c_ge(L(half - 1) - v)): return v
            return v + ((1 << wd) - (1 << ws))
        return FP((op, ty, repr(v)))
    # ------------------------------------------------------------------ execution
    def exec_block(self, f, b, st):
        """run block b of f from state st; returns list of ('br', target, st) / ('ret', v, st)"""
        out = []
        insts = f.blocks[b]
        i0 = 0
        while insts[i0]["op"] == "phi": i0 += 1
        work = [(st, i0)]
        self.visited.add((f.name, b))
        while work:
            st, i = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps: raise Incomplete("step limit")
                if self.deadline and (self.steps & 1023) == 0 and time.time() > self.deadline:
                    raise Incomplete("deadline")
                inst = insts[i]
                op = inst["op"]
                try:
                    if op == "call":
                        snap = st.copy()
                        try:
                            res = self.do_call(f, st, inst)
                        except NeedSplit:
                            st = snap
                            raise
                        if len(res) == 1:
                            st = res[0]; i += 1; continue
                        for s in res[1:]: work.append((s, i + 1))
                        if not res: break
                        st = res[0]; i += 1
                        continue
                    if op == "br":
                        if len(inst["succ"]) == 1:
                            out.append(("br", inst["succ"][0], st)); break
                        c = self.use(st, self.opv(st, st.frames[-1], inst["ops"][0]), inst.get("loc"), "condition")
                        c = self.as_cond(st, c)
                        d = st.decide(c)
                        if d is None: raise NeedSplit(c)
                        out.append(("br", inst["succ"][0 if d else 1], st)); break
                    if op == "switch":
                        v = self.use(st, self.opv(st, st.frames[-1], inst["ops"][0]), inst.get("loc"), "switch value")
                        if isinstance(v, tuple): v = self.from_cond(st, v)
                        tgt = inst["default"]
                        if not isinstance(v, Lin): raise Incomplete("switch on %r" % (v,))
                        runs = inst.get("runs")
                        if runs is None:    # consecutive case values with one target are decided as a range
                            runs = []
                            for k, t in sorted((int(cv[2]) & ((1 << cv[1]) - 1), t) for cv, t in inst["cases"]):
                                if runs and runs[-1][2] == t and runs[-1][1] == k - 1: runs[-1][1] = k
                                else: runs.append([k, k, t])
                            inst["runs"] = runs
                        for lo, hi, t in runs:
                            if lo == hi:
                                if self.cond_split(st, c_eq(v - lo)): tgt = t; break
                            elif self.cond_split(st, c_ge(v - lo)) and self.cond_split(st, c_ge(L(hi) - v)): tgt = t; break
                        out.append(("br", tgt, st)); break
                    if op == "ret":
                        v = self.opv(st, st.frames[-1], inst["ops"][0]) if inst["ops"] else None
                        out.append(("ret", v, st, inst.get("loc"))); break
                    if op == "unreachable": break
                    self.step(st, inst)
                    i += 1
                except NeedSplit as e:
                    nm = fmtloc(inst.get("loc"))
                    first = True
                    for c in (e.cond, neg(e.cond)):
                        for s in st.copy().assume(self, c):
                            if len(s.trace) < 200:
                                s.trace = s.trace + ((nm, c),)
                            work.append((s, i))
                    break
                except PathEnd:
                    break
        return out
    def step(self, st, inst):
        op = inst["op"]; env = st.frames[-1]
        loc = inst.get("loc")
        ops = inst["ops"]
        if op == "load":
            p = self.opv(st, env, ops[0])
            h = self.pre_hooks.get("load")
            if h:
                r = h(self, st, inst, p)
                if r is not None: env[inst["id"]] = r; return
            ty = inst["ty"]
            if ty[0] == "{":
                env[inst["id"]] = self.load_agg(st, p, ty, loc)
            else:
                env[inst["id"]] = self.load(st, p, inst["size"], ty, loc)
        elif op == "store":
            v = self.opv(st, env, ops[0]); p = self.opv(st, env, ops[1])
            if isinstance(v, tuple) and v and isinstance(v[0], str): v = self.from_cond(st, v)
            h = self.pre_hooks.get("store")
            if h and h(self, st, inst, p, v): return
            if inst["vty"][0] == "{":
                self.store_agg(st, p, inst["vty"], v, loc)
            else:
                self.store(st, p, inst["size"], v, inst["vty"], loc)
        elif op == "getelementptr":
            p = self.opv(st, env, ops[0])
            if p is UNDEF: env[inst["id"]] = UNDEF; return
            if isinstance(p, Lin): p = self.int2ptr(st, p)
            if not isinstance(p, P): env[inst["id"]] = p; return
            d = L(inst["off"])
            for v, k, w in inst["idx"]:
                x = self.opv(st, env, v)
                x = self.use(st, x, loc, "index")
                if isinstance(x, tuple): x = self.from_cond(st, x)
                if isinstance(x, P): x = self.ptr2int(st, x)
                if not isinstance(x, Lin): raise Incomplete("gep index")
                # indices are signed; large unsigned values are negative offsets
                x = self.gep_index(st, x, w)
                d = d + x.scale(k)
            env[inst["id"]] = P(p.base, p.off + d)
        elif op == "icmp":
            env[inst["id"]] = self.icmp(st, inst["pred"], self.opv(st, env, ops[0]), self.opv(st, env, ops[1]), inst["oty"], loc)
        elif op in ("zext", "sext", "trunc", "bitcast", "inttoptr", "ptrtoint"):
            env[inst["id"]] = self.cast(st, op, self.opv(st, env, ops[0]), inst["sty"], inst["ty"], inst)
        elif op == "freeze":
            env[inst["id"]] = self.opv(st, env, ops[0])
        elif op in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            env[inst["id"]] = self.binop(st, op, self.opv(st, env, ops[0]), self.opv(st, env, ops[1]), width(inst["ty"]), inst)
        elif op == "select":
            c = self.as_cond(st, self.use(st, self.opv(st, env, ops[0]), loc, "condition"))
            env[inst["id"]] = self.opv(st, env, ops[1] if self.cond_split(st, c) else ops[2])
        elif op == "alloca":
            n = self.opv(st, env, ops[0])
            self.hid += 1
            nm = self.mod_name(inst)
            b = ("a", "%s#%d" % (nm, self.hid))
            st.mem[b] = Reg("undef", n.scale(inst["size"]) if isinstance(n, Lin) else None, True, (), ("local", len(st.frames)))
            env[inst["id"]] = P(b, ZERO)
        elif op == "extractvalue":
            v = self.opv(st, env, ops[0])
            for k in inst["ix"]:
                v = v[k] if isinstance(v, tuple) else UNDEF
            env[inst["id"]] = v
        elif op == "insertvalue":
            v = self.opv(st, env, ops[0])
            if len(inst["ix"]) != 1: raise Incomplete("insertvalue")
            n = len(split_agg(inst["ty"])) 
            if not isinstance(v, tuple): v = (UNDEF,) * n
            v = list(v); v[inst["ix"][0]] = self.opv(st, env, ops[1])
            env[inst["id"]] = tuple(v)
        elif op == "atomicrmw":
            p = self.opv(st, env, ops[0]); v = self.opv(st, env, ops[1])
            h = self.pre_hooks.get("rmw")
            if h:
                r = h(self, st, inst, p, v)
                if r is not None: env[inst["id"]] = r; return
            old = self.load(st, p, inst["size"], inst["ty"], loc)
            w = width(inst["ty"])
            k = inst["rmw"]
            if k == "add": new = self.binop(st, "add", old, v, w, {"loc": loc})
            elif k == "sub": new = self.binop(st, "sub", old, v, w, {"loc": loc})
            elif k == "xchg": new = v
            else: new = self.fresh_int("rmw", w)
            self.store(st, p, inst["size"], new, inst["ty"], loc)
            env[inst["id"]] = old
        elif op == "cmpxchg":
            p = self.opv(st, env, ops[0]); cmp_ = self.opv(st, env, ops[1]); nv = self.opv(st, env, ops[2])
            h = self.pre_hooks.get("cmpxchg")
            if h:
                r = h(self, st, inst, p, cmp_, nv)
                if r is not None: env[inst["id"]] = r; return
            ty = split_agg(inst["ty"])[0]
            old = self.load(st, p, inst["size"], ty, loc)
            c = self.icmp(st, "eq", old, cmp_, ty, loc)
            if self.cond_split(st, c):
                self.store(st, p, inst["size"], nv, ty, loc)
                env[inst["id"]] = (old, ONE)
            else:
                env[inst["id"]] = (old, ZERO)
        elif op == "fence": pass
        elif op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "sitofp", "uitofp", "fptoui", "fptosi", "fpext", "fptrunc"):
            env[inst["id"]] = self.fresh_of(st, inst["ty"], op)
        elif op == "fcmp":
            env[inst["id"]] = c_b(new_sym("fcmp", 0, 1))
        elif op == "va_arg":
            env[inst["id"]] = self.fresh_of(st, inst["ty"], "va_arg")
        else:
            raise Incomplete("instruction %s" % op)
    def gep_index(self, st, x, w):
        x = st.nl(x)
        half = 1 << (w - 1)
        if not x.t: return x if x.c < half else L(x.c - (1 << w))
        if st.store.ge0(L(half - 1) - x): return x
        if st.store.ge0(x - half): return x - (1 << w)
        # objects are never larger than half the address space: prefer the
        # non-negative reading unless both are possible
        raise NeedSplit(c_ge(L(half - 1) - x))
    def mod_name(self, inst):
        fn = self.callstack[-1] if self.callstack else "?"
        f = self.mod.funcs.get(fn)
        if f: return "%s.%s" % (fn, f.names.get(str(inst["id"]), "tmp%d" % inst["id"]))
        return fn
    def load_agg(self, st, p, ty, loc):
        out = []; off = 0
        for t in split_agg(ty):
            sz, al = sizeof(t)
            off = (off + al - 1) // al * al
            out.append(self.load(st, p + off, sz, t, loc))
            off += sz
        return tuple(out)
    def store_agg(self, st, p, ty, v, loc):
        off = 0
        for t, x in zip(split_agg(ty), v):
            sz, al = sizeof(t)
            off = (off + al - 1) // al * al
            self.store(st, p + off, sz, x, t, loc)
            off += sz
    # ------------------------------------------------------------------ calls
    def do_call(self, f, st, inst):
        """returns list of states with the result bound"""
        env = st.frames[-1]
        c = inst["callee"]
        args = [self.opv(st, env, a) for a in inst["ops"]]
        args = [self.from_cond(st, a) if isinstance(a, tuple) and a and isinstance(a[0], str) else a for a in args]
        loc = inst.get("loc")
        if c[0] == "asm":
            if "id" in inst: env[inst["id"]] = self.fresh_of(st, inst["ty"], "asm")
            return [st]
        if c[0] == "g": name = c[1]
        else:
            fp = self.use(st, self.opv(st, env, c), loc, "function pointer")
            if isinstance(fp, Lin): fp = self.int2ptr(st, fp)
            fp = st.res(fp)
            if fp.base[0] == "f": name = fp.base[1]
            else:
                if fp.base == NB:
                    self.report("null-call", "call through a NULL function pointer", st, loc)
                    raise PathEnd()
                if fp.base[0] == "s" and st.pf.get(fp.base[1]) is None:
                    st.pf[fp.base[1]] = "nn"
                if self.unknown_call is None: raise Incomplete("indirect call at %s via %r" % (fmtloc(loc), fp))
                res = self.unknown_call(self, st, inst, fp, args)
                return self.bind(inst, res)
        # byval copies
        for k, n in inst.get("byval", []):
            self.hid += 1
            b = ("a", "byval#%d" % self.hid)
            st.mem[b] = Reg("undef", L(n), True, (), ("local", len(st.frames) + 1))
            self.memcpy(st, P(b), args[k], L(n), loc)
            args[k] = P(b)
        self.calls_seen.setdefault(name, set()).add(tuple(loc) if loc else None)
        res = self.call(st, name, args, inst)
        return self.bind(inst, res)
    def bind(self, inst, res):
        out = []
        for s, v in res:
            if "id" in inst: s.frames[-1][inst["id"]] = v
            out.append(s)
        return out
    def call(self, st, name, args, inst=None):
        """returns [(state, retval)]; st is consumed"""
        h = self.hooks.get(name)
        if h is None and name.startswith("llvm."):
            for k in self.hooks:
                if k.endswith("*") and name.startswith(k[:-1]): h = self.hooks[k]; break
        if h is not None:
            r = h(self, st, inst, args)
            if r is not NotImplemented:
                return r
        fn = self.mod.funcs.get(name)
        if fn is None or fn.decl:
            raise Incomplete("no model for external function %s (called at %s)" % (name, fmtloc(inst.get("loc") if inst else None)))
        if self.callstack.count(name) >= 1:
            if self.recursion is not None:
                r = self.recursion(self, st, name, args, inst)
                if r is not NotImplemented: return r
            if self.callstack.count(name) >= self.depth:
                raise Incomplete("recursion in %s" % name)
        if len(self.callstack) > self.max_depth: raise Incomplete("call depth")
        return self.run(st, fn, args)
    def run(self, st, fn, args):
        env = {}
        for a, v in zip(fn.args, args): env[a["id"]] = v
        st.frames = st.frames + [env]
        self.callstack.append(fn.name)
        va = args[len(fn.args):]
        depth = len(st.frames)
        if va: st.ghost[("va", depth)] = tuple(va)
        try:
            res = self.exec_region(fn, 0, st, None)
        finally:
            self.callstack.pop()
        out = []
        seen = {}
        for v, s, loc in res:
            s.frames = s.frames[:-1]
            if s.frames: s.frames[-1] = dict(s.frames[-1])
            s.ghost.pop(("va", depth), None)
            dead = [b for b, r in s.mem.items() if b[0] == "a" and r.tag == ("local", depth)]
            for b in dead: del s.mem[b]
            if isinstance(v, Lin): v = s.nl(v)
            elif isinstance(v, P): v = s.res(v); v = P(v.base, s.nl(v.off))
            out.append((s, v))
        if self.merge_returns and len(out) > 1: out = self.dedupe(out, self.join and not os.path.basename(os.path.dirname(fn.file or '')) == 'witness')
        return out
    def skey(self, s, v):
        return (v if not isinstance(v, Undef) else "undef",
                frozenset(s.ghost.items()),
                frozenset((b, r.key()) for b, r in s.mem.items() if r.kind != "const"),
                frozenset(s.pf.items()))
    def dedupe(self, out, join=False):
        groups = {}
        res = []
        for s, v in out:
            try: k = self.skey(s, v)
            except TypeError: res.append((s, v)); continue
            g = groups.get(k)
            if g is None: groups[k] = [(s, v)]; res.append((s, v)); continue
            for s2, v2 in g:
                if s.store.sub == s2.store.sub and s.store.ineqs == s2.store.ineqs and s.store.bnd == s2.store.bnd \
                   and s.store.neqs == s2.store.neqs and s.pne == s2.pne:
                    break
            else:
                s2 = g[0][0]
                if join and s.lh == s2.lh:
                    # same memory and result: what both paths know is kept
                    s2.store = self.common_facts(s2, s); s2.pne = s.pne & s2.pne
                    continue
                g.append((s, v)); res.append((s, v))
        return res
    # ------------------------------------------------------------------ regions & loops
    def enter(self, f, prev, b, st):
        """evaluate phis of b coming from prev"""
        env = st.frames[-1]
        vals = []
        for inst in f.blocks[b]:
            if inst["op"] != "phi": break
            for pb, v in inst["ops"]:
                if pb == prev:
                    vals.append((inst["id"], self.opv(st, env, v))); break
        for k, v in vals: env[k] = v
    def exec_region(self, f, start, st, loop):
        """Execute from `start` (phis already evaluated).  loop: None for whole
        function, else (header, body): returns when leaving the body.
        result: whole function: list of (retval, st, loc);
        loop: (backs, exits, rets): backs [(st)], exits [(prev, target, st)], rets [(v, st, loc)]"""
        loops = f.loops()
        rets = []; backs = []; exits = []
        work = [(start, st)]
        while work:
            b, s = work.pop()
            if b in loops and not (loop and b == loop[0]):
                ex, rt = self.run_loop(f, b, loops[b], s)
                rets += rt
                nexts = ex
            else:
                nexts = []
                for o in self.exec_block(f, b, s):
                    if o[0] == "ret": rets.append((o[1], o[2], o[3]))
                    else: nexts.append((b, o[1], o[2]))
            for prev, t, s2 in nexts:
                if loop and t == loop[0]:
                    self.enter(f, prev, t, s2)
                    backs.append(s2)
                elif loop and t not in loop[1]:
                    exits.append((prev, t, s2))
                else:
                    self.enter(f, prev, t, s2)
                    work.append((t, s2))
        if loop: return backs, exits, rets
        return rets
    def sig(self, f, h, st):
        """partition key of a loop-head state: finite ghost part + nullness shape"""
        env = st.frames[-1]
        g = tuple(sorted(((k, v) for k, v in st.ghost.items() if not isinstance(v, (Lin, P))), key=repr))
        ph = []
        def nullness(v):
            if isinstance(v, P):
                v = st.res(v)
                if v.base == NB: return 0
                if v.base[0] == "s" and st.pf.get(v.base[1]) is None: return 2
                if v.base[0] == "a": return v.base[1]
                return 1
            if v is UNDEF: return "u"
            return 3
        for k in sorted(env): ph.append(nullness(env[k]))
        cells = []
        for b, r in st.mem.items():
            if b[0] not in ("a", "g", "h") or r.kind == "const" or b in self.genb: continue
            for e in r.entries:
                if e[0] == "w" and e[4] == "ptr" and not e[1].t and not self.is_initial(e, b):
                    cells.append((repr(b), e[1].c, nullness(e[3])))
        cells.sort()
        al = tuple(sorted((repr(b) for b, r in st.mem.items() if not r.alive)))
        flags = []
        for b, off, n in st.ghost.get("sa:part", ()):
            r = st.mem.get(b)
            if r is None: continue
            try: v = self.rload(st, r, b, L(off), n, "i%d" % (8 * n), None)
            except NeedSplit: v = None
            if isinstance(v, Lin): v = st.nl(v)
            flags.append(v.c if isinstance(v, Lin) and not v.t else None)
        return (repr(g), tuple(ph), tuple(cells), al, tuple(flags))
    def reach(self, st, values):
        """bases reachable from the given values through the memory of st"""
        seen = set(); todo = []; done = set()
        def add(v):
            if isinstance(v, P):
                v = st.res(v)
                if v.base not in seen: seen.add(v.base); todo.append(v.base)
            elif isinstance(v, Lin):
                for m, _ in v.t:
                    for s in m:
                        k = SYMS[s].key
                        if k and k[0] == "addr": add(P(k[1]))
            elif isinstance(v, tuple):
                for x in v:
                    if isinstance(x, (P, Lin, tuple)): add(x)
        def addreg(r):
            if id(r) in done: return
            done.add(id(r))
            for e in r.entries:
                if e[0] == "w": add(e[3])
                elif e[0] == "c": addreg(e[3])
        for v in values: add(v)
        while todo:
            b = todo.pop()
            r = st.mem.get(b)
            if r is not None: addreg(r)
        return seen
    def collect(self, st):
        """drop heap objects that nothing refers to any more; a live one is a leak"""
        roots = []
        for fr in st.frames: roots += list(fr.values())
        roots += [v for v in st.ghost.values() if isinstance(v, (P, Lin, tuple))]
        def heap(b, r): return b[0] == "h" and isinstance(r.tag, tuple) and r.tag[0] == "heap"
        for b, r in st.mem.items():
            if not heap(b, r): roots.append(P(b))
        seen = self.reach(st, roots)
        for b, r in list(st.mem.items()):
            if heap(b, r) and b not in seen:
                if r.alive and b not in self.genb: st.ghost[("leak", b[1].split("#")[0])] = True
                del st.mem[b]
    def live_ids(self, f, h):
        """SSA ids of f used in blocks reachable from h (approximation of liveness)"""
        c = getattr(f, "_live", None)
        if c is None: c = f._live = {}
        if h in c: return c[h]
        seen = {h}; todo = [h]
        while todo:
            b = todo.pop()
            for s in f.succs(b):
                if s not in seen: seen.add(s); todo.append(s)
        ids = set()
        def walk(o):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == "v" and isinstance(o[1], int): ids.add(o[1])
                else:
                    for x in o: walk(x)
        for b in seen:
            for inst in f.blocks[b]:
                walk(inst["ops"])
                if "callee" in inst: walk(inst["callee"])
                if "idx" in inst: walk([x[0] for x in inst["idx"]])
        # kill ids that are defined in the loop body before use each iteration:
        # phi ids at h stay; non-phi ids defined in blocks dominated by h inside the loop die
        defs = set()
        body = f.loops().get(h, set())
        for b in body:
            for inst in f.blocks[b]:
                if "id" in inst and not (b == h and inst["op"] == "phi"): defs.add(inst["id"])
        outside = set()
        c[h] = ids - defs
        return c[h]
    def run_loop(self, f, h, body, st):
        """returns (exits, rets)"""
        self.stats["loops"] = self.stats.get("loops", 0) + 1
        live = self.live_ids(f, h)
        def prune(s):
            s.frames[-1] = {k: v for k, v in s.frames[-1].items() if k in live}
        saved = self.reports
        mark = len(SYMS)
        def body_run(s):
            self.reports = []
            try:
                r = self.exec_region(f, h, s.copy(), (h, body))
                return r, self.reports
            finally:
                self.reports = saved
        prune(st)
        lkey = ("iter", f.name, h, len(st.frames))
        st.ghost[lkey] = ZERO
        def bump(s):
            prune(s)
            self.collect(s)
            s.ghost[lkey] = s.ghost[lkey] + 1
        def finish(results):
            exits = []; rets = []
            for (bk, ex, rt), reps in results:
                for r in reps:
                    if r.key() not in seen_rep:
                        seen_rep.add(r.key()); self.reports.append(r)
                for e in ex: e[2].ghost.pop(lkey, None); exits.append(e)
                for r in rt: r[1].ghost.pop(lkey, None); rets.append(r)
            return exits, rets
        seen_rep = set()
        # phase A: precise unrolling while it terminates quickly
        pre = []
        cur = [st]
        heads = []
        ok = False
        def counted():
            # a counter with a known value in every state
            ph = [i["id"] for i in f.blocks[h] if i["op"] == "phi" and i.get("ty", "?")[0] == "i" and i.get("ty") != "i1"]
            def known(s, k):
                v = s.frames[-1].get(k)
                return isinstance(v, Lin) and not s.nl(v).t
            return any(all(known(s, k) for s in cur) for k in ph)
        for it in range(max(self.unroll, self.concrete) + 1):
            nxt = []
            for s in cur:
                if self.subsumed_any(f, h, lkey, s, heads): continue
                heads.append(s)
                r = body_run(s)
                pre.append((s, r))
                for b in r[0][0]:
                    bump(b); nxt.append(b)
            nxt = [b for b in nxt if not self.subsumed_any(f, h, lkey, b, heads)]
            if not nxt: ok = True; break
            cur = nxt
            if it >= self.unroll and not (it < self.concrete and counted()): break
        if ok:
            return finish([r for _, r in pre])
        # phase B: shape generalisation per partition (no numeric candidates)
        pending = cur
        parts = {}     # sig -> generalised state
        entries = {}   # sig -> list of incoming states (not from generalised bodies)
        aff = {"mark": mark}
        # seed affine bases from the entry state and its first successors
        incoming = {}
        for s in cur:
            incoming.setdefault(self.sig(f, h, s), []).append(s)
        rounds = 0
        base_state = st
        ran = {}       # sig -> (generalised state, its body run)
        def part_run(sg, g):
            if sg not in ran or ran[sg][0] is not g:
                r = body_run(g)
                for b in r[0][0]: bump(b)
                ran[sg] = (g, r)
            return ran[sg][1]
        for s in cur: self.seed_aff(f, h, lkey, base_state, s, aff)
        for sg, lst in incoming.items():
            g = None
            for s in lst:
                g = s.copy() if g is None else self.generalise(f, h, lkey, g, s, aff, base_state)
            parts[sg] = self.widen_iter(f, h, lkey, g, aff, base_state)
        for attempt in range(4):
            changed = True
            while changed:
                rounds += 1
                if rounds > 14: raise Incomplete("loop at %s:%d does not stabilise" % (f.name, h))
                changed = False
                for sg in list(parts):
                    g = parts[sg]
                    if sg in ran and ran[sg][0] is g: continue
                    (bk, ex, rt), reps = part_run(sg, g)
                    for b in bk:
                        sb = self.sig(f, h, b)
                        if sb not in parts:
                            parts[sb] = self.widen_iter(f, h, lkey, b, aff, base_state)
                            changed = True
                        else:
                            ng = self.generalise(f, h, lkey, parts[sb], b, aff, base_state)
                            if not self.same_shape(ng, parts[sb]):
                                if DEBUG_LOOP and rounds > 10:
                                    o_, n_ = getattr_gen(parts[sb]), getattr_gen(ng)
                                    i_ = next(i for i in range(len(o_)) if o_[i:i+1] != n_[i:i+1])
                                    print("  old", o_[max(0,i_-80):i_+80]); print("  new", n_[max(0,i_-80):i_+80])
                                parts[sb] = ng; changed = True
            if self.loop_log is not None:
                self.loop_log.append((f.name, h, {k: v for k, v in parts.items()}))
            # phase C: Houdini on candidate constraints
            cand = {sg: None for sg in parts}
            tmpl = {}
            # candidates from projecting the back-edge states onto header vocabulary
            for sg, g in parts.items():
                (bk, ex, rt), reps = part_run(sg, g)
                for b in bk:
                    sb = self.sig(f, h, b)
                    if sb not in parts: continue
                    c = self.project_onto(f, h, lkey, parts[sb], b)
                    cand[sb] = c if cand[sb] is None else (cand[sb] | c)
                    tmpl.setdefault(sb, []).append((b, self.submap(f, h, lkey, parts[sb], b)))
            for s in cur:
                sb = self.sig(f, h, s)
                c = self.project_onto(f, h, lkey, parts[sb], s)
                cand[sb] = c if cand[sb] is None else (cand[sb] | c)
            for sg in cand:
                if cand[sg] is None: cand[sg] = set()
            for s in cur:
                sb = self.sig(f, h, s)
                mp = self.submap(f, h, lkey, parts[sb], s)
                tmpl.setdefault(sb, []).append((s, mp))
                cand[sb] |= self.pair_templates(s, mp)
            for sg, lst in tmpl.items():
                cand[sg] |= self.delta_templates(lst)
            # relations found for one partition are candidates for the others
            if len(parts) > 1:
                locs = {sg: {SYMS[x].loc: x for x in get_gensyms(g) & self._vocab(g) if SYMS[x].loc is not None} for sg, g in parts.items()}
                share = {}
                for sg in parts:
                    for k, c in cand[sg]:
                        tr = {}
                        for x in c.syms():
                            if x in get_gensyms(parts[sg]): tr[x] = SYMS[x].loc
                        if len(tr) == 2: share[(sg, k, c)] = tr
                if len(share) <= 400:
                    for (sg, k, c), tr in share.items():
                        for s2, lm in locs.items():
                            if s2 != sg and all(l in lm for l in tr.values()):
                                cand[s2].add((k, c.subst({x: sym(lm[l]) for x, l in tr.items()})))
            # must hold for the unrolled entries
            for s in cur:
                sb = self.sig(f, h, s)
                cand[sb] = self.filter_cands(f, h, lkey, parts[sb], s, cand[sb])
            runs = {}
            for _ in range(12):
                cons = {}
                for sg, g in parts.items():
                    if sg in runs and runs[sg][0] == cand[sg]: cons[sg] = runs[sg][1]; continue
                    g2 = g.copy()
                    okk = True
                    for k, c in sorted(cand[sg], key=lambda x: (x[0], repr(x[1]))):
                        if k == "ge": okk = g2.store.add_ge0(c) and okk
                        elif k == "ne": okk = g2.store.add_ne0(c) and okk
                    cons[sg] = g2 if okk else None
                drop = False; again = False
                results = []
                for sg, g in cons.items():
                    if g is None: continue
                    if sg in runs and runs[sg][0] == cand[sg]: r = runs[sg][2]
                    else:
                        had = set(cand[sg])
                        r = body_run(g)
                        for b in r[0][0]: bump(b)
                        runs[sg] = (had, g, r)
                    results.append(r)
                    for b in r[0][0]:
                        sb = self.sig(f, h, b)
                        if sb not in parts:
                            parts[sb] = self.widen_iter(f, h, lkey, b, aff, base_state)
                            again = True; break
                        n = self.filter_cands(f, h, lkey, parts[sb], b, cand[sb])
                        if n != cand[sb]:
                            cand[sb] = n; drop = True
                    if again: break
                if again: break
                if not drop:
                    if DEBUG_LOOP:
                        for sg in parts: print('FINAL', h, sg in cons and cons[sg] is not None, [(k, str(c)) for k, c in cand[sg]])
                    return finish([r for _, r in pre] + results)
            if again: continue
            raise Incomplete("loop invariant search at %s:%d did not converge" % (f.name, h))
        raise Incomplete("new loop partitions keep appearing at %s:%d" % (f.name, h))
    # ---- matching of states -------------------------------------------------
    def slots(self, st):
        """enumerate the abstract locations of a state: (key, value)"""
        for k, v in st.frames[-1].items(): yield (("e", k), v)
        for b, r in st.mem.items():
            if r.kind == "const": continue
            for i, e in enumerate(r.entries): yield (("m", b, e[1], e[2], e[0]), e)
        for k, v in st.ghost.items(): yield (("g", k), v)
    def subsumed_any(self, f, h, lkey, s, heads):
        for a in heads:
            if self.subsumed(f, h, lkey, s, a): return True
        return False
    def subsumed(self, f, h, lkey, s, a):
        """exact state equality of environment/memory, and a's constraints hold in s"""
        ea, es = a.frames[-1], s.frames[-1]
        if set(ea) != set(es): return False
        for k, v in ea.items():
            if not self.veq(s, v, es[k]): return False
        ga = {k: v for k, v in a.ghost.items() if k != lkey}
        gs = {k: v for k, v in s.ghost.items() if k != lkey}
        if set(ga) != set(gs): return False
        for k in ga:
            if ga[k] != gs[k] and not self.veq(s, ga[k], gs[k]): return False
        for b, r in a.mem.items():
            q = s.mem.get(b)
            if q is None: return False
            if q is r: continue
            if q.alive != r.alive or q.kind != r.kind: return False
            if not self.mem_eq(s, r, q, b): return False
        for b, q in s.mem.items():
            if b not in a.mem and (b[0] == "h" or (q.dirty and b[0] in "sg")): return False
        if a.lh != s.lh: return False
        for c in a.store.all_facts():
            if not s.store.ge0(c): return False
        for c in a.store.neqs:
            if not s.store.ne0(c): return False
        for k, v in a.store.sub.items():
            if not s.store.eq0(sym(k) - v): return False
        for k, v in a.pf.items():
            if s.pf.get(k) != v and not (isinstance(v, P) and s.res(P(("s", k))) == s.res(v)): return False
        if not a.pne <= s.pne: return False
        return True
    def veq(self, s, v, w):
        if v is w: return True
        if isinstance(v, Lin) and isinstance(w, Lin):
            return v == w or s.store.eq0(v - w)
        if isinstance(v, P) and isinstance(w, P):
            v = s.res(v); w = s.res(w)
            return v.base == w.base and (v.off == w.off or s.store.eq0(v.off - w.off))
        return v == w
    def mem_eq(self, s, r, q, base):
        """same content, allowing q to have extra materialised lazy cells at the end"""
        er, eq = r.entries, q.entries
        def nontriv(es): return [e for e in es if not self.is_initial(e, base)]
        a, b = nontriv(er), nontriv(eq)
        if len(a) != len(b): 
            return False
        for x, y in zip(a, b):
            if x is y: continue
            if x[0] != y[0] or x[2] != y[2] or not self.veq(s, x[1], y[1]): return False
            if x[0] == "w":
                if not self.veq(s, x[3], y[3]): return False
            elif x[3:] != y[3:]: return False
        return True
    def is_initial(self, e, base):
        """a cached load of the region's own initial content"""
        if e[0] != "w": return False
        v = e[3]
        s = None
        if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and len(v.t[0][0]) == 1: s = v.t[0][0][0]
        elif isinstance(v, P) and v.base[0] == "s" and v.off == ZERO: s = v.base[1]
        if s is None: return False
        k = SYMS[s].key
        return bool(k and k[0] == "lz" and k[1] == base and k[2] is None and k[3] == e[1])
    def same_shape(self, x, y):
        """two generalised states have the same generalised locations"""
        return getattr_gen(x) == getattr_gen(y)
    def genval(self, f, h, lkey, loc, va, vb, a, b, g, aff, base, gensyms):
        """generalise two values at location loc; returns new value"""
        if va is UNDEF and vb is UNDEF: return UNDEF
        if va is vb: return va
        if isinstance(va, Lin) and isinstance(vb, Lin):
            if b.store.eq0(va - vb) and loc not in aff: return va
            na, nb = a.ghost[lkey], b.ghost[lkey]
            n = g.ghost[lkey]
            if loc not in aff:
                dn = nb - na
                if not dn.t and dn.c > 0:
                    d = b.nl(vb - va)
                    if dn.c == 1 or all(k % dn.c == 0 for _, k in d.t) and d.c % dn.c == 0:
                        d = Lin(d.c // dn.c, tuple((m, k // dn.c) for m, k in d.t))
                        p = a.nl(va - d * na)
                        if (not d.t or self.nl_aff) and all(s < aff["mark"] for s in d.syms()) and all(s < aff["mark"] for s in p.syms()):
                            aff[loc] = (p, d)
            r = aff.get(loc)
            if r and r[0] is not None:
                p, d = r
                if (a.store.eq0(va - p - d * na) or va == p + d * na) and b.store.eq0(vb - p - d * nb):
                    return p + d * n
                aff[loc] = (None, None)
            elif not r: aff[loc] = (None, None)
            return self.gsym(loc, gensyms, g)
        if isinstance(va, P) and isinstance(vb, P):
            pa, pb = a.res(va), b.res(vb)
            if pa.base == pb.base:
                o = self.genval(f, h, lkey, ("off", loc), pa.off, pb.off, a, b, g, aff, base, gensyms)
                return P(pa.base, o)
            gb = self.gen_heap(f, h, lkey, pa, pb, a, b, g, aff, base, gensyms)
            if gb is not None: return gb
            return self.gptr(loc, gensyms, g, self.nonnull(a, pa) and self.nonnull(b, pb))
        if type(va) == type(vb) and va == vb: return va
        if va is UNDEF or vb is UNDEF: 
            return UNDEF
        if isinstance(va, tuple) and isinstance(vb, tuple):
            if isinstance(va[0] if va else None, str) or len(va) != len(vb):
                return c_b(self.gsym(loc, gensyms, g, 1).t[0][0][0])
            return tuple(self.genval(f, h, lkey, (loc, i), x, y, a, b, g, aff, base, gensyms) for i, (x, y) in enumerate(zip(va, vb)))
        # mixed int/bool
        return self.gsym(loc, gensyms, g)
    def gen_heap(self, f, h, lkey, pa, pb, a, b, g, aff, base, gensyms):
        """two different heap objects playing the same role: summarise them by one fresh object"""
        if pa.base[0] != "h" or pb.base[0] != "h" or pa.off != pb.off: return None
        k = (pa.base, pb.base)
        gb = self.genmap.get(k)
        if gb is not None: return P(gb, pa.off)
        ra, rb = a.mem.get(pa.base), b.mem.get(pb.base)
        if ra is None or rb is None or ra.tag != rb.tag or not isinstance(ra.tag, tuple): return None
        if ra.alive != rb.alive or (ra.size is None) != (rb.size is None): return None
        if any(x == pa.base or y == pb.base for x, y in self.genmap): return None
        self.hid += 1
        gb = ("h", "%s#g%d" % (pa.base[1].split("#")[0], self.hid))
        self.genb.add(gb); self.genmap[k] = gb
        role = ("role", f.name, h, pa.base[1].split("#")[0], pa.off, len(self.genmap))
        size = None
        if ra.size is not None:
            size = self.genval(f, h, lkey, ("size",) + role, ra.size, rb.size, a, b, g, aff, base, gensyms)
        r = self.gen_region(f, h, lkey, role, ra, rb, a, b, g, aff, base, gensyms, pa.base, pb.base)
        g.extra = (g.extra or {}) if isinstance(g.extra, dict) else {}
        g.extra[gb] = r.with_(size=size)
        return P(gb, pa.off)
    def nonnull(self, s, p):
        if p.base == NB: return False
        if p.base[0] != "s": return True
        return s.pf.get(p.base[1]) == "nn" or p.off != ZERO
    def gptr(self, loc, gensyms, g, nn):
        s = new_sym("p%s" % (loc[-1] if not isinstance(loc[-1], tuple) else "",), None, None)
        if nn: g.pf[s] = "nn"
        gensyms.add(s)
        return P(("s", s), ZERO)
    def gsym(self, loc, gensyms, g, hi=None):
        s = new_sym("g%s" % (loc[-1] if not isinstance(loc[-1], tuple) else "o%s" % (loc[-1][-1],) if loc[0] == "off" else "",), 0, hi if hi is not None else (1 << 64) - 1)
        SYMS[s].loc = loc
        gensyms.add(s)
        return sym(s)
    def seed_aff(self, f, h, lkey, a, b, aff):
        """affine-in-the-iteration-count guesses from the entry state and an unrolled successor
        (checked against every later iteration)"""
        nb = b.ghost[lkey]
        if nb.t or nb.c <= 0: return
        k = nb.c; mark = aff["mark"]
        def one(loc, va, vb):
            if isinstance(va, P) and isinstance(vb, P):
                pa, pb = a.res(va), b.res(vb)
                if pa.base == pb.base: one(("off", loc), pa.off, pb.off)
                return
            if not isinstance(va, Lin) or not isinstance(vb, Lin) or loc in aff: return
            d = b.nl(vb - va)
            if d == ZERO or d.c % k or any(q % k for _, q in d.t): return
            d = Lin(d.c // k, tuple((m, q // k) for m, q in d.t))
            if (not d.t or self.nl_aff) and all(s < mark for s in d.syms()) and all(s < mark for s in va.syms()): aff[loc] = (va, d)
        for x, v in a.frames[-1].items():
            if x in b.frames[-1]: one(("e", x), v, b.frames[-1][x])
        for x, v in a.ghost.items():
            if x != lkey and x in b.ghost: one(("g", x), v, b.ghost[x])
        for bse, ra in a.mem.items():
            rb = b.mem.get(bse)
            if rb is None or rb is ra: continue
            db = {}
            for e in reversed(rb.entries):
                if e[0] == "w" and not e[1].t: db[(e[1].c, e[2])] = e
            for e in ra.entries:
                if e[0] == "w" and not e[1].t and (e[1].c, e[2]) in db:
                    one(("m", bse, (e[1].c, e[2])), e[3], db[(e[1].c, e[2])][3])
    def generalise(self, f, h, lkey, a, b, aff, base):
        """least-ish upper bound shape of a and b"""
        g = a.copy()
        gensyms = set(get_gensyms(a))
        g.extra = {}
        self.genmap = {}
        itn = None
        if a.ghost[lkey] != b.ghost[lkey] or a.ghost[lkey].t:
            itn = new_sym("n", 0, (1 << 63)); SYMS[itn].loc = "itn"
            g.ghost[lkey] = sym(itn)
            gensyms.add(itn)
        env = {}
        for k in a.frames[-1]:
            if k not in b.frames[-1]: continue
            env[k] = self.genval(f, h, lkey, ("e", k), a.frames[-1][k], b.frames[-1][k], a, b, g, aff, base, gensyms)
        g.frames[-1] = env
        for k, v in a.ghost.items():
            if k == lkey: continue
            w = b.ghost.get(k)
            if v != w: g.ghost[k] = self.genval(f, h, lkey, ("g", k), v, w, a, b, g, aff, base, gensyms)
        mem = {}
        for bse, ra in a.mem.items():
            rb = b.mem.get(bse)
            if rb is None: continue
            if ra is rb or ra.entries == rb.entries:
                mem[bse] = ra; continue
            mem[bse] = self.gen_region(f, h, lkey, bse, ra, rb, a, b, g, aff, base, gensyms)
        for gb, r in g.extra.items(): mem[gb] = r
        g.extra = None
        self.forget_new(a, b, g, mem, gensyms, aff["mark"])
        g.mem = mem
        g.pf = {k: v for k, v in g.pf.items() if k in gensyms or (k in a.pf and a.pf.get(k) == v and b.pf.get(k) == v)}
        g.pne = a.pne & b.pne
        # numeric facts: those of a that hold in b (gensyms are new, so unconstrained)
        g.store = self.common_facts(a, b)
        self.set_shape(g, gensyms, itn)
        return g
    def common_facts(self, a, b):
        st2 = Store()
        for k, v in a.store.sub.items():
            if b.store.eq0(sym(k) - v): st2.add_eq0(sym(k) - v)
            else:
                for c in (sym(k) - v, v - sym(k)):
                    if b.store.ge0(c): st2.add_ge0(c)
        for c in a.store.all_facts():
            if b.store.ge0(c): st2.add_ge0(c)
        for c in b.store.all_facts():
            if a.store.ge0(c): st2.add_ge0(c)
            elif len(c.t) <= 3 and a.store.ge0(c + 1): st2.add_ge0(c + 1)
        for c in a.store.neqs:
            if b.store.ne0(c): st2.add_ne0(c)
        return st2
    def forget_new(self, a, b, g, mem, gensyms, mark):
        """objects first touched inside the loop body: written ones are forgotten, and because a
        generalised pointer stands for many objects, the cells it wrote are forgotten in every
        symbolic object not yet seen"""
        cells = {}
        lh = {(o, n): i for o, n, i in g.lh}
        for o, n, i in b.lh: 
            if (o, n) not in lh: cells[(o, n)] = 1
        for bse, rb in b.mem.items():
            if bse in a.mem or not rb.dirty or rb.kind == "const": continue
            if bse[0] == "s" and bse[1] < mark or bse[0] == "g":
                self.hid += 1
                mem[bse] = Reg(rb.kind, rb.size, rb.alive, (("h", ZERO, None, ("lp", self.hid)),), rb.tag, True)
            elif bse[0] == "s":
                for e in rb.entries:
                    if self.is_initial(e, bse): continue
                    if e[0] == "w" and not e[1].t: cells[(e[1], e[2])] = 1
                    else: cells[(ZERO, None)] = 1
        if cells:
            for k in cells:
                self.hid += 1
                lh[k] = self.hid
            g.lh = tuple((o, n, lh[(o, n)]) for o, n in sorted(lh, key=repr))
    def set_shape(self, g, gensyms, itn):
        names = {}; queue = []
        def bn(b):
            if b in self.genb or (b[0] == "s" and b[1] in gensyms):
                if b not in names:
                    names[b] = "G%d" % len(names); queue.append(b)
                return names[b]
            return repr(b)
        def sv(v):
            if isinstance(v, Lin):
                return (v.c if not v.t else "*", tuple((tuple("n" if s == itn else "g" if s in gensyms else s for s in m), k) for m, k in v.t))
            if isinstance(v, P):
                v = g.res(v)
                if v.base[0] == "s" and v.base[1] in gensyms: return ("gp", bn(v.base), sv(v.off), g.pf.get(v.base[1]))
                return (bn(v.base), sv(v.off))
            if isinstance(v, tuple): return tuple(sv(x) for x in v)
            return repr(v)
        def sreg(b, r):
            return (bn(b), r.alive, sv(r.size) if r.size is not None else None,
                    tuple((e[0], repr(e[1]) if not e[1].t else sv(e[1]), sv(e[3]) if e[0] == "w" else "-") for e in r.entries if not self.is_initial(e, b)))
        out = []
        for k, v in sorted(g.frames[-1].items()): out.append((k, sv(v)))
        for k in sorted(g.ghost, key=repr): out.append((k, sv(g.ghost[k]) if isinstance(g.ghost[k], (Lin, P, tuple)) else g.ghost[k]))
        done = set()
        for b in sorted(g.mem, key=repr):
            r = g.mem[b]
            if r.kind == "const" or b in self.genb or (b[0] == "s" and b[1] in gensyms): continue
            out.append(sreg(b, r)); done.add(b)
        while queue:
            b = queue.pop(0)
            if b in done: continue
            done.add(b)
            r = g.mem.get(b)
            if r is not None: out.append(sreg(b, r))
        for b in list(g.mem):
            if b in self.genb and b not in done: del g.mem[b]
        out.append(tuple(sorted((repr(x) for x in g.pne))))
        out.append(tuple(sorted((k, repr(v)) for k, v in g.pf.items() if k not in gensyms)))
        out.append(tuple((o, n) for o, n, _ in g.lh))
        g.extra = (frozenset(gensyms), repr(out))
    def gen_region(self, f, h, lkey, bse, ra, rb, a, b, g, aff, base, gensyms, ba=None, bb=None):
        ba = ba or bse; bb = bb or bse
        ea = [e for e in ra.entries if not self.is_initial(e, ba)]
        eb = [e for e in rb.entries if not self.is_initial(e, bb)]
        # everything at constant offsets: cells are generalised one by one, differing ranges forgotten
        alive = ra.alive
        if all(not e[1].t and isinstance(e[2], int) for e in ea + eb):
            def cells(ents):
                """(offset, size) -> (value, whether a newer entry may overlap it)"""
                d = {}
                for i, e in enumerate(ents):
                    k = (e[1].c, e[2])
                    if e[0] != "w" or k in d: continue
                    d[k] = (e, any(o[1].c < k[0] + k[1] and k[0] < o[1].c + o[2] for o in ents[:i]))
                return d
            da, db = cells(ea), cells(eb)
            def val(d, k, s, r, bs, ty):
                x = d.get(k)
                if x and not x[1]: return x[0][3]
                return self.rload(s.copy(), r, bs, L(k[0]), k[1], ty, None)
            out = []
            for k in sorted(set(da) | set(db)):
                ty = (da.get(k) or db.get(k))[0][4]
                try:
                    vx = val(da, k, a, ra, ba, ty); vy = val(db, k, b, rb, bb, ty)
                except NeedSplit:
                    vx, vy = UNDEF, ZERO
                v = self.genval(f, h, lkey, ("m", bse, k), vx, vy, a, b, g, aff, base, gensyms)
                if isinstance(v, Lin) and v.t and len(v.t) == 1 and v.t[0][0][0] in gensyms:
                    s = SYMS[v.t[0][0][0]]
                    if s.hi is not None: s.hi = min(s.hi, (1 << (8 * k[1])) - 1)
                out.append(("w", L(k[0]), k[1], v, ty))
            xa = [e for e in ea if e[0] != "w"]; xb = [e for e in eb if e[0] != "w"]
            if xa != xb:
                both = [e for e in xa if e in xb]
                if both != [e for e in xb if e in xa]: both = []
                for k in sorted({(e[1].c, e[2]) for e in xa + xb if e not in both}):
                    self.hid += 1
                    out.append(("h", L(k[0]), k[1], ("lp", self.hid)))
                xa = both
            out += xa
            out += [e for e in ra.entries if self.is_initial(e, ba) and (e[1].c, e[2]) not in da and (e[1].c, e[2]) not in db]
            return Reg(ra.kind, ra.size, alive, tuple(out), ra.tag, True)
        # suffix-extension: b = new writes + a's log
        n = 0
        while n < min(len(ea), len(eb)) and ea[-1 - n] == eb[-1 - n]: n += 1
        common = eb[len(eb) - n:] if n else []
        newa = ea[:len(ea) - n] if n else ea
        newb = eb[:len(eb) - n] if n else eb
        if not newa and not newb: return ra.with_(entries=tuple(ea) + tuple(e for e in ra.entries if not e[1].t and self.is_initial(e, ba)))
        # the newest single-cell write (a terminator, typically) is kept with a generalised offset
        top = ()
        if ea and eb and ea[0][0] == "w" and eb[0][0] == "w" and ea[0][2] == eb[0][2] and ea[0] is not eb[0] \
           and isinstance(ea[0][3], Lin) and isinstance(eb[0][3], Lin) and ea[0][3] == eb[0][3]:
            o = self.genval(f, h, lkey, ("top", bse), ea[0][1], eb[0][1], a, b, g, aff, base, gensyms)
            top = (("w", o, ea[0][2], ea[0][3], ea[0][4]),)
        # forget everything the differing writes may have touched: bound from below if possible
        lo = None
        for e in newa + newb:
            o = e[1]
            s = b if e in newb else a
            cands = [o] if lo is None else [lo, o]
            best = None
            for c in cands:
                if all(b.store.ge0(x - c) for x in cands): best = c; break
            if best is None: lo = "none"; break
            lo = best
        if lo is None or lo == "none" or any(s in gensyms for s in lo.syms()) or not self.known_in(lo, a):
            lo0 = lo; lo = ZERO
            for e in ea:
                if e[0] == "h" and e[2] is None and not any(x in gensyms for x in e[1].syms()) and self.known_in(e[1], a):
                    if all((b if x in newb else a).store.ge0(x[1] - e[1]) for x in newa + newb): lo = e[1]
                    break
            if lo == ZERO:
                cs = sorted({x[1].c for x in ea if not x[1].t and x[1].c > 0}, reverse=True)
                for c in cs[:6]:
                    if all((b if x in newb else a).store.ge0(x[1] - c) for x in newa + newb): lo = L(c); break
        if os.environ.get('SA_DR'): print('GR', bse, 'lo',lo, 'A', ea, 'B', eb, 'new', newa,newb,file=sys.stderr)
        keep = [] if lo == ZERO else [e for e in common if not (e[0] == "h" and e[2] is None and e[1] == lo)]
        self.hid += 1
        hv = ("h", lo, None, ("lp", self.hid))
        # constant cells below the havocked range survive by log order; those above are forgotten
        init = tuple(e for e in ra.entries if self.is_initial(e, ba)) if lo != ZERO else ()
        return Reg(ra.kind, ra.size, alive, top + (hv,) + tuple(keep) + init, ra.tag, True)
    def known_in(self, l, a):
        if not l.t: return True
        lim = max([0] + [s for _, v in self.slots(a) for s in syms_in(v)])
        return all(s <= lim for s in l.syms())
    def widen_iter(self, f, h, lkey, s, aff, base):
        """turn a single state of a partition into a header state with a symbolic iteration count;
        values created inside the loop body are forgotten"""
        g = s.copy()
        mark = aff["mark"]
        itn = new_sym("n", 0, (1 << 63)); SYMS[itn].loc = "itn"
        gensyms = {itn}
        n0 = s.ghost[lkey]; n = sym(itn)
        g.ghost[lkey] = n
        def loc_(loc, v):
            if isinstance(v, Lin):
                r = aff.get(loc)
                if r and r[0] is not None and s.store.eq0(v - r[0] - r[1] * n0): return r[0] + r[1] * n
                if any(x >= mark for x in s.nl(v).syms()): return self.gsym(loc, gensyms, g)
                return s.nl(v)
            if isinstance(v, P):
                p = s.res(v)
                if p.base[0] == "s" and p.base[1] >= mark:
                    return self.gptr(loc, gensyms, g, self.nonnull(s, p))
                if p.base[0] in ("h", "a") and p.base not in base.mem:
                    return P(p.base, loc_(("off", loc), p.off))
                return P(p.base, loc_(("off", loc), p.off))
            if isinstance(v, tuple) and v and not isinstance(v[0], str):
                return tuple(loc_((loc, i), x) for i, x in enumerate(v))
            if isinstance(v, tuple): return c_b(self.gsym(loc, gensyms, g, 1).t[0][0][0])
            return v
        g.pf = {k: v for k, v in s.pf.items() if k < mark}
        env = g.frames[-1]
        for k in list(env): env[k] = loc_(("e", k), env[k])
        for k in list(g.ghost):
            if k != lkey and isinstance(g.ghost[k], (Lin, P)): g.ghost[k] = loc_(("g", k), g.ghost[k])
        mem = {}
        for bse, r in s.mem.items():
            if r.kind == "const" or (bse in base.mem and base.mem[bse] is r): mem[bse] = r; continue
            if bse[0] == "s" and bse not in base.mem: continue
            out = []; ok = True
            for e in r.entries:
                if e[1].t and self.is_initial(e, bse): continue
                if e[0] == "w" and not e[1].t:
                    if not self.is_initial(e, bse):
                        v = loc_(("m", bse, (e[1].c, e[2])), e[3])
                        if v is not e[3]:
                            if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][0][0] in gensyms and v.t[0][0][0] != itn:
                                i = SYMS[v.t[0][0][0]]
                                i.hi = min(i.hi, (1 << (8 * e[2])) - 1)
                            e = ("w", e[1], e[2], v, e[4])
                    out.append(e)
                elif bse in base.mem and e in base.mem[bse].entries: out.append(e)
                elif e is r.entries[0] and e[0] == "w" and isinstance(e[3], Lin) and not e[3].t:
                    out.append(("w", loc_(("top", bse), e[1]), e[2], e[3], e[4]))
                elif any(x >= mark for x in syms_in(e[1]) | (set(syms_in(e[2])) if isinstance(e[2], Lin) else set())):
                    self.hid += 1
                    out.append(("h", ZERO, None, ("lp", self.hid)))
                    break
                else: out.append(e)
            mem[bse] = r.with_(entries=tuple(out), dirty=True)
            if r.size is not None and bse not in base.mem and any(x >= mark for x in s.nl(r.size).syms()):
                if bse in self.genb: mem[bse].size = loc_(("size", bse), r.size)
        self.forget_new(base, s, g, mem, gensyms, mark)
        g.mem = mem
        g.pne = base.pne & s.pne
        g.store = self.common_facts(base, s)
        self.set_shape(g, gensyms, itn)
        return g
    def match(self, f, h, lkey, g, b):
        """list of (header symbol Lin, value in b) pairs for the symbols of g introduced by
        generalisation, by walking the two states in lock-step.  Returns (pairs) of Lin expressions
        expression-in-g  ==  value-in-b."""
        pairs = []
        gpairs = []
        gs = get_gensyms(g)
        def one(x, y):
            if isinstance(x, Lin) and isinstance(y, Lin):
                if x != y and x.t: pairs.append((x, y))
            elif isinstance(x, P) and isinstance(y, P):
                xr = g.res(x); yr = b.res(y)
                if xr.base == yr.base: one(xr.off, yr.off)
                elif xr.base in self.genb: gpairs.append((xr.base, yr.base))
                if xr.base in self.genb: gpairs.append((xr.base, yr.base))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if x and isinstance(x[0], str): return
                for p, q in zip(x, y): one(p, q)
        one(g.ghost[lkey], b.ghost[lkey])
        for k, v in g.ghost.items():
            if k != lkey and k in b.ghost: one(v, b.ghost[k])
        for k, v in g.frames[-1].items():
            if k in b.frames[-1]: one(v, b.frames[-1][k])
        todo = [(bse, bse) for bse in g.mem if bse not in self.genb]
        seen = set()
        while todo or gpairs:
            if not todo: todo.append(gpairs.pop())
            x, y = todo.pop()
            if (x, y) in seen: continue
            seen.add((x, y))
            r = g.mem.get(x); q = b.mem.get(y)
            if r is None or q is None or q is r or r.kind == "const": continue
            if r.size is not None and q.size is not None: one(r.size, q.size)
            first = True
            for e in r.entries:
                if first and e[0] == "w" and e[1].t:
                    qe = [z for z in q.entries if not self.is_initial(z, y)]
                    if qe and qe[0][0] == "w" and qe[0][2] == e[2]: one(e[1], qe[0][1])
                first = False
                if e[0] == "w" and not e[1].t and (isinstance(e[3], P) or any(s in gs for s in syms_in(e[3]))):
                    try: v = self.rload(b.copy(), q, y, e[1], e[2], e[4], None)
                    except (NeedSplit, _Part): continue
                    one(e[3], v)
        return pairs
    def submap(self, f, h, lkey, g, b):
        """substitution of g's generalised symbols by b's values"""
        mp = {}
        gs = get_gensyms(g)
        for x, y in self.match(f, h, lkey, g, b):
            if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and len(x.t[0][0]) == 1:
                s = x.t[0][0][0]
                if s in gs and s not in mp: mp[s] = y
        return mp
    def project_onto(self, f, h, lkey, g, b):
        """candidate constraints over g's vocabulary that hold in b"""
        gs = get_gensyms(g)
        mp = self.submap(f, h, lkey, g, b)
        cons = list(b.store.all_facts())
        for k, v in b.store.sub.items():
            cons += [sym(k) - v, v - sym(k)]
        # primed vocabulary: rename g's symbols to fresh ones to avoid capture with b's old values
        ren = {}
        back = {}
        for s in mp:
            t = new_sym(SYMS[s].name + "'", SYMS[s].lo, SYMS[s].hi)
            ren[s] = t; back[t] = sym(s)
        for s, y in mp.items():
            y = b.nl(y)
            cons += [sym(ren[s]) - y, y - sym(ren[s])]
        vocab = set(ren.values())
        ok = set(self._vocab(g)) - gs
        sy = set()
        for c in cons: sy |= c.syms()
        for s in list(sy):
            for fct in SYMS[s].facts: cons.append(fct)
            i = SYMS[s]
            if s not in ok and s not in vocab:
                if i.lo is not None: cons.append(sym(s) - i.lo)
                if i.hi is not None: cons.append(L(i.hi) - sym(s))
        proj = fm_project(cons, lambda m: all((s in vocab) or (s in ok) for s in m))
        out = set()
        for c in proj:
            if not any(s in vocab for s in c.syms()): continue
            if len(c.t) > 4: continue
            c2 = c.subst(back)
            if c2.t and not g.store.ge0(c2): out.add(("ge", c2))
        # monotone bounds on generalised symbols: relative to the entry value
        for q in b.store.neqs:
            q2 = q.subst({})
            if all(s in ok for s in q2.syms()): continue
            inv = {}
            for s, y in mp.items():
                y = b.nl(y)
                if len(y.t) == 1 and y.t[0][1] == 1 and len(y.t[0][0]) == 1: inv[y.t[0][0][0]] = sym(s) - y.c
            q3 = q2.subst(inv)
            if all((s in ok) or (s in gs) for s in q3.syms()) and q3.t:
                out.add(("ne", q3)); out.add(("ge", q3 - 1)); out.add(("ge", -q3 - 1))
        return out
    def delta_templates(self, lst):
        """affine relations suggested by increments along back edges and constant entry values"""
        points = []; deltas = []
        for b, mp in lst:
            pt = {}; dl = {}
            for s, y in mp.items():
                y = b.nl(y)
                if not y.t: pt[s] = y.c
                d = b.nl(y - sym(s))
                if not d.t and 0 < abs(d.c) <= 4096: dl[s] = d.c
            if len(pt) > 1 and pt not in points: points.append(pt)
            if len(dl) > 1 and dl not in deltas: deltas.append(dl)
        out = set(); done = set()
        for dl in deltas[:16]:
            ks = sorted(dl)[:12]
            for i, s in enumerate(ks):
                for t in ks[i + 1:]:
                    q = math.gcd(dl[s], dl[t]); a, c = dl[t] // q, dl[s] // q
                    if (s, t, a, c) in done or (s, t, -a, -c) in done: continue
                    done.add((s, t, a, c))
                    at = [pt[s] * a - pt[t] * c for pt in points if s in pt and t in pt]
                    if not at: continue
                    l = sym(s).scale(a) - sym(t).scale(c)
                    out.add(("ge", LN.tighten(l - min(at)))); out.add(("ge", LN.tighten(L(max(at)) - l)))
        return out
    def pair_templates(self, b, mp):
        """affine relations between pairs of generalised symbols, guessed from one concrete
        iteration (candidates only: filtered by the fixpoint)"""
        vals = []
        for s, y in mp.items():
            y = b.nl(y)
            if not y.t: vals.append((s, y.c))
        out = set()
        vals = vals[:14]
        for i, (s, x) in enumerate(vals):
            for t, y in vals[i + 1:]:
                for l in ((sym(s).scale(y) - sym(t).scale(x)) if (x or y) else None, sym(s) - sym(t) - (x - y)):
                    if l is None or not l.t: continue
                    out.add(("ge", l)); out.add(("ge", -l))
        return out
    def _vocab(self, g):
        out = set()
        for _, v in self.slots(g): out |= set(syms_in(v))
        for c in g.store.all_facts(): out |= c.syms()
        for k, v in g.store.sub.items(): out.add(k); out |= v.syms()
        for r in g.mem.values():
            if r.size is not None: out |= r.size.syms()
        return out
    def filter_cands(self, f, h, lkey, g, b, cands):
        mp = self.submap(f, h, lkey, g, b)
        out = set()
        for k, c in cands:
            c2 = c.subst(mp)
            if k == "ge" and b.store.ge0(c2): out.add((k, c))
            elif k == "ne" and b.store.ne0(c2): out.add((k, c))
        return out

class _Part(Exception): pass

def getattr_gen(g): return g.extra[1] if g.extra else None
def get_gensyms(g): return g.extra[0] if g.extra else frozenset()
def syms_in(v):
    if isinstance(v, Lin): return v.syms()
    if isinstance(v, P): 
        s = set(v.off.syms())
        if v.base[0] == "s": s.add(v.base[1])
        return s
    if isinstance(v, tuple):
        s = set()
        for x in v: s |= set(syms_in(x))
        return s
    return ()

def split_agg(ty):
    s = ty[1:-1]; out = []; d = 0; cur = ""
    for ch in s:
        if ch in "{[": d += 1
        if ch in "}]": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    if cur: out.append(cur)
    return out

def sizeof(ty):
    if ty == "ptr": return 8, 8
    if ty[0] == "i":
        n = (int(ty[1:]) + 7) // 8
        p = 1
        while p < n: p *= 2
        return p, min(p, 16)
    if ty == "double": return 8, 8
    if ty == "float": return 4, 4
    if ty[0] == "{":
        o = 0; al = 1
        for t in split_agg(ty):
            s, a = sizeof(t)
            o = (o + a - 1) // a * a + s
            al = max(al, a)
        return (o + al - 1) // al * al, al
    raise Incomplete("sizeof %s" % ty)
