"""Linear (and low-degree polynomial) integer terms, and a convex numeric
abstract domain over them (conjunctions of linear inequalities, decided by
Fourier-Motzkin elimination -- no external solver)."""
from math import gcd

class SymInfo:
    __slots__ = ("id", "name", "lo", "hi", "facts", "bits", "key", "kind", "seq", "loc")
    def __init__(self, id, name, lo, hi, kind="int", key=None):
        self.id = id; self.name = name; self.lo = lo; self.hi = hi
        self.facts = ()      # intrinsic Lin >= 0 facts
        self.bits = None
        self.key = key
        self.kind = kind
        self.loc = None      # abstract location a loop-generalised symbol stands for

SYMS = [None]
_cons = {}

def new_sym(name, lo, hi, kind="int"):
    s = SymInfo(len(SYMS), name, lo, hi, kind)
    SYMS.append(s)
    return s.id

def keyed_sym(key, name, lo, hi, facts=None, bits=None):
    s = _cons.get(key)
    if s is None:
        s = new_sym(name, lo, hi, "key")
        SYMS[s].key = key
        SYMS[s].bits = bits
        _cons[key] = s
        if facts:
            SYMS[s].facts = tuple(facts(s))
    return s

def reset():
    del SYMS[1:]
    _cons.clear()

class Lin:
    __slots__ = ("c", "t", "h")
    def __init__(self, c, t=()):
        self.c = c; self.t = t; self.h = hash((c, t))
    def __hash__(self): return self.h
    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)
    def __ne__(self, o): return not self.__eq__(o)
    @property
    def const(self): return not self.t
    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t: return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for m, k in o.t:
            v = d.get(m, 0) + k
            if v: d[m] = v
            else: del d[m]
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    __radd__ = __add__
    def __neg__(self): return Lin(-self.c, tuple((m, -k) for m, k in self.t))
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t) if o else self
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def scale(self, k):
        if k == 0: return ZERO
        if k == 1: return self
        return Lin(self.c * k, tuple((m, q * k) for m, q in self.t))
    def __mul__(self, o):
        if isinstance(o, int): return self.scale(o)
        if not o.t: return self.scale(o.c)
        if not self.t: return o.scale(self.c)
        d = {}
        for m1, k1 in self.t + (((), self.c),):
            if k1 == 0: continue
            for m2, k2 in o.t + (((), o.c),):
                if k2 == 0: continue
                m = tuple(sorted(m1 + m2))
                v = d.get(m, 0) + k1 * k2
                d[m] = v
        c = d.pop((), 0)
        return Lin(c, tuple(sorted((m, k) for m, k in d.items() if k)))
    __rmul__ = __mul__
    def syms(self):
        s = set()
        for m, _ in self.t:
            s.update(m)
        return s
    def coef(self, mono):
        for m, k in self.t:
            if m == mono: return k
        return 0
    def subst(self, mp):
        """substitute symbols by Lins"""
        if not self.t: return self
        hit = False
        for m, _ in self.t:
            for s in m:
                if s in mp: hit = True
        if not hit: return self
        c = self.c; d = {}
        for m, k in self.t:
            if len(m) == 1:
                e = mp.get(m[0])
                if e is None: d[m] = d.get(m, 0) + k; continue
            else:
                e = ONE
                for s in m: e = e * (mp[s] if s in mp else sym(s))
            c += k * e.c
            for m2, k2 in e.t: d[m2] = d.get(m2, 0) + k * k2
        return Lin(c, tuple(sorted([x for x in d.items() if x[1]])))
    def __repr__(self):
        if not self.t: return str(self.c)
        out = []
        for m, k in self.t:
            n = "*".join(SYMS[s].name for s in m)
            if k == 1: out.append("+" + n)
            elif k == -1: out.append("-" + n)
            else: out.append("%+d*%s" % (k, n))
        if self.c: out.append("%+d" % self.c)
        s = "".join(out)
        return s[1:] if s[0] == "+" else s

ZERO = Lin(0)
ONE = Lin(1)
_lc = {}
def L(n):
    r = _lc.get(n)
    if r is None:
        r = Lin(n)
        if -1024 <= n <= 4096: _lc[n] = r
    return r
def sym(s): return Lin(0, (((s,), 1),))

def mono_bounds(m):
    lo = 1; hi = 1
    for s in m:
        i = SYMS[s]
        if i.lo is None or i.lo < 0: return (None, None)
        lo *= i.lo
        hi = None if (hi is None or i.hi is None) else hi * i.hi
    return lo, hi

class Store:
    """A conjunction of linear facts.  Copy-on-write friendly."""
    __slots__ = ("sub", "ineqs", "neqs", "bnd", "cache", "bottom", "nf")
    def __init__(self):
        self.sub = {}
        self.ineqs = frozenset()
        self.neqs = frozenset()
        self.bnd = {}
        self.cache = {}
        self.bottom = False
        self.nf = (None, {})
    def copy(self):
        s = Store.__new__(Store)
        s.sub = self.sub; s.ineqs = self.ineqs; s.neqs = self.neqs
        s.bnd = self.bnd; s.cache = self.cache; s.bottom = self.bottom; s.nf = self.nf
        return s
    def facts(self, s):
        """what is known about a defined symbol, normalised, each with its symbols"""
        nf = self.nf
        if nf[0] is not self.sub: self.nf = nf = (self.sub, {})
        r = nf[1].get(s)
        if r is None:
            r = nf[1][s] = tuple((q, q.syms()) for q in map(self.norm, SYMS[s].facts))
        return r
    def norm(self, l):
        if self.sub and l.t: return l.subst(self.sub)
        return l
    def _b(self, m):
        """interval of monomial m"""
        b = self.bnd.get(m)
        if len(m) == 1:
            i = SYMS[m[0]]
            if b is None: return (i.lo, i.hi)
            lo, hi = b
            if i.lo is not None and (lo is None or i.lo > lo): lo = i.lo
            if i.hi is not None and (hi is None or i.hi < hi): hi = i.hi
            return lo, hi
        lo = 1; hi = 1
        for s in m:
            l1, h1 = self._b((s,))
            if l1 is None or l1 < 0: return b or (None, None)
            lo *= l1
            hi = None if (hi is None or h1 is None) else hi * h1
        if b:
            if b[0] is not None and b[0] > lo: lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi): hi = b[1]
        return lo, hi
    def interval(self, l):
        l = self.norm(l)
        lo = hi = l.c
        for m, k in l.t:
            a, b = self._b(m)
            if k < 0: a, b = b, a
            lo = None if (lo is None or a is None) else lo + k * a
            hi = None if (hi is None or b is None) else hi + k * b
        return lo, hi
    # ---- queries
    def ge0(self, l):
        """is l >= 0 entailed?"""
        l = self.norm(l)
        if not l.t: return l.c >= 0
        key = l
        r = self.cache.get(key)
        if r is not None: return r
        r = self._ge0(l)
        self.cache[key] = r
        return r
    def _ge0(self, l):
        lo, hi = self.interval(l)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return self.bottom
        lt = l.t
        for q in self.ineqs:
            if q.t == lt and q.c <= l.c: return True
        # any refuting point by trivial means?  else full elimination
        return self.unsat_with(-l - 1)
    def eq0(self, l):
        l = self.norm(l)
        if not l.t: return l.c == 0
        lo, hi = self.interval(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return self.bottom
        return self.ge0(l) and self.ge0(-l)
    def ne0(self, l):
        l = self.norm(l)
        if not l.t: return l.c != 0
        if l in self.neqs or -l in self.neqs: return True
        g = 0
        for m, k in l.t: g = gcd(g, k)
        if g and l.c % g: return True
        return self.ge0(l - 1) or self.ge0(-l - 1)
    def cone(self, l):
        todo = list(l.syms()); seen = set(todo)
        res = set()
        idx = {}
        for q in self.ineqs:
            for s in q.syms():
                idx.setdefault(s, []).append(q)
        for m in self.bnd:
            # what a bound on a defined symbol says about the symbols it is defined from
            if len(m) == 1 and SYMS[m[0]].facts:
                for q, qs in self.facts(m[0]):
                    for s in qs:
                        if s != m[0]: idx.setdefault(s, []).append(q)
        while todo:
            s = todo.pop()
            for q in idx.get(s, ()):
                if q not in res:
                    res.add(q)
                    for x in q.syms():
                        if x not in seen: seen.add(x); todo.append(x)
            if SYMS[s].facts:
                for q, qs in self.facts(s):
                    if q.t and q not in res:
                        res.add(q)
                        for x in qs:
                            if x not in seen: seen.add(x); todo.append(x)
        return res, seen
    def unsat_with(self, extra):
        extra = self.norm(extra)
        res, seen = self.cone(extra)
        cons = set(res); cons.add(extra)
        # products for nonlinear monomials
        monos = set()
        for q in cons:
            for m, _ in q.t:
                if len(m) > 1: monos.add(m)
        if monos:
            factors = set()
            for m in monos:
                for s in m: factors.add(s)
            base = list(cons)
            for q in base:
                if q.t and all(len(m) == 1 for m, _ in q.t) and len(q.t) <= 4:
                    for s in factors:
                        lo, _ = self._b((s,))
                        if lo is not None and lo >= 0:
                            p = q * sym(s)
                            if any(m in monos for m, _ in p.t): cons.add(p)
        vs = set()
        for q in cons:
            for m, _ in q.t: vs.add(m)
        for m in list(vs):
            lo, hi = self._b(m)
            if lo is not None: cons.add(Lin(-lo, ((m, 1),)))
            if hi is not None: cons.add(Lin(hi, ((m, -1),)))
        if fm_unsat(cons): return True
        # disequalities: sharpen  (x != 0 with x >= 0 entailed  => x >= 1)
        for q in self.neqs:
            qs = q.syms()
            if qs and qs <= seen | extra.syms():
                base = cons
                a = fm_unsat(base | {q - 1}); 
                if a:
                    b = fm_unsat(base | {-q - 1})
                    if b: return True
        return False
    # ---- updates (return False when bottom)
    def add_ge0(self, l):
        l = tighten(self.norm(l))
        if not l.t:
            if l.c < 0: self.bottom = True; self.cache = {}
            return not self.bottom
        if self.ge0(l): return not self.bottom
        if self.unsat_with(l):
            self.bottom = True
            return False
        nl = -l
        # equality?  (l >= 0 and l <= 0)
        if self.ge0(nl):
            return self._add_eq(l)
        for q in self.neqs:
            if q == l or q == nl:
                return self.add_ge0(l - 1)
        self.cache = {}
        if len(l.t) == 1:
            m, k = l.t[0]
            b = dict(self.bnd)
            lo, hi = b.get(m, (None, None))
            if k > 0:
                v = -((l.c) // k)      # m >= ceil(-c/k)
                lo = v if lo is None or v > lo else lo
            else:
                v = l.c // (-k)
                hi = v if hi is None or v < hi else hi
            b[m] = (lo, hi)
            self.bnd = b
            a, z = self._b(m)
            if a is not None and a == z and len(m) == 1:
                return self._add_eq(Lin(-a, ((m, 1),)))
            return True
        self.ineqs = frozenset([q for q in self.ineqs if not (q.t == l.t and q.c >= l.c)] + [l])
        self._recheck_neqs()
        return not self.bottom
    def set_hi(self, v, hi):
        """write an already implied upper bound of a single symbol where interval() can see it"""
        v = self.norm(v)
        if v.c or len(v.t) != 1 or v.t[0][1] != 1: return
        m = v.t[0][0]
        lo, h = self.bnd.get(m, (None, None))
        if h is None or h > hi:
            b = dict(self.bnd); b[m] = (lo, hi); self.bnd = b; self.cache = {}
    def _recheck_neqs(self):
        for q in self.neqs:
            if len(q.t) <= 2:
                if self.ge0(q) and not self.ge0(q - 1):
                    self.neqs = self.neqs - {q}
                    if not self.add_ge0(q - 1): return
                elif self.ge0(-q) and not self.ge0(-q - 1):
                    self.neqs = self.neqs - {q}
                    if not self.add_ge0(-q - 1): return
    def add_eq0(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c: self.bottom = True
            return not self.bottom
        if self.ne0(l):
            self.bottom = True; return False
        if not self.ge0(l) and self.unsat_with(l): self.bottom = True; return False
        return self._add_eq(l)
    def _add_eq(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c: self.bottom = True
            return not self.bottom
        # choose a unit-coefficient, degree-1 symbol not occurring elsewhere in l
        best = None
        allm = l.t
        for m, k in allm:
            if len(m) == 1 and abs(k) == 1:
                s = m[0]
                if any(s in m2 for m2, _ in allm if m2 != m): continue
                # prefer newest non-key symbol
                i = SYMS[s]
                rank = (i.kind == "int", s)
                if best is None or rank > best[0]: best = (rank, s, k)
        self.cache = {}
        if best is None:
            self.ineqs = self.ineqs | {l, -l}
            return True
        _, s, k = best
        e = (l - Lin(0, (((s,), k),))).scale(-1 if k == 1 else 1)   # s = e
        return self._subst(s, e)
    def _subst(self, s, e):
        mp = {s: e}
        nb = {}
        pend = []
        lo, hi = self._b((s,))
        if lo is not None: pend.append(e - lo)
        if hi is not None: pend.append(hi - e)
        for f in SYMS[s].facts: pend.append(f)
        for m, b in self.bnd.items():
            if s in m:
                p = Lin(0, ((m, 1),)).subst(mp)
                if b[0] is not None: pend.append(p - b[0])
                if b[1] is not None: pend.append(b[1] - p)
            else: nb[m] = b
        self.bnd = nb
        self.sub = {k: v.subst(mp) for k, v in self.sub.items()}
        self.sub[s] = e
        ni = []
        for q in self.ineqs:
            if s in q.syms(): pend.append(q.subst(mp))
            else: ni.append(q)
        self.ineqs = frozenset(ni)
        nn = []
        for q in self.neqs:
            q2 = q.subst(mp)
            if not q2.t:
                if q2.c == 0: self.bottom = True; return False
            else: nn.append(q2)
        self.neqs = frozenset(nn)
        self.cache = {}
        for p in pend:
            if not self.add_ge0(p): return False
        self._recheck_neqs()
        return not self.bottom
    def add_ne0(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c == 0: self.bottom = True
            return not self.bottom
        if self.eq0(l):
            self.bottom = True; return False
        if self.ge0(l): return self.add_ge0(l - 1)
        if self.ge0(-l): return self.add_ge0(-l - 1)
        if self.ne0(l): return True
        self.neqs = self.neqs | {l}
        self.cache = {}
        return True
    def all_facts(self):
        out = list(self.ineqs)
        for m, (lo, hi) in self.bnd.items():
            if lo is not None: out.append(Lin(-lo, ((m, 1),)))
            if hi is not None: out.append(Lin(hi, ((m, -1),)))
        return out
    def __repr__(self):
        return "{%s | %s | %s | ne %s}" % (
            ", ".join("%s=%r" % (SYMS[k].name, v) for k, v in self.sub.items()),
            ", ".join("%r>=0" % q for q in self.ineqs),
            ", ".join("%s in [%s,%s]" % ("*".join(SYMS[x].name for x in m), b[0], b[1]) for m, b in self.bnd.items()),
            ", ".join("%r" % q for q in self.neqs))

def tighten(l):
    if not l.t: return l
    g = 0
    for m, k in l.t:
        g = gcd(g, k)
        if g == 1: return l
    return Lin(l.c // g, tuple((m, k // g) for m, k in l.t))

FM_LIMIT = 600

def fm_unsat(cons):
    """True if the conjunction {q >= 0} has no (tightened-rational) solution."""
    cur = {}
    def put(d, q):
        q = tighten(q)
        if not q.t:
            return q.c >= 0
        o = d.get(q.t)
        if o is None or q.c < o: d[q.t] = q.c
        return True
    for q in cons:
        if not put(cur, q): return True
    while cur:
        # choose variable with smallest product
        pos = {}; neg = {}
        for t, c in cur.items():
            for m, k in t:
                if k > 0: pos[m] = pos.get(m, 0) + 1
                else: neg[m] = neg.get(m, 0) + 1
        best = None
        for m in set(pos) | set(neg):
            cost = pos.get(m, 0) * neg.get(m, 0) - pos.get(m, 0) - neg.get(m, 0)
            if best is None or cost < best[0]: best = (cost, m)
        m = best[1]
        P = []; N = []; nxt = {}
        for t, c in cur.items():
            k = 0
            for mm, kk in t:
                if mm == m: k = kk; break
            if k > 0: P.append((Lin(c, t), k))
            elif k < 0: N.append((Lin(c, t), -k))
            else: nxt[t] = c
        if len(P) * len(N) + len(nxt) > FM_LIMIT: return False
        for p, a in P:
            for n, b in N:
                g = gcd(a, b)
                q = p.scale(b // g) + n.scale(a // g)
                if not put(nxt, q): return True
        # contradiction scan: t and -t
        for t, c in nxt.items():
            nt = tuple((mm, -kk) for mm, kk in t)
            o = nxt.get(nt)
            if o is not None and o + c < 0: return True
        cur = nxt
    return False

def fm_project(cons, keep, limit=200):
    """Project the conjunction onto monomials for which keep(mono) holds;
    returns list of Lin (>=0), possibly weakened (constraints dropped)."""
    cur = {}
    for q in cons:
        q = tighten(q)
        if q.t:
            o = cur.get(q.t)
            if o is None or q.c < o: cur[q.t] = q.c
    while True:
        pos = {}; neg = {}
        for t, c in cur.items():
            for m, k in t:
                if keep(m): continue
                if k > 0: pos[m] = pos.get(m, 0) + 1
                else: neg[m] = neg.get(m, 0) + 1
        best = None
        for m in set(pos) | set(neg):
            cost = pos.get(m, 0) * neg.get(m, 0)
            if best is None or cost < best[0]: best = (cost, m)
        if best is None: break
        m = best[1]
        P = []; N = []; nxt = {}
        for t, c in cur.items():
            k = 0
            for mm, kk in t:
                if mm == m: k = kk; break
            if k > 0: P.append((Lin(c, t), k))
            elif k < 0: N.append((Lin(c, t), -k))
            else: nxt[t] = c
        if len(P) * len(N) + len(nxt) <= limit:
            for p, a in P:
                for n, b in N:
                    g = gcd(a, b)
                    q = tighten(p.scale(b // g) + n.scale(a // g))
                    if q.t:
                        o = nxt.get(q.t)
                        if o is None or q.c < o: nxt[q.t] = q.c
        cur = nxt
    return [Lin(c, t) for t, c in cur.items()]
