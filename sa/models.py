"""Models of external (libc) functions, witness intrinsics and optional summaries."""
from .engine import *
from .engine import _Part
from .lin import *

def ret(st, v=None): return [(st, v)]

def loc_of(inst): return inst.get("loc") if inst else None

def alts(eng, st, n):
    """n copies of st"""
    return [st] + [st.copy() for _ in range(n - 1)]

# ---------------------------------------------------------------- memory
def m_memcpy(eng, st, inst, a):
    eng.memcpy(st, a[0], a[1], as_int(eng, st, a[2]), loc_of(inst)); return ret(st, a[0])
def m_memcpy_apart(eng, st, inst, a):
    """memcpy as the program calls it: source and destination may not overlap"""
    n = st.nl(as_int(eng, st, a[2])); loc = loc_of(inst)
    if n != ZERO and (not n.t or eng.cond_split(st, c_ge(n - 1))):
        d, s = st.res(a[0]), st.res(a[1])
        if isinstance(d, P) and isinstance(s, P) and d.base == s.base:
            k = st.nl(d.off - s.off)
            if k != ZERO:
                eng.obligation("overlap", loc)
                if eng.cond_split(st, c_ge(k)):
                    bad = not eng.cond_split(st, c_ge(k - n)) and eng.cond_split(st, c_ge(k - 1))
                else:
                    bad = not eng.cond_split(st, c_ge(-k - n))
                if bad:
                    eng.report("overlap", "memcpy between ranges that overlap", st, loc)
                    raise PathEnd()
    return m_memcpy(eng, st, inst, a)
def m_memset(eng, st, inst, a):
    b = a[1]
    if isinstance(b, Lin):
        b = st.nl(b)
        if not b.t: b = L(b.c & 255)
    eng.memset(st, a[0], b, as_int(eng, st, a[2]), loc_of(inst)); return ret(st, a[0])
def as_int(eng, st, v):
    if isinstance(v, tuple): return eng.from_cond(st, v)
    return v
def m_memcmp(eng, st, inst, a):
    n = st.nl(a[2]); loc = loc_of(inst)
    if n.t and not eng.cond_split(st, c_ge(n - 1)): return ret(st, ZERO)
    if not n.t and n.c == 0: return ret(st, ZERO)
    p = eng.check_access(st, a[0], n, loc, "read"); q = eng.check_access(st, a[1], n, loc, "read")
    if p == q: return ret(st, ZERO)
    if not n.t and n.c <= 64:
        # small known length: equal exactly when the words are
        o = 0; same = True
        while o < n.c and same is True:
            w = next(x for x in (8, 4, 2, 1) if o + x <= n.c)
            x = eng.load(st, p + o, w, "i%d" % (8 * w), loc); y = eng.load(st, q + o, w, "i%d" % (8 * w), loc)
            if isinstance(x, P): x = eng.ptr2int(st, x)
            if isinstance(y, P): y = eng.ptr2int(st, y)
            if not isinstance(x, Lin) or not isinstance(y, Lin): same = None
            elif not eng.cond_split(st, c_eq(x - y)): same = False
            o += w
        if same is True: return ret(st, ZERO)
        if same is False: return ret(st, sym(keyed_sym(("memdiff", repr((p, id_entries(st, p))), repr((q, id_entries(st, q))), n), "memdiff", 1, (1 << 32) - 1)))
    # result is a function of both contents: same call, same answer while neither object changes
    k = tuple(sorted([repr((p, id_entries(st, p))), repr((q, id_entries(st, q)))]))
    return ret(st, sym(keyed_sym(("memcmp", k, n), "memcmp(%r,%r)" % (p, q), 0, (1 << 32) - 1)))
def id_entries(st, p):
    r = st.mem.get(p.base)
    if r is None: return None
    return tuple(e for e in r.entries if not (e[0] == "w" and is_init(e, p.base)))
def is_init(e, base):
    v = e[3]
    s = None
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and len(v.t[0][0]) == 1: s = v.t[0][0][0]
    elif isinstance(v, P) and v.base[0] == "s" and v.off == ZERO: s = v.base[1]
    k = SYMS[s].key if s else None
    return bool(k and k[0] == "lz" and k[1] == base and k[2] is None and k[3] == e[1])

def cstr_region(eng, st, name, length=None, tag=None, maxlen=1 << 40):
    """a NUL-terminated read-only string of unknown length"""
    n = length if length is not None else sym(new_sym("len_" + name, 0, maxlen))
    eng.hid += 1
    b = ("h", "%s#%d" % (name, eng.hid))
    st.mem[b] = Reg("lazy", n + 1, True, (("w", n, 1, ZERO, "i8"),), ("cstr", n))
    return P(b)

def strlen_of(eng, st, p, loc):
    """Lin length of the C string at p, or None"""
    p = eng.check_access(st, p, 1, loc, "read")
    r = eng.region(st, p.base, loc)
    if r.kind == "const":
        g = eng.mod.globals[p.base[1]]
        if not p.off.t:
            n = 0
            while True:
                c = eng.const_byte(g, p.off.c + n)
                if c is None: return None
                if c == 0: return L(n)
                n += 1
    if isinstance(r.tag, tuple) and r.tag[0] == "cstr" and not r.dirty:
        if st.store.ge0(p.off) and st.store.ge0(r.tag[1] - p.off): return r.tag[1] - p.off
    cid = cstr_origin(eng, st, r, p.base, p.off)
    if cid is not None and cid[1] is not None: return cid[1]
    key = ("strlen", p, tuple(e for e in r.entries if not (e[0] == "w" and is_init(e, p.base))))
    s = sym(keyed_sym(key, "strlen(%r)" % p, 0, 1 << 40))
    if r.size is not None and not st.store.ge0(r.size - p.off - s - 1):
        # the terminator must lie inside the object
        known_nul = False
        for e in r.entries:
            if e[0] == "w" and e[2] == 1 and isinstance(e[3], Lin) and st.store.eq0(e[3]) and st.store.ge0(e[1] - p.off):
                known_nul = True
                st.store.add_ge0(e[1] - p.off - s)
                break
        if known_nul: pass
        elif "strlen_strict" in eng.__dict__ and eng.strlen_strict:
            eng.report("oob", "string function may run past the end of %r (no terminator)" % p, st, loc)
            raise PathEnd()
        else:
            st.store.add_ge0(r.size - p.off - s - 1)
    return s
def cstr_origin(eng, st, r, base, off, depth=0):
    """(identity, length) of the string at `off`: strings copied whole share the identity of their origin"""
    if r is None or depth > 6: return None
    if r.kind == "const" and base is not None and base[0] == "g":
        l = cstr_lit(eng, st, P(base, off))
        return (("lit", l), L(len(l))) if l is not None else None
    if isinstance(r.tag, tuple) and r.tag[0] == "cstr" and not r.dirty:
        if st.store.ge0(off) and st.store.ge0(r.tag[1] - off): return (("cstr", base, off), r.tag[1] - off)
        return None
    z = None
    for e in r.entries:
        if e[0] == "w":
            if e[2] == 1 and isinstance(e[3], Lin) and z is None and st.store.eq0(e[3]): z = e[1]; continue
            return None
        if e[0] == "c" and st.store.eq0(st.nl(e[1] - off)):
            n = st.nl(L(e[2]) if isinstance(e[2], int) else e[2])
            o = cstr_origin(eng, st, e[3], e[4], e[5], depth + 1)
            if o is None or o[1] is None: return None
            if st.store.eq0(st.nl(n - o[1])) and z is not None and st.store.eq0(st.nl(z - off - n)): return o
            if st.store.ge0(st.nl(n - o[1] - 1)) and z is None: return o
            return None
        return None
    return None
def m_strlen(eng, st, inst, a):
    n = strlen_of(eng, st, a[0], loc_of(inst))
    return ret(st, n if n is not None else eng.fresh_int("strlen", 32))
def m_strcmp(eng, st, inst, a):
    for x in a[:2]: eng.check_access(st, x, 1, loc_of(inst), "read")
    p, q = st.res(a[0]), st.res(a[1])
    if p == q: return ret(st, ZERO)
    lits = [cstr_lit(eng, st, x) for x in (p, q)]
    if lits[0] is not None and lits[1] is not None:
        return ret(st, ZERO if lits[0] == lits[1] else ONE)
    ids = []
    for x in (p, q):
        r = eng.region(st, x.base, loc_of(inst)) if x.base[0] in "hg" else None
        o = cstr_origin(eng, st, r, x.base, x.off) if r is not None else None
        if o is not None: ids.append(repr(o[0]))
        else: ids.append(repr((x, () if r is None else tuple(e for e in r.entries if not (e[0] == "w" and is_init(e, x.base))))))
    if ids[0] == ids[1]: return ret(st, ZERO)
    k = tuple(sorted(ids))
    return ret(st, sym(keyed_sym(("strcmp", k), "strcmp(%r,%r)" % (p, q), 0, (1 << 32) - 1)))
def cstr_lit(eng, st, p):
    if p.base[0] != "g" or p.off.t: return None
    g = eng.mod.globals.get(p.base[1])
    if not g or not g["const"] or "init" not in g: return None
    out = []
    o = p.off.c
    while True:
        c = eng.const_byte(g, o)
        if c is None: return None
        if c == 0: return bytes(out)
        out.append(c); o += 1
def m_strchr(eng, st, inst, a):
    loc = loc_of(inst)
    p = eng.check_access(st, a[0], 1, loc, "read")
    n = strlen_of(eng, st, p, loc)
    ch = a[1]
    s1 = st; s2 = st.copy()
    r = eng.region(st, p.base, loc)
    eng.hid += 1
    k = new_sym("chr%d" % eng.hid, 0, 1 << 40)
    out = []
    if not (isinstance(st.nl(ch), Lin) and st.nl(ch) == ZERO): out.append((s2, NULLP))
    if n is not None: s1.store.add_ge0(n - sym(k) - (0 if isinstance(ch, Lin) and not ch.t and ch.c == 0 else 1))
    if not s1.store.bottom:
        try:
            v = eng.load(s1, p + sym(k), 1, "i8", loc)
            sts = s1.assume(eng, c_eq(v - ch)) if isinstance(v, Lin) and isinstance(ch, Lin) else [s1]
        except (NeedSplit, PathEnd):
            sts = [s1]
        for x in sts: out.append((x, P(p.base, p.off + sym(k))))
    return out
def m_strncpy(eng, st, inst, a):
    loc = loc_of(inst)
    eng.check_access(st, a[1], 1, loc, "read")
    n = as_int(eng, st, a[2])
    l = strlen_of(eng, st, a[1], loc)
    if l is None:
        eng.havoc_range(st, a[0], n, loc, "strncpy"); return ret(st, a[0])
    d = eng.check_access(st, a[0], n, loc, "write") if st.nl(n) != ZERO else a[0]
    if not eng.cond_split(st, c_ge(l - n)):
        if l.t and not eng.cond_split(st, c_ge(l - 1)): l = ZERO
        eng.memset(st, st.res(d) + l, ZERO, n - l, loc)
        if st.nl(l) != ZERO: eng.memcpy(st, d, a[1], l, loc)
    else: eng.memcpy(st, d, a[1], n, loc)
    return ret(st, a[0])

def m_strnlen(eng, st, inst, a):
    n = st.nl(as_int(eng, st, a[1]))
    if n == ZERO: return ret(st, ZERO)
    l = strlen_of(eng, st, a[0], loc_of(inst))
    if l is None: raise Incomplete("strnlen of unknown text")
    return ret(st, l if eng.cond_split(st, c_ge(n - l)) else n)
def m_strcpy(end):
    def f(eng, st, inst, a):
        loc = loc_of(inst)
        l = strlen_of(eng, st, a[1], loc)
        if l is None: raise Incomplete("strcpy of unknown text")
        eng.memcpy(st, a[0], a[1], l + 1, loc)
        return ret(st, st.res(a[0]) + l if end else a[0])
    return f
def m_strcat(eng, st, inst, a):
    loc = loc_of(inst)
    d, l = strlen_of(eng, st, a[0], loc), strlen_of(eng, st, a[1], loc)
    if l is None or d is None: raise Incomplete("strcat of unknown text")
    eng.memcpy(st, st.res(a[0]) + d, a[1], l + 1, loc)
    return ret(st, a[0])
def m_mempcpy(eng, st, inst, a):
    n = as_int(eng, st, a[2])
    eng.memcpy(st, a[0], a[1], n, loc_of(inst)); return ret(st, st.res(a[0]) + n)
def m_strchrnul(eng, st, inst, a):
    out = []
    for s, v in m_strchr(eng, st, inst, a):
        if v == NULLP:
            l = strlen_of(eng, s, a[0], loc_of(inst))
            if l is None: raise Incomplete("strchrnul of unknown text")
            v = s.res(a[0]) + l
        out.append((s, v))
    return out
def m_memchr(eng, st, inst, a):
    """the first occurrence: somewhere in the range, or nowhere"""
    loc = loc_of(inst)
    n = st.nl(as_int(eng, st, a[2]))
    if n == ZERO or not eng.cond_split(st, c_ge(n - 1)): return ret(st, NULLP)
    p = eng.check_access(st, a[0], n, loc, "read")
    ch = st.nl(as_int(eng, st, a[1]))
    if not n.t and n.c <= 64 and not ch.t:
        for i in range(n.c):
            v = eng.load(st, p + L(i), 1, "i8", loc)
            if not isinstance(v, Lin): raise Incomplete("memchr over pointers")
            if eng.cond_split(st, c_eq(st.nl(v) - L(ch.c & 255))): return ret(st, p + L(i))
        return ret(st, NULLP)
    s2 = st.copy()
    eng.hid += 1
    k = new_sym("chr%d" % eng.hid, 0, 1 << 62)
    st.store.add_ge0(n - 1 - sym(k))
    try:
        v = eng.load(st, p + sym(k), 1, "i8", loc)
        sts = st.assume(eng, c_eq(v - L(ch.c & 255))) if isinstance(v, Lin) and not ch.t else [st]
    except (NeedSplit, PathEnd): sts = [st]
    return [(s2, NULLP)] + [(x, p + sym(k)) for x in sts]
def m_strncmp(eng, st, inst, a):
    n = st.nl(as_int(eng, st, a[2]))
    if n == ZERO: return ret(st, ZERO)
    p, q = st.res(a[0]), st.res(a[1])
    if p == q: return ret(st, ZERO)
    for x in (p, q): eng.check_access(st, x, 1, loc_of(inst), "read")
    k = tuple(sorted([repr((p, id_entries(st, p))), repr((q, id_entries(st, q)))]))
    return ret(st, sym(keyed_sym(("strncmp", k, n), "strncmp(%r,%r)" % (p, q), 0, (1 << 32) - 1)))

# ---------------------------------------------------------------- libc heap
def m_malloc(eng, st, inst, a):
    s2 = st.copy()
    n = as_int(eng, st, a[0])
    if st.decide(c_ge(L((1 << 63) - 1) - n)) is False: return ret(st, NULLP)
    st.store.add_ge0(L((1 << 63) - 1) - n)
    p = eng.heap(st, n, "undef", ("heap", "malloc"))
    return [(st, p), (s2, NULLP)]
def m_calloc(eng, st, inst, a):
    s2 = st.copy()
    n = st.nl(a[0]) * st.nl(a[1])
    out = [(s2, NULLP)]
    for s in st.assume(eng, c_ge(L((1 << 63) - 1) - n)):
        out.append((s, eng.heap(s, n, "zero", ("heap", "malloc"))))
    return out
def do_free(eng, st, p, loc, size=None, what="free"):
    if p is UNDEF:
        eng.report("uninit", "%s of an uninitialised pointer" % what, st, loc); raise PathEnd()
    if isinstance(p, Lin): p = eng.int2ptr(st, p)
    p = st.res(p)
    if p.base == NB: return
    if p.base[0] == "s":
        if st.pf.get(p.base[1]) is None: raise NeedSplit(("peq", P(p.base), NULLP))
        r = eng.region(st, p.base, loc)
    elif p.base[0] != "h":
        eng.report("bad-free", "%s of non-heap object %r" % (what, p), st, loc); raise PathEnd()
    else: r = st.mem[p.base]
    if not r.alive:
        eng.report("double-free", "%s of already freed %r" % (what, p), st, loc); raise PathEnd()
    if not st.store.eq0(p.off):
        eng.report("bad-free", "%s of interior pointer %r" % (what, p), st, loc); raise PathEnd()
    if size is not None and r.size is not None:
        eng.obligation("free-size", loc)
        if not eng.cond_split(st, c_eq(r.size - size)):
            eng.report("free-size", "%s of %r with size %r but it was allocated with size %r" % (what, p, st.nl(size), st.nl(r.size)), st, loc)
            raise PathEnd()
    h = getattr(eng, "on_free", None)
    if h: h(eng, st, p, loc)
    eng.free_region(st, p.base)
def m_free(eng, st, inst, a):
    do_free(eng, st, a[0], loc_of(inst)); return ret(st)
def do_realloc(eng, st, p, old, new, loc, maynull, what="realloc"):
    p = st.res(p)
    out = []
    if maynull: out.append((st.copy(), NULLP))
    if p.base == NB:
        q = eng.heap(st, new, "undef", ("heap", "cork"))
        return out + [(st, q)]
    if p.base[0] == "s" and st.pf.get(p.base[1]) is None: raise NeedSplit(("peq", P(p.base), NULLP))
    r = eng.region(st, p.base, loc)
    if not r.alive:
        eng.report("use-after-free", "%s of freed %r" % (what, p), st, loc); raise PathEnd()
    if old is not None and r.size is not None:
        eng.obligation("free-size", loc)
        if not eng.cond_split(st, c_eq(r.size - old)):
            eng.report("free-size", "%s of %r with old size %r but it was allocated with size %r" % (what, p, st.nl(old), st.nl(r.size)), st, loc)
            raise PathEnd()
    osz = r.size if r.size is not None else old
    n = new
    if osz is not None:
        if eng.cond_split(st, c_ge(new - osz)): n = osz
    q = eng.heap(st, new, "undef", ("heap", "cork"))
    if osz is not None and st.nl(n) != ZERO and not (r.kind == "undef" and not r.entries):
        nn = st.nl(n)
        ln = nn.c if not nn.t else nn
        # the moved object reads through to (a snapshot of) the old contents
        st.mem[q.base] = Reg("undef", new, True, (("c", ZERO, ln, r, p.base, ZERO),), ("heap", "cork"), True)
    h = getattr(eng, "on_free", None)
    if h: h(eng, st, p, loc)
    eng.free_region(st, p.base)
    return out + [(st, q)]
def m_realloc(eng, st, inst, a):
    return do_realloc(eng, st, a[0], None, as_int(eng, st, a[1]), loc_of(inst), True)

# ---------------------------------------------------------------- libcork allocation front end
PTRDIFF = (1 << 63) - 1
def alloc_size_ok(eng, st, n):
    st.store.add_ge0(L(PTRDIFF) - n)     # an object never exceeds PTRDIFF_MAX; larger requests abort / return NULL
    if st.store.bottom: raise PathEnd()
def h_malloc(x):
    def f(eng, st, inst, a):
        n = a[-1]; out = []
        if x: out.append((st.copy(), NULLP))
        try: alloc_size_ok(eng, st, n)
        except PathEnd: return out
        return out + [(st, eng.heap(st, n, "undef", ("heap", "cork")))]
    return f
def h_calloc(x):
    def f(eng, st, inst, a):
        n = st.nl(a[-2]) * st.nl(a[-1]); out = []
        if x: out.append((st.copy(), NULLP))
        try: alloc_size_ok(eng, st, n)
        except PathEnd: return out
        return out + [(st, eng.heap(st, n, "zero", ("heap", "cork")))]
    return f
def h_realloc(x):
    def f(eng, st, inst, a):
        st.store.add_ge0(L(PTRDIFF) - a[-1])
        if st.store.bottom: return [(st, NULLP)] if x else []
        return do_realloc(eng, st, a[-3], a[-2], a[-1], loc_of(inst), x)
    return f
def h_reallocf(eng, st, inst, a):
    out = []
    s2 = st.copy()
    res = do_realloc(eng, st, a[-3], a[-2], a[-1], loc_of(inst), False)
    try:
        do_free(eng, s2, a[-3], loc_of(inst), a[-2], "xreallocf"); out.append((s2, NULLP))
    except PathEnd: pass
    return res + out
def h_free(eng, st, inst, a):
    do_free(eng, st, a[-2], loc_of(inst), a[-1]); return ret(st)
def h_cfree(eng, st, inst, a):
    do_free(eng, st, a[-3], loc_of(inst), st.nl(a[-2]) * st.nl(a[-1])); return ret(st)
def scan_len(eng, st, p, loc):
    for i in range(2048):
        v = eng.load(st, eng.check_access(st, p + i, 1, loc, "read"), 1, "i8", loc)
        if not isinstance(v, Lin): raise Incomplete("length of a string of non-characters")
        if eng.cond_split(st, c_eq(v)): return L(i)
    raise Incomplete("length of a long string")
def h_strdup(x, n):
    def f(eng, st, inst, a):
        src = a[-1] if not n else a[-2]
        loc = loc_of(inst)
        out = []
        ln = st.nl(a[-1]) if n else scan_len(eng, st, src, loc) if eng.exact_strlen else strlen_of(eng, st, src, loc)
        if ln is None: ln = eng.fresh_int("strlen", 32)
        if n: 
            if not (ln == ZERO): 
                if st.decide(c_ge(ln - 1)) is None: raise NeedSplit(c_ge(ln - 1))
        if x: out.append((st.copy(), NULLP))
        q = eng.heap(st, ln + 1, "undef", ("heap", "str"))
        if st.decide(c_ge(ln - 1)) is None: raise NeedSplit(c_ge(ln - 1))
        if st.decide(c_ge(ln - 1)): eng.memcpy(st, q, src, ln, loc)
        eng.store(st, q + ln, 1, ZERO, "i8", loc)
        r = st.mem[q.base]
        st.mem[q.base] = r.with_(tag=("heap", "str"))
        return out + [(st, q)]
    return f
def h_strfree(eng, st, inst, a):
    p = a[-1]; loc = loc_of(inst)
    if p is UNDEF: do_free(eng, st, p, loc)
    p = st.res(p)
    if p.base == NB: return ret(st)
    do_free(eng, st, p, loc); return ret(st)

ALLOC_HOOKS = {}
for pre in ("cork_alloc_", "cork_"):
    for nm, f in (("malloc", h_malloc(False)), ("xmalloc", h_malloc(True)),
                  ("calloc", h_calloc(False)), ("xcalloc", h_calloc(True)),
                  ("realloc", h_realloc(False)), ("xrealloc", h_realloc(True)), ("xreallocf", h_reallocf),
                  ("free", h_free), ("cfree", h_cfree),
                  ("strdup", h_strdup(False, False)), ("strndup", h_strdup(False, True)),
                  ("xstrdup", h_strdup(True, False)), ("xstrndup", h_strdup(True, True)),
                  ("strfree", h_strfree)):
        ALLOC_HOOKS[pre + nm] = f

# ---------------------------------------------------------------- varargs
def va_key(p): return ("valist", p.base, p.off)
def m_va_start(eng, st, inst, a):
    p = st.res(a[0])
    eng.hid += 1
    d = len(st.frames)
    st.ghost[va_key(p)] = ("open", "va@%d#%d" % (d, 0))
    eng.havoc_region(st, p.base)
    if ("va", d) in st.ghost or not getattr(eng.mod.funcs.get(eng.callstack[-1]), "name", "").startswith("W_"):
        # System V x86-64 va_list with the register save areas used up: every argument is in the overflow area
        va = st.ghost.get(("va", d), ())
        b = ("a", "varargs@%d#%d" % (d, eng.hid))
        st.mem[b] = Reg("undef", L(8 * len(va)), True,
                        tuple(("w", L(8 * i), 8, v, "ptr" if isinstance(v, P) else "i64") for i, v in enumerate(va) if v is not UNDEF), ("local", d))
        for off, n, v, ty in ((0, 4, L(48), "i32"), (4, 4, L(304), "i32"), (8, 8, P(b, ZERO), "ptr")):
            eng.store(st, p + off, n, v, ty, loc_of(inst))
    return ret(st)
def m_va_end(eng, st, inst, a):
    p = st.res(a[0])
    st.ghost.pop(va_key(p), None)
    return ret(st)
def m_va_copy(eng, st, inst, a):
    d, s = st.res(a[0]), st.res(a[1])
    v = st.ghost.get(va_key(s), ("open", "arg:%r" % (s,)))
    if v[0] == "used":
        eng.report("va-reuse", "va_copy from an already consumed argument list", st, loc_of(inst)); raise PathEnd()
    st.ghost[va_key(d)] = v
    if d.base in st.mem:
        if s.base in st.mem: eng.memcpy(st, eng.check_access(st, d, L(24), loc_of(inst), "write"), s, L(24), loc_of(inst))
        else: eng.havoc_region(st, d.base)
    return ret(st)
def consume_va(eng, st, p, loc):
    if not isinstance(p, P): return "va?"
    p = st.res(p)
    v = st.ghost.get(va_key(p), ("open", "arg:%r" % (p,)))
    if v[0] == "used":
        eng.report("va-reuse", "argument list traversed twice without va_copy", st, loc); raise PathEnd()
    st.ghost[va_key(p)] = ("used", v[1])
    return v[1]
def fmt_len(eng, st, fmt, vid):
    return sym(keyed_sym(("fmtlen", st.res(fmt), vid), "fmtlen", 0, (1 << 31) - 2))
def m_vsnprintf(eng, st, inst, a):
    loc = loc_of(inst)
    vid = consume_va(eng, st, a[3], loc)
    n = fmt_len(eng, st, a[2], vid)
    st.ghost[("u", "fmt_total")] = n
    return snprintf_common(eng, st, a[0], a[1], n, loc)
def snprintf_common(eng, st, buf, size, n, loc):
    if st.nl(size) == ZERO: return ret(st, n)
    if not eng.cond_split(st, c_ge(size - 1)): return ret(st, n)
    if eng.cond_split(st, c_ge(size - 1 - n)): w = n
    else: w = size - 1
    if not (st.nl(w) == ZERO):
        if eng.cond_split(st, c_ge(w - 1)):
            buf = eng.check_access(st, buf, w + 1, loc, "formatted write")
            eng.havoc_range(st, buf, w, loc, "fmt")
    eng.store(st, buf + w, 1, ZERO, "i8", loc)
    return ret(st, n)
FMT = None
def fmt_pieces(lit, eng, st, args, padded=True):
    """output of a printf format as a list of pieces with exactly known extent:
    ("lit", bytes) | ("num", identity, length) | ("str", pointer, length); None if not expressible"""
    import re
    out = []; pos = 0; ai = 0
    for m in re.finditer(rb"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])", lit):
        if m.start() > pos: out.append(("lit", lit[pos:m.start()]))
        pos = m.end()
        flags, wd, prec, mod, cv = m.groups()
        if cv == b"%": out.append(("lit", b"%")); continue
        if wd == b"*" and ai < len(args) and isinstance(args[ai], Lin) and not st.nl(args[ai]).t and 0 <= st.nl(args[ai]).c < 1000:
            wd = str(st.nl(args[ai]).c).encode(); ai += 1
        if prec == b"*" and ai < len(args) and isinstance(args[ai], Lin) and not st.nl(args[ai]).t and 0 <= st.nl(args[ai]).c < 1000:
            prec = str(st.nl(args[ai]).c).encode(); ai += 1
        if wd == b"*" or prec == b"*" or ai >= len(args): return None
        v = args[ai]; ai += 1
        wdn = int(wd) if wd else 0
        if cv == b"s" and prec is not None and mod is None and isinstance(v, P):
            n = 0                               # at most so many bytes, which need not be terminated
            while n < int(prec):
                b = eng.check_access(st, v + n, 1, None, "read of a %s argument")
                b = eng.load(st, b, 1, "i8", None)
                if not isinstance(b, Lin): return None
                if eng.cond_split(st, c_eq(b)): break
                n += 1
            fill = ("lit", b" " * max(0, wdn - n))
            if b"-" not in flags: out.append(fill)
            out.append(("str", st.res(v), L(n)))
            if b"-" in flags: out.append(fill)
            continue
        if cv in b"duixXo" and prec is None and not (set(flags) - set(b"0-")):
            bits = {b"hh": 8, b"h": 16, b"l": 64, b"ll": 64, b"z": 64, b"j": 64, b"t": 64}.get(mod, 32)
            if isinstance(v, P) or not isinstance(v, Lin): return None
            v = st.nl(v)
            lo, hi = st.store.interval(v)
            if bits < 32 and (hi is None or hi >= 1 << bits): return None
            if hi is None: hi = (1 << bits) - 1
            if lo is None or lo < 0: lo = 0
            neg = cv in b"di" and hi >= 1 << (bits - 1)
            c = "d" if neg else {b"x": "x", b"X": "X", b"o": "o"}.get(cv, "u")
            def w(n): return len({"x": "%x", "X": "%X", "o": "%o"}.get(c, "%d") % n)
            wl, wh = (1, len(str(1 << (bits - 1))) + 1) if neg else (w(lo), w(hi))
            wl, wh = max(wl, wdn), max(wh, wdn)
            if not v.t and not neg and (not wdn or padded): out.append(("lit", ({"x": "%x", "X": "%X", "o": "%o"}.get(c, "%d") % v.c).encode().ljust(wdn) if b"-" in flags else ({"x": "%x", "X": "%X", "o": "%o"}.get(c, "%d") % v.c).encode().rjust(wdn, b"0" if b"0" in flags else b" "))); continue
            pad = ("0" if b"0" in flags else " ", wdn) if wdn > 1 and wdn > w(lo) else None
            ident = ("num", c, pad, b"-" in flags, v)
            n = L(wl) if wl == wh else sym(keyed_sym(("fmtnum",) + ident, "digits(%r)" % v, wl, wh))
            out.append(("num", ident, n))
        elif cv == b"s" and not wdn and prec is None and mod is None:
            if not isinstance(v, P): return None
            n = scan_len(eng, st, v, None) if eng.exact_strlen else strlen_of(eng, st, v, None)
            if n is None: return None
            out.append(("str", st.res(v), st.nl(n)))
        else: return None
    if pos < len(lit): out.append(("lit", lit[pos:]))
    return out
def pieces_len(ps):
    t = ZERO
    for x in ps: t = t + (len(x[1]) if x[0] == "lit" else x[2])
    return t
def put_pieces(eng, st, p, ps, loc):
    """write the pieces at p; the caller has checked the room.  No splits once writing has begun"""
    for x in ps:
        if x[0] == "str" and x[2].t and not eng.cond_split(st, c_ge(x[2] - 1)): pass
    for x in ps:
        if x[0] == "lit":
            for c in x[1]:
                eng.store(st, p, 1, L(c), "i8", loc); p = p + 1
        elif x[0] == "num":
            eng.range_write(st, p, x[2], lambda o, l: ("h", o, l, x[1]), loc)
            p = P(p.base, st.nl(p.off + x[2]))
        else:
            if st.nl(x[2]) != ZERO and st.decide(c_ge(x[2] - 1)): eng.memcpy(st, p, x[1], x[2], loc)
            p = P(p.base, st.nl(p.off + x[2]))
    return p
def m_snprintf(eng, st, inst, a):
    loc = loc_of(inst)
    lit = cstr_lit(eng, st, st.res(a[2])) if isinstance(a[2], P) else None
    ps = fmt_pieces(lit, eng, st, a[3:]) if lit is not None else None
    if ps is not None:
        n = st.nl(pieces_len(ps)); size = st.nl(as_int(eng, st, a[1]))
        if not eng.cond_split(st, c_ge(size - 1 - n)): return snprintf_common(eng, st, a[0], size, n, loc)
        p = eng.check_access(st, a[0], n + 1, loc, "formatted write")
        p = put_pieces(eng, st, p, ps, loc)
        eng.store(st, p, 1, ZERO, "i8", loc)
        return ret(st, n)
    mx = fmt_max(lit, inst.get("atys", [])[3:] if inst else [], eng, st, a[3:]) if lit is not None else None
    n = sym(new_sym("snprintf", mx[0], mx[1])) if mx is not None else eng.fresh_int("snprintf", 31)
    return snprintf_common(eng, st, a[0], a[1], n, loc)
def m_sprintf(eng, st, inst, a):
    loc = loc_of(inst)
    lit = cstr_lit(eng, st, st.res(a[1])) if isinstance(a[1], P) else None
    ps = fmt_pieces(lit, eng, st, a[2:]) if lit is not None else None
    if ps is not None:
        n = st.nl(pieces_len(ps))
        p = eng.check_access(st, a[0], n + 1, loc, "formatted write")
        p = put_pieces(eng, st, p, ps, loc)
        eng.store(st, p, 1, ZERO, "i8", loc)
        return ret(st, n)
    mx = fmt_max(lit, inst.get("atys", [])[2:], eng, st, a[2:]) if lit is not None else None
    n = sym(new_sym("sprintf", mx[0], mx[1])) if mx else eng.fresh_int("sprintf", 31)
    p = eng.check_access(st, a[0], n + 1, loc_of(inst), "sprintf")
    if eng.cond_split(st, c_ge(n - 1)): eng.havoc_range(st, p, n, loc_of(inst), "fmt")
    eng.store(st, p + n, 1, ZERO, "i8", loc_of(inst))
    return ret(st, n)
def text_at(eng, st, reg, off, n):
    """the printed number that starts at off in a region (and has not been overwritten in its first n bytes), or None"""
    for e in reg.entries:
        eo = st.nl(e[1]); el = e[2]
        if e[0] == "h" and eo == off:
            return e if isinstance(e[3], tuple) and e[3][0] == "num" else None
        if el is not None and st.store.ge0(st.nl(off - eo - el)): continue
        if st.store.ge0(st.nl(eo - off - (ONE if n is None else n))): continue
        if e[0] == "c" and st.store.ge0(st.nl(off - eo)) and (n is None or st.store.ge0(st.nl(eo + el - off - n))):
            return text_at(eng, st, e[3], st.nl(e[5] + off - eo), n)
        return None
    return None
def w_number(eng, st, inst, a):
    """length of the text at a[0] if that is the value a[2] printed with the format a[1] ("u", "x", "016x", ...), else 0"""
    lit = cstr_lit(eng, st, st.res(a[1]))
    ps = fmt_pieces(b"%" + lit, eng, st, [a[2]], padded=False)
    p = st.res(a[0])
    x = ps[0]
    if x[0] == "lit":
        c = {"d": "u", "i": "u", "x": "x", "X": "X", "o": "o"}.get(lit.decode()[-1], "u")
        e = text_at(eng, st, eng.region(st, p.base, loc_of(inst)), st.nl(p.off), None)
        if e is not None:
            g = e[3]
            if g[1:3] == (c, None) and eng.cond_split(st, c_eq(g[4] - a[2])): return ret(st, e[2] if isinstance(e[2], Lin) else L(e[2]))
        for i, c in enumerate(x[1]):
            v = eng.load(st, p + i, 1, "i8", loc_of(inst))
            if not (isinstance(v, Lin) and eng.cond_split(st, c_eq(v - c))): return ret(st, ZERO)
        return ret(st, L(len(x[1])))
    p = eng.check_access(st, p, x[2], loc_of(inst), "read")
    off = st.nl(p.off)
    e = text_at(eng, st, eng.region(st, p.base, loc_of(inst)), off, x[2])
    if e is None:
        if st.nl(x[1][4]).t: return ret(st, ZERO)
        x = fmt_pieces(b"%" + lit, eng, st, [a[2]])[0]
        for i, c in enumerate(x[1]):
            v = eng.load(st, p + i, 1, "i8", loc_of(inst))
            if not (isinstance(v, Lin) and eng.cond_split(st, c_eq(v - c))): return ret(st, ZERO)
        return ret(st, L(len(x[1])))
    g = e[3]
    same = g[1:4] == x[1][1:4] and eng.cond_split(st, c_eq(g[4] - x[1][4]))
    return ret(st, x[2] if same else ZERO)
def fmt_max(lit, tys, eng, st, args):
    """(min,max) output length of a printf format literal when bounded, else None"""
    import re
    lo = hi = 0; pos = 0; ai = 0
    for m in re.finditer(rb"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])", lit):
        lo += m.start() - pos; hi += m.start() - pos
        pos = m.end()
        flags, wd, prec, mod, cv = m.groups()
        if cv == b"%": lo += 1; hi += 1; continue
        if wd == b"*" or prec == b"*": return None
        bits = {b"hh": 8, b"h": 16, b"l": 64, b"ll": 64, b"z": 64, b"j": 64, b"t": 64}.get(mod, 32)
        wdn = int(wd) if wd else 0
        v = args[ai] if ai < len(args) else None
        ai += 1
        if cv in b"duxXo":
            mxv = (1 << bits) - 1
            vhi = None
            if isinstance(v, Lin):
                a, b = st.store.interval(v)
                if b is not None: vhi = b
                if mod in (b"hh", b"h") and (vhi is None or vhi > mxv): vhi = mxv
            if vhi is None or vhi > mxv: vhi = mxv
            if cv == b"d":
                if vhi < (1 << (bits - 1)): w = len(str(vhi))
                else: w = len(str(1 << (bits - 1))) + 1
            elif cv == b"u": w = len(str(vhi))
            elif cv in b"xX": w = len("%x" % vhi)
            else: w = len("%o" % vhi)
            if b"#" in flags: w += 2
            lo += max(1, wdn); hi += max(w, wdn)
        elif cv == b"c": lo += max(1, wdn); hi += max(1, wdn)
        elif cv == b"s":
            if isinstance(v, P):
                n = strlen_of(eng, st, v, None)
                a, b = st.store.interval(n) if n is not None else (None, None)
                if b is None or b > 1 << 20: return None
                lo += max(wdn, a or 0); hi += max(wdn, b)
            else: return None
        elif cv == b"p": lo += 1; hi += 20
        else: return None
    lo += len(lit) - pos; hi += len(lit) - pos
    return lo, hi

# ---------------------------------------------------------------- errno & misc
def errno_ptr(st):
    b = ("h", "errno")
    if b not in st.mem: st.mem[b] = Reg("lazy", L(4), True, (), "errno")
    return P(b)
def set_errno(eng, st, v=None):
    p = errno_ptr(st)
    e = v if v is not None else sym(new_sym("errno", 1, 4095))
    st.mem[p.base] = Reg("lazy", L(4), True, (("w", ZERO, 4, e, "i32"),), "errno")
    return e
def m_errno(eng, st, inst, a): return ret(st, errno_ptr(st))
def m_noret(eng, st, inst, a): return []
def m_strerror(eng, st, inst, a): return ret(st, cstr_region(eng, st, "strerror"))
def m_fresh(ty, name=None):
    def f(eng, st, inst, a):
        t = inst["ty"] if inst and "ty" in inst else ty
        return ret(st, eng.fresh_of(st, t, name or "ext") if "id" in (inst or {}) else None)
    return f
def m_nop(eng, st, inst, a): return ret(st)
def m_id(eng, st, inst, a): return ret(st, a[0])
def m_assert_fail(eng, st, inst, a):
    if getattr(eng, "report_asserts", False):
        eng.report("assert", "assertion can fail", st, loc_of(inst))
    return []
def m_threadlocal(eng, st, inst, a): return ret(st, a[0])

def m_bswap(eng, st, inst, a):
    w = int(inst["ty"][1:])
    v = as_int(eng, st, a[0])
    b = bits_of(st, v, w)
    return ret(st, from_bits(st, [x for k in range(w // 8 - 1, -1, -1) for x in b[8 * k:8 * k + 8]]))
def m_overflow(eng, st, inst, a):
    """__builtin_{add,sub,mul}_overflow"""
    from .engine import split_agg
    _, kind, _, _, ty = inst["callee"][1].split(".")
    w = int(ty[1:]); x, y = as_int(eng, st, a[0]), as_int(eng, st, a[1])
    if kind[0] == "s": x, y = eng.signed(st, x, w), eng.signed(st, y, w); lo, hi = -(1 << w - 1), (1 << w - 1) - 1
    else: lo, hi = 0, (1 << w) - 1
    r = x + y if kind[1:] == "add" else x - y if kind[1:] == "sub" else x * y
    r = st.nl(r)
    if not eng.cond_split(st, c_ge(r - lo)) or not eng.cond_split(st, c_ge(L(hi) - r)):
        return ret(st, (eng.fresh_int("overflow", w), ONE))
    return ret(st, (eng.unsign(st, r, w) if kind[0] == "s" else r, ZERO))
def m_abs(eng, st, inst, a):
    w = int(inst["ty"][1:])
    v = eng.signed(st, as_int(eng, st, a[0]), w)
    return ret(st, v if eng.cond_split(st, c_ge(v)) else -v)
CTYPE = {"isdigit": ["09"], "isxdigit": ["09", "AF", "af"], "isalpha": ["AZ", "az"], "isalnum": ["09", "AZ", "az"], "isupper": ["AZ"], "islower": ["az"],
         "isspace": ["\t\r", "  "], "isblank": ["\t\t", "  "], "isprint": [" ~"], "isgraph": ["!~"], "iscntrl": ["\0\x1f", "\x7f\x7f"], "ispunct": ["!/", ":@", "[`", "{~"]}
def m_ctype(ranges):
    """the C locale's"""
    def f(eng, st, inst, a):
        v = as_int(eng, st, a[0])
        for lo, hi in ranges:
            if lo == hi:
                if eng.cond_split(st, c_eq(v - ord(lo))): return ret(st, ONE)
            elif eng.cond_split(st, c_ge(v - ord(lo))) and eng.cond_split(st, c_ge(L(ord(hi)) - v)): return ret(st, ONE)
        return ret(st, ZERO)
    return f
def m_case(lo, hi, d):
    def f(eng, st, inst, a):
        v = as_int(eng, st, a[0])
        if eng.cond_split(st, c_ge(v - ord(lo))) and eng.cond_split(st, c_ge(L(ord(hi)) - v)): return ret(st, v + d)
        return ret(st, v)
    return f

BASE_HOOKS = {
    "llvm.memcpy*": m_memcpy, "llvm.memmove*": m_memcpy, "memcpy": m_memcpy_apart, "memmove": m_memcpy,
    "llvm.memset*": m_memset, "memset": m_memset, "memcmp": m_memcmp, "bcmp": m_memcmp,
    "strlen": m_strlen, "strcmp": m_strcmp, "strchr": m_strchr, "strrchr": m_strchr, "strncpy": m_strncpy,
    "strnlen": m_strnlen, "strcpy": m_strcpy(False), "stpcpy": m_strcpy(True), "strcat": m_strcat,
    "mempcpy": m_mempcpy, "strchrnul": m_strchrnul, "memchr": m_memchr, "strncmp": m_strncmp,
    "malloc": m_malloc, "calloc": m_calloc, "realloc": m_realloc, "free": m_free,
    "llvm.va_start": m_va_start, "llvm.va_end": m_va_end, "llvm.va_copy": m_va_copy,
    "vsnprintf": m_vsnprintf, "snprintf": m_snprintf, "sprintf": m_sprintf,
    "__errno_location": m_errno, "abort": m_noret, "exit": m_noret, "_exit": m_noret,
    "__assert_fail": m_assert_fail, "strerror": m_strerror,
    "llvm.lifetime*": m_nop, "llvm.stacksave*": m_fresh("ptr"), "llvm.stackrestore*": m_nop,
    "llvm.expect*": m_id, "llvm.threadlocal.address*": m_threadlocal,
    "llvm.bswap*": m_bswap, "llvm.abs*": m_abs, "abs": m_abs, "labs": m_abs, "toupper": m_case("a", "z", -32), "tolower": m_case("A", "Z", 32),
    "llvm.assume": m_nop, "sched_yield": m_fresh("i32"), "usleep": m_fresh("i32"),
    "printf": m_fresh("i32"), "fprintf": m_fresh("i32"), "fputs": m_fresh("i32"), "puts": m_fresh("i32"),
    "putchar": m_fresh("i32"), "fputc": m_fresh("i32"),
}

for _k, _r in CTYPE.items(): BASE_HOOKS[_k] = m_ctype(_r)
for _k in ("uadd", "usub", "umul", "sadd", "ssub", "smul"): BASE_HOOKS["llvm.%s.with.overflow*" % _k] = m_overflow

# ---------------------------------------------------------------- witness intrinsics
def lit_arg(eng, st, p):
    b = cstr_lit(eng, st, st.res(p))
    return b.decode() if b is not None else "?"
def w_assume(eng, st, inst, a):
    c = a[0]
    if isinstance(c, Lin):
        return [(s, None) for s in st.assume(eng, c_ne(c))]
    return ret(st)
def w_check(eng, st, inst, a):
    lab = lit_arg(eng, st, a[1])
    eng.obligation("check:" + lab)
    c = a[0]
    if c is UNDEF:
        eng.report("check", "%s (value is uninitialised)" % lab, st, loc_of(inst)); return []
    d = st.decide(c_ne(c))
    if d is None: raise NeedSplit(c_ne(c))
    if d: return ret(st)
    eng.report("check", lab, st, loc_of(inst))
    return []
def w_object(eng, st, inst, a):
    eng.hid += 1
    nm = lit_arg(eng, st, a[1])
    b = ("h", "%s#%d" % (nm, eng.hid))
    st.mem[b] = Reg("lazy", a[0], True, (), "obj")
    return ret(st, P(b))
def w_heapobj(eng, st, inst, a):
    """an object obtained earlier from the cork allocator, unknown contents"""
    eng.hid += 1
    nm = lit_arg(eng, st, a[1])
    b = ("h", "%s#%d" % (nm, eng.hid))
    st.mem[b] = Reg("lazy", a[0], True, (), ("heap", "cork"))
    return ret(st, P(b))
def w_cstr(eng, st, inst, a):
    return ret(st, cstr_region(eng, st, lit_arg(eng, st, a[0])))
def w_nd(w):
    def f(eng, st, inst, a): return ret(st, eng.fresh_int(lit_arg(eng, st, a[0]), w))
    return f
def leaves(l, out, seen):
    """the symbols that a term is computed from"""
    for m, _ in l.t:
        for x in m:
            if x in seen: continue
            seen.add(x)
            k = SYMS[x].key
            if k is None: out.add(x)
            else: key_leaves(k, out, seen)
def key_leaves(k, out, seen):
    if isinstance(k, Lin): leaves(k, out, seen)
    elif isinstance(k, (tuple, list)):
        for y in k: key_leaves(y, out, seen)
def w_depends(eng, st, inst, a):
    """can the value a[0] depend on the input a[1]?  (is it computed from it, or has the path been chosen by it)"""
    v = st.nl(as_int(eng, st, a[0])); x = st.nl(as_int(eng, st, a[1]))
    if not x.t: return ret(st, ONE)
    want = x.syms(); have = set()
    leaves(v, have, set())
    for q in list(st.store.ineqs) + list(st.store.neqs):
        if q.syms() & want: return ret(st, ONE)
    return ret(st, ONE if want <= have else ZERO)
def w_ndptr(eng, st, inst, a): return ret(st, eng.fresh_ptr(st, lit_arg(eng, st, a[0])))
def w_ndcb(eng, st, inst, a): return ret(st, eng.fresh_ptr(st, lit_arg(eng, st, a[0]), nonnull=True))
def w_alive(eng, st, inst, a):
    p = st.res(a[0])
    r = st.mem.get(p.base)
    return ret(st, ONE if (r is None or r.alive) else ZERO)
def w_size(eng, st, inst, a):
    p = st.res(a[0])
    r = st.mem.get(p.base)
    if r is None or r.size is None: return ret(st, eng.fresh_int("objsize", 63))
    return ret(st, r.size)
def w_same(eng, st, inst, a):
    p, q = st.res(a[0]), st.res(a[1])
    return ret(st, ONE if p.base == q.base else ZERO)
def gkey(eng, st, a): return ("u", lit_arg(eng, st, a))
def w_gset(eng, st, inst, a):
    v = st.nl(a[1])
    st.ghost[gkey(eng, st, a[0])] = v.c if not v.t else v
    return ret(st)
def w_gget(eng, st, inst, a):
    v = st.ghost.get(gkey(eng, st, a[0]), 0)
    return ret(st, L(v) if isinstance(v, int) else v)
def w_unreach(eng, st, inst, a):
    lab = lit_arg(eng, st, a[0])
    eng.obligation("check:" + lab)
    eng.report("check", lab, st, loc_of(inst)); return []
def w_tainted(eng, st, inst, a): return ret(st)
def w_eqbytes(eng, st, inst, a):
    """do the n bytes at p equal the n bytes at q?  (structural comparison of the two logs)"""
    p, q, n = a[0], a[1], st.nl(a[2])
    return ret(st, ONE if same_bytes(eng, st, p, q, n, loc_of(inst)) else ZERO)
def same_bytes(eng, st, p, q, n, loc):
    """pick an arbitrary byte index and compare (universal generalisation)"""
    if st.decide(c_ge(n - 1)) is None: raise NeedSplit(c_ge(n - 1))
    if not st.decide(c_ge(n - 1)): return True
    key = ("byteidx", st.res(p), st.res(q), n)
    k = keyed_sym(key, "k", 0, 1 << 62)
    st.store.add_ge0(n - 1 - sym(k))
    x = eng.load(st, st.res(p) + sym(k), 1, "i8", loc)
    y = eng.load(st, st.res(q) + sym(k), 1, "i8", loc)
    if isinstance(x, Lin) and isinstance(y, Lin):
        return eng.cond_split(st, c_eq(x - y))
    return x == y
def w_fresh_contents(eng, st, inst, a):
    eng.havoc_region(st, st.res(a[0]).base); return ret(st)
def w_havoc_range(eng, st, inst, a):
    n = st.nl(as_int(eng, st, a[1]))
    p = eng.check_access(st, a[0], n, loc_of(inst), "write")
    eng.havoc_range(st, p, n, loc_of(inst), "any")
    return ret(st)
def reachable(eng, st, roots):
    seen = set(); todo = []
    def add(v):
        if isinstance(v, P):
            v = st.res(v)
            if v.base not in seen: seen.add(v.base); todo.append(v.base)
        elif isinstance(v, Lin):
            for s in v.syms():
                k = SYMS[s].key
                if k and k[0] == "addr": add(P(k[1]))
        elif isinstance(v, tuple):
            for x in v: add(x)
    for r in roots: add(r)
    while todo:
        b = todo.pop()
        r = st.mem.get(b)
        if r is None: continue
        for e in r.entries:
            if e[0] == "w": add(e[3])
            elif e[0] == "c":
                for x in e[3].entries:
                    if x[0] == "w": add(x[3])
    return seen
def w_leaks(eng, st, inst, a):
    """every live allocator object must be reachable from the given pointers (NULL-terminated)"""
    roots = [x for x in a if isinstance(x, P)]
    seen = reachable(eng, st, roots)
    for b, r in list(st.mem.items()):
        if b[0] == "h" and r.alive and isinstance(r.tag, tuple) and r.tag[0] == "heap" and b not in seen:
            eng.report("leak", "object %s is neither freed nor reachable any more" % b[1].split("#")[0], st, loc_of(inst))
    eng.obligation("leak")
    return ret(st)
def w_dump(eng, st, inst, a):
    import sys
    print("DUMP", a, [st.res(x) if isinstance(x, P) else x for x in a], file=sys.stderr)
    for b, r in st.mem.items():
        if r.kind != "const": print("   ", b, r, file=sys.stderr)
    print("   ", st.store, "pf", {SYMS[k].name: v for k, v in st.pf.items()}, "pne", st.pne, st.ghost, file=sys.stderr)
    return ret(st)

# ---- shared cells (thread-modular rely/guarantee) -------------------------
# st.ghost["shared"] : tuple of (base, off, kind).  kind "count": a reference
# count other threads may change at any time, never below the references this
# thread owns.
def shared_at(st, p):
    sh = st.ghost.get("shared")
    if not sh or not isinstance(p, P): return None
    p = st.res(p)
    for b, o, k in sh:
        if p.base == b and p.off == o: return b, o, k
    return None
def w_shared_count(eng, st, inst, a):
    p = st.res(a[0])
    st.ghost["shared"] = st.ghost.get("shared", ()) + ((p.base, p.off, "count"),)
    return ret(st)
def w_shared_list(eng, st, inst, a):
    """head of a linked list other threads push to as well; a[1]: offset of the link inside an element"""
    p = st.res(a[0])
    st.ghost["shared"] = st.ghost.get("shared", ()) + ((p.base, p.off, ("list", st.nl(a[1]).c)),)
    return ret(st)
def w_shared_counter(eng, st, inst, a):
    """a counter other threads increment as well"""
    p = st.res(a[0])
    st.ghost["shared"] = st.ghost.get("shared", ()) + ((p.base, p.off, "counter"),)
    return ret(st)
def w_shared_cell(eng, st, inst, a):
    """an integer or pointer (a[1] = 1) any thread may change at any time; ghosts say what this thread did to it:
    cell_writes (atomic steps that wrote), cell_old and cell_new (the value before and after the last of them), cell_seen (the last value observed)"""
    p = st.res(a[0])
    st.ghost["shared"] = st.ghost.get("shared", ()) + ((p.base, p.off, "cellp" if st.nl(a[1]).c else "cell"),)
    st.ghost[("u", "cell_writes")] = 0; st.ghost[("u", "cell_n")] = 0
    return ret(st)
def cell_value(eng, st, s, ty_size):
    n = ug(st, "cell_n")
    if s[2] == "cellp":
        v = P(("s", keyed_sym(("cellp", s[0], s[1], n), "cell%d" % n, None, None)), ZERO)
        return eng.ptr2int(st, v)
    return sym(keyed_sym(("cell", s[0], s[1], n), "cell%d" % n, 0, (1 << 8 * ty_size) - 1))
def cell_step(eng, st, s, old, new):
    st.ghost[("u", "cell_n")] = ug(st, "cell_n") + 1
    st.ghost[("u", "cell_seen")] = old
    if new is not None:
        st.ghost[("u", "cell_writes")] = ug(st, "cell_writes") + 1
        st.ghost[("u", "cell_old")] = old; st.ghost[("u", "cell_new")] = new
def sh_load(eng, st, inst, p):
    s = shared_at(st, p)
    if s is None: return None
    if s[2] in ("cell", "cellp"):
        v = cell_value(eng, st, s, inst["size"])
        cell_step(eng, st, s, v, None)
        return v if s[2] == "cell" or inst["ty"] != "ptr" else eng.int2ptr(st, v)
    if s[2] == "counter": return eng.fresh_int("counter", 8 * inst["size"])
    if isinstance(s[2], tuple):
        return P(("s", new_sym("other", None, None)), ZERO)
    if s[2] == "count":
        eng.check_access(st, st.res(p), inst["size"], inst.get("loc"), "read")
        x = eng.fresh_int("count", 8 * inst["size"])
        st.store.add_ge0(x - 1); st.store.add_ge0(L((1 << 31) - 2) - x)
        return x
    return once_load(eng, st, inst, p, s)
def sh_store(eng, st, inst, p, v):
    s = shared_at(st, p)
    if s is None: return False
    if s[2] == "oncetid" and ug(st, "once_mine"):
        st.ghost[("u", "once_tid")] = st.nl(v); return True
    eng.report("data-race", "a cell shared between threads is written by a plain store", st, inst.get("loc"))
    raise PathEnd()
def sh_rmw(eng, st, inst, p, v):
    s = shared_at(st, p)
    if s is None: return None
    b, off, kind = s
    if kind in ("cell", "cellp"):
        old = cell_value(eng, st, s, inst["size"])
        x = eng.ptr2int(st, v) if isinstance(v, P) else v
        k = inst["rmw"]
        if k not in ("add", "sub", "xchg"): raise Incomplete("atomic %s" % k)
        new = x if k == "xchg" else eng.binop(st, k, old, x, 8 * inst["size"], {"loc": inst.get("loc")})
        cell_step(eng, st, s, old, st.nl(new))
        return old if isinstance(v, Lin) else eng.int2ptr(st, old)
    if kind == "counter":
        n = ug(st, "counter_rmw")
        d = st.nl(v)
        if inst["rmw"] != "add" or d.t or d.c < 1:
            eng.report("protocol", "shared counter changed by %s %r" % (inst["rmw"], d), st, inst.get("loc")); raise PathEnd()
        old = sym(keyed_sym(("counter", b, off, n), "counter", 0, (1 << 32) - 2))
        st.ghost[("u", "counter_rmw")] = n + 1
        st.ghost[("u", "counter_old")] = old
        return old
    if kind != "count":
        eng.report("protocol", "unexpected read-modify-write of a once barrier", st, inst.get("loc")); raise PathEnd()
    eng.check_access(st, st.res(p), inst["size"], inst.get("loc"), "write")
    n = st.ghost.get(("u", "rmw_count"), 0)
    old = sym(keyed_sym(("rmwold", b, off, n), "count", 1, (1 << 31) - 2))
    v = st.nl(v)
    if v.t: raise Incomplete("symbolic reference count change")
    d = v.c if v.c < 1 << 31 else v.c - (1 << 32)
    if inst["rmw"] == "sub": d = -d
    elif inst["rmw"] != "add":
        eng.report("protocol", "reference count changed by %s" % inst["rmw"], st, inst.get("loc")); raise PathEnd()
    last = eng.cond_split(st, c_eq(old - 1)) if d < 0 else False
    st.ghost[("u", "rmw_count")] = n + 1
    st.ghost[("u", "rmw_delta")] = L(d % (1 << 64))
    st.ghost[("u", "rmw_last")] = int(bool(last))
    st.ghost["shared"] = tuple(x for x in st.ghost["shared"] if x[:2] != (b, off)) if d < 0 and last else st.ghost["shared"]
    if d < 0 and last:      # we hold the only reference left: nobody else touches the object
        q = st.res(p); eng.store(st, q, inst["size"], ZERO, inst["ty"], inst.get("loc"))
    elif d < 0:             # another thread may release the object from here on
        r = eng.region(st, b, inst.get("loc"))
        eng.free_region(st, b)
    return old

# kind "once": (barrier 0 -> 1 -> 2); other threads may advance it unless this
# thread owns the initialisation.  ghosts: (u,once_val) lower bound of the
# barrier, (u,once_mine) 1 once this thread claimed it, (u,once_calls) number of
# initialisations run by this thread, (u,once_tid) 1 when this thread stored its id.
def w_once(eng, st, inst, a):
    p, q = st.res(a[0]), st.res(a[1])
    st.ghost["shared"] = st.ghost.get("shared", ()) + ((p.base, p.off, "once"), (q.base, q.off, "oncetid"))
    st.ghost[("u", "once_val")] = ZERO
    for k in ("once_mine", "once_calls", "once_done", "once_published"): st.ghost[("u", k)] = 0
    return ret(st)
def ug(st, k): return st.ghost.get(("u", k), 0)
def once_load(eng, st, inst, p, s):
    if s[2] == "oncetid":
        if ug(st, "once_mine"): return st.ghost.get(("u", "once_tid"), ZERO)
        x = eng.fresh_int("tid", 32)       # some other thread's id (or none)
        me = st.ghost.get(("u", "my_tid"))
        if me is not None: st.store.add_ne0(x - me)
        return x
    if ug(st, "once_published"): return L(2)
    if ug(st, "once_mine"):
        if ug(st, "once_selfcas"):
            eng.report("deadlock", "a thread waits for the initialisation it is running itself", st, inst.get("loc")); raise PathEnd()
        return ONE
    lo = st.ghost[("u", "once_val")]
    x = eng.fresh_int("barrier", 32)
    st.store.add_ge0(x - lo); st.store.add_ge0(L(2) - x)
    st.ghost[("u", "once_val")] = x
    return x
def sh_cas(eng, st, inst, p, e, n):
    s = shared_at(st, p)
    if s is None: return None
    if isinstance(s[2], tuple): return list_cas(eng, st, inst, s, e, n)
    if s[2] in ("cell", "cellp"):
        old = cell_value(eng, st, s, inst["size"] if "size" in inst else 8)
        ei, ni = [eng.ptr2int(st, x) if isinstance(x, P) else st.nl(x) for x in (e, n)]
        if s[2] == "cellp": ok = eng.cond_split(st, eng.icmp(st, "eq", eng.int2ptr(st, old), e if isinstance(e, P) else eng.int2ptr(st, ei), "ptr", inst.get("loc")))
        else: ok = eng.cond_split(st, c_eq(old - ei))
        if ok: old = ei
        cell_step(eng, st, s, old, ni if ok else None)
        return (old if isinstance(e, Lin) else eng.int2ptr(st, old), ONE if ok else ZERO)
    if s[2] != "once":
        eng.report("protocol", "unexpected compare-and-swap of a shared cell", st, inst.get("loc")); raise PathEnd()
    k = ug(st, "once_cas")
    if ug(st, "once_published"): x = L(2)
    elif ug(st, "once_mine"): x = ONE
    else:
        x = sym(keyed_sym(("oncecas", s[0], s[1], k), "barrier", 0, 2))
        st.store.add_ge0(x - st.ghost[("u", "once_val")])
    ok = eng.cond_split(st, c_eq(x - st.nl(e)))
    if ok:
        n = st.nl(n)
        if eng.cond_split(st, c_eq(x)) and n == ONE: st.ghost[("u", "once_mine")] = 1
        elif x == ONE and n == L(2) and ug(st, "once_mine"):
            if not ug(st, "once_done"):
                eng.report("protocol", "the once barrier is released before the initialisation has finished", st, inst.get("loc")); raise PathEnd()
            st.ghost[("u", "once_published")] = 1
        else:
            eng.report("protocol", "the once barrier is moved from %r to %r by a thread that may not do so" % (x, n), st, inst.get("loc")); raise PathEnd()
    st.ghost[("u", "once_cas")] = k + 1
    if not ok:
        st.ghost[("u", "once_val")] = x
        if ug(st, "once_mine"): st.ghost[("u", "once_selfcas")] = 1
    return (x, ONE if ok else ZERO)

def fresh_ptr(eng, st, key):
    return P(("s", keyed_sym(("rely",) + key, "other", None, None)), ZERO)
def list_cas(eng, st, inst, s, e, n):
    """publishing an element: it must point to the head that is replaced"""
    asint = isinstance(e, Lin)
    e0, e, n = e, eng.int2ptr(st, e), eng.int2ptr(st, n)
    q = st.res(e)
    if st.ghost.get(("u", "lost_to")) == q:
        eng.report("protocol", "retries with the head value that was already replaced", st, inst.get("loc")); raise PathEnd()
    okv = sym(keyed_sym(("headcas", s[0], s[1], q), "cas_wins", 0, 1))
    won = eng.cond_split(st, c_eq(okv - 1))
    if not won:
        x = fresh_ptr(eng, st, ("headlost", q))
        if eng.cond_split(st, eng.icmp(st, "eq", x, e, "ptr", inst.get("loc"))): raise PathEnd()   # the head had changed
        st.ghost[("u", "lost_to")] = q
        return (eng.ptr2int(st, x) if asint else x, ZERO)
    st.ghost.pop(("u", "lost_to"), None)
    if st.res(n).base == NB:
        eng.report("protocol", "a list shared between threads is cut off", st, inst.get("loc")); raise PathEnd()
    q = eng.load(st, st.res(n) + s[2][1], 8, "ptr", inst.get("loc"))
    if st.res(q) != st.res(e):
        eng.report("protocol", "an element is published that does not point to the list's old head", st, inst.get("loc")); raise PathEnd()
    st.ghost[("u", "pushed")] = ug(st, "pushed") + 1
    return (e0, ONE)

def tls_globals(eng): return [("g", n) for n, g in eng.mod.globals.items() if g["tls"] and not g["decl"]]
def w_tls_enter(eng, st, inst, a):
    """continue in a newly started thread: fresh thread-local storage"""
    bs = tls_globals(eng)
    saved = tuple((b, st.mem.get(b)) for b in bs)
    st.ghost["tls"] = st.ghost.get("tls", ()) + (saved,)
    old = eng.fresh_globals; eng.fresh_globals = True
    for b in bs:
        st.mem.pop(b, None); eng.region(st, b, loc_of(inst))
    eng.fresh_globals = old
    return ret(st)
def w_tls_leave(eng, st, inst, a):
    """back in the thread that was running before"""
    stack = st.ghost["tls"]
    for b, r in stack[-1]:
        if r is None: st.mem.pop(b, None)
        else: st.mem[b] = r
    st.ghost["tls"] = stack[:-1]
    return ret(st)

def w_partition(eng, st, inst, a):
    """states are kept apart in loops by the value of this integer, when it is known"""
    p = st.res(a[0]); n = st.nl(a[1]); off = st.nl(p.off)
    assert not n.t and not off.t
    k = (p.base, off.c, n.c)
    old = st.ghost.get("sa:part", ())
    if k not in old: st.ghost["sa:part"] = old + (k,)
    return [(st, None)]
WITNESS_HOOKS = {
    "sa_tls_enter": w_tls_enter, "sa_tls_leave": w_tls_leave,
    "sa_shared_list": w_shared_list, "sa_number": w_number, "sa_shared_counter": w_shared_counter,
    "sa_once": w_once, "sa_shared_cell": w_shared_cell,
    "sa_shared_count": w_shared_count,
    "sa_assume": w_assume, "sa_check": w_check, "sa_object": w_object, "sa_heapobj": w_heapobj, "sa_cstr": w_cstr,
    "sa_u64": w_nd(64), "sa_u32": w_nd(32), "sa_u16": w_nd(16), "sa_u8": w_nd(8), "sa_ptr": w_ndptr, "sa_cb": w_ndcb,
    "sa_alive": w_alive, "sa_objsize": w_size, "sa_same_object": w_same,
    "sa_depends": w_depends, "sa_gset": w_gset, "sa_gget": w_gget, "sa_unreachable": w_unreach, "sa_eqbytes": w_eqbytes,
    "sa_havoc": w_fresh_contents, "sa_havoc_range": w_havoc_range, "sa_partition": w_partition, "sa_leaks": w_leaks, "sa_dump": w_dump,
}

def install(eng, *tables):
    eng.pre_hooks.update({"load": sh_load, "store": sh_store, "rmw": sh_rmw, "cmpxchg": sh_cas})
    # a libc function the witness defines itself is analysed, not modelled
    own = {n for n in BASE_HOOKS if n in eng.mod.funcs and not eng.mod.funcs[n].decl}
    eng.hooks.update({n: h for n, h in BASE_HOOKS.items() if n not in own})
    for t in (WITNESS_HOOKS,) + tables: eng.hooks.update(t)
    eng.exact_strlen = "strlen" in own           # and then the allocation model measures strings byte by byte, too
    if "vsnprintf" in own:
        for n in [n for n in eng.hooks if n.startswith("cork_buffer_") and "printf" in n]: del eng.hooks[n]
