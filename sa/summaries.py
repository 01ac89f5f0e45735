"""Function summaries used in place of bodies when analysing *clients*.  Every
summary here is discharged by a witness entry that analyses the real body
against the same contract (see the `discharged_by` table), so the composition
is assume-guarantee: the discharging entries are part of every check that uses
the summary."""
from .engine import *
from .lin import *
from .models import (ret, loc_of, strlen_of, consume_va, fmt_len, as_int, alloc_size_ok)

def buf_fields(eng):
    m = eng.mod
    return m.field("cork_buffer", "buf"), m.field("cork_buffer", "size"), m.field("cork_buffer", "allocated_size")

def buf_load(eng, st, b, loc):
    fb, fs, fa = buf_fields(eng)
    p = eng.load(st, b + fb, 8, "ptr", loc)
    p = eng.use(st, p, loc)
    if isinstance(p, Lin): p = eng.int2ptr(st, p)
    p = st.res(p)
    if p.base[0] == "s" and st.pf.get(p.base[1]) is None: raise NeedSplit(("peq", P(p.base), NULLP))
    size = eng.use(st, eng.load(st, b + fs, 8, "i64", loc), loc)
    return p, size

def buf_replace(eng, st, b, oldp, entries, newsize, loc):
    """install a fresh data area holding `entries` and a terminator"""
    fb, fs, fa = buf_fields(eng)
    alloc = eng.fresh_int("alloc", 63)
    alloc_size_ok(eng, st, alloc)
    st.store.add_ge0(alloc - newsize - 1)
    if st.store.bottom: raise PathEnd()
    if oldp.base != NB:
        r = eng.region(st, oldp.base, loc)
        if not r.alive:
            eng.report("use-after-free", "buffer data area %r was already freed" % (oldp,), st, loc); raise PathEnd()
        eng.free_region(st, oldp.base)
    q = eng.heap(st, alloc, "undef", ("heap", "cork"), "data")
    st.mem[q.base] = Reg("undef", alloc, True, (("w", newsize, 1, ZERO, "i8"),) + tuple(entries), ("heap", "cork"), True)
    eng.store(st, b + fb, 8, q, "ptr", loc)
    eng.store(st, b + fs, 8, newsize, "i64", loc)
    eng.store(st, b + fa, 8, alloc, "i64", loc)

def ln(st, n):
    n = st.nl(n)
    return n.c if not n.t else n

def old_entry(eng, st, p, size, loc):
    if p.base == NB or st.nl(size) == ZERO: return []
    return [("c", ZERO, ln(st, size), eng.region(st, p.base, loc), p.base, st.nl(p.off))]

def do_append(eng, st, b, src, n, loc, keep=True):
    n = st.nl(as_int(eng, st, n))
    ent = []
    b = eng.check_access(st, b, 1, loc, "write")
    p, size = buf_load(eng, st, b, loc)
    if not keep: size = ZERO
    if n != ZERO:
        if src is not None:
            if not eng.cond_split(st, c_ge(n - 1)): n = ZERO
        if src is not None and n != ZERO:
            s = eng.check_access(st, src, n, loc, "read")
            ent.append(("c", st.nl(size), ln(st, n), eng.region(st, s.base, loc), s.base, st.nl(s.off)))
        elif n != ZERO:
            eng.hid += 1
            ent.append(("h", st.nl(size), ln(st, n), "fmt%d" % eng.hid))
    if keep: ent += old_entry(eng, st, p, size, loc)
    buf_replace(eng, st, b, p, ent, st.nl(size + n), loc)
    return ret(st)

def s_append(eng, st, inst, a): return do_append(eng, st, a[0], a[1], a[2], loc_of(inst))
def s_set(eng, st, inst, a): return do_append(eng, st, a[0], a[1], a[2], loc_of(inst), False)
def s_append_string(eng, st, inst, a):
    n = strlen_of(eng, st, a[1], loc_of(inst))
    if n is None: n = eng.fresh_int("strlen", 32)
    return do_append(eng, st, a[0], a[1], n, loc_of(inst))
def s_set_string(eng, st, inst, a):
    n = strlen_of(eng, st, a[1], loc_of(inst))
    if n is None: n = eng.fresh_int("strlen", 32)
    return do_append(eng, st, a[0], a[1], n, loc_of(inst), False)
def s_vprintf(keep):
    def f(eng, st, inst, a):
        eng.check_access(st, a[1], 1, loc_of(inst), "read")
        vid = consume_va(eng, st, a[2], loc_of(inst))
        return do_append(eng, st, a[0], None, fmt_len(eng, st, a[1], vid), loc_of(inst), keep)
    return f
def s_printf(keep):
    def f(eng, st, inst, a):
        eng.check_access(st, a[1], 1, loc_of(inst), "read")
        eng.hid += 1
        return do_append(eng, st, a[0], None, sym(new_sym("fmtlen%d" % eng.hid, 0, (1 << 31) - 2)), loc_of(inst), keep)
    return f

def s_printf_exact(eng, st, inst, a):
    """append_printf with the text written out piece by piece where the format allows"""
    from .models import fmt_pieces, pieces_len
    loc = loc_of(inst)
    eng.check_access(st, a[1], 1, loc, "read")
    lit = cstr_lit(eng, st, st.res(a[1]))
    ps = fmt_pieces(lit, eng, st, a[2:]) if lit is not None else None
    if ps is None: return s_printf(True)(eng, st, inst, a)
    b = eng.check_access(st, a[0], 1, loc, "write")
    p, size = buf_load(eng, st, b, loc)
    ent = []; off = st.nl(size)
    for x in ps:
        if x[0] == "str" and x[2].t and not eng.cond_split(st, c_ge(x[2] - 1)): continue
        if x[0] == "lit":
            for c in x[1]: ent.append(("w", off, 1, L(c), "i8")); off = off + 1
        elif x[0] == "num":
            ent.append(("h", off, ln(st, x[2]), x[1])); off = off + x[2]
        elif st.nl(x[2]) != ZERO:
            s = eng.check_access(st, x[1], x[2], loc, "read")
            ent.append(("c", off, ln(st, x[2]), eng.region(st, s.base, loc), s.base, st.nl(s.off))); off = off + x[2]
        off = st.nl(off)
    buf_replace(eng, st, b, p, ent + old_entry(eng, st, p, size, loc), off, loc)
    return ret(st)

def s_indent(eng, st, inst, a):
    loc = loc_of(inst)
    n = st.nl(as_int(eng, st, a[1]))
    b = eng.check_access(st, a[0], 1, loc, "write")
    p, size = buf_load(eng, st, b, loc)
    buf_replace(eng, st, b, p, [("f", st.nl(size), ln(st, n), L(32))] + old_entry(eng, st, p, size, loc), st.nl(size + n), loc)
    return ret(st)

def s_display(eng, st, inst, a):
    """display helpers: append some unknown text; read all `length` source bytes"""
    loc = loc_of(inst)
    n = st.nl(as_int(eng, st, a[3]))
    if n != ZERO and eng.cond_split(st, c_ge(n - 1)): eng.check_access(st, a[2], n, loc, "read")
    eng.hid += 1
    return do_append(eng, st, a[0], None, sym(new_sym("display%d" % eng.hid, 0, 1 << 62)), loc)

DISPLAY = {"cork_buffer_append_hex_dump": s_display, "cork_buffer_append_multiline": s_display}

BUFFER = {
    "cork_buffer_append_indent": s_indent,
    "cork_buffer_append": s_append, "cork_buffer_set": s_set,
    "cork_buffer_append_string": s_append_string, "cork_buffer_set_string": s_set_string,
    "cork_buffer_append_vprintf": s_vprintf(True), "cork_buffer_vprintf": s_vprintf(False),
    "cork_buffer_append_printf": s_printf(True), "cork_buffer_printf": s_printf(False),
}

BUFFER_EXACT = dict(BUFFER)
BUFFER_EXACT["cork_buffer_append_printf"] = s_printf_exact
for n in ("cork_buffer_append_string", "cork_buffer_set_string"): del BUFFER_EXACT[n]     # strlen + append

# ---------------------------------------------------------------- thread error indicator (contract decided by w_error.c)
ERR = ("u", "err")
def err_set(eng, st, code):
    code = st.nl(as_int(eng, st, code))
    st.ghost[ERR] = code
def s_err_printf(eng, st, inst, a):
    eng.check_access(st, a[1], 1, loc_of(inst), "read")
    lit = cstr_lit(eng, st, st.res(a[1]))
    for x, ty in zip(conv_args(lit), a[2:]):
        if x == "s": eng.check_access(st, ty, 1, loc_of(inst), "read of a %s argument")
    err_set(eng, st, a[0]); return ret(st)
def conv_args(lit):
    import re
    if lit is None: return []
    return [m.group(1).decode() for m in re.finditer(rb"%[-+ #0]*[\d.]*(?:hh|h|ll|l|z|j|t)?([a-zA-Z])", lit)]
def s_err_string(eng, st, inst, a):
    eng.check_access(st, a[1], 1, loc_of(inst), "read"); err_set(eng, st, a[0]); return ret(st)
def s_err_vprintf(eng, st, inst, a):
    consume_va(eng, st, a[2], loc_of(inst)); err_set(eng, st, a[0]); return ret(st)
def s_err_old(eng, st, inst, a):
    eng.check_access(st, a[2], 1, loc_of(inst), "read")
    err_set(eng, st, eng.binop(st, "add", as_int(eng, st, a[0]), as_int(eng, st, a[1]), 32, {"loc": loc_of(inst)})); return ret(st)
def s_err_sys(eng, st, inst, a):
    p = errno_ptr(st)
    v = eng.use(st, eng.load(st, p, 4, "i32", None), None)
    err_set(eng, st, v); return ret(st)
def s_err_sys_x(eng, st, inst, a): err_set(eng, st, a[0]); return ret(st)
def s_err_unknown(eng, st, inst, a): err_set(eng, st, L(0x8cb0880d)); return ret(st)
def s_err_prefix(eng, st, inst, a):
    eng.check_access(st, a[0], 1, loc_of(inst), "read"); return ret(st)
def s_err_prefixv(eng, st, inst, a):
    consume_va(eng, st, a[1], loc_of(inst)); return ret(st)
def err_get(st):
    v = st.ghost.get(ERR, 0)
    return L(v) if isinstance(v, int) else st.nl(v)
def s_err_occ(eng, st, inst, a): return ret(st, ("ne", err_get(st)))
def s_err_code(eng, st, inst, a): return ret(st, err_get(st))
def s_err_msg(eng, st, inst, a): return ret(st, cstr_region(eng, st, "error_message"))
def s_err_clear(eng, st, inst, a): st.ghost[ERR] = ZERO; return ret(st)
from .models import errno_ptr, cstr_lit, cstr_region
ERROR = {
    "cork_error_set_printf": s_err_printf, "cork_error_set_string": s_err_string, "cork_error_set_vprintf": s_err_vprintf,
    "cork_error_set": s_err_old, "cork_system_error_set": s_err_sys, "cork_system_error_set_explicit": s_err_sys_x,
    "cork_unknown_error_set_": s_err_unknown, "cork_error_prefix_printf": s_err_prefix, "cork_error_prefix_string": s_err_prefix,
    "cork_error_prefix": s_err_prefix, "cork_error_prefix_vprintf": s_err_prefixv,
    "cork_error_occurred": s_err_occ, "cork_error_code": s_err_code, "cork_error_message": s_err_msg, "cork_error_clear": s_err_clear,
}
