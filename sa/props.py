"""Property registry: which rules decide which property."""
REGISTRY = {}
def prop(id, explanation, **kw):
    def deco(f):
        REGISTRY[id] = dict(run=f, explanation=explanation, **kw)
        return f
    return deco

CONTRACT = ("Abstract interpretation of the current tree's LLVM IR: every listed witness entry is analysed from an abstract "
            "entry state (any object satisfying the representation invariant, any argument) over all paths, loops by fixpoint; ")
ASSUME = ["object sizes and counts are below 2^61", "distinct unknown pointers do not alias unless a witness makes them equal",
          "libc functions behave as modelled in sa/models.py"]

def W(*names): return ["W_" + n for n in names]

@prop("C01", CONTRACT + "buffer operations keep bounds, size accounting, terminator and content.", assumptions=ASSUME)
def c01(ctx):
    core = ["new", "init", "done", "free", "ensure_size", "clear", "truncate", "set", "append", "copy", "string", "literal",
            "printf", "indent", "equal", "stream_consumer"]
    ctx.witness("w_buffer.c", ["W_buffer_" + x for x in core])
    ctx.witness("w_buffer.c", ["W_buffer_c_string", "W_buffer_multiline", "W_buffer_hex_dump"], summaries=["BUFFER"])
    ctx.witness("w_buffer.c", ["W_buffer_binary"], summaries=["BUFFER", "DISPLAY"])

@prop("C40", CONTRACT + "the text is compared byte by byte with what it must be, and literals are read back.", assumptions=ASSUME + ["contents of up to three bytes (each of the 256 values alone, edge cases in pairs and triples), dumps of up to 49 bytes with fixed content", "snprintf as in the C standard"])
def c40(ctx):
    ctx.witness("w_text.c", summaries=["ERROR", "BUFFER_EXACT"], unroll=("300",))

@prop("C02", CONTRACT + "slice operations stay in range, fail cleanly and keep their bytes alive.", assumptions=ASSUME)
def c02(ctx):
    ctx.witness("w_slice.c", [n for n in ctx.entries("w_slice.c") if not n.endswith("_shared")], summaries=["ERROR"])

@prop("C03", CONTRACT + "reference counts release exactly once, also with other threads changing the count between any two accesses.", assumptions=ASSUME)
def c03(ctx):
    ctx.witness("w_slice.c", [n for n in ctx.entries("w_slice.c") if n.startswith("W_managed")], summaries=["ERROR"])

@prop("C04", CONTRACT + "array growth, element lifecycle, removal and copying.", assumptions=ASSUME + ["element sizes 1, 8 and 24; order of elements after a removal with callback, and pointer/string arrays, on shapes of up to four elements"])
def c04(ctx):
    ex = ("ds/array.c",)
    n = ctx.entries("w_array.c", exclude=ex)
    ctx.witness("w_array.c", [x for x in n if "_shape_" not in x], exclude=ex)
    ctx.witness("w_array.c", [x for x in n if "_shape_" in x], exclude=ex, unroll=("16",))

@prop("C05", CONTRACT + "list surgery and traversal, on lists whose element identity, order and sentinel are tracked by shape.", assumptions=ASSUME + ["list shapes up to four elements per list are enumerated; list operations other than traversal touch at most the neighbours of the elements they are given"])
def c05(ctx):
    ctx.witness("w_list.c", unroll=("8",))

HASH_STRUCT = W("hash_new", "hash_new_default", "hash_ensure_size", "hash_put_grow", "hash_free", "hash_user_data", "hash_clear", "hash_default_compare", "hash_string_compare", "hash_same_pointer")
@prop("C06", CONTRACT + "hash table creation, growth, release and the structural invariant.", assumptions=ASSUME + ["hash table shapes up to three entries over eight bins; hash values and equality verdicts are arbitrary"])
def c06(ctx):
    ctx.witness("w_hash.c", HASH_STRUCT, exclude=("ds/hash-table.c",), unroll=("70",), summaries=["ERROR"])
    ctx.witness("w_strhash.c", exclude=("ds/hash-table.c",), unroll=("70",))

@prop("C07", CONTRACT + "lookup, insert, replace, delete and iteration against the map/insertion-order view.", assumptions=ASSUME + ["hash table shapes up to three entries over eight bins; hash values and equality verdicts are arbitrary"])
def c07(ctx):
    ex = dict(exclude=("ds/hash-table.c",), unroll=("70",), summaries=["ERROR"])
    ctx.witness("w_hash.c", [n for n in ctx.entries("w_hash.c", exclude=("ds/hash-table.c",)) if n not in HASH_STRUCT or n in W("hash_put_grow", "hash_ensure_size", "hash_default_compare", "hash_string_compare", "hash_same_pointer")], **ex)
    ctx.witness("w_strhash.c", exclude=("ds/hash-table.c",), unroll=("70",))

@prop("C08", CONTRACT + "ring buffer operations against the FIFO view (k-th oldest element, for an arbitrary k).", assumptions=ASSUME)
def c08(ctx):
    ctx.witness("w_small.c", [n for n in ctx.entries("w_small.c") if n.startswith("W_ring")])

@prop("C09", CONTRACT + "bitset operations for every index, byte and neighbour bit.", assumptions=ASSUME)
def c09(ctx):
    ctx.witness("w_small.c", [n for n in ctx.entries("w_small.c") if n.startswith("W_bitset")])

@prop("C10", CONTRACT + "memory pool operations from any pool state.", assumptions=ASSUME)
def c10(ctx):
    n = ctx.entries("w_mempool.c", exclude=["core/mempool.c"])
    concrete = ("W_mempool_history", "W_mempool_aligned", "W_mempool_typed")
    ctx.witness("w_mempool.c", [x for x in n if x not in concrete], exclude=["core/mempool.c"])
    ctx.witness("w_mempool.c", concrete, exclude=["core/mempool.c"], unroll=("80",))

@prop("C11", CONTRACT + "the allocation interface on top of an allocator that may fail at every request, from the program's initial state.", assumptions=ASSUME + ["element sizes 1, 8, 24 and 4096 for calloc"])
def c11(ctx):
    ctx.witness("w_alloc.c", exclude=("core/allocator.c",), summaries=[], alloc=False, fresh_globals=True, unroll=("8",))

@prop("C14", CONTRACT + "each operation on the error condition, from any state of it.", assumptions=ASSUME)
def c14(ctx):
    ex = ("core/error.c",)
    n = ctx.entries("w_error.c", exclude=ex)
    ctx.witness("w_error.c", [x for x in n if x != "W_error_release"], exclude=ex, summaries=[])
    ctx.witness("w_error.c", ["W_error_release"], exclude=ex, summaries=[], unroll=("8",))
    rules.shared_state(ctx, program(ctx), ("cork_error_", "cork_system_error_"))

@prop("C23", CONTRACT + "a thread's life from creation to join, for every outcome of its body and of the system calls, run early or late; identifiers with other threads drawing from the same counter at any time.", assumptions=ASSUME + ["fewer than 2^32 threads per process"])
def c23(ctx):
    ctx.witness("w_thread.c", exclude=("pthreads/thread.c", "core/error.c"), summaries=[], unroll=("60",))
    rules.shared_state(ctx, program(ctx), ("cork_thread_", "cork_current_thread"))

@prop("C41", CONTRACT + "each checking macro in a function of its kind, around calls that succeed or fail with any value and system calls that are interrupted or fail with any error.", assumptions=ASSUME + ["a system call is interrupted up to two times"])
def c41(ctx):
    ctx.witness("w_macros.c", summaries=["ERROR"], unroll=("10",))

@prop("C42", CONTRACT + "each atomic operation on a variable that other threads may change to anything between any two accesses.", assumptions=ASSUME)
def c42(ctx):
    ctx.witness("w_atomics.c", summaries=[])

@prop("C43", CONTRACT + "each operation on every pair of identifiers of a family; members at several offsets.", assumptions=ASSUME + ["six identifiers, three of them with the same name"])
def c43(ctx):
    ctx.witness("w_uid.c", fresh_globals=True, unroll=("20",))

@prop("C24", CONTRACT + "one-time initialisation, with other threads advancing the barrier between any two accesses.", assumptions=ASSUME)
def c24(ctx):
    ctx.witness("w_once.c")

IP_TEXT = dict(summaries=["ERROR"], unroll=("40",))
@prop("C15", CONTRACT + "every graph of three objects and every subset of references kept, histories of operations on two objects, and more candidates than are buffered.", assumptions=ASSUME + ["three objects with five (thorough: six) slots, references from outside dropped in a fixed order; histories of two (three) further operations on two objects; a thread's objects are used by that thread only", "callbacks do what the interface asks of them and nothing else"])
def c15(ctx):
    spec = dict(summaries=[], fresh_globals=True, depth=12)
    n = ctx.entries("w_gc.c", **spec)
    graphs = [x for x in n if "_graph_" in x]
    ctx.witness("w_gc.c", graphs + ["W_gc_at_once", "W_gc_history"], unroll=("100",), **spec)
    ctx.witness("w_gc.c", ["W_gc_many"], unroll=("1500",), **spec)
    rules.shared_state(ctx, program(ctx), ("cork_gc_",))
    if ctx.tier == "thorough":
        ctx.witness("w_gc.c", graphs, unroll=("100",), defines=("SLOTS=4",), max_steps=12000000, **spec)
        ctx.witness("w_gc.c", ["W_gc_history_more"], unroll=("100",), max_steps=12000000, **spec)

@prop("C16", CONTRACT + "text is read against a reference grammar: strings of any length for memory safety and error reporting, enumerated families of strings (any characters) for language and value.", assumptions=ASSUME + ["language and value: all IPv4 strings up to 8 characters and all four-octet strings of up to four digits per octet; all IPv6 strings up to four characters, and families with a fixed beginning and up to three further arbitrary characters"])
def c16(ctx):
    n = ctx.entries("w_ipparse.c")
    ctx.witness("w_ipparse.c", ["W_ipv4_any", "W_ipv6_any"], summaries=["ERROR"], unroll=("0",))
    if ctx.tier == "thorough": ctx.witness("w_ipparse.c", ["W_ip_any"], summaries=["ERROR"], unroll=("0",))
    ctx.witness("w_ipparse.c", [x for x in n if not x.endswith("_any")], **IP_TEXT)

@prop("C17", CONTRACT + "equality and network alignment of every address and prefix length, against bit-level definitions.", assumptions=ASSUME)
def c17(ctx):
    ctx.witness("w_ip.c", W("ip_equal", "ipv4_network", "ipv6_network", "ip_network_version"), unroll=("140",))

@prop("C18", CONTRACT + "the text of every address, with printf modelled exactly.", assumptions=ASSUME)
def c18(ctx):
    ctx.witness("w_ip.c", W("ipv4_print", "ipv6_print", "ip_print"), unroll=("40",))

@prop("C19", CONTRACT + "every byte of every value through each byte-order macro, as little-endian and as big-endian hosts get them (128-bit values: little-endian hosts, both implementations).", assumptions=ASSUME)
def c19(ctx):
    n = [x for x in ctx.entries("w_bytes.c") if x.startswith("W_bytes")]
    ctx.witness("w_bytes.c", n + ["W_u128_halves"], unroll=("200",))
    ctx.witness("w_bytes.c", ["W_u128_halves"], unroll=("200",), defines=NO_INT128)
    ctx.witness("w_bigendian.c", unroll=("200",))

NO_INT128 = ("CORK_CONFIG_HAVE_GCC_INT128=0", "CORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0")
@prop("C20", CONTRACT + "128-bit arithmetic against 64-bit halves, in the native and in the portable configuration.", assumptions=ASSUME)
def c20(ctx):
    n = [x for x in ctx.entries("w_bytes.c") if x.startswith("W_u128")]
    ctx.witness("w_bytes.c", n, unroll=("200",))
    ctx.witness("w_bytes.c", n, unroll=("200",), defines=NO_INT128)
    ctx.witness("w_bytes.c", [x for x in ctx.entries("w_bytes.c") if x.startswith("W_decimal")], unroll=("200",))

@prop("C21", CONTRACT + "each hash of every content up to 36 bytes against the published function or against itself, mixing operations compared by congruence; memory accesses for every length.", assumptions=ASSUME + ["contents of up to 36 bytes for values; lengths below 2^31", "the 64-bit little-endian configuration"])
def c21(ctx):
    n = ctx.entries("w_hashval.c")
    ctx.witness("w_hashval.c", [x for x in n if "_any" in x], mix=True)
    ctx.witness("w_hashval.c", [x for x in n if "_any" not in x], mix=True, unroll=("60",))

@prop("C22", CONTRACT + "construction, access and formatting of timestamps, with printf modelled exactly.", assumptions=ASSUME + ["format strings: one or three specifiers with every character as the letter, widths of up to two digits, up to three other characters", "years 1969 to 2106, as the C library's gmtime_r and localtime_r return for 32-bit seconds"])
def c22(ctx):
    ctx.witness("w_time.c", summaries=["ERROR", "BUFFER_EXACT"], unroll=("40",))

@prop("C25", CONTRACT + "a system model (descriptor table, pipes whose content arrives in any pieces, children that finish at any time, every system call interrupted or failing).  One arbitrary position of one of the output streams stands for all.", assumptions=ASSUME + ["groups of two subprocesses; a child that is signalled has ended when it is waited for"])
def c25(ctx):
    slow = ("W_sub_wait_both_out", "W_sub_wait_both_err", "W_group_wait_out")
    spec = dict(summaries=["ERROR"], unroll=("1",), join=True, concrete=3)
    n = ctx.entries("w_subprocess.c", **spec)
    ctx.witness("w_subprocess.c", [x for x in n if x not in slow], **spec)
    if ctx.tier == "thorough": ctx.witness("w_subprocess.c", slow, **dict(spec, budget=800, per_config=800, max_steps=12000000))

@prop("C26", CONTRACT + "building, reading and running program specifications of up to three parameters with arbitrary text, with chdir and execvp interrupted or failing.", assumptions=ASSUME + ["strings of one character, up to three parameters"])
def c26(ctx):
    ctx.witness("w_exec.c", summaries=["ERROR", "BUFFER_EXACT"], unroll=("100",))

@prop("C27", CONTRACT + "every history of up to three operations on an environment of three names with arbitrary values; the process's environment and its copies from any state.", assumptions=ASSUME + ["three names, values of up to one character (several for copies), and one name and value of 300 and more characters"])
def c27(ctx):
    ctx.witness("w_env.c", summaries=["ERROR", "BUFFER_EXACT"], unroll=("1000",))

FILES_SPEC = dict(summaries=["ERROR", "BUFFER_EXACT"], fresh_globals=True)
@prop("C28", CONTRACT + "each operation on paths and lists of paths, the standard directories for any environment; getcwd interrupted or failing.", assumptions=ASSUME + ["paths and variables of up to three or four characters, each of them arbitrary, and paths of 300 characters with a slash at three places", "a path is not appended to itself"])
def c28(ctx):
    ctx.witness("w_path.c", unroll=("1000",), **FILES_SPEC)

@prop("C29", CONTRACT + "a model of a directory tree; every callback with any result and every system call interrupted or failing.", assumptions=ASSUME + ["trees: one entry with any name of up to two characters below any of six spellings of the root; two levels of up to two entries (three in one level) with fixed names", "closedir is not interrupted; readdir leaves errno alone when it succeeds"])
def c29(ctx):
    slow = ["W_walk_wide", "W_walk_tree_slash"]
    n = ctx.entries("w_walk.c", **FILES_SPEC)
    ctx.witness("w_walk.c", [x for x in n if x not in slow], unroll=("20",), **FILES_SPEC)
    if ctx.tier == "thorough": ctx.witness("w_walk.c", slow, unroll=("20",), **FILES_SPEC)

@prop("C30", CONTRACT + "registration of up to three functions with any priorities, one of them possibly by another while the process terminates.", assumptions=ASSUME + ["up to three functions, names of one character"])
def c30(ctx):
    ctx.witness("w_cleanup.c", summaries=[], fresh_globals=True, unroll=("10",))

@prop("C32", CONTRACT + "every command line over eight words in a tree of commands of two levels, with any number of options consumed; what is printed is compared with the documented text.", assumptions=ASSUME + ["command lines of up to two words after the program's name (three for three choices of the first); one run per process", "names and descriptions are fixed strings"])
def c32(ctx):
    ctx.witness("w_cli.c", summaries=["ERROR", "BUFFER_EXACT"], fresh_globals=True, unroll=("200",))
    ctx.witness("w_help.c", summaries=["ERROR", "BUFFER_EXACT"], fresh_globals=True, unroll=("200",))

@prop("C39", CONTRACT + "a model of a small file tree; every system call interrupted or failing, every kind of file.", assumptions=ASSUME + ["trees of up to four nodes in two levels, paths of up to three components in eleven spellings, lists of up to three paths", "nobody else changes the tree meanwhile", "stat is not interrupted; readdir leaves errno alone when it succeeds"])
def c39(ctx):
    ctx.witness("w_files.c", unroll=("100",), **FILES_SPEC)

@prop("C31", CONTRACT + "stream producers over a file that returns any amount, is interrupted and fails at any point, with a consumer that may refuse; stream consumers over a file that takes any amount.  One arbitrary position stands for all.", assumptions=ASSUME)
def c31(ctx):
    ctx.witness("w_stream.c", summaries=["ERROR"], unroll=("1",))

# ---- rules over the whole program
from . import rules
RULE = "Whole-program rules over the current tree's LLVM IR (every library source and every inline function of the headers): "
def program(ctx, defines=()):
    prog = rules.Program(defines)
    ctx.cov["units"] += [u for u in prog.info["units"] if u not in ctx.cov["units"]]
    ctx.cov["functions"].update(n for n in prog.funcs)
    return prog
@prop("C12", RULE + "who may call the C library's memory functions.", assumptions=["function pointers point to functions whose address is taken in the program"])
def c12(ctx): rules.who_allocates(ctx, program(ctx))

@prop("C33", RULE + "declarations of the headers against definitions, visibility, self-contained headers and static assertions.", assumptions=["the compilers and the target of this system"])
def c33(ctx): rules.interface(ctx, program(ctx))

@prop("C35", RULE + "which shared variables ordinary functions touch, and how.", assumptions=["functions about the whole process are those named in sa/rules.py (PROCESS)", "strerror and getenv are reentrant as in the GNU C library"])
def c35(ctx):
    rules.shared_state(ctx, program(ctx))
    rules.shared_state(ctx, program(ctx, ("CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS=0",)))

@prop("C38", RULE + "typestate of argument lists.", assumptions=["argument lists aren't stored into other objects"])
def c38(ctx): rules.va_rule(ctx, program(ctx))
