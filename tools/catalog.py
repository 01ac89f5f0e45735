"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run tools/gen.py)."""
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over.split(), "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if "state" in kw: d["anchors"]["state"] = [{"name": a, "meaning": m, "where": w} for a, m, w in kw["state"]]
    if "observe" in kw: d["anchors"]["observe_at"] = kw["observe"]
    d["_tech"] = kw.get("tech", CONTRACT); d["_note"] = kw.get("note", NOTE)
    P.append(d)
CONTRACT = "abstract interpretation of LLVM IR against contract witnesses"
IRQ = "dataflow / effect queries over the type-checked program's LLVM IR"
NOTE = ("Sound over the analysed entry states up to the stated assumptions (sizes below 2^61, distinct symbolic pointers "
        "do not alias unless the witness says so, libc behaves as modelled); trusts clang's front end and the analyser.")

p("C01", "Growable byte buffers never lose, corrupt or overrun their content",
  "Whatever the sequence of set, append, copy, truncate, clear, indent, formatted and escaped-text operations, every byte a "
  "buffer reports as content is the byte the operations put there, and no operation touches memory outside the storage the "
  "buffer owns. A non-empty buffer's content is always followed by a NUL byte that is not counted in its size, the size grows "
  "by exactly the number of bytes added (0 after clear; never larger after truncate), and requested space is really available afterwards. "
  "Releasing a buffer releases its storage exactly once.",
  "inputs histories", "every buffer state satisfying the representation invariant, every source region, length and format result",
  "Tests exercise a handful of short strings; growth, terminator and overlap conditions depend on every combination of size, allocated size and added length.",
  ["src/libcork/ds/buffer.c", "include/libcork/ds/buffer.h"],
  [("geometric growth", "src/libcork/ds/buffer.c:cork_buffer_ensure_size_int"), ("append / terminator", "src/libcork/ds/buffer.c:cork_buffer_append"),
   ("two-pass formatting", "src/libcork/ds/buffer.c:cork_buffer_append_vprintf")],
  state=[("size < allocated_size", "content plus terminator fits the storage", "include/libcork/ds/buffer.h")], observe=["cork_buffer_*"])
p("C02", "Slices only ever expose bytes inside the range they were given",
  "Copying or sub-slicing a slice or managed buffer succeeds exactly when offset and length select a range inside it (for every 64-bit value, "
  "including sums that wrap), and then the result covers exactly that range; an out-of-range request, or one on an empty (NULL) slice, fails with an error set, takes no "
  "reference and leaves the source unchanged. Advancing or re-slicing in place keeps the slice inside its original range, equality is byte equality, and "
  "a copy keeps its bytes readable until it is itself finished, even after the source is.",
  "inputs histories", "every slice, every 64-bit offset and length, every implementation behind the slice interface",
  "Tests use short in-range offsets; the wrap-around and boundary cases and the lifetime of every copy quantify over all 64-bit values and orders of release.",
  ["src/libcork/ds/slice.c", "include/libcork/ds/slice.h", "src/libcork/ds/managed-buffer.c"],
  [("range check", "src/libcork/ds/slice.c:cork_slice_copy"), ("copy-once slices", "src/libcork/ds/slice.c:cork_copy_once_slice__copy"),
   ("managed slices", "src/libcork/ds/managed-buffer.c:cork_managed_buffer_slice")], observe=["cork_slice_*"])
p("C03", "A shared managed buffer is released exactly once, by its last user",
  "A managed buffer's content stays readable as long as one reference or slice of it remains, and its release function runs exactly once, when the last "
  "reference is dropped, with the buffer's own bytes and size. This holds when several threads take and drop references at the same time: counts are only "
  "changed by atomic operations, and only the thread that drops the last reference releases.",
  "histories schedules", "every reference count, every interleaving of reference operations of other threads",
  "The tests are single-threaded and drop references in one order.",
  ["src/libcork/ds/managed-buffer.c", "include/libcork/ds/managed-buffer.h", "include/libcork/threads/atomics.h"],
  [("atomic reference count", "src/libcork/ds/managed-buffer.c:cork_managed_buffer_unref")], observe=["release callbacks"],
  tech="thread-modular abstract interpretation of LLVM IR (shared-cell typestate)")
p("C04", "Resizable arrays keep their elements and run element callbacks as promised",
  "Growing an array keeps every existing element, never shrinks and provides the requested room; appending adds exactly one element at the end. An element's storage is initialised the first time it comes into use and reused afterwards, "
  "removing or clearing calls the remove callback once for each removed live element and for no other, and finalising calls the done callback once for each element ever initialised, then releases storage and callback data exactly once (callback data also when it is replaced). "
  "After removing a range the remaining elements keep their order. Copying yields the same elements in the same order and stops at the first failing copy callback with its error; pointer and string arrays free each non-NULL element exactly once.",
  "inputs histories", "every number of live, initialised and allocated elements, every range, every combination of callbacks",
  "Tests use one element type with short append sequences; reuse after partial removal, callback combinations and growth boundaries are not sampled.",
  ["src/libcork/ds/array.c", "include/libcork/ds/array.h"],
  [("growth", "src/libcork/ds/array.c:cork_raw_array_ensure_size"), ("init/reuse", "src/libcork/ds/array.c:cork_raw_array_append"), ("removal", "src/libcork/ds/array.c:cork_raw_array_remove_range")],
  state=[("size <= initialized_count <= allocated_count", "live elements are initialised, initialised ones allocated", "src/libcork/ds/array.c")], observe=["cork_array_*", "element callbacks"])
p("C05", "Doubly-linked lists keep their order and stay consistent under any surgery",
  "After any insertion (head, tail, before, after), removal or splice of a list or sublist, each list contains exactly the elements the operation says, in the stated order, readable forwards and backwards; "
  "elements not involved keep their place, and a spliced-in list is left empty where documented. Size, emptiness, head and tail agree with the content. Traversals visit every element exactly once in order, "
  "remain correct when the current element is removed by the visitor (safe form), and a visitor's non-zero result stops the visit and is returned.",
  "inputs histories", "lists of 0 to 4 elements (list operations only touch the neighbours of the given elements), every position, every visitor verdict",
  "Tests add three elements in one order; every position and combination with empty lists is not sampled.",
  ["src/libcork/ds/dllist.c", "include/libcork/ds/dllist.h"],
  [("sentinel links", "include/libcork/ds/dllist.h"), ("visit", "src/libcork/ds/dllist.c:cork_dllist_visit")], observe=["cork_dllist_*"])
p("C06", "Hash tables stay consistent through growth, clearing and release",
  "A hash table starts empty with room for the requested number of entries, growing rehashes without losing, duplicating or reordering entries, keys are equal exactly when the configured comparison (identity, pointer or string) says so, "
  "and clearing or releasing a table releases each key, each value and the table's user data exactly once through the configured callbacks and no longer refers to them.",
  "inputs histories", "every table state of up to three entries, arbitrary hash values and equality verdicts, every requested size",
  "Tests use small integer or string tables with one growth; collision patterns and callback combinations are not sampled.",
  ["src/libcork/ds/hash-table.c", "include/libcork/ds/hash-table.h"],
  [("growth", "src/libcork/ds/hash-table.c:cork_hash_table_rehash"), ("release", "src/libcork/ds/hash-table.c:cork_hash_table_clear")], observe=["cork_hash_table_*", "free callbacks"])
p("C07", "Hash tables behave as maps that remember insertion order",
  "For every hash function (including one that collides always) a lookup finds exactly the entry whose key equals the given one; put, get-or-create and delete report truthfully whether the key was present, hand back the old key and value, "
  "change only that entry and keep the entry count right. Deleting releases the entry's key and value exactly once through the free callbacks that are set. Map and iteration visit every entry exactly once in insertion order, "
  "stop when told, and an entry deleted by the map function is removed and released while the rest stays intact.",
  "inputs histories", "every table state of up to three entries, arbitrary hash values, equality verdicts and visitor verdicts",
  "Tests use well-behaved hash functions; adversarial collisions and visitor decision sequences are not sampled.",
  ["src/libcork/ds/hash-table.c", "include/libcork/ds/hash-table.h"],
  [("bin search", "src/libcork/ds/hash-table.c:cork_hash_table_get_entry_hash"), ("map", "src/libcork/ds/hash-table.c:cork_hash_table_map")], observe=["cork_hash_table_*"])
p("C08", "Ring buffers are bounded FIFO queues",
  "A ring buffer hands elements back in exactly the order they were added, accepts an element if and only if it holds fewer than its capacity, and reports a failed add or an empty "
  "pop or peek without changing anything. Peek shows the element the next pop will return and removes nothing; no access ever leaves the storage, at any wrap position.",
  "inputs histories", "every capacity, fill level and wrap position",
  "Tests use one small capacity and a short sequence.",
  ["src/libcork/ds/ring-buffer.c", "include/libcork/ds/ring-buffer.h"],
  [("cyclic indices", "src/libcork/ds/ring-buffer.c:cork_ring_buffer_add")],
  state=[("read_index/write_index/size", "elements are read_index.. cyclically", "include/libcork/ds/ring-buffer.h")], observe=["cork_ring_buffer_*"])
p("C09", "Setting or reading one bit of a bitset affects only that bit",
  "A bitset of n bits has storage for every bit, all bits start off, and clearing turns all of them off. Setting bit i to a value makes reading bit i return it and "
  "changes no other bit, for every i below n; no access leaves the storage.",
  "inputs", "every bit count, every index, every prior content",
  "Tests set a sample of bits; isolation from every neighbour at every position is not sampled.",
  ["src/libcork/ds/bitset.c", "include/libcork/ds/bitset.h"],
  [("bit addressing", "include/libcork/ds/bitset.h:cork_bitset_get/set")], observe=["cork_bitset_*"])
p("C10", "Memory pools hand out disjoint, usable objects and release everything",
  "Every object a memory pool hands out lies inside a block of the pool, is at least as large as requested and overlaps no other object or bookkeeping, for every object and block size. "
  "Returned objects are reused with their content kept; the initialiser runs once per object when it is first carved and the finaliser once per free object when the pool is released, never in between. "
  "Releasing the pool, or replacing its user data, releases each block and each user data value exactly once.",
  "inputs histories", "every element and block size, every free-list and block-list state",
  "Tests use one element type with a block size that happens to fit.",
  ["src/libcork/core/mempool.c", "include/libcork/core/mempool.h"],
  [("block carving", "src/libcork/core/mempool.c:cork_mempool_new_block"), ("free list", "src/libcork/core/mempool.c:cork_mempool_free_object")],
  observe=["cork_mempool_*"])
p("C14", "The error condition says exactly what the last failing call recorded",
  "Each thread has its own error condition, initially none. Setting an error (formatted or plain text, by code or by class and number) replaces code and message; the message is the whole text, terminated, and an error has occurred exactly when the code is not 'none'. "
  "Clearing removes code and message. A prefix puts its text in front of the old message, which follows in full, and keeps the code. System errors carry the errno value in force, the built-in errors their own codes. "
  "A thread's record is created once, published for release without losing another thread's record, and all records with their text are released exactly once at exit, after which (in a cleanup function that runs later) there is no error until one is set.",
  "inputs histories schedules", "every prior error state (codes, message lengths, which of its two buffers holds the message), every text length, other threads publishing records at any moment",
  "Tests set a few short messages in one thread.",
  ["src/libcork/core/error.c", "include/libcork/core/error.h"],
  [("two-buffer prefixing", "src/libcork/core/error.c:cork_error_prefix_vprintf"), ("lock-free record list", "src/libcork/core/error.c:cork_error_get")],
  observe=["cork_error_*"])
p("C16", "IP address parsing accepts exactly valid text and yields its exact bytes",
  "Parsing an IPv4 address succeeds exactly for four dotted octets (one or more decimal digits each, value at most 255) and stores them in network order; parsing an IPv6 address succeeds exactly for RFC 4291 text (groups of one to four hex digits in either case, "
  "at most one '::', optionally a dotted quad as the last 32 bits; the choice of whether '::' may stand next to eight groups is left open) and stores the 128 bits in network order. The generic form recognises IPv4, then IPv6, and records the version. "
  "A failed parse returns an error with the error condition set and leaves a specific-version address unchanged; a successful one leaves no error set. No string makes the parser access memory outside the string and the address.",
  "inputs", "strings of any length and content for memory safety and error reporting; exhaustive families of strings for language and value (see DESIGN.md)",
  "Tests hold a list of good and bad addresses; the language and the exact value at every group position and digit are not sampled.",
  ["src/libcork/core/ip-address.c"],
  [("IPv4 state machine", "src/libcork/core/ip-address.c:cork_ipv4_parse"), ("IPv6 state machine", "src/libcork/core/ip-address.c:cork_ipv6_init")], observe=["cork_ipv4_init", "cork_ipv6_init", "cork_ip_init"])
p("C17", "IP addresses compare by all their bits and know valid networks exactly",
  "Two addresses are equal exactly when all their bits (and, for generic addresses, their versions) are equal. An address is a valid network for a prefix length exactly when the length is at most 32 (IPv4) or 128 (IPv6) "
  "and every bit after the prefix, counted from the most significant bit in network order, is zero; the generic form follows the address's version.",
  "inputs", "every address and every prefix length", "Tests sample a few networks; each of 2^32 or 2^128 addresses at each prefix length is out of reach.",
  ["src/libcork/core/ip-address.c", "include/libcork/core/net-addresses.h"],
  [("prefix masks", "src/libcork/core/ip-address.c:cork_ipv6_is_valid_network")], observe=["cork_ip*_equal", "cork_ip*_is_valid_network"])
p("C18", "Printing an IP address yields its canonical text within the documented length",
  "An IPv4 address prints as four dotted decimal octets. An IPv6 address prints as lower-case hexadecimal groups without leading zeroes, the first longest run of two or more zero groups written '::', and IPv4-compatible and IPv4-mapped "
  "addresses with a dotted quad at the end. The generic form prints by version. The text, with its terminator, stays within the documented string length.",
  "inputs", "every address (every pattern of zero groups and every group value)", "Tests print a handful of addresses; each zero-run pattern and group width is not sampled.",
  ["src/libcork/core/ip-address.c"],
  [("zero-run compression", "src/libcork/core/ip-address.c:cork_ipv6_to_raw_string")], observe=["cork_ip*_to_raw_string"])
p("C19", "Byte-order conversions reverse or keep exactly the right bytes",
  "Swapping reverses the bytes of a 16-, 32-, 64- or 128-bit value; converting to big or little endian yields the value stored in that order, converting back restores it, and the in-place forms change the variable to exactly what the value forms return. "
  "The macros accept any expression, evaluated for its value.",
  "inputs", "every value, every macro", "Tests use one constant per width.",
  ["include/libcork/core/byte-order.h"], [("swap macros", "include/libcork/core/byte-order.h")], observe=["CORK_SWAP_*", "CORK_*_TO_*"])
p("C20", "128-bit integers compute exactly, whatever the compiler offers",
  "Building a 128-bit integer from 32- or 64-bit parts and reading its parts agree on the order (most significant first); comparison, addition, subtraction (modulo 2^128) and shifts by less than 128 are exact, and byte-order conversion places every byte. "
  "The hexadecimal texts are exact: without leading zeroes, or all 32 digits; the decimal text has the right digits and no leading zeroes. This holds with the compiler's native type and with the portable implementation.",
  "inputs configurations", "every pair of values, every shift, both configurations; decimal text of numbers around changes of length", "Tests use random samples in the configuration of the build machine; the portable implementation is never built by them.",
  ["include/libcork/core/u128.h", "src/libcork/core/u128.c"], [("portable carries", "include/libcork/core/u128.h:cork_u128_add")], observe=["cork_u128_*"])
p("C11", "Allocation functions keep their contract over any custom allocator",
  "The guaranteed allocation functions never return NULL: they return memory of exactly the requested size (all zero for calloc) or do not return; the recoverable ones return NULL exactly when the underlying allocation fails. Reallocation keeps the common part of the content and "
  "releases the old memory exactly once; a failing recoverable reallocation leaves the old memory untouched, or releases it in the reallocf form. Duplicated strings are NUL-terminated copies of exactly the given bytes whose length can be asked for. An allocator instance's methods receive that instance and "
  "the given arguments, memory goes back to the allocator it came from with the size it was requested with (also for strings), and methods that are not supplied are derived from xmalloc and free. The debugging allocator aborts when memory is released with a different size, and never otherwise. "
  "User data of an instance is released once, when replaced or at process exit; instances are released at exit in reverse order of creation.",
  "inputs histories", "every size up to 2^61, content byte and count, every point at which the underlying allocation fails, every overridden or derived method",
  "Allocation failure never happens in the tests and only the default allocator is used with a few sizes.",
  ["src/libcork/core/allocator.c", "include/libcork/core/allocator.h"],
  [("default methods", "src/libcork/core/allocator.c:cork_alloc_new_alloc"), ("counted strings", "src/libcork/core/allocator.c:cork_alloc_strndup"), ("debug allocator", "src/libcork/core/allocator.c:cork_debug_alloc_new"), ("size-carrying release", "include/libcork/core/allocator.h:cork_alloc_free")],
  observe=["cork_alloc_*", "allocator methods"])
p("C22", "Timestamps keep their parts and are formatted as specified",
  "A timestamp built from seconds and a fraction in 2^-32 s, milli-, micro- or nanoseconds keeps the seconds, stores the fraction rounded down to 2^-32 s, and reads it back unchanged in the same unit; a fraction read in any of the units is the nearest representable one that is less than a second. The current time is that of the system clock. "
  "Formatting appends text to the buffer: %Y %m %d %H %M %S are the broken-down UTC or local time as zero-padded decimals (year 4 digits, others 2), %s the seconds, %<n>f the fraction rounded to n digits (1 to 9) padded with zeros, %% a percent sign, other characters themselves; "
  "any other specifier, an n outside 1 to 9, and a trailing % fail with an error set.",
  "inputs", "every seconds value, every fraction and calendar time; format strings of one and of three specifiers with every letter, widths up to two digits",
  "Tests format two instants with a few formats; rounding at the end of a second and rejected formats with particular widths do not occur.",
  ["src/libcork/core/timestamp.c", "include/libcork/core/timestamp.h"],
  [("specifier dispatch", "src/libcork/core/timestamp.c:cork_timestamp_format_parts"), ("unit conversion", "include/libcork/core/timestamp.h:cork_timestamp_gsec_to_units")],
  observe=["cork_timestamp_*"])
p("C23", "Threads run their body once, hand their error to join and have unique ids",
  "A thread runs its body exactly once after it is started, with its user data; a thread that is never started never runs. Joining waits for the body, returns success exactly when the body returned 0, and otherwise fails with the error the body set (code and message), or an unknown error if it set none; "
  "errors of the system calls are reported with their code. User data is released exactly once, never before the body has finished, and the thread object is released by join, or by free when it was not (successfully) started. Inside the body the current thread and its identifier are the thread's own. "
  "Every thread, created by the library or not, has an identifier that never changes, is never CORK_THREAD_NONE and is drawn by no other thread.",
  "inputs schedules", "every body result and error code, every failure of the system calls, body finished before start returns or only at join, other threads drawing identifiers between any two accesses",
  "Tests run a few well-behaved threads; failures of start and join, and concurrent first uses of the identifier, do not occur in them.",
  ["src/libcork/pthreads/thread.c", "include/libcork/threads/basics.h"],
  [("error hand-over", "src/libcork/pthreads/thread.c:cork_thread_join"), ("identifier counter", "src/libcork/pthreads/thread.c:cork_current_thread_get_id")],
  observe=["cork_thread_*", "cork_current_thread_*"], tech="thread-modular abstract interpretation of LLVM IR (shared-cell typestate)")
p("C24", "A one-time initialiser runs exactly once, before anyone gets past it",
  "When any number of threads reach the same one-time initialisation, exactly one of them runs the initialiser, and none of them continues past it before the initialiser has finished. "
  "With the recursive form, a thread that reaches the same barrier from inside its own initialiser continues without running it again and without waiting for itself.",
  "schedules", "any number of threads, every interleaving of barrier accesses (thread-modular)",
  "Tests run it single-threaded or with one lucky schedule.",
  ["include/libcork/threads/basics.h", "include/libcork/threads/atomics.h"],
  [("compare-and-swap barrier", "include/libcork/threads/basics.h:cork_once")], observe=["cork_once", "cork_once_recursive"],
  tech="thread-modular rely/guarantee abstract interpretation of LLVM IR")
p("C25", "Subprocesses deliver their output, are waited for and never leak",
  "Starting a subprocess creates a pipe for its standard input and one for every output that has a consumer, and forks: the child has the pipes as its standard streams (other streams are inherited), none of the parent's ends, runs its body once and exits with success exactly if the body does; the parent keeps its own ends only, reads them without ever blocking. If the system refuses any part of it, starting fails with the system's error and leaves no descriptor and no process behind. "
  "Draining and waiting hand everything the child writes to its consumer, in order, with exactly the first chunk marked, and announce each end once; waiting succeeds when the child has finished and its outputs have ended, with its exit status as the exit code. A failure (of the system or a consumer) is reported with an error and the child is terminated and waited for. Data given to the child's standard input is written completely and in order, or fails. "
  "Aborting terminates a running child. A group starts, drains, waits for and aborts all of its subprocesses; when one fails, all of them are terminated. Freeing releases descriptors, memory and user data exactly once.",
  "inputs fault_sequences schedules", "any amounts returned by read and write, interruption and failure of every system call, children finishing at any point, consumers refusing at any chunk; one subprocess with any consumers, groups of two",
  "Tests run a few well-behaved commands; system calls do not fail, consumers do not refuse, and output arrives in one piece.",
  ["src/libcork/posix/subprocess.c", "include/libcork/os/subprocess.h"],
  [("starting", "src/libcork/posix/subprocess.c:cork_subprocess_start"), ("reading output", "src/libcork/posix/subprocess.c:cork_read_pipe_read"), ("groups", "src/libcork/posix/subprocess.c:cork_subprocess_group_wait")],
  observe=["cork_subprocess_*", "cork_subprocess_group_*"], tech="abstract interpretation of LLVM IR over a system model (descriptor and child typestate)")
p("C26", "A program specification starts exactly the program it describes",
  "The program, parameters, environment and working directory of a specification are the ones last given to it, copied when given (later changes of the caller's strings do not matter): parameters in order, whether given singly, as a list or as an array (the list form puts the program first); the description is the program followed by every parameter but the first, separated by spaces. "
  "Running it enters the working directory if one was given, makes the environment the given one if there is one (and leaves the process's alone otherwise), and executes the program with exactly the parameters in order; interrupted system calls are retried, and a system call that fails stops it with the system's error and -1. "
  "Releasing the specification releases everything it owns once, including its environment.",
  "inputs fault_sequences", "every way to build it with up to three parameters of any character; interruption and failure of chdir and execvp",
  "Tests run a few fixed commands that start without failure in the current directory.",
  ["src/libcork/posix/exec.c", "include/libcork/os/subprocess.h"],
  [("parameters", "src/libcork/posix/exec.c:cork_exec_add_param"), ("running", "src/libcork/posix/exec.c:cork_exec_run")], observe=["cork_exec_*"])
p("C27", "An environment holds exactly the variables given to it",
  "After any sequence of additions (plain or formatted) and removals, a variable of an environment has the value last given to it, copied when given, and one that was never added or was removed since is not there; values are only ever changed by operations on their own name. Removing an absent variable does nothing. "
  "With a NULL environment the same operations act on the process's own environment, otherwise that is left alone. A copy of the process's environment has exactly its variables, with the value starting after the first '=' (entries without '=' are skipped); replacing the process's environment leaves exactly the given variables. "
  "Names and values are released exactly once.",
  "inputs histories", "every sequence of up to three operations over three names, any value; any state of the process's environment over those names",
  "Tests add and read a couple of variables; removal, replacement of a value and NULL environments with formatted values are not tested.",
  ["src/libcork/posix/env.c", "include/libcork/os/subprocess.h"],
  [("variables", "src/libcork/posix/env.c:cork_env_add_internal"), ("process environment", "src/libcork/posix/env.c:cork_env_replace_current")], observe=["cork_env_*"])
p("C31", "Streams deliver a file's bytes completely, in order and once",
  "Consuming a file (descriptor, FILE or path) hands its bytes to the consumer completely, in order, in non-empty chunks of which exactly the first is marked so, and then announces the end once; it succeeds exactly then. It stops at the first error of the file or of the consumer, fails with the error set (the file's errno for file errors), and never announces the end after an error. "
  "A consumer that writes to a file (descriptor, FILE or path) writes the given bytes completely and in order, or fails with the system's error. Interrupted system calls are retried; a partial write is continued. "
  "Files opened from a path are opened with the given flags and closed exactly once whatever happens; files of the caller stay open. Everything allocated is released.",
  "inputs fault_sequences", "files of any length returned in any pieces, interruption and failure of any call, refusal by the consumer at any chunk, writes of any size",
  "Tests stream small strings through files that never fail, never return short and are never interrupted.",
  ["src/libcork/ds/file-stream.c", "include/libcork/ds/stream.h"],
  [("producers", "src/libcork/ds/file-stream.c:cork_consume_fd"), ("consumers", "src/libcork/ds/file-stream.c:cork_fd_consumer_new")],
  observe=["cork_consume_*", "cork_*_consumer_new", "cork_stream_consumer_*"], tech="abstract interpretation of LLVM IR with ghost position (typestate of the file)")
p("C28", "Paths, path lists and the standard directories are computed exactly",
  "A path holds exactly the text last given to it, copied when given (NULL counts as empty) and never normalised; its string is never NULL. Clones and results of the functions that make a new path are independent of the original, which stays as it was. "
  "Appending or joining puts the second path after the first with a '/' between them exactly if the first is non-empty and does not end in one; an empty or NULL second path changes nothing and one that starts with '/' replaces the first. The base name is what follows the last '/' (everything if there is none); the directory name is what precedes it ('/' alone for the first level, empty if there is none). A path made absolute stays if it starts with '/', otherwise it follows the current directory and a '/'; if the current directory cannot be had, that fails with the system's error and the path is as before. "
  "A list made from text has one path per ':'-separated piece, in order, empty pieces included; a list's string is its paths separated by ':', never NULL. "
  "The home, configuration, data, cache and runtime directories follow HOME and the XDG variables: the user's directory first ($XDG_*_HOME, by default .config, .local/share or .cache below the home directory), then the system's ($XDG_*_DIRS, by default /etc/xdg or /usr/local/share and /usr/share), where an empty variable counts as unset; if no home (or runtime) directory is known, that is an error. Everything allocated is released.",
  "inputs fault_sequences", "texts of up to three or four arbitrary characters; environments with each variable unset, empty or arbitrary; getcwd interrupted or failing",
  "Tests compare a few dozen fixed strings; failing system calls, unset and empty variables, and memory are not covered.",
  ["src/libcork/posix/files.c", "include/libcork/os/files.h"],
  [("paths", "src/libcork/posix/files.c:cork_path_append"), ("path lists", "src/libcork/posix/files.c:cork_path_list_append_string"), ("standard directories", "src/libcork/posix/files.c:cork_path_config_paths")],
  observe=["cork_path_*", "cork_path_list_*"])
p("C29", "Walking a directory visits everything in it once and in order",
  "Walking a directory reports each regular file and enters each subdirectory in it exactly once, at any depth, and leaves every entered subdirectory after all of its entries; '.' and '..' and other kinds of files are not reported. The callbacks get the full path (the given path without trailing slashes, then '/' and the entry), the path relative to the given directory, and the entry's own name, whatever the spelling of the given path (including '/' and an empty one, which fails). "
  "A subdirectory whose enter callback returns CORK_SKIP_DIRECTORY is neither read nor left. Any other non-zero result of a callback ends the walk, and is its result; a failing system call ends it with -1 and the system's error; otherwise the result is 0. After either, nothing else is visited. Every directory that was opened is closed once, innermost first; interrupted calls are retried.",
  "inputs fault_sequences", "any names, kinds, callback results and failures in small trees, six spellings of the root",
  "Tests walk one tree that can be read completely, with callbacks that succeed or skip.",
  ["src/libcork/posix/directory-walker.c"],
  [("recursion", "src/libcork/posix/directory-walker.c:cork_walk_one_directory")], observe=["cork_walk_directory"],
  tech="abstract interpretation of LLVM IR over a directory model (typestate of the walk)")
p("C30", "Cleanup functions run exactly once, in order of priority, at process exit",
  "A function registered for cleanup is not called before the process terminates; then every registered function is called exactly once, in the order of their priorities (lowest first). That includes functions that a cleanup function registers meanwhile with a priority not below its own. The name given with a function is copied. All bookkeeping memory is released.",
  "inputs histories", "up to three functions with any priorities, registered before or during termination",
  "Tests register two functions in a child process and look at its output once.",
  ["src/libcork/posix/process.c", "include/libcork/os/process.h"],
  [("ordering", "src/libcork/posix/process.c:cork_cleanup_at_exit_named"), ("termination", "src/libcork/posix/process.c:cork_cleanup_call_one")], observe=["cork_cleanup_at_exit*"])
p("C39", "Files are found, created and removed exactly as asked",
  "A file's existence and type are what the system reports for its path (missing if a component is missing or is no directory); any other refusal is an error. After the library has created or removed the file, it knows the new state. "
  "Reading a directory calls back once for every entry but '.' and '..', in order, with the entry's name and a file object of its own path and type; a non-zero result ends it and is returned. "
  "Creating a directory fails with EEXIST if something else has the name, or if the directory exists and the permissive flag is not given; the recursive flag first creates missing parents (any spelling of slashes), all with the given mode, and nothing else. "
  "Removing unlinks anything but a directory (symbolic links themselves, never what they point at) and removes directories, with the recursive flag after everything in them; a missing file is an error (ENOENT) unless the permissive flag is given. "
  "Searching a list of paths tries them in order and yields the first existing file (ENOENT if none), or all of them. "
  "Interrupted calls are retried; any other failure stops the operation at once with -1 or NULL and the system's error. Directories that were opened are closed once and all memory is released.",
  "inputs fault_sequences", "every kind of file, state of the tree and flag in small trees, interruption and failure of every system call",
  "Tests use one prepared tree in which everything succeeds, plus a handful of expected errors.",
  ["src/libcork/posix/files.c", "include/libcork/os/files.h"],
  [("state of a file", "src/libcork/posix/files.c:cork_file_stat"), ("iteration", "src/libcork/posix/files.c:cork_file_iterate_directory"), ("creation", "src/libcork/posix/files.c:cork_file_mkdir_one"), ("removal", "src/libcork/posix/files.c:cork_file_remove")],
  observe=["cork_file_*", "cork_path_list_find_file*", "cork_file_list_*"], tech="abstract interpretation of LLVM IR over a file-tree model")
p("C40", "Escaped, dumped and indented text shows exactly the bytes it was given",
  "The C string literal of some bytes stands in double quotes on a single line, consists of printable characters only, and read back (with hexadecimal escapes of two digits) yields exactly the bytes; quotes and backslashes are escaped, form feed, newline, return and tabs use their letters, and only what cannot be printed is escaped in hexadecimal. "
  "A hex dump shows all bytes, sixteen per line, in hexadecimal and, next to it, each printable one as itself and any other as a dot. Multi-line text is the text itself with the indentation after every newline. Every line but the first begins with the indentation, and nothing follows the last. "
  "The automatic form is a dump exactly if some byte is neither printable nor white space, else multi-line text exactly if there is a newline, else the bytes unchanged. All of them append behind what the buffer holds, which stays.",
  "inputs", "every single byte, edge cases in combination, dumps around every line boundary, with and without indentation",
  "Tests compare a few sample texts; whether the classes of bytes and the line boundaries are right depends on every byte value and length.",
  ["src/libcork/ds/buffer.c"],
  [("escapes", "src/libcork/ds/buffer.c:cork_buffer_append_c_string"), ("dump", "src/libcork/ds/buffer.c:cork_buffer_append_hex_dump"), ("choice of the form", "src/libcork/ds/buffer.c:cork_buffer_append_binary")],
  observe=["cork_buffer_append_c_string", "cork_buffer_append_hex_dump", "cork_buffer_append_multiline", "cork_buffer_append_binary"])
p("C41", "Checking macros pass failures on, once, and repeat interrupted calls",
  "Each of the error-checking macros evaluates its call once. When the call succeeds, the function goes on; when it fails (a nonzero or negative result, a NULL pointer, or a set error condition, as the macro's name says), the function ends there with the error result of its kind (a nonzero integer, namely the call's own where it has one; NULL; the given result; or its error label), and the error condition is exactly the call's. "
  "The macros for system calls repeat a call while it is interrupted, and only then; any other failure becomes the error condition with the system's code, and results other than -1 or NULL are successes whatever errno holds.",
  "inputs", "every macro, every result and error code of the call, up to two interruptions",
  "No test uses most of the macros, and none interrupts a system call.",
  ["include/libcork/helpers/errors.h", "include/libcork/helpers/posix.h"],
  [("integer results", "include/libcork/helpers/errors.h:rii_check"), ("interrupted calls", "include/libcork/helpers/posix.h:xi_check_posix")],
  observe=["rii_check", "rip_check", "rpi_check", "rpp_check", "rie_check", "rpe_check", "ei_check", "ep_check", "ee_check", "xi_check", "xp_check", "xe_check", "*_check_posix"])
p("C42", "Atomic operations take effect in one step and return the documented value",
  "Atomic additions and subtractions change the variable once, by exactly the given amount (modulo the type's range) relative to the value it had at that moment, whatever other threads do; the plain forms return the new value, the pre_ forms the old one. "
  "A compare-and-swap writes the new value, in one step, exactly if the variable had the expected one, else leaves it alone; it returns the value the variable had.",
  "schedules inputs", "every operation of every type, other threads changing the variable to anything between any two accesses",
  "The tests run the operations in a single thread, with small numbers.",
  ["include/libcork/threads/atomics.h"],
  [("operations", "include/libcork/threads/atomics.h:cork_int_atomic_add")],
  observe=["cork_int_atomic_add", "cork_uint_atomic_add", "cork_size_atomic_add", "*_pre_add", "*_atomic_sub", "*_pre_sub", "*_cas"])
p("C43", "Unique identifiers are equal only to themselves and keep their names",
  "Two identifiers are equal exactly if they come from the same definition, even if their names agree, and none is equal to CORK_UID_NONE; an identifier's hash is always the same, and its name is the one it was defined with. A member's container is the object it is a member of.",
  "inputs", "every pair out of six identifiers; members at several offsets",
  "No test compares identifiers whose names agree.",
  ["include/libcork/core/id.h", "include/libcork/core/types.h"],
  [("identity", "include/libcork/core/id.h:cork_uid_equal"), ("container", "include/libcork/core/types.h:cork_container_of")],
  observe=["cork_uid_define", "cork_uid_equal", "cork_uid_hash", "cork_uid_name", "cork_container_of"])
p("C15", "Garbage-collected objects live exactly as long as they are reachable",
  "An object is reachable while somebody holds a reference to it (its creator's, or one taken and not dropped) or a reachable object reports a reference to it. A reachable object is never freed and its memory stays intact, whatever references are taken, dropped and changed around it, whenever garbage is searched for. "
  "An object whose last reference goes is freed at once if it has never been a candidate for a cycle; in any case, cork_gc_done has freed exactly the unreachable objects of the thread, cycles included, and what it leaves can be released later in the same way. "
  "Freeing calls the object's free callback exactly once while the object is intact, and releases its memory once; callbacks are only ever called with existing objects. NULL references are ignored.",
  "inputs histories", "every graph of three objects with up to two references each and every set of references kept; histories on two objects; more than a thousand candidates",
  "Tests build three small graphs and never look at what has been freed.",
  ["src/libcork/core/gc.c", "include/libcork/core/gc.h"],
  [("counting", "src/libcork/core/gc.c:cork_gc_decref"), ("cycles", "src/libcork/core/gc.c:cork_gc_collect_cycles")], observe=["cork_gc_*"])
p("C32", "A command line runs exactly the command it names",
  "Each word names a command of the current command set, after the options that the set's option parser (called once, with the words from the set's name on) has consumed; without a parser, just the name is consumed. A leaf command's run function is called exactly once, with the words that remain after its name and options, and the program succeeds. "
  "'--help' or '-h' right after a command's name prints that command's help and runs nothing (not even its option parser); 'help' in a command set prints the help of the command that the following words name, or of the set. A word that names no command, or a missing one, runs nothing, prints a message with the usage (or the list of commands), and ends the program with failure. "
  "Help starts with the usage line, which has the names of all commands from the root to the one described; then a set lists its commands in order with their descriptions aligned, and a leaf its full help; a message given with it comes first. Memory is released when the program ends.",
  "inputs", "every command line over eight words up to the bound, any consumption of options, help requested by the command itself",
  "Tests run a handful of command lines of one program.",
  ["src/libcork/cli/commands.c", "include/libcork/cli/commands.h"],
  [("dispatch", "src/libcork/cli/commands.c:cork_command_run"), ("help", "src/libcork/cli/commands.c:cork_command_set_run_help")], observe=["cork_command_main", "cork_command_show_help"])
p("C21", "Hash values depend on the seed and all of the content, and nothing else",
  "The stable hash of a buffer is MurmurHash3 (x86, 32 bits) of its bytes read as little-endian, for every seed: the same on every platform and in every version. "
  "The other hashes of equal content with equal seeds are equal, wherever the content lies in memory. Hashing reads the bytes of the buffer and no others; hashing a variable covers its whole size. Big hashes are equal exactly if all 128 bits are.",
  "inputs", "every content of up to 36 bytes and every seed for values; every length below 2^31 for memory accesses",
  "Tests compare the hashes of a few fixed strings.",
  ["include/libcork/core/hash.h"],
  [("stable hash", "include/libcork/core/hash.h:cork_stable_hash_buffer"), ("128-bit hash", "include/libcork/core/hash.h:cork_murmur_hash_x64_128")],
  observe=["cork_stable_hash_buffer", "cork_hash_buffer", "cork_big_hash_*"], tech="abstract interpretation of LLVM IR with value numbering of mixing operations (congruence, no arithmetic)")
p("C12", "All memory of the library comes from the installed allocator",
  "Whatever function a program calls and whatever callbacks run, the library obtains, resizes and releases memory through the allocator that the program has installed, and through nothing else: it never calls the C library's memory functions itself (the default allocator's own callbacks do), nor C library functions that return memory to be freed. So a program's allocator sees every allocation, and may place, count, limit or check them.",
  "programs", "every function declared by the headers, inline ones included, every callback, and everything they call",
  "Tests run with the default or the debugging allocator, which can't tell: memory that bypasses them still works.",
  ["include/libcork/core/allocator.h", "src/libcork/core/allocator.c"],
  [("indirection", "include/libcork/core/allocator.h:cork_allocator"), ("default allocator", "src/libcork/core/allocator.c")], observe=["cork_set_allocator", "cork_alloc_*"],
  tech="who-may-call effect analysis over the whole program's call graph (LLVM IR)",
  note="Indirect calls reach exactly the functions whose address is taken, all of which are analysed as roots of their own; functions stored into allocators are exempt.")
p("C33", "Whatever the headers declare, programs can use",
  "Every function and variable that a public header declares is defined by the library with external linkage, and exported from the shared library. Every public header compiles on its own, and when it is included again. Other external symbols of the library stay in its namespace (cork_). "
  "The configuration macros (sizes, byte order) and the sizes of fixed-size types agree with the compiler that is used, and version numbers are ordered.",
  "programs configurations", "every declaration of every public header, two compilers",
  "Tests use a part of the interface, always through the same few headers, linked one way.",
  ["include/libcork", "src/libcork"],
  [("export marker", "include/libcork/core/attributes.h:CORK_EXPORT"), ("sizes", "include/libcork/core/types.h"), ("byte order", "include/libcork/core/byte-order.h")], observe=["libcork/*.h"],
  tech="queries over the type-checked headers (clang AST) and the program's symbols; static assertions that fail to compile",
  note="For the compilers and the target of this system.")
p("C35", "Threads that use objects of their own don't interfere",
  "Apart from functions that are about the whole process (installing an allocator, registering cleanups, command lines, the environment, replacing the program), functions may be called by several threads at the same time for different objects. They keep no results or state in storage that all threads share, except where that is accessed atomically or written once by the one thread that initialises it while others wait; they change no process-wide settings and call no C library function that isn't reentrant. Error conditions, garbage collectors and thread handles are each thread's own.",
  "schedules programs", "every function of the interface, every variable with static storage, with and without compiler-supported thread-local storage",
  "Races on hidden shared state show up under rare schedules only; the tests that use threads do so for one counter.",
  ["src/libcork/core/error.c", "src/libcork/core/gc.c", "src/libcork/pthreads/thread.c", "include/libcork/threads/basics.h"],
  [("thread-local state", "include/libcork/threads/basics.h:cork_tls"), ("one-time initialisation", "include/libcork/threads/basics.h:cork_once"), ("list of error conditions", "src/libcork/core/error.c:cork_error_get")],
  observe=["all functions of the interface"], tech="effect analysis: shared variables reached over the call graph, with compare-and-swap regions (LLVM IR)",
  note="A volatile read of a variable that is only changed atomically counts as atomic. strerror and getenv are taken to be safe, as in the GNU C library.")
p("C38", "Variable arguments are consumed once per pass, and always released",
  "A function that takes variable arguments or an argument list hands the same arguments to every pass over them: a list is passed to at most one consumer unless it was copied before, used only between its start and its end, and ended before the function returns on every path (failures included). So formatted output is the same whether or not the first attempt fits, on every platform.",
  "inputs", "every function with an argument list, every path through it",
  "On a given platform a list that is used twice or never ended may happen to work for the arguments the tests pass.",
  ["src/libcork/ds/buffer.c", "src/libcork/core/error.c", "src/libcork/posix/env.c", "src/libcork/posix/exec.c"],
  [("second pass", "src/libcork/ds/buffer.c:cork_buffer_append_vprintf")], observe=["cork_buffer_printf", "cork_error_set_printf", "cork_env_add_printf", "cork_exec_new_with_params"],
  tech="typestate dataflow over LLVM IR (argument lists), interprocedural by summaries",
  note="Assumes that a list isn't stored into other objects.")
