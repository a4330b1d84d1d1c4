#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})
CORE = ["pywasm/core.py"]
EV = ("Machine.evaluate instruction dispatch", "pywasm/core.py")
EXS = "The stable tests run ten example programs with one fixed input each; "

p("C01", "Scalar integer instructions compute exactly what WebAssembly specifies",
  "For every i32/i64 instruction (constants, arithmetic, division/remainder, bitwise, shifts/rotates, bit counts, comparisons, sign extension, wrap/extend) and every operand, the result is bit-for-bit the one the WebAssembly 2.0 specification defines. Division or remainder by zero and signed division overflow trap, and nothing else in this instruction family does.",
  ["inputs"], "every integer instruction, every operand tuple",
  EXS + "they touch a fraction of the opcodes and almost no boundary operands (sign bit, 2^63 quotients, shift counts >= width).",
  ["pywasm/core.py", "pywasm/arith.py"], [EV, ("I32/I64 helpers", "pywasm/arith.py")], ["Runtime.invocate results", "exported memory"])
p("C02", "Scalar float instructions and conversions follow IEEE-754 as WebAssembly does",
  "For every f32/f64 arithmetic, rounding, min/max, sign and comparison instruction and every int/float conversion (trapping, saturating, promote/demote, reinterpret), results are the correctly rounded ones WebAssembly defines, including signed zeros, infinities, subnormals and overflow. A NaN result is a quiet NaN (canonical when every NaN operand was canonical), while moves, constants, loads/stores, reinterpret, abs, neg and copysign preserve or change exactly the specified bits; trapping truncations trap exactly when the operand is NaN or out of range.",
  ["inputs"], "every float instruction, every operand bit pattern",
  EXS + "float behaviour is seen only through one pi computation; ties, double rounding, NaN payloads and -0 never occur.",
  ["pywasm/core.py", "pywasm/arith.py"], [EV, ("F32/F64 helpers and ValInst float codecs", "pywasm/core.py, pywasm/arith.py")], ["Runtime.invocate results as bit patterns", "exported memory"])
p("C03", "SIMD integer, lane and bitwise instructions compute what WebAssembly specifies",
  "For every v128 integer, bitwise, shift, compare, lane-access, shuffle/swizzle, splat, narrow/extend, all_true/bitmask and vector load/store instruction, and every operand, lane and immediate, the 128-bit (or scalar) result is bit-for-bit the specified one.",
  ["inputs"], "every SIMD integer/lane/memory instruction, every operand and lane index",
  EXS + "only blake2b_simd uses a handful of i64x2 operations on one message.",
  CORE, [EV], ["exported memory after v128.store", "Runtime.invocate results"])
p("C04", "SIMD floating-point instructions agree lane-wise with IEEE-754/WebAssembly",
  "For every f32x4/f64x2 arithmetic, rounding, min/max/pmin/pmax, sign, comparison and conversion instruction, each result lane equals the specified scalar result (overflow to infinity, signed zeros, subnormals, saturation, zeroed upper lanes) and no SIMD float instruction ever traps. NaN lanes obey the NaN rules, and bit-level operations (abs, neg, pmin, pmax) preserve payload bits.",
  ["inputs"], "every SIMD float instruction, every lane bit pattern",
  EXS + "no stable test executes any f32x4/f64x2 instruction.",
  ["pywasm/core.py", "pywasm/arith.py"], [EV, ("from_v128_f32/f64, into_v128_f32/f64", "pywasm/core.py")], ["exported memory after v128.store"])
p("C05", "Structured control flow and the operand stack follow the specification",
  "In every valid function body, block/loop/if/else, br, br_if, br_table, return, select, drop and unreachable transfer control to the specified point, keep exactly the label's parameter/result values in order, and discard everything above; this holds for any nesting, multi-value block types, unreachable code after a branch, and branches to the function's outermost label. The sequence of observable side effects and the results are the ones the specification prescribes.",
  ["programs", "inputs"], "every valid program, every input",
  EXS + "compiler-generated bodies never contain multi-value blocks, odd br_table targets or branches that leave values to discard.",
  CORE, [EV, ("evaluate_br, evaluate_bype, Label/Stack bookkeeping", "pywasm/core.py")], ["results, traps, memory, globals and host-call trace of generated programs"],
  [("stack.label / stack.frame / stack.value", "control, activation and operand stacks", "Stack")])
p("C06", "Calls pass arguments and results correctly and isolate activations",
  "A direct, indirect, recursive, cross-module or host call delivers its arguments in order to fresh locals (declared locals zero), and returns exactly its declared results in order to the caller, whose locals, operands and module context are untouched however the callee returns (end, return, or branch to its outermost label). call_indirect traps precisely when the element is out of bounds, null or of a structurally different type, and resolves memories, tables and globals in the callee's own module.",
  ["programs", "inputs"], "every call graph over wasm and host functions, every input",
  EXS + "only single-module C programs with a few calls are run; cross-module calls and type-mismatch traps never happen.",
  CORE, [("evaluate_call, call_indirect", "pywasm/core.py")], ["results, traps and host-call trace"],
  [("stack.frame", "activation frames", "Stack")])
p("C07", "Linear memory accesses, growth and bulk operations are exact and bounds-checked",
  "Loads and stores of every width are little-endian, sign/zero-extend as specified and touch exactly the addressed bytes; any access whose effective address (base plus offset, without wrap-around) passes the current size traps without changing memory. memory.size/grow/fill/copy/init and data.drop follow the specification, including overlapping copies, zero-length edges, grow failure returning -1 with no effect, new pages zeroed, and the memory's byte length always being pages x 65536 within its declared maximum.",
  ["inputs", "histories"], "every sequence of memory instructions with every address, offset and length",
  EXS + "in-bounds accesses from compiled C only; no trap, overlap or grow failure.",
  CORE, [("MemInst, evaluate_mem_load/save, bulk memory opcodes", "pywasm/core.py")], ["exported memory contents and size", "traps"],
  [("MemInst.data/size", "bytes and page count", "MemInst")])
p("C08", "Tables, element segments and references follow the specification",
  "table.get/set/size/grow/fill/copy/init, elem.drop, ref.null, ref.is_null, ref.func and active/passive/declarative element segments behave as specified for funcref and externref tables: every out-of-bounds access traps without changing any table, overlapping copies are exact, grow failure returns -1 with no effect, and dropped segments behave as empty. References keep their identity wherever they travel (locals, globals, tables, calls, host).",
  ["inputs", "histories"], "every sequence of table/reference instructions",
  EXS + "tables are only used for static C function pointers.",
  CORE, [("TableInst, ElemInst and table opcodes", "pywasm/core.py")], ["results of table.get/size/call_indirect in generated modules", "traps"],
  [("TableInst.elem/size", "references held", "TableInst")])
p("C09", "Globals and locals hold exactly the last value written to them",
  "Locals (parameters and declared, of any type and any count) and globals (module-defined, imported, exported, mutable or not, of any type) read back exactly the last value assigned through any alias - instruction, other instance sharing the global, or embedder handle - and no write to one location is visible in another. Constant initialiser expressions, including references to imported globals, evaluate to the specified value.",
  ["programs", "histories"], "every interleaving of reads and writes over locals/globals of all types",
  EXS + "no exported mutable globals, no v128/ref globals, no sharing between instances.",
  CORE, [("LocalsInst, GlobalInst, local.*/global.* opcodes", "pywasm/core.py")], ["global.get/local.get results", "exported_global handle"])
p("C10", "Every valid binary encoding of a module decodes to the same behaviour",
  "Any encoding the binary format allows - non-minimal LEB128 within size limits, custom sections anywhere, all element/data segment kinds, every import/export kind and UTF-8 name, runs of local declarations, flags in either form, any number of entries - is accepted, and the decoded module behaves identically to its minimal encoding. Decoding consumes exactly the module's bytes and does not depend on earlier decodes.",
  ["inputs", "programs"], "every valid module and every admissible encoding of it",
  EXS + "all inputs come from two compilers with a fixed encoding style.",
  ["pywasm/core.py", "pywasm/leb128.py", "pywasm/opcode.py"], [("from_reader decoders", "pywasm/core.py"), ("LEB128 decoders", "pywasm/leb128.py")], ["behaviour of decoded modules", "ModuleDesc structure via exports/imports"])
p("C11", "Malformed binaries are rejected before any code runs",
  "A byte string that is not a well-formed WebAssembly 2.0 binary (bad magic/version, truncation anywhere, unknown section or opcode, sections out of order or duplicated, section/body size mismatch, function/code or data-count disagreement, over-long or out-of-range LEB128, bad type/limit/mutability/kind bytes, an alignment above the natural one or a lane index out of range, invalid UTF-8 names) makes decoding raise, and has no effect on any existing runtime or instance.",
  ["inputs"], "every byte string that is not a well-formed module",
  "No stable test feeds a malformed module.",
  ["pywasm/core.py", "pywasm/leb128.py"], [("from_reader assertions", "pywasm/core.py"), ("LEB128 decoders", "pywasm/leb128.py")], ["exception from ModuleDesc.from_reader / Runtime.instance_from_file"])
p("C12", "Instantiation links imports, runs segments and start in the specified order",
  "Instantiation succeeds exactly when every import is present and matches in kind and type (function signature, table/memory limits and element type, global type and mutability), then evaluates initialisers, applies active element and data segments in order and calls start; exports name exactly the right entity. A failing instantiation raises; import mismatch has no effect on shared state, whereas out-of-bounds segments or a trapping start keep the writes already made, as the specification says.",
  ["programs", "configurations", "histories"], "every module against every import environment",
  EXS + "imports always match; no import error, no bounds failure, no start function.",
  CORE, [("Machine.instance, Machine.allocate, Limits/MemInst/TableInst.suit", "pywasm/core.py")], ["raise/success of Runtime.instance", "state of shared memories/tables/globals"])
p("C13", "A trap aborts only the current call and leaves the runtime usable",
  "When a call traps (or a host function raises, or instantiation fails), the embedder gets an exception, side effects before the trap persist and none follow, and every later call on the same runtime gives the result it would have given had the aborted activation simply vanished, with no growth of interpreter stacks over any number of traps.",
  ["histories", "fault_sequences"], "every interleaving of successful, trapping and host-raising calls",
  "The stable tests never trap; a trap in one call is only observable through a later one.",
  CORE, [("Machine.invocate / Machine.instance stack handling", "pywasm/core.py")], ["results of later invocations", "machine stack depths at quiescence"],
  [("Machine.stack", "frames, labels, operands", "Machine")])
p("C14", "Instances and runtimes are isolated except for what they explicitly share",
  "Instances of the same or different modules share no mutable state (memory, table, globals, dropped segments, locals) unless it was imported or exported between them, in which case every sharer sees every change; decoding once and instantiating many times is equivalent to decoding each time. Separate runtimes and separate WASI objects never affect each other.",
  ["histories", "configurations"], "every interleaving of operations over several instances and runtimes",
  "The stable tests use one instance per runtime.",
  ["pywasm/core.py", "pywasm/wasi.py"], [("Machine.allocate, Store", "pywasm/core.py")], ["per-instance observations compared with solo runs"])
p("C15", "Values cross the host boundary unchanged in both directions",
  "Arguments given to an invocation, results returned to the embedder, arguments and results of host functions, and embedder-created globals/memories/tables carry exactly the wasm value they denote for i32, i64, f32, f64, v128, funcref and externref (signed view for integers), in the declared order and count. A wrong argument count, an unknown or non-function export, or a host function returning the wrong number of results is reported as an exception rather than executed; host functions may themselves invoke exports or instantiate modules.",
  ["inputs", "programs"], "every function type, every value, every nesting of host and wasm calls",
  EXS + "only small positive integers and one host function cross the boundary.",
  CORE, [("Runtime.invocate, Machine.invocate, evaluate_call host path, ValInst.from_all/into_all", "pywasm/core.py")], ["python values at Runtime.invocate and inside host functions"])
p("C16", "Runaway programs are stopped by limits, ordinary deep programs are not",
  "Unbounded recursion (direct, mutual, indirect or through host functions) ends in an exception at a bounded depth with memory use bounded, after which the runtime still works; recursion to a few hundred frames, block nesting up to a hundred levels, and arbitrarily long loops complete correctly with interpreter stacks bounded by the program's nesting. Memory and table growth can never exceed the declared or implementation maximum.",
  ["programs", "histories"], "every recursion shape, nesting depth and growth sequence",
  "No stable test recurses deeply, loops with stack residue, or grows to a limit.",
  CORE, [("frame depth check, memory/table grow caps", "pywasm/core.py")], ["exception vs result", "interpreter stack depth sampled from host callbacks"],
  [("Machine.stack", "frames, labels, operands", "Machine")])
p("C17", "Execution is deterministic and unaffected by debug logging",
  "Running the same module with the same inputs and the same host behaviour gives the same results, traps, memory and host-call sequence every time - in a fresh process, in a reused runtime after unrelated work, under any hash seed, and with debug logging enabled or disabled.",
  ["programs", "configurations"], "every program, every process/runtime history, log on or off",
  "Tests run each program once, with logging off.",
  ["pywasm/core.py", "pywasm/log.py"], [("log.debugln call sites, __repr__/into_disasm", "pywasm/core.py, pywasm/log.py")], ["digest of results, memory and host trace across configurations"])

W = ["pywasm/wasi.py"]
WS = "The two wasi examples list one directory and print text; "
p("W01", "WASI guests cannot touch anything outside their preopened directories",
  "Whatever paths, flags, symlinks and call sequence a guest uses, no WASI call reads, lists, stats, creates, modifies, links, renames or removes a host file-system object outside the directory trees that were preopened; such attempts return an error (absolute path, '..' escape, symlink leading out) and change nothing. Paths that stay inside the tree, including ones with '.', inner '..' and inner relative symlinks, keep working for any preopen name the embedder chose.",
  ["inputs", "histories"], "every guest path string and call sequence against every tree and preopen naming",
  WS + "no escape attempt is made.",
  W, [("help_escp and the dir_fd-relative os calls in path_*", "pywasm/wasi.py")], ["os-level calls with resolved targets", "canary trees outside the preopen"])
p("W02", "WASI descriptor rights and types are enforced and only ever shrink",
  "A call needing a right the descriptor lacks fails with notcapable (an fd that is not open fails with badf) and has no effect; a descriptor opened through a directory never has rights beyond that directory's inheriting rights nor beyond those requested; fd_fdstat_set_rights can only remove rights. fd_fdstat_get reports the file type, flags and rights that are in fact enforced.",
  ["histories", "inputs"], "every sequence of opens, right reductions and calls",
  WS + "no right is ever missing.",
  W, [("help_badf/help_perm/help_idir and RIGHTS_* fields", "pywasm/wasi.py")], ["errno of each call vs a rights model", "host file state"],
  [("fd[].rights_root/rights_base", "rights of each descriptor", "Preview1.File")])
p("W03", "WASI file reads, writes, seeks and sizes behave like one POSIX file model",
  "For any sequence of fd_read/fd_pread/fd_write/fd_pwrite/fd_seek/fd_tell/fd_allocate/fd_filestat_set_size/fd_fdstat_set_flags over any iovec layout, the bytes returned, counts, offsets, sizes and final host file contents equal those of a byte-array file with a cursor per descriptor: scatter/gather in order, positional I/O leaves the cursor alone, append writes at the end, sparse regions read as zero, and a failing call changes nothing. fd_filestat_get and path_filestat_get report the same true size, type, link count and times, and the set_times calls set exactly what was asked.",
  ["histories", "inputs"], "every sequence of file operations over several descriptors and files",
  WS + "no file is read or written.",
  W, [("fd_* operations", "pywasm/wasi.py")], ["guest memory after each call", "host file bytes and metadata"],
  [("host file offset", "cursor per descriptor", "os file descriptor")])
p("W04", "WASI path operations have exactly the specified effect on the tree",
  "path_open (with every creat/excl/trunc/directory/follow combination), path_create_directory, path_remove_directory, path_unlink_file, path_rename, path_link, path_symlink, path_readlink and path_filestat_get change or report the tree exactly as the model file system says, with the specified errno on failure (exist, noent, notdir, isdir, notempty, loop, ...) and no change to the tree then. Each open descriptor keeps denoting the file or directory it was opened on, across later renames and unlinks.",
  ["histories", "inputs"], "every sequence of path operations over a small name space",
  WS + "nothing is created, renamed or removed.",
  W, [("path_* operations", "pywasm/wasi.py")], ["errno, guest memory and host tree after each call"])
p("W05", "WASI descriptors are allocated, renumbered and closed exactly once",
  "Every guest descriptor number refers to at most one open object; opening returns an unused number, closing frees it once (later use and double close give badf), fd_renumber moves the source over the target, closing what was there and leaving the source closed, and stays a no-op onto itself. Every host descriptor pywasm opens for a guest is closed exactly once, no later than the end of the program, and what the embedder owns (the process's standard streams, descriptors it opened itself) is never closed behind its back.",
  ["histories", "fault_sequences"], "every sequence of open/close/renumber/failing opens and program exits",
  WS + "at most one directory is opened; leaks are invisible.",
  W, [("fd table in Preview1, fd_close, fd_renumber, path_open, main", "pywasm/wasi.py")], ["os.open/os.close event log", "/proc/self/fd before and after"],
  [("Preview1.fd", "descriptor table", "Preview1")])
p("W06", "WASI calls only touch the guest memory they are given",
  "A WASI call writes only inside the output buffers its arguments designate and reads only its input buffers; results fit the buffer lengths given. Any buffer the call has to read or write that reaches past the end of guest memory makes the call fail (errno or trap) without extending, shifting or corrupting memory, whose size always stays pages x 65536, and without partial file-system effect from the invalid buffer.",
  ["inputs"], "every call with every pointer/length, including at and past the end of memory",
  WS + "all pointers come from libc and are valid.",
  ["pywasm/wasi.py", "pywasm/core.py"], [("MemInst.get/put used by WASI calls", "pywasm/core.py"), ("iovec loops", "pywasm/wasi.py")], ["whole guest memory diffed around every call"])
p("W07", "WASI program environment, stdio and exit code are delivered faithfully",
  "args_*/environ_* report exactly the configured strings, in a stable order, UTF-8 encoded and NUL-terminated, with sizes that match; preopens enumerate from descriptor 3 with their configured names and stop with badf; bytes written to stdout/stderr and read from stdin (captured or real) are exactly the program's, in order. The runner returns the proc_exit code, 0 when _start returns, and lets a trap surface as an exception.",
  ["inputs", "configurations"], "every argv/env/preopen configuration and every byte stream",
  WS + "ASCII arguments, exit code 0 only.",
  ["pywasm/wasi.py", "pywasm/__main__.py"], [("args_get, environ_get, fd_prestat_*, Preview1.main, proc_exit", "pywasm/wasi.py")], ["guest memory after each call", "captured pipes", "exit status"])
p("W08", "WASI readdir enumerates every entry exactly once for any buffer size",
  "Iterating fd_readdir with any buffer sizes and the returned cookies yields '.', '..' and every directory entry exactly once with the right name bytes, name length, inode and file type (symlinks as symlinks, dangling or not), in consecutive well-formed records, as long as the directory does not change meanwhile. A buffer that is filled completely means more may follow, a shorter fill means the end, any cookie obtained earlier restarts right after its entry, and bytes past the buffer are untouched.",
  ["inputs", "histories"], "every directory content, buffer length and cookie sequence",
  WS + "one ASCII directory with a large buffer.",
  W, [("fd_readdir", "pywasm/wasi.py")], ["records parsed from guest memory vs the host directory"])
p("W09", "WASI clocks and poll_oneoff report time and readiness correctly",
  "clock_time_get returns the requested host clock in nanoseconds (monotonic never decreasing) and unknown clocks are inval; poll_oneoff reads its subscriptions as laid out by the ABI, returns between 1 and nsubscriptions events, each echoing the userdata and kind of a distinct subscription that is really ready, never before a relative or absolute clock deadline unless another subscription is ready, leaves out no subscription that was ready all along, and reports a descriptor that is not open or may not be polled with badf or notcapable (as an event or as the errno of the call); zero subscriptions is inval.",
  ["inputs", "schedules"], "every subscription set, clock and timing of readiness",
  "No stable test polls or reads a clock precisely.",
  W, [("poll_oneoff, clock_*_get, help_time", "pywasm/wasi.py")], ["event records in guest memory", "virtualised time/select calls"])
p("W10", "Every WASI call ends in a defined errno, whatever the host does",
  "For any arguments and any failure of the underlying host operation (any OSError, non-UTF-8 or NUL path bytes, out-of-range offsets, times or flags), a WASI call returns a valid errno corresponding to the failure and never lets a host exception kill the guest nor reports success; the failing call leaves descriptors and files as they were. Only proc_exit and an invalid guest pointer may end the program.",
  ["inputs", "fault_sequences"], "every call, every argument, a fault injected at every host operation",
  WS + "no host call fails.",
  W, [("try/except errno mapping in fd_*/path_* calls", "pywasm/wasi.py")], ["errno or exception of each call under injected OSErrors"])
p("W11", "WASI sockets transfer exactly the bytes sent, with flags and shutdown honoured",
  "On a socket descriptor supplied by the embedder, sock_accept, sock_recv (peek, waitall), sock_send and sock_shutdown deliver the byte stream exactly once and in order over any iovec layout, report the true counts and flags, apply the requested descriptor flags to accepted sockets, and return notsock/badf/notcapable or the host errno otherwise; an accepted connection stays usable until closed.",
  ["histories", "inputs"], "every sequence of socket calls and peer behaviour",
  "No stable test uses sockets.",
  W, [("sock_* operations", "pywasm/wasi.py")], ["bytes at the peer end of a socketpair", "guest memory"])
p("W12", "WASI random_get fills exactly the given buffer with fresh unpredictable bytes",
  "random_get writes every byte of the buffer and no other, for any length including zero; the bytes are evenly distributed and never repeat, whatever the host program did to its own generators (reseeding, saving and restoring their state) and across forks, runtimes and WASI objects, and the call does not disturb the host program's own generator.",
  ["inputs", "histories"], "every buffer, history of calls, reseeding and fork",
  "No stable test calls random_get.",
  W, [("random_get", "pywasm/wasi.py")], ["the bytes in guest memory", "state of the host's random module"])
p("X01", "The command line runs a module with exactly the given arguments and status",
  "python -m pywasm invokes the named export with the textual arguments converted to the parameter types, prints exactly the results, and under --wasi passes args, environment (first '=' splits) and directories (first ':' splits) through and exits with the guest's exit code. Unknown functions, wrong argument counts, traps and unreadable or malformed files end with a non-zero status and no result printed.",
  ["inputs", "configurations"], "every combination of options and modules",
  "Two fixed command lines are tested.",
  ["pywasm/__main__.py", "pywasm/wasi.py"], [("argument parsing, main_wasm, main_wasi", "pywasm/__main__.py")], ["stdout, stderr and exit status of the process"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
