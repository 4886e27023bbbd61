"""Writes properties.jsonl (kept as a script so that the statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A capture is exactly the requested window of the call stack",
 "For every call stack, skip and max_depth, each way of capturing a trace (raw, object and resolved traces, via ::current, generate_* and the C API, plus the signal-safe capture where supported) returns exactly the frames of the caller's stack that start `skip` frames above the function calling it, innermost first, at most max_depth of them. Every frame's address is the real program counter of that frame, inside the call instruction rather than after it. skip or max_depth of any value (0, larger than the stack, the maximum integer) never fails, never wraps and never changes any other frame.",
 ["inputs", "programs", "configurations"], "all call stacks (recursion, callbacks, varying depth), all skip/max_depth values, all capture entry points, all unwinding back ends available here",
 "the tests capture at a handful of fixed depths with skip 0..2 and one max_depth; nothing relates entry points, back ends or extreme arguments to each other",
 ["src/cpptrace.cpp", "src/ctrace.cpp", "src/unwind/unwind_with_unwind.cpp", "src/unwind/unwind_with_execinfo.cpp", "src/unwind/unwind_with_libunwind.cpp", "include/cpptrace/basic.hpp"],
 [("skip accounting through each wrapper (skip + 1)", "src/cpptrace.cpp, src/ctrace.cpp: generate_*/current"), ("window and pc adjustment", "src/unwind/*: capture_frames, safe_capture_frames")],
 state=[("stack", "the program's call stack at the capture", "the running thread"), ("skip/max_depth counters", "frames still to be dropped / frames collected", "src/unwind/*")],
 observe=["raw_trace::current", "generate_raw_trace", "object_trace::current", "stacktrace::current", "ctrace_generate_*", "safe_generate_raw_trace"])

prop("C02", "Resolution gives each address its own object, symbol and line, in order",
 "Resolving a trace yields for every address, in order, one non-inlined frame carrying that raw address (optionally preceded by frames marked inlined), whatever other addresses are in the trace. Its object path is the loaded object that contains the address and its object address is the address that object's own file uses for that location (for executables and libraries at any load address and with any link-time base); symbol, file and line are those the object's symbol information gives for it, and addresses that belong to no object or have no information give a frame that still has the raw address and no invented data. Resolving raw to object to resolved frames, resolving directly, and resolving one address at a time all agree.",
 ["inputs", "programs", "configurations"], "all multisets and orders of addresses (duplicates, several objects, unmapped, zero, data addresses), all loaded-object layouts, all symbol back ends and object-lookup variants available here, all cache modes",
 "the tests resolve traces of one executable at one load address with all frames in it; object mixing, ordering, unresolvable addresses and nonzero image bases are not exercised",
 ["src/symbols/symbols_core.cpp", "src/symbols/symbols_with_addr2line.cpp", "src/symbols/symbols_with_dl.cpp", "src/symbols/symbols_with_libbacktrace.cpp", "src/symbols/symbols_with_nothing.cpp", "src/binary/object.cpp", "src/binary/module_base.cpp", "src/binary/elf.cpp", "src/cpptrace.cpp"],
 [("object lookup", "src/binary/object.cpp: get_frame_object_info"), ("image base", "src/binary/module_base.cpp, src/binary/elf.cpp: get_module_image_base"), ("per-object batching and scatter back", "src/symbols/symbols_core.cpp: collate_frames; symbols_with_addr2line.cpp: resolve_frames")],
 observe=["raw_trace::resolve", "raw_trace::resolve_object_trace", "object_trace::resolve", "stacktrace_frame::get_object_info"])

prop("C03", "External symbolizer failures cost information, never the trace or the process",
 "However the external addr2line program behaves (absent, failing to start, dying early, answering late, in pieces, with too few, too many or malformed lines, or with more data than a pipe holds) and whichever system call fails or is interrupted while it is being driven, resolution finishes and returns one frame per address with raw address, object address and object path intact and only the unresolvable information missing; frames of other objects are unaffected. Concurrent resolutions in several threads all finish with the same answers. No file descriptor or child process is left behind.",
 ["fault_sequences", "schedules", "inputs"], "all helper behaviours, all positions of a system-call failure or interruption, all interleavings of concurrent resolutions, all trace sizes",
 "the tests run a well-behaved addr2line on short traces in one thread; no fault, no concurrency, no large trace",
 ["src/symbols/symbols_with_addr2line.cpp", "src/utils/error.cpp"],
 [("pipe/fork/exec/wait protocol", "src/symbols/symbols_with_addr2line.cpp: resolve_addresses, has_addr2line"), ("output parsing and count check", "src/symbols/symbols_with_addr2line.cpp: resolve_frames, update_trace"), ("absorption", "src/utils/error.cpp: log_and_maybe_propagate_exception")],
 state=[("pipes", "input and output pipe contents and open ends per process", "kernel"), ("child", "helper process life cycle", "kernel")],
 observe=["raw_trace::resolve", "/proc/self/fd", "waitpid"])

prop("C04", "Current-exception and rethrow traces follow the most recent throw of the thread",
 "After any history of throws, catches, rethrows, nested handlers and clears in a thread, from_current_exception() is the trace, from the throw point outward, of the most recent exception that a cpptrace try/catch of that thread saw in flight, and it is not affected by later plain catches, by rethrows done with cpptrace::rethrow, or by any other thread. The rethrow trace is the trace of the most recent cpptrace::rethrow that such a try/catch saw since then, is empty when there was none, and current_exception_was_rethrown() says which. Reading a resolved trace repeatedly gives the same trace; clearing empties both.",
 ["histories", "schedules", "programs"], "all sequences and nestings of throw / cpptrace catch / plain catch / rethrow / throw; / clear / query, any number of threads",
 "the tests run a few fixed throw-catch scripts in one thread; histories of several exceptions, nesting inside handlers, mixing of rethrow kinds and threads are unsampled",
 ["src/from_current.cpp", "src/exceptions.cpp", "include/cpptrace/from_current.hpp", "include/cpptrace/from_current_macros.hpp"],
 [("phase-1 interception", "src/from_current.cpp: maybe_collect_trace, can_catch"), ("rethrow switch", "src/from_current.cpp: setup_rethrow, save_current_trace"), ("lazy resolution", "src/exceptions.cpp: lazy_trace_holder")],
 state=[("current_exception_trace", "trace of the latest seen exception", "src/from_current.cpp (thread_local)"), ("saved_rethrow_trace", "trace of its latest rethrow", "src/from_current.cpp (thread_local)"), ("rethrow_switch", "a cpptrace::rethrow is in its search phase", "src/from_current.cpp (thread_local)")],
 observe=["from_current_exception", "raw_trace_from_current_exception", "from_current_exception_rethrow", "current_exception_was_rethrown", "clear_current_exception_traces"])

prop("C05", "CPPTRACE_TRY/CATCH and try_catch select handlers exactly like the language",
 "A program using CPPTRACE_TRY/CPPTRACE_CATCH (or cpptrace::try_catch with handlers in the same order) behaves exactly as the same program with try/catch: the same handler runs, for every thrown type and handler type (bases, references, pointers, qualifiers, multiple handlers, catch-all), with the same exception object, the same destructors run in the same order and the same values are returned. Exceptions no handler matches propagate unchanged, including exceptions thrown from a handler. cpptrace::rethrow behaves like rethrowing the exception.",
 ["programs", "inputs", "histories"], "all nestings of try blocks and handler lists over a type lattice with inheritance, pointers, fundamental types, all thrown types and values",
 "the tests check a few type pairs; the compatibility of the intercepted match with the language's own must hold for every handler/thrown type pair and nesting",
 ["include/cpptrace/from_current.hpp", "include/cpptrace/from_current_macros.hpp", "src/from_current.cpp"],
 [("interceptor type_info and vtable", "src/from_current.cpp: perform_typeinfo_surgery, can_catch"), ("try_catch handler nesting", "include/cpptrace/from_current.hpp: try_catch_impl")],
 observe=["program output of generated programs"])

prop("C06", "Traced exception objects keep message, trace, code and cause",
 "For every cpptrace exception type, message() is the message it was built with (for system errors message plus the error's description, with code() equal to the error), trace() is the resolved trace of its construction point, starting in the constructing function, and what() is the message followed by the printed trace. These do not depend on the order or number of the accessors called, survive copying, moving, assignment (including self-assignment), throwing, and exception_ptr transport across threads. Wrapping macros pass cpptrace exceptions through unchanged and wrap any other exception into a nested_exception that holds it and describes it, returning the expression's value and category when nothing is thrown.",
 ["histories", "inputs", "programs"], "all sequences of construct/copy/move/assign/access/throw on all exception types, all messages, all wrapped exceptions",
 "the tests construct one exception and read its trace once",
 ["src/exceptions.cpp", "include/cpptrace/exceptions.hpp", "include/cpptrace/exceptions_macros.hpp"],
 [("lazy holder union", "src/exceptions.cpp: lazy_trace_holder"), ("what() composition", "src/exceptions.cpp: lazy_exception::what"), ("wrapping", "src/exceptions.cpp: rethrow_and_wrap_if_needed; include/cpptrace/exceptions_macros.hpp")],
 state=[("holder", "unresolved raw trace or resolved trace", "src/exceptions.cpp"), ("what_string", "memo of what()", "include/cpptrace/exceptions.hpp")],
 observe=["what()", "message()", "trace()", "code()", "nested_ptr()"])

prop("C07", "Formatted output is the documented rendering for every configuration",
 "For every formatter configuration, trace and destination, the output is the documented rendering: header, one correctly numbered and aligned entry per frame after transform and filter (kept, hidden or shown as placeholder as configured), the configured address form, path, symbol form, column, line break and snippet, `<empty trace>` for nothing, and no other bytes. Format to string, print to stream, to stdout and to file agree; turning color on adds only escape sequences, which are balanced, and off adds none, with the documented precedence of mode, argument and terminal. The transform sees each frame once, in order, before the filter, and the trace passed in is never modified.",
 ["inputs", "configurations"], "all combinations of formatter settings, callbacks, traces and print destinations",
 "the tests compare a few fixed traces under one setting at a time; combinations and unusual frames are unsampled",
 ["src/formatting.cpp", "include/cpptrace/formatting.hpp", "src/cpptrace.cpp"],
 [("rendering", "src/formatting.cpp: formatter::impl"), ("member printing", "src/cpptrace.cpp: stacktrace::print, to_string, operator<<")],
 observe=["formatter::format", "formatter::print", "stacktrace::to_string", "operator<<"])

prop("C08", "A formatter is a value: copies are independent, use does not change it",
 "Over any history of creating, configuring, copying, moving, assigning (including to itself) and using formatters, each formatter always renders as its own configuration says: configuring or destroying one never affects another, using one never changes it, and a setting holds until it is replaced. The default formatter and the shared snippet formatter always render with the default configuration.",
 ["histories"], "all operation sequences over any number of formatter objects",
 "the tests build each formatter in one expression and use it once",
 ["src/formatting.cpp", "include/cpptrace/formatting.hpp"],
 [("pimpl copy/move", "src/formatting.cpp: formatter constructors and assignment"), ("setters", "src/formatting.cpp: formatter::*")],
 state=[("configuration", "options, transform and filter of each formatter", "src/formatting.cpp: formatter::impl")],
 observe=["formatter::format"])

prop("C09", "A snippet shows exactly the right lines of the source file",
 "For every text file, line, column, context size and color flag, the snippet consists of the file's lines from line-context to line+context clipped to the file, blank lines at both ends of that window dropped (never the target line's own), each with its right number and text, the target line marked, and a caret under the given column; a line number beyond the file shows just the part of that window the file has, and unreadable files give an empty snippet. Line endings, a missing final newline, empty lines and very large numbers never shift, lose or duplicate a line, and reading the same file again in any order gives the same answers.",
 ["inputs", "histories"], "all file contents, lines, columns, context sizes (0 to the maximum integer), sequences of requests",
 "the tests never call the snippet function on more than one small file",
 ["src/snippets/snippet.cpp", "src/utils.cpp", "src/formatting.cpp"],
 [("line index and window", "src/snippets/snippet.cpp: snippet_manager, get_lines, get_snippet")],
 state=[("line table", "offsets of the lines of each file read so far", "src/snippets/snippet.cpp")],
 observe=["get_snippet", "formatter with snippets"])

prop("C10", "Pruning a symbol keeps its qualified name and drops the rest",
 "For every demangled C++ function name built from nested scopes, templates, function, pointer and member-pointer types, lambdas, anonymous namespaces, unnamed types, literals, operators and conversion functions to named types, prune_symbol returns exactly the qualified name, without return type, template arguments, parameters, qualifiers and clone suffixes. For any other string it terminates without error and returns either a part of the string or the string itself, never an empty string for a non-empty one. The result does not depend on the amount of template arguments, parameters or qualifiers around the name.",
 ["inputs"], "all symbols of the grammar of demangled names (GCC, LLVM and MSVC spellings), and all strings",
 "the tests check a fixed list of symbols; nesting depth and combinations of constructs are unbounded",
 ["src/prune_symbol.cpp"],
 [("tokenizer", "src/prune_symbol.cpp: symbol_tokenizer"), ("recursive descent parser", "src/prune_symbol.cpp: symbol_parser")],
 observe=["prune_symbol", "formatter::symbols(pruned)"])

prop("C11", "prettify_symbol and basename are exact, stable string rewritings",
 "For every string, prettify_symbol only shortens the documented verbose spellings (standard string types, allocator and deleter arguments, spacing between closing template brackets and around commas, msvc class keys and anonymous namespaces, the dual ABI namespace) and leaves everything else byte for byte; for every symbol the result is the fully prettified spelling, in which no such spelling is left and which prettifying again does not change. basename returns exactly what follows the last path separator. demangle returns the plain C++ spelling of a mangled name, with any suffix after a space kept, and a string that isn't one unchanged.",
 ["inputs"], "all strings over the alphabets of symbols and paths", 
 "the tests check a few strings", 
 ["src/formatting.cpp", "src/utils/replace_all.cpp", "src/utils/utils.hpp", "src/demangle/demangle_with_cxxabi.cpp", "src/platform/path.hpp"],
 [("rewrite rules", "prettify_symbol"), ("template replacement", "src/utils/replace_all.cpp")],
 observe=["prettify_symbol", "basename", "demangle", "formatter::symbols(pretty)", "formatter::paths(basename)"])

prop("C12", "Internal errors are absorbed or propagated as configured, and logged once",
 "With exception absorption on (the default) no internal failure escapes from a function that captures, resolves or prunes, however often and at whatever internal step it happens: the caller gets the partial or empty result (every frame with the right raw address, no field that is not its own), each failure is reported once to the configured log callback, and later calls are unaffected. With absorption off the same failure is reported and reaches the caller; exception objects' own members never throw in either mode. Log messages go to the configured destination exactly when their level is at or above the configured level, by default nowhere, in every order of reconfiguration.",
 ["fault_sequences", "histories", "configurations"], "all failing operations, all positions of the failure, all orders of set_log_level / set_log_callback / use_default_stderr_logger / absorb_trace_exceptions",
 "the tests never make anything fail and never read the log",
 ["src/utils/error.cpp", "src/logging.cpp", "src/options.cpp", "src/cpptrace.cpp"],
 [("absorption", "src/utils/error.cpp: log_and_maybe_propagate_exception"), ("level filter and callback", "src/logging.cpp")],
 state=[("log level, callback, absorb flag", "process-wide configuration", "src/logging.cpp, src/options.cpp")],
 observe=["the log callback", "std::cerr", "exceptions reaching the caller"])

prop("C13", "The C API mirrors the C++ API and owns exactly what it hands out",
 "For every trace, the C functions give the same frames, objects, symbols and text as their C++ counterparts, with absent lines and columns as the invalid position and strings NUL-terminated. Every structure returned is freed completely by its free function, which may be called again or on an empty or null structure, and stays valid until then whatever else is called. NULL and empty arguments give the documented empty results rather than a failure, and no exception crosses the C boundary.",
 ["histories", "inputs"], "all sequences of C API calls with all argument shapes, all traces",
 "the only C test prints one trace",
 ["src/ctrace.cpp", "include/ctrace/ctrace.h"],
 [("conversion", "src/ctrace.cpp: c_convert, cpp_convert"), ("ownership", "src/ctrace.cpp: ctrace_free_*")],
 state=[("live structures", "what the caller owns", "the caller")],
 observe=["ctrace_*"])

prop("C14", "The JIT object registry finds exactly the registered code",
 "After any history of registering, unregistering and clearing in-memory JIT objects, in any order and address layout, looking up a program counter finds exactly the currently registered object whose code range contains it, and nothing when none does. Unregistering removes only that object and clearing removes all; unregistering unknown memory, invalid object images and empty objects are harmless.",
 ["histories", "inputs"], "all histories of register/unregister/clear over all layouts of code ranges, all image bytes",
 "no test registers a JIT object",
 ["src/jit/jit_objects.cpp", "src/binary/elf.cpp", "include/cpptrace/gdb_jit.hpp"],
 [("ordered range list", "src/jit/jit_objects.cpp: jit_object_manager"), ("in-memory ELF reading", "src/binary/elf.cpp")],
 state=[("objects, range_list", "registered objects and their code ranges", "src/jit/jit_objects.cpp")],
 observe=["register_jit_object", "unregister_jit_object", "clear_all_jit_objects", "lookup by pc", "register_jit_objects_from_gdb_jit_interface"])

prop("C15", "Signal-safe tracing is safe at every interruption and agrees with normal tracing",
 "Called from a signal handler at any point of the program, safe_generate_raw_trace and get_safe_object_frame allocate nothing, take no lock and write only within the given buffer, and return the interrupted program's frames: the same addresses and windows as an ordinary trace, with the interrupted instruction itself as its frame. A safe object frame resolves to the same object, address and path as ordinary resolution for every address, the path being NUL-terminated. Where unsupported, the functions report so and return nothing.",
 ["crash_points", "inputs", "configurations"], "all interruption points (inside the allocator, inside library code, at a fault), buffer sizes, skip/max_depth values, addresses",
 "the signal demo is not asserted on; no test interrupts the allocator or checks buffer bounds",
 ["src/cpptrace.cpp", "src/unwind/unwind_with_libunwind.cpp", "src/binary/safe_dl.cpp", "src/binary/object.cpp"],
 [("safe capture", "src/unwind/unwind_with_libunwind.cpp: safe_capture_frames"), ("safe object lookup", "src/binary/safe_dl.cpp")],
 observe=["safe_generate_raw_trace", "get_safe_object_frame", "safe_object_frame::resolve"])

prop("C16", "Concurrent use gives every thread the result it would get alone",
 "Any number of threads capturing, resolving, formatting, printing to their own streams, pruning, reading snippets and handling exceptions at the same time get exactly the results they would get one after another, with no data race, deadlock or lost initialisation, whichever thread happens to do something first.",
 ["schedules"], "all interleavings of library calls in any number of threads, including first-use initialisation",
 "the tests are single-threaded apart from one thread-local check",
 ["src/binary/module_base.cpp", "src/snippets/snippet.cpp", "src/symbols/symbols_with_addr2line.cpp", "src/symbols/symbols_with_libbacktrace.cpp", "src/logging.cpp", "src/formatting.cpp"],
 [("mutex-protected caches", "src/binary/module_base.cpp, src/binary/elf.cpp, src/snippets/snippet.cpp"), ("thread-local exception traces", "src/from_current.cpp"), ("atomics for options", "src/options.cpp, src/logging.cpp")],
 state=[("caches", "image bases, snippet files, addr2line availability", "function-local statics")],
 observe=["results of calls in each thread"])

prop("C17", "The terminate handler always reports what killed the program, then aborts",
 "With the terminate handler registered, however the program terminates (an uncaught exception of any type, cpptrace or not, thrown anywhere, a noexcept violation, a terminate call with no exception, in any thread) it prints the exception's dynamic type and its message once, followed by a trace (the exception's own for traced exceptions, otherwise of the termination point), to stderr only, and the process ends by abort.",
 ["programs", "inputs"], "all exception types and messages, all termination causes, main and other threads",
 "no test terminates a program",
 ["src/utils.cpp", "src/platform/exception_type.hpp"],
 [("handler", "src/utils.cpp: terminate_handler, print_terminate_trace")],
 observe=["stderr and exit status of a terminated process"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
