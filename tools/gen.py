#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, claim=True, reason=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  _t=technique, _n=note, _c=claim, _r=reason))
H, I, C, F = "histories", "inputs", "configurations", "fault_sequences"
MB = "model-based property testing (generated operation histories, reference model, shrinking)"
DO = "property-based testing (generated inputs against an independent oracle, shrinking)"
NOTE = "Bounded random search, coverage-guided, under AddressSanitizer; trusts the reference model in the harness. "

prop("C01", "Intrusive lists behave as sequences",
     "For every history of list operations (add, remove, insert before or after, index, append, peek, safe and unsafe iteration in both directions), each list holds exactly the sequence a plain ordered container would hold after the same history, and every query (length, emptiness, head, tail, membership, index) answers for that sequence. An item moved to another list leaves the first one, appending moves all items (also from an empty source), and items removed while a safe iteration visits them do not disturb it.",
     [H], "all histories of operations over any number of lists and items, each item possibly in several lists through distinct members",
     "The tests run each operation once or twice on at most three items; they do not reach combinations (append of empty lists, re-adding linked items, removal during iteration).",
     ["include/embc/collections/list.h", "src/collections/list.c"], [("list operations", "src/collections/list.c"), ("iteration macros", "include/embc/collections/list.h")],
     ["list contents via iteration in both directions, length, index"], MB, NOTE + "Up to 4 lists, 10 items.")
prop("C02", "Integer map is a map for every put/get/remove history",
     "After any history of put, get and remove on an integer map (plain or a typed instantiation), get returns the value of the last put of that key since its last removal, or not-found; size is the number of present keys; put and remove report the replaced or removed old value. This holds for every integer key, at every size and across table growth.",
     [H, I], "all histories, all keys (negative, colliding, boundary values), any number of live keys",
     "The tests store a few keys and never grow the table beyond its first resize with colliding keys.",
     ["include/embc/collections/intmap.h", "src/collections/intmap.c"], [("hash bins and resize", "src/collections/intmap.c")],
     ["return codes, values, size"], MB, NOTE + "Up to 700 live keys, three growths.")
prop("C03", "Integer map iteration visits every stable key exactly once",
     "An iterator over an integer map yields every key that is present during the whole iteration exactly once with its current value, never yields a key that is not present, and ends. This holds with any interleaving of put, remove and get, table growth and other live iterators.",
     [H], "all interleavings of any number of iterators with map changes",
     "The tests iterate a small map and remove one fixed key; the interleavings and table growth under a live iterator are not sampled.",
     ["src/collections/intmap.c"], [("iterators registered with the map; removal advances them", "src/collections/intmap.c")],
     ["keys and values yielded"], MB, NOTE + "Up to 3 live iterators.")
prop("C04", "String map is a map keyed by string content",
     "After any history of put, get and remove on a string map, lookups answer by string content: the value of the last put of an equal string not removed since, or not-found; size counts the distinct present strings, and old values are reported. Keys are copied: the caller may change or free a key right after the call, and no byte outside the key string is read.",
     [H, I], "all histories over all strings, including empty, long, equal-hash and prefix-related ones",
     "The tests use two or three short literal keys whose storage never changes.",
     ["include/embc/collections/strmap.h", "src/collections/strmap.c"], [("string hash, bin lists, key copy", "src/collections/strmap.c")],
     ["return codes, values, size"], MB, NOTE)
prop("C05", "Hash map honours the caller's hash and equivalence",
     "After any history of put and get on a hash map, get returns the value of the last put whose key is equivalent under the caller's equivalence, or not-found; size is the number of non-equivalent keys present and put reports the replaced value. This holds for every hash function that is consistent with the equivalence, including constant and negative-valued ones.",
     [H, C], "all put/get histories and all consistent hash functions",
     "The tests use one hash function with few keys, without collisions or equivalent but distinct key objects.",
     ["include/embc/collections/hashmap.h", "src/collections/hashmap.c"], [("bins by hash, equivalence on lookup", "src/collections/hashmap.c")],
     ["return codes, values, size"], MB, NOTE + "remove and iterators of the hash map are declared but not implemented at this commit, so they are outside the property.")
prop("C06", "Containers give back all memory they take",
     "After any history on an integer map (plain or typed, with iterators), string map, hash map or event manager followed by its free function, every memory block the library took for it has been released. While it lives, removed, replaced and completed elements do not accumulate: the blocks held stay proportional to the peak number of live elements.",
     [H], "all operation histories ending in free",
     "The tests do not count allocations, so any leak passes them.",
     ["src/collections/intmap.c", "src/collections/strmap.c", "src/collections/hashmap.c", "src/event_manager.c"],
     [("free functions, entry release on remove, event reuse", "src/collections, src/event_manager.c")], ["allocator calls and heap blocks"], MB,
     NOTE + "Counts blocks through the library allocator and the sanitizer's malloc hooks.")
prop("C07", "CRC functions compute their documented codes",
     "For every message and initial value, the CCITT-8, CCITT-16 and CRC-32 functions return exactly the code of their documented polynomial, and feeding a message in any number of consecutive pieces gives the same result as feeding it at once. Every single-bit error, every burst no longer than the code width and the other error classes the polynomials guarantee change the code.",
     [I], "all messages, initial values and splits; all error patterns in the guaranteed classes",
     "The tests check a handful of fixed vectors.",
     ["include/embc/crc.h", "src/crc.c"], [("table driven CRC", "src/crc.c")], ["returned codes"], DO, NOTE + "Messages up to 2000 bytes, some up to 140000.")
prop("C08", "C-string helpers are exact and stay inside their buffers",
     "For all strings, the copy, case-insensitive compare, prefix, upper-case, table and boolean lookup and hex-digit helpers return their documented result. They never read beyond a terminator or write beyond the given size, and a copy is always terminated and reports truncation exactly when the source did not fit.",
     [I], "all strings and buffer sizes, null arguments where documented",
     "The tests use a few literals in buffers with slack, so an overrun or an off-by-one at an exact fit is invisible.",
     ["include/embc/cstr.h", "src/cstr.c"], [("string helpers", "src/cstr.c")], ["results and buffer contents"], DO, NOTE + "Strings in exact-size heap blocks.")
prop("C09", "Number parsing is exact or an error",
     "For every string, parsing to unsigned 32-bit, signed 32-bit and scaled decimal returns success and the exact value when the string is a well-formed number (surrounding white space, sign, hexadecimal or decimal as documented) that fits, with excess fraction digits truncated; the optional floating-point parser gives the nearest representable value. Every other string, including values that do not fit, is reported as an error and leaves the output alone.",
     [I], "all strings, all exponents accepted by the scaled form",
     "The tests try about a dozen strings; limits, overflow, long fractions and malformed neighbours are not sampled.",
     ["include/embc/cstr.h", "src/cstr.c"], [("embc_cstr_to_u32, _to_i32, _to_i32s", "src/cstr.c")], ["return code and stored value"], DO, NOTE)
prop("C10", "Block allocator never overlaps and never refuses wrongly",
     "For every history of allocations and frees, each allocation returns an aligned run of blocks large enough for the request that overlaps no live allocation and lies inside the memory given at initialization; live contents are never changed. A request fails exactly when no sufficiently long run of free blocks exists, for every size up to the largest integer; freeing memory that is foreign or not allocated is reported.",
     [H, C], "all geometries, request sizes and alloc/free histories",
     "The tests allocate a few blocks in one geometry and do not free out of order.",
     ["include/embc/memory/block.h", "src/memory/block.c"], [("bitmap search", "src/memory/block.c")], ["returned addresses, block contents"], MB, NOTE + "Up to 300 blocks.")
prop("C11", "Fixed pools hand out each block once",
     "For every history of allocations and frees on a fixed-size pool, live blocks are disjoint, aligned, inside the caller's memory and keep their contents, and exactly the configured number can be live at once. The pool reports empty exactly when none is left, and allocation beyond that is reported (fatal, or null in the unsafe form).",
     [H, C], "all pool geometries and alloc/free histories",
     "The tests use one geometry and one order of frees.",
     ["include/embc/memory/pool.h", "src/memory/pool.c"], [("free list", "src/memory/pool.c")], ["returned blocks, emptiness, contents"], MB, NOTE)
prop("C12", "Object pool counts references exactly",
     "For every history of allocate, increment and decrement, an object is constructed once when allocated, stays intact while it holds at least one reference, and is destroyed and returned exactly once when its last reference goes, also when destructors release or allocate further objects. Using a returned object, exhausting the pool or exceeding the count limit is reported as fatal, never silently accepted.",
     [H, C], "all reference histories including nested release from destructors",
     "The tests take and return single objects; nested releases, slot reuse and misuse are barely sampled.",
     ["include/embc/memory/object_pool.h", "src/memory/object_pool.c"], [("per-object header with status and count", "src/memory/object_pool.c")], ["constructor/destructor calls, contents, fatal reports"], MB, NOTE)
prop("C13", "Buffer allocator serves every request that fits, disjointly",
     "For every configuration of size classes and every history of allocations and frees, a request gets an empty, freshly initialized buffer of at least the requested capacity from the smallest class that fits, its memory disjoint from every live buffer and inside the caller's region. A request is refused (fatal, or null in the unsafe form) exactly when that class is exhausted or no class is large enough, and a freed buffer becomes available to its own class again.",
     [H, C], "all class configurations, request sizes and free orders",
     "The tests use one configuration and sizes away from the class limits.",
     ["include/embc/memory/buffer.h", "src/memory/buffer.c"], [("size classes by power of two", "src/memory/buffer.c")], ["buffers returned, capacities, contents"], MB, NOTE)
prop("C14", "Buffer operations match a byte-vector model",
     "For every sequence of write, read, copy, string, erase, seek, reserve, clear and reset operations on a buffer, contents, length, cursor, remaining and capacity figures equal those of a simple byte vector with a cursor, and multi-byte integers use the stated byte order. An operation that does not fit is reported as documented (fatal, or truncation for strings) and leaves the buffer unchanged; nothing outside the capacity is ever touched. A static buffer starts empty from its one-statement initializer or definition, and freeing it changes nothing.",
     [H, I], "all operation sequences with all arguments",
     "The tests run each operation once with comfortable sizes.",
     ["include/embc/memory/buffer.h", "src/memory/buffer.c"], [("cursor, length, reserve", "include/embc/memory/buffer.h")], ["buffer contents and figures after every step"], MB, NOTE)
prop("C15", "Binary encoders and decoders round-trip in the stated byte order",
     "Every encode of an 8, 16, 32 or 64 bit value stores exactly its bytes in the stated (big or little endian) order at any alignment and touches no other byte, and the matching decode returns the value. This holds for the functions, which advance their cursor by exactly the field width, and for the macros, which also take expressions as operands (evaluating to the same bytes) and act as one statement (encode) or one value (decode).",
     [I], "all values, widths, orders, alignments and field sequences",
     "The tests encode one value per width at one alignment.",
     ["include/embc/bbuf.h"], [("encode/decode functions and macros", "include/embc/bbuf.h")], ["bytes stored, values decoded, cursor"], DO, NOTE)
prop("C16", "Events fire once, in time order, unless cancelled",
     "Processing up to a time fires exactly the scheduled, not yet cancelled events whose time has come, each once, ordered by time and then by scheduling order, with its own callback data and id, and reports how many. This holds for every history, including callbacks that schedule (also already-due) events or cancel others or themselves; the next-event queries always describe the earliest pending event.",
     [H], "all histories of schedule, cancel and process, with callbacks acting re-entrantly",
     "The tests use at most a few events and passive callbacks.",
     ["include/embc/event_manager.h", "src/event_manager.c"], [("ordered pending list", "src/event_manager.c")], ["callbacks, return values, next time"], MB, NOTE)
prop("C17", "State machine runs exactly its transition table",
     "For every machine definition and event history, the engine takes the first listed transition that matches the current state (or any state) and event (or any event) and whose guard accepts, calling exit, then transition, then enter handlers as documented, including vetoes and redirects; otherwise it stays put. Events posted from inside handlers are handled after the current one, in order, and definitions that refer to invalid states or events are rejected.",
     [H, C], "all tables, guards, handlers and event histories including re-entrant events",
     "The tests use one fixed machine.",
     ["include/embc/fsm.h", "src/fsm.c"], [("transition search, reentrant queue", "src/fsm.c")], ["handler calls and current state"], MB, NOTE)
prop("C18", "LFSR generator and follower agree on the sequence",
     "From every seed the generator yields the maximum-length bit sequence of its documented polynomial, in any mix of 1, 8, 16 and 32 bit draws, and never the all-zero state. A follower that is fed the stream accepts it without error from the point where it has seen enough history, counts an error for data that does not continue the sequence, and recovers after any disturbance.",
     [H, I], "all seeds, draw mixes and disturbed streams",
     "The tests compare a few values and one injected error.",
     ["include/embc/lfsr.h", "src/lfsr.c"], [("shift register, follower history", "src/lfsr.c")], ["values drawn, follower verdicts and counters"], MB, NOTE)
prop("C19", "Test-pattern receiver accounts exactly for loss and repetition",
     "The pattern generator yields the same word sequence however it is drawn, and a receiver fed that sequence from any position counts every word with no errors. For every stream made of correct runs separated by skips, repeats or damaged words, the receiver resynchronizes, and its received, missing and duplicate counts equal the words actually received, skipped and repeated, and its error count the words that could not be synchronized; damage before the first correct run counts only as errors.",
     [H, F], "all start positions, block sizes and disturbance sequences (skips and repeats below half a period)",
     "The tests inject one skip and one repeat at fixed positions.",
     ["include/embc/pattern_32a.h", "src/pattern_32a.c"], [("two-word history resync", "src/pattern_32a.c")], ["words generated, receiver counters"], MB, NOTE)
prop("C20", "Command line editing executes exactly what the terminal shows",
     "For every typed byte stream, each completed line is executed exactly once with the text that remains after editing (backspace, delete, trimming, comments), and lines longer than the limit are discarded and never executed in part. The terminal output (echo, erase sequences, prompt, verbose response) is exactly what the selected echo and verbosity modes prescribe for those keystrokes.",
     [H, I], "all byte streams over all echo and verbosity modes",
     "The tests type a few short lines in the default mode.",
     ["include/embc/cli.h", "src/cli.c"], [("line buffer and echo", "src/cli.c")], ["commands executed, characters printed"], MB, NOTE)
prop("C21", "Command arguments are split exactly at delimiters",
     "Splitting a command line yields exactly its maximal runs of non-delimiter characters, in order, for every line, without reading or writing outside it; the caller's callback gets them once with its own cookie and its result is passed on. Lines with more arguments than supported are refused without calling it.",
     [I], "all command lines up to the maximum length",
     "The tests parse a couple of short lines.",
     ["include/embc/cli.h", "src/cli.c"], [("line parser", "src/cli.c")], ["arguments passed to the callback"], DO, NOTE)
prop("C31", "Time conversions are exact to their stated rounding",
     "Converting between fixed-point time and ticks of any frequency, named units or floating point gives the mathematically exact result under the stated rounding (nearest, up, down) for every value whose result fits, for positive and negative times and for arguments given as expressions. Converting ticks to time and back to nearest returns the same ticks, and the named constants are the exact fixed-point values.",
     [I], "all times and frequencies that do not overflow 64 bits",
     "The tests convert one second and a few neighbours.",
     ["include/embc/time.h"], [("conversion macros", "include/embc/time.h")], ["macro results"], DO, NOTE)
prop("C32", "Platform helpers and general macros match their definitions",
     "Leading-zero count, power-of-two rounding, memory fill and copy, cleared allocation and the general macros (range limit, sign, round to multiple, container, structure clear, size formats, error return, static assertion) give their defined result for every argument, on the standard library and the ARM platform, also when arguments are expressions, evaluating a checked expression once. Allocation and free always reach the allocator set last; a missing allocator, an exhausted one, or freeing null is reported as fatal.",
     [I, H], "all arguments; all allocator replacement histories",
     "The tests use single bits and small positive constants.",
     ["include/embc/platform.h", "src/platform.c", "include/embc/platform/stdlib.h", "include/embc/platform/arm.h", "include/embc/cdef.h", "include/embc/inttypes.h"], [("allocator front end", "src/platform.c"), ("macros", "include/embc/cdef.h")], ["results, allocator calls, fatal reports"], DO, NOTE + "The ARM platform header runs on the host with its clz instruction supplied as an assembler macro; where the host cannot assemble it, that part is skipped.")
prop("C33", "Logging delivers exactly the permitted messages",
     "A log statement delivers its message exactly once to the current handler, with the character of its level, file, line and complete formatted text, if and only if its level is within both the module and the global limit; otherwise nothing is delivered and its arguments are not evaluated. A single-argument message appears verbatim, removing the handler silences logging safely, and every level maps to its own name and character.",
     [H, C], "all level macros, level limits, texts and handler histories",
     "The tests log fixed text at eight of ten levels with one handler.",
     ["include/embc/log.h", "src/log.c"], [("level filter and dispatch macros", "include/embc/log.h"), ("handler", "src/log.c")], ["handler calls"], MB, NOTE)
prop("C34", "Error codes map to their own names and descriptions",
     "Every defined error code maps to the name of its identifier and to a description of its own; every other integer maps to the unknown name and description.",
     [I], "all 32-bit integers",
     "The tests look up three codes.",
     ["include/embc/ec.h", "src/ec.c"], [("X-macro switch", "src/ec.c")], ["returned strings"], DO, NOTE)
prop("C35", "Contract checks fire exactly when their condition is false",
     "For all operand values, each design-by-contract and assertion check reports a fatal error at its own location, and each argument check makes the function return the parameter error, exactly when the stated condition is false. The operand is evaluated once.",
     [I], "all operand values and expressions, all check macros",
     "The tests try one or two values per macro and leave out the comparison macros.",
     ["include/embc/dbc.h", "include/embc/argchk.h", "include/embc/assert.h"], [("check macros", "include/embc/dbc.h")], ["fatal reports, return codes"], DO, NOTE)
prop("C36", "Running out of memory is always reported",
     "Whenever a container or event manager operation is refused memory, that very operation reports it, by a fatal error or its documented error value; it never reports success, dereferences null or fails while memory is available. An event manager that was refused memory keeps all pending events and goes on working.",
     [F, H], "all histories with the heap failing at any request",
     "The tests never make an allocation fail.",
     ["src/platform.c", "src/collections/intmap.c", "src/collections/strmap.c", "src/collections/hashmap.c", "src/event_manager.c"], [("assert on null allocation", "src/platform.c")], ["fatal reports, return values, later behaviour"],
     "fault-injecting model-based property testing (heap fails after a generated budget)", NOTE)

prop("C38", "Shared library host gets every fatal error and log message once",
     "Through the shared library interface, every fatal error reaches the fatal handler set last exactly once, with that handler's user data and the file, line and text of the error; without a handler, its file, line and text are printed instead. Every log message reaches the print function set last exactly once with its user data and its complete text (the start of the text when it exceeds 8191 characters), or standard output when there is none. Memory taken through the interface is cleared and comes from and returns to the current allocator; freeing null does nothing.",
     [H, I], "all histories of handler, print function and allocator changes, errors and messages, also raised from inside a fatal handler",
     "The tests do not link the shared library support module at all.",
     ["include/embc/lib.h", "src/lib.c"], [("fatal and print dispatch", "src/lib.c")], ["handler and print calls, standard output, allocator calls"], MB, NOTE)

prop("C39", "Python bindings behave like the library they wrap",
     "Through the Python package, every operation gives the result of the library it wraps: messages, pings, status requests and resyncs between two Framers arrive exactly once, in order, with their exact port, ids and bytes, and complete with status 0, over a link with isolated faults, received in pieces of any size, and with the timers the package keeps; buffers follow a byte-vector model and are disjoint; pattern generator and receiver give the same words and counts for single words, bytes, lists and arrays; error names, numbers, constants and structures agree with the library.",
     [H, I, F], "all histories of binding calls over the whole package",
     "The Python tests run a few calls each, and at this commit most of them could not even be imported.",
     ["py/embc/stream/framer.py", "py/embc/memory/buffer.py", "py/embc/pattern_32a.py", "py/embc/ec.py", "py/embc/lib.py", "py/embc/collections/list.py"],
     [("ctypes declarations", "py/embc"), ("Framer class: HAL callbacks, timer, ports", "py/embc/stream/framer.py")],
     ["callbacks and results in Python"], "stateful property-based testing of the Python bindings (generated histories, reference model, shrinking)",
     "Random search with forked workers, no coverage guidance; the library is built with gcc from the tree without sanitizers. At most 2 line faults between idle moments and 2 messages in progress per side.")

prop("C40", "Ping qualification accounts for every ping exactly once",
     "For every history of responses, completions, losses and waits, the ping qualification tool sends exactly the requested number of pings, with consecutive message ids and the test pattern as payload, never more than 3 awaiting a response or 3 awaiting completion, and counts each exactly once: completed when its response and its completion have both arrived, in either order; missing when a later ping is answered before it; failed when its send fails (new pings then wait 1 s); timed out after 5 s. Responses and completions that match no outstanding ping change nothing. Its statistics report these counts, and over a line with isolated faults every ping completes.",
     [H, F], "all histories of events on the ping queue; all isolated line faults for the whole tool",
     "No test runs the tool.",
     ["py/bin/framer_qual.py", "py/embc/stream/framer.py", "py/embc/pattern_32a.py"],
     [("PingQueue: pending, resync, timeout, statistics", "py/bin/framer_qual.py"), ("MasterFramer: serial port, port 0 callbacks", "py/bin/framer_qual.py")],
     ["pings sent, logged statistics"], "stateful property-based testing of the Python tool against an accounting model, and end to end over a simulated serial line",
     "Random search with forked workers, no coverage guidance; the serial package is a stand-in and time is virtual. At most 2 line faults, 40 frames apart.")
prop("C41", "The buffer log checker reports exactly the unpaired operations",
     "For every log that the library writes while buffers are allocated and freed (with other messages in between, lines lost, cut off or prefixed), the buffer log checker reports, with their line numbers, exactly the allocations of a buffer that is still allocated, the frees of a buffer that is not allocated (with its last allocation and free) and the allocations never freed; it reports nothing for a log in which all operations pair, and an allocation that found no buffer is not counted.",
     [H], "all allocation histories and all losses of log lines",
     "No test runs the tool, and at this commit it did not recognise the messages that the library logs.",
     ["py/bin/buffer_log_check.py", "src/memory/buffer.c"],
     [("log statements", "src/memory/buffer.c"), ("pairing", "py/bin/buffer_log_check.py")],
     ["the report of the checker"], "property-based testing: generated histories logged by the real library, report compared with a pairing model",
     "Random search with forked workers, no coverage guidance; up to 3 lost lines per log.")

prop("C43", "The bundled printf prints what C prints and stays inside its buffer",
     "For every format made of literal text and the supported conversions (c d i o u x X p s %, with field width, zero padding, left alignment, alternate form and the long, long long and size lengths), the bundled printf functions produce exactly the text the C library produces, in order, to the output they were given. The buffer variants store its first size-1 characters and a terminator, touch nothing beyond, and return the length of the whole text.",
     [I], "all formats, argument values and buffer sizes",
     "No test calls the bundled printf.",
     ["third-party/tinyprintf/tinyprintf.c", "third-party/tinyprintf/tinyprintf.h"], [("tfp_format and the sprintf family", "third-party/tinyprintf/tinyprintf.c")], ["characters written, return values"],
     "differential property-based testing against the C library's printf (generated formats and arguments, shrinking)",
     NOTE + "Not compared where C leaves the result undefined, nor for precisions, - together with 0, # on zero and a size of 0 (nothing may be written then), which the bundled printf documents or treats differently.")
prop("C44", "The bundled list macros behave as sequences",
     "For every history of the bundled singly linked, doubly linked and circular list macros (prepend, append, insert before or after, replace, delete, concatenate, sort, count, search, walk, walk and delete, each in both field forms and with and without typeof), the lists hold exactly the elements of the corresponding sequences, in order, forwards and backwards; sorting is stable and the safe walks visit every element once while the current one is deleted.",
     [H], "all histories of list operations",
     "The library's tests reach only the four macros that the pools and maps use.",
     ["third-party/uthash/src/utlist.h"], [("LL_, DL_ and CDL_ macros", "third-party/uthash/src/utlist.h")], ["list contents in both directions, results"], MB, NOTE)

exec(open(os.path.join(V, "tools", "gen_stream.py")).read()) if os.path.exists(os.path.join(V, "tools", "gen_stream.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
man = dict(version=1, setup_cmd="python3 -m py_compile check.py && clang --version >/dev/null",
           checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                        evidence_file="evidence/%s.json" % p["id"], technique=p["_t"], level="exploration", level_note=p["_n"].strip()) for p in P if p["_c"]],
           not_applicable=[dict(property=p["id"], reason=p["_r"]) for p in P if not p["_c"]],
           notes="No hooks in /repo: the checks drive the public API, compiled from /repo's working tree into scratch directories.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
