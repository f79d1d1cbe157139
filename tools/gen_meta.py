#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS
S = "src/libcork/"
I = "include/libcork/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=hook),
                  technique=technique, note=note))


ST = "stateful model-based property testing (random histories against a reference model, shrinking)"
p("C01", "A hash table behaves as a map from keys to values",
  "After any sequence of inserts, updates, lookups, get-or-creates, deletes, clears and iterator deletions, a hash table holds exactly the key/value pairs that a map updated the same way holds, its reported size is that map's size, and every operation reports whether it created, replaced or found an entry, with the previous key and value. This holds for pointer, string and user-supplied hash/equality functions, whatever collisions they produce, with hashes supplied by the caller, and across every rehash and initial size.",
  "histories inputs", "every operation history, key set, hash function (colliding ones included), size hint", "The tests run a few fixed histories with a handful of keys; collisions, rehash boundaries and delete/insert interleavings over many keys are never sampled.",
  [S + "ds/hash-table.c", I + "ds/hash-table.h"], [("bins of doubly linked entries, rehash at load factor", S + "ds/hash-table.c")], ["results of the hash table calls", "size", "lookups of every key after each step"], ST)
p("C02", "Hash tables iterate every entry once, in insertion order",
  "Iterating a hash table, with an iterator or a map callback, visits each entry exactly once in the order in which its key was first inserted since it was last absent, whatever rehashes happened and whatever updates were made. A map callback that asks to delete the entry it is given removes exactly that entry, and one that asks to abort stops the traversal at once, leaving the rest untouched.",
  "histories inputs", "every history followed or interrupted by a traversal with arbitrary keep/delete/abort decisions", "The tests iterate over three or so entries in one fixed history.",
  [S + "ds/hash-table.c", I + "ds/hash-table.h"], [("insertion-order list through all entries", S + "ds/hash-table.c")], ["order of visited keys"], ST)
p("C03", "A hash table releases each owned key, value and user datum exactly once",
  "A hash table with free functions for keys and values calls each exactly once for every key and value that it stops owning by deletion, clearing or destruction, never for one handed back to the caller by an operation documented to return the old key and value, and never earlier. Its own user data is released exactly once, when the table is destroyed, and all memory it allocated is returned.",
  "histories inputs", "every history of ownership-transferring operations", "The tests free tables with static keys, so a missing or repeated release is not observed.",
  [S + "ds/hash-table.c", I + "ds/hash-table.h"], [("free callbacks in delete/clear/free", S + "ds/hash-table.c")], ["free callbacks", "allocator balance"], ST)
p("C04", "A dynamic array holds exactly the elements appended and removed",
  "After any sequence of appends, removals, clears, reservations and copies, an array's elements equal those of a list updated the same way, for every element size. Growing never loses or moves the value of an element, reserved capacity is really usable without reallocation, and copies are independent of their source.",
  "histories inputs", "every history, element size and capacity", "The tests append a few integers in fixed order.",
  [S + "ds/array.c", I + "ds/array.h"], [("raw array with doubling growth and internal small storage", S + "ds/array.c")], ["size, elements, element addresses"], ST)
p("C05", "Array element callbacks run exactly when documented",
  "An array with element callbacks initialises each new element slot exactly once, calls the reuse callback exactly when a removed element's slot is taken again, calls the remove callback once for each element removed or cleared, and calls the done callback exactly once for each initialised slot when the array is finished, passing the array's user data. A callback that fails makes the operation fail and leaves a usable array, copy callbacks are applied to every element copied, and the user data is freed once.",
  "histories inputs fault_sequences", "every history, with callbacks failing at arbitrary points", "The tests check the counters on one short history and never make a callback fail.",
  [S + "ds/array.c", I + "ds/array.h"], [("initialized count versus size", S + "ds/array.c")], ["callback log"], ST + " with callback fault injection")
p("C06", "A growable buffer holds exactly the bytes written to it",
  "After any sequence of sets, appends, printf-style writes, copies, truncations and clears, a buffer's content and size equal those of a byte string built the same way, embedded NUL bytes included, and its content is always followed by a NUL terminator where it was written through a string or printf call. Equality between buffers is equality of content, and formatted output of any length, including output much larger than the current allocation, is complete. A text that cannot be formatted adds nothing.",
  "histories inputs", "every history and content; formatted outputs of every length around the allocation boundaries", "The tests use short strings; the boundaries between the formatted length and the allocated size are not sampled.",
  [S + "ds/buffer.c", I + "ds/buffer.h"], [("ensure_size growth, two-pass vsnprintf", S + "ds/buffer.c")], ["buffer content and size"], ST)
p("C07", "Pretty-printed bytes are exact and safe for every input",
  "Printing arbitrary bytes to a buffer as a C string, a printable binary, a hex dump or a multi-line hex dump yields exactly the documented rendering for every byte value and length. A C compiler reading a rendered C string obtains the original bytes back, and hex dumps give every byte once, in order, with offsets and the requested indentation.",
  "inputs", "every byte string and indentation", "The tests print one or two fixed strings.",
  [S + "ds/buffer.c", I + "ds/buffer.h"], [("append_c_string / append_hex_dump / append_literal", S + "ds/buffer.c")], ["rendered text"], "property-based testing: reference renderer and round-trip through a C string parser")
p("C08", "Slices stay within bounds and always show the right bytes",
  "A slice, copy, light copy or advance of any slice or managed buffer (a NULL one included) succeeds exactly when the requested offset and length lie within the source, for every value of the full size range, and otherwise reports an error and leaves its source unchanged and its destination empty. A successful slice shows exactly the requested bytes of its source for as long as it lives, whatever the backing (static, managed, copy-once, buffer or user-implemented) and whatever happens to the slices it was derived from, and slices are equal exactly when their contents are.",
  "histories inputs", "every history over slices of slices, every offset and length in the size_t range", "The tests try a few in-range and just-out-of-range offsets; huge values that wrap around and long derivation chains are not sampled.",
  [S + "ds/slice.c", S + "ds/managed-buffer.c", S + "ds/buffer.c", I + "ds/slice.h"], [("bounds check then iface->copy/slice", S + "ds/slice.c"), ("reference held per slice", S + "ds/managed-buffer.c")], ["slice content", "return code and error state"], ST)
p("C09", "A managed buffer lives exactly as long as its references",
  "A managed buffer's content stays unchanged and readable until its last reference, including those held by slices, is released, and its free function is then called exactly once, with the original buffer and size, for every order of references, slices and releases. A buffer created as a copy does not depend on the memory it was copied from.",
  "histories inputs", "every interleaving of ref, unref, slice, copy and finish", "The tests release references in one order.",
  [S + "ds/managed-buffer.c", I + "ds/managed-buffer.h"], [("reference count", S + "ds/managed-buffer.c")], ["freer calls", "content"], ST)
p("C10", "Doubly linked lists keep exactly the inserted elements in order",
  "After any sequence of insertions before, after, at the head and at the tail, removals, and moves of whole lists, each list contains exactly the elements that a sequence updated the same way contains, in the same order forwards and backwards. Size, emptiness, head and tail agree with that sequence, and traversals may remove the element they are visiting.",
  "histories", "every history over several lists", "The tests build lists of three elements.",
  [S + "ds/dllist.c", I + "ds/dllist.h"], [("sentinel-linked circular list", I + "ds/dllist.h")], ["forward and backward traversals"], ST)
p("C11", "A ring buffer is a bounded FIFO queue",
  "For every capacity and every sequence of additions, removals and peeks, a ring buffer returns pointers in exactly the order they were added, refuses an addition exactly when it already holds its capacity, and returns nothing exactly when it is empty. Refused operations change nothing.",
  "histories", "every history and capacity", "The tests fill one ring of one size once or twice.",
  [S + "ds/ring-buffer.c", I + "ds/ring-buffer.h"], [("read/write index arithmetic", S + "ds/ring-buffer.c")], ["values popped and peeked", "empty/full predicates"], ST)
p("C12", "A bit set stores each bit independently",
  "For every size and every sequence of assignments and clears, reading any bit of a bit set returns the value last assigned to that bit, all bits start cleared, and assigning one bit changes no other bit and touches no memory outside the set.",
  "histories inputs", "every size, index and history", "The tests set a few bits in one set of one size.",
  [S + "ds/bitset.c", I + "ds/bitset.h"], [("byte index and mask macros", I + "ds/bitset.h")], ["all bits after every step"], ST)
p("C13", "A memory pool hands out distinct, correctly reused objects",
  "Every object obtained from a memory pool is properly aligned, large enough for the pool's element size and disjoint from all other objects in use, for every element size and block size. An object is initialised by the init callback exactly once before it is first handed out, a freed object may be handed out again without being initialised again, and destroying the pool finishes every initialised object exactly once and returns all memory.",
  "histories inputs", "every history, element size and block size", "The tests allocate and free one object of one size.",
  [S + "core/mempool.c", I + "core/mempool.h"], [("block list and free list", S + "core/mempool.c")], ["object addresses, content, callback log, allocator balance"], ST)
p("C14", "The garbage collector frees exactly the unreachable objects",
  "After any sequence of object creations, reference changes, increments and decrements over any object graph, cyclic ones included, no object reachable from a reference the program still holds is ever freed or altered, and an object is freed at most once. When the collector is finished, every unreachable object has been freed exactly once with its free callback called, whatever the shape of the graph and however many candidate roots are buffered; and while the collector is in use, abandoned cycles do not pile up without bound.",
  "histories inputs", "every object graph and history of reference updates", "The tests build graphs of a few objects; thousands of buffered roots or cycles whose objects refer to each other while they are being freed are not sampled.",
  [S + "core/gc.c", I + "core/gc.h"], [("reference counts with trial deletion (mark-red, scan, collect-white)", S + "core/gc.c")], ["free callbacks, reachable object contents"], ST)
p("C15", "Allocators honour sizes, contents and failure contracts",
  "Every allocation function, on the default, debugging and user-defined allocators, returns memory of at least the requested size that is zeroed where promised and keeps its content across resizing up to the smaller size. Functions documented to return NULL on failure do so, those documented never to fail never return NULL, every request is forwarded to the underlying allocator, through the method given for it, with the sizes the caller gave, and a count times size that overflows never yields a short block.",
  "histories inputs fault_sequences", "every history of allocation calls, sizes over the whole range, an underlying allocator that fails at arbitrary points", "The tests allocate a few small blocks and never make an allocation fail.",
  [S + "core/allocator.c", I + "core/allocator.h"], [("allocator vtable with derived defaults", S + "core/allocator.c")], ["returned pointers, contents, calls reaching the underlying allocator"], ST + " with allocation fault injection")
p("C16", "Each thread's error state reports exactly the last error set",
  "After any sequence of setting, prefixing, clearing and propagating, the error state reports whether an error occurred, its code and exactly the formatted message with its prefixes, for messages of any length and including those that incorporate the current message. Each thread has its own error state, which no other thread's errors affect.",
  "histories inputs schedules", "every history and message length, on several threads at once", "The tests set short messages on one thread.",
  [S + "core/error.c", I + "core/error.h"], [("per-thread error with double buffering", S + "core/error.c")], ["error code, occurred flag, message text"], ST)
p("C17", "IP addresses parse exactly the valid notations and print canonically",
  "Parsing accepts exactly the textual IPv4 and IPv6 notations that are valid, yields the address they denote in network byte order, and rejects every other string with a parse error. Printing any address gives a notation that parses back to the same address, IPv4 in dotted decimal and IPv6 in the documented canonical form, and addresses are equal exactly when their bytes and versions are.",
  "inputs", "every address and every string, near-valid ones included", "The tests list about thirty good and bad strings.",
  [S + "core/ip-address.c", I + "core/net-addresses.h"], [("hand-written parsers and printers", S + "core/ip-address.c")], ["return code, address bytes, text"], "property-based testing: differential against an independent parser (and inet_pton), round-trip, mutated near-valid strings")
p("C18", "CIDR validity holds exactly when the host bits are zero",
  "An address and prefix length form a valid network exactly when the prefix length is within the address's width and every bit after the prefix is zero, for every IPv4 and IPv6 address and every prefix length.",
  "inputs", "every address and prefix length", "The tests try a dozen address/prefix pairs.",
  [S + "core/ip-address.c", I + "core/net-addresses.h"], [("prefix masks", S + "core/ip-address.c")], ["validity result"], "property-based testing: bit-by-bit reference")
p("C19", "128-bit integers behave as arithmetic modulo 2^128",
  "Construction, addition, subtraction, shifts by less than 128 and every comparison of unsigned 128-bit integers give the result of exact arithmetic modulo 2^128, whichever implementation the configuration selects. The byte, 16-, 32- and 64-bit views of a value each show it at the documented positions, most significant first.",
  "inputs configurations", "every pair of values, both implementations", "The tests add and compare a few constants with the configuration's default implementation.",
  [I + "core/u128.h", S + "core/u128.c"], [("native or two-word arithmetic", I + "core/u128.h")], ["values of all views"], "property-based testing: reference big-number arithmetic, algebraic laws")
p("C20", "128-bit integers print exactly in every base",
  "For every unsigned 128-bit integer, the decimal, hexadecimal and padded hexadecimal renderings denote exactly that integer, without superfluous digits except for the padding documented, and never write beyond the documented buffer sizes.",
  "inputs configurations", "every value, both implementations", "The tests print a few values.",
  [S + "core/u128.c", I + "core/u128.h"], [("digit extraction", S + "core/u128.c")], ["rendered strings, bytes after the buffer"], "property-based testing: reference printer, round-trip")
p("C21", "Hash values are the documented functions of their input bytes",
  "The stable hash of a byte string equals the published 32-bit MurmurHash3 of the seed and bytes, whatever the platform. The fast and 128-bit hashes are functions of the seed, length and content alone, and every byte, the length and the whole seed take part in them; no hash depends on the alignment or surroundings of the input, and none reads outside it. The command-line hash tool prints, for every string and option, exactly the value the library gives for that string.",
  "inputs", "every seed, byte string, length and alignment", "The tests check a handful of constants on aligned literals.",
  [I + "core/hash.h", S + "core/hash.c", "src/cork-hash/cork-hash.c"], [("Murmur3 body, tail and finaliser", I + "core/hash.h")], ["hash values"], "property-based testing: differential against an independent MurmurHash3, metamorphic alignment relation")
p("C22", "Byte-order conversions are exact and self-inverse",
  "For every 16-, 32-, 64- and 128-bit value, swapping reverses its bytes, conversion between host and big- or little-endian order produces the bytes in that order and is undone by converting back, and in-place conversion equals conversion by value. This holds whatever expression is given as argument: the macros convert the value of the whole expression.",
  "inputs configurations", "every value and every argument expression shape", "The tests convert one constant per width.",
  [I + "core/byte-order.h"], [("swap macros", I + "core/byte-order.h")], ["converted values and their bytes"], "property-based testing: byte-wise reference")
p("C23", "Timestamps convert between units with the documented rounding",
  "A timestamp built from seconds and a fraction in milliseconds, microseconds, nanoseconds or binary fractions reports the same seconds and, in the unit it was built from, the same fraction; in every other unit the fraction is the exact one rounded to the nearest unit, up to the timestamp's own resolution, and never reaches a whole second. Timestamps order as the instants they denote.",
  "inputs", "every second and fraction", "The tests convert a few fractions.",
  [I + "core/timestamp.h", S + "core/timestamp.c"], [("32.32 fixed point conversions", I + "core/timestamp.h")], ["accessor values"], "property-based testing: exact integer reference, round-trip, monotonicity")
p("C24", "Formatting a timestamp gives the exact calendar rendering",
  "For every timestamp and every format string, formatting as UTC or local time yields exactly the literal text and the calendar fields of that instant, fractional digits at exactly the requested width (the fraction in that unit, as the accessors round it), appended to the buffer. A format string with an unknown or malformed specifier is rejected with an error.",
  "inputs", "every instant, time zone and format string", "The tests format two instants with a few formats.",
  [S + "core/timestamp.c", I + "core/timestamp.h"], [("hand-written format interpreter over gmtime/localtime", S + "core/timestamp.c")], ["appended text, return code"], "property-based testing: independent calendar and format reference, near-valid formats")
p("C25", "Path operations follow path algebra",
  "Joining, absolute-ising, dirname and basename of any path string give the documented result: joining adds exactly one separator where needed and an absolute second path wins, the basename is what follows the last separator, the dirname is what precedes it with the root preserved, and making a path absolute prepends the current directory exactly when it is relative. Operations that return a new path leave their arguments unchanged, and those that modify a path in place give the same result.",
  "inputs histories", "every path string, including empty ones and ones with repeated separators", "The tests try about twenty pairs.",
  [S + "posix/files.c", I + "os/files.h"], [("string manipulation of a path buffer", S + "posix/files.c")], ["resulting path strings"], "property-based testing: reference string functions, metamorphic in-place versus copying")
p("C26", "Path lists and file searches honour list order",
  "Splitting a colon-separated list and printing it back gives the original string, and its size and elements are those between the separators. Searching a list for a file returns the first existing candidate in list order, a multi-file search returns every existing one in order (a candidate that cannot be looked up, for any reason but its absence, makes the search fail with that error), and the standard configuration, data, cache and runtime directories follow the environment variables and documented defaults.",
  "inputs configurations", "every list, every set of existing files, every environment", "The tests use one fixed directory layout and a few environments.",
  [S + "posix/files.c", I + "os/files.h"], [("path list of components", S + "posix/files.c")], ["paths returned, in order"], "property-based testing: reference over generated directory trees and environments")
p("C27", "File queries report the file system and create makes what is asked",
  "Queries of a file's existence and type agree with the file system at the time of the first query since the file was last created or removed through its object (a symbolic link counts as a link or as what it leads to). Creating a directory, with or without the recursive and permissive flags, creates exactly the directories asked for with the requested mode, succeeds or fails as mkdir and mkdir -p do, sets an error whenever it fails, and changes nothing else.",
  "inputs histories", "every tree and path", "The tests use one fixed tree.",
  [S + "posix/files.c", I + "os/files.h"], [("stat and recursive mkdir", S + "posix/files.c")], ["file tree before and after, return code, error"], ST + " over real directory trees in a scratch directory")
p("C28", "Removing a file or tree removes exactly what was named",
  "Removing a file, an empty directory or, with the recursive flag, a whole tree deletes exactly the named object and what is below it and nothing else; in particular, symbolic links are removed themselves and never followed. Removal of a missing or non-empty object succeeds or fails as documented, and reports an error whenever anything named could not be removed; a recursive removal stops at the first entry that cannot be removed and reports that entry's error code.",
  "inputs histories fault_sequences", "every tree with symbolic links, every unremovable entry", "The tests remove a fixed tree without links.",
  [S + "posix/files.c", I + "os/files.h"], [("recursive directory removal", S + "posix/files.c")], ["file tree before and after, return code, error"], ST + " over real directory trees in a scratch directory")
p("C29", "Directory iteration and walking visit every entry exactly once",
  "Iterating a directory gives every entry except . and .. exactly once, and walking it visits every file below it and enters and leaves every directory exactly once, in properly nested order, with the right full, relative and base names. A directory the callback asks to skip is not descended into, any other nonzero result stops the traversal at once and is returned, and every opened directory is closed. A callback may itself run another traversal.",
  "inputs histories", "every tree and every callback decision", "The tests walk one fixed tree without stopping.",
  [S + "posix/directory-walker.c", S + "posix/files.c", I + "os/files.h"], [("opendir/readdir recursion", S + "posix/directory-walker.c")], ["callback log, open descriptors"], ST + " over real directory trees in a scratch directory")
p("C30", "Reading a file or descriptor delivers exactly its bytes, once, in order",
  "Consuming a file, path, stream or descriptor passes the consumer exactly the bytes up to end of file, in order, in non-empty chunks of which only the first is marked first, followed by one end-of-file notification, whatever short reads and interruptions occur. A read error or a failing consumer stops at once, is reported with its error code, and no end-of-file follows it.",
  "inputs fault_sequences", "every content length and every sequence of short reads, interruptions, read errors and consumer failures", "The tests read one small file with no faults.",
  [S + "ds/file-stream.c", I + "ds/stream.h"], [("read loop with 4096-byte buffer", S + "ds/file-stream.c")], ["consumer call log, return code, error"], "property-based testing with system-call fault injection")
p("C31", "Writing through a stream consumer stores every byte exactly once",
  "A stdio, descriptor or path consumer given any sequence of chunks writes exactly those bytes in order and reports success exactly when all were written; for a descriptor or path that holds whatever partial writes and interruptions occur. A write error is reported with its error code, and a file opened by path is created or opened as its flags say, with permissions 0666 less the umask, and closed when the consumer is freed.",
  "inputs fault_sequences", "every chunk sequence and every sequence of partial writes, interruptions and errors", "The tests write one small file with no faults.",
  [S + "ds/file-stream.c", I + "ds/stream.h"], [("write loop", S + "ds/file-stream.c")], ["file content, return code, error, open descriptors"], "property-based testing with system-call fault injection")
p("C32", "An environment collection behaves as a map of variables",
  "An environment collection behaves as a map from names to values under additions, formatted additions, replacements, removals and clones of the process environment (an empty one included), and installing it makes the process environment exactly that map. The same operations without a collection act directly on the process environment, leaving all other variables alone, and no value or name is leaked or freed twice.",
  "histories inputs", "every history over several collections and the process environment", "The tests set two or three variables.",
  [S + "posix/env.c", I + "os/subprocess.h"], [("hash table of env vars", S + "posix/env.c")], ["values read back, environ"], ST)
p("C33", "Running an execution spec runs exactly the program specified",
  "An execution spec runs the given program, absolute or found in the path, with exactly the given parameters in order, exactly the given environment when one is set and the inherited one otherwise, and in the given working directory. Reading the spec back gives what was put in, and a program that cannot be run or a directory that does not exist makes the call return with an error.",
  "inputs histories", "every parameter list, environment and directory", "The tests run a few shell commands.",
  [S + "posix/exec.c", I + "os/subprocess.h"], [("execvp wrapper", S + "posix/exec.c")], ["argv, environ and cwd seen by a reporting child program"], "property-based testing with a reporting child program")
p("C34", "A subprocess's output and exit status are delivered completely",
  "After waiting for a subprocess, its stdout and stderr consumers have received exactly the bytes it wrote, in order and with correct first and end-of-file notifications, however large and however interleaved, and its exit code is the one it exited with. This holds for executed programs and for in-process functions, and polling or draining gives the same result as waiting. A failing read or consumer is reported with its error, and the subprocess is terminated.",
  "inputs schedules fault_sequences", "every output volume, interleaving, timing, exit code and way of collecting", "The tests capture a few short lines.",
  [S + "posix/subprocess.c", I + "os/subprocess.h"], [("non-blocking pipe polling", S + "posix/subprocess.c")], ["consumer logs, exit codes"], "property-based testing with generated child programs and read fault injection")
p("C35", "Subprocess groups finish, feed stdin and never deadlock",
  "A group of any number of subprocesses runs them all concurrently, delivers each one's own output and exit code, and finishes waiting once they all have, with no deadlock whatever they read, write and close and in whatever order they exit. Bytes written to a subprocess's standard input arrive exactly and in order and closing it gives that subprocess end of file, and aborting terminates every member. When a start, a read or a consumer fails, the call reports that error and terminates the subprocesses that still run.",
  "schedules inputs fault_sequences", "every group size, child behaviour, stdin volume and order of completion", "The tests run two or three short children and never use large stdin.",
  [S + "posix/subprocess.c", I + "os/subprocess.h"], [("pipe polling loop, stdin consumer", S + "posix/subprocess.c")], ["consumer logs, exit codes, termination"], "property-based testing with generated child programs, watchdog")
p("C36", "Threads run their body once and propagate results to join",
  "Under every schedule, a started thread runs its body exactly once with its own name, user data and identity, has a non-zero identifier unique among all threads, and releases its user data once when done. Joining waits until the body has finished and reports failure with the body's error exactly when it failed; a thread the system refuses to create is reported and can still be freed, and error state, garbage collection and thread-local variables are separate for each thread, the latter zero-filled at first use.",
  "schedules histories", "every interleaving of several threads' creation, running and joining", "The tests run one or two threads under whatever schedule occurs.",
  [S + "pthreads/thread.c", I + "threads/basics.h", S + "core/id.c"], [("pthread wrapper with join flags", S + "pthreads/thread.c")], ["body log, join results, identifiers"], "property-based testing over generated schedules: deterministic scheduler at every memory access, shrinking")
p("C37", "Once-initialisation and atomics are exact under every schedule",
  "Under every schedule of concurrent callers, a once block runs exactly once and every caller returns only after it has completed, including recursive callers where they are allowed. Atomic adds, subtracts and compare-and-swaps lose no update and return the documented old or new values, and the library's own shared counters, such as managed buffer references, are exact when used from several threads.",
  "schedules histories", "every interleaving of several threads", "The tests run each primitive on a couple of threads under whatever schedule occurs.",
  [I + "threads/basics.h", I + "threads/atomics.h", S + "ds/managed-buffer.c"], [("barrier and done flag", I + "threads/basics.h"), ("__sync builtins", I + "threads/atomics.h")], ["execution counts, order of events, final values"], "property-based testing over generated schedules: deterministic scheduler at every memory access, shrinking")
p("C38", "Cleanup functions run once each, in priority order, at exit",
  "Every cleanup function registered, by any way of registering, runs exactly once when the process exits normally, in increasing order of priority, whatever the order, number and timing of registrations.",
  "histories", "every set and order of registrations and exit path", "The tests never exit through cleanup functions and observe them.",
  [S + "posix/process.c", I + "os/process.h"], [("priority-sorted list run by atexit", S + "posix/process.c")], ["order of calls in an exiting child"], "property-based testing in forked processes")
p("C39", "Command lines dispatch to exactly the right command",
  "For any tree of command sets and leaf commands and any argument vector, the command selected is the one the arguments name, its option parser and then its body receive exactly the remaining arguments in order, and nothing else runs. Missing or unknown subcommands and help requests print the documented usage of the command they concern and exit with the documented status.",
  "inputs", "every command tree and argument vector", "The tests run one fixed command tree with a few arguments.",
  [S + "cli/commands.c", I + "cli/commands.h"], [("recursive dispatch over command sets", S + "cli/commands.c")], ["arguments received, output, exit status"], "property-based testing in forked processes against a reference dispatcher")
p("C40", "Separate objects can be used from separate threads",
  "Library calls made by different threads on objects of their own do not disturb one another: under every interleaving, each call returns, reports as an error and leaves behind exactly what it does when its thread runs alone. This holds for every part of the library except the calls that change the process itself (its environment, its working directory, its cleanup functions), and everything the threads' calls allocated is released when the objects are freed and the process ends.",
  "schedules", "every interleaving of threads that work on separate objects", "The tests are single-threaded, apart from a few for threads themselves.",
  ["src/libcork", "include/libcork"], [("per-thread state", S + "core/error.c"), ("per-thread collector", S + "core/gc.c"), ("no shared scratch state anywhere else", "src/libcork")], ["results, errors and contents per thread"], "property-based testing under generated schedules, differential against the same scripts run alone")
p("C41", "Definitions made with libcork's macros hold across compilation units",
  "In a program of any number of compilation units and shared libraries, every identifier defined with cork_uid_define or cork_uid_define_named is equal to itself and to no other identifier, whatever their C names and human-readable names and wherever they are compared; it differs from CORK_UID_NONE, its hash is the same wherever it is taken, and it keeps the name it was given. Every function defined with CORK_INITIALIZER has run exactly once before main begins and every one defined with CORK_FINALIZER runs exactly once after main has ended. cork_container_of gives the enclosing structure for any field at any offset. CORK_MAKE_VERSION encodes any version number whatever expressions it is given, so that encoded versions order as the versions do, and the version the headers give is the version the library reports.",
  "inputs", "every program that uses these macros", "The tests define two identifiers in one unit, one initializer, and never use the other macros with anything but plain arguments.",
  [I + "core/id.h", I + "core/types.h", I + "core/attributes.h", I + "core/api.h", S + "core/id.c", S + "core/version.c"], [("identifiers are addresses of their own", I + "core/id.h"), ("initializers and finalizers of equal names", I + "core/attributes.h"), ("version encoding", I + "core/api.h")], ["comparisons, hashes and names of identifiers, runs of initializers, addresses of containers, encoded versions"], "property-based testing with generated programs against the report that follows from what was generated")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps({k: v for k, v in q.items() if k not in ("technique", "note")}) + "\n")
NA = {}
man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for q in P:
    if q["id"] in CHECKS:
        man["checks"].append(dict(property=q["id"], quick_cmd="python3 check.py %s --tier quick" % q["id"], thorough_cmd="python3 check.py %s --tier thorough" % q["id"],
                                  evidence_file="evidence/%s.json" % q["id"], technique=q["technique"], level=CHECKS[q["id"]].get("level", "exploration"),
                                  level_note=q["note"] or "Randomised exploration of the generated cases with every result compared with the oracle, under AddressSanitizer; no claim beyond the cases run. Trusts the harness's model, the compiler and the C library."))
    else:
        man["not_applicable"].append(dict(property=q["id"], reason=NA.get(q["id"], "The check for this property is not built yet.")))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for q in P:
    assert len([x for x in __import__("re").split(r"(?<=[.])\s+(?=[A-Z])", q["statement"])]) <= 3, (q["id"], q["statement"])
import jsonschema
for q in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(q), json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties,", len(man["checks"]), "claimed")
