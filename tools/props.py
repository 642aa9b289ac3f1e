#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state or [], observe_at=observe or [], hook_needed=hook)))

# ---------------------------------------------------------------- threads
p("T01", "Mutex: mutual exclusion, truthful trylock, no lost wakeup",
  "At most one thread is between a successful acquisition (lock, or trylock returning true) and its unlock of the same mutex. Trylock never blocks and returns true exactly when it took a free mutex. When the holder unlocks while threads wait, the mutex is eventually acquired by a waiter: no schedule leaves every remaining thread asleep on a free mutex.",
  ["schedules"], "every interleaving of the threads using one mutex, at the granularity of single memory accesses and futex calls",
  "lib/thread/test/mutex.myr runs one herd of threads on whatever schedule the OS picks; a window of a few instructions is essentially never hit",
  ["lib/thread/mutex+futex.myr", "lib/thread/futex+linux.myr", "lib/thread/atomic-impl+x64.s"],
  [("three-state futex mutex", "lib/thread/mutex+futex.myr: mtxlock, mtxunlock, mtxtrylock, mtxcontended")],
  ["return of mtxlock/mtxtrylock", "call of mtxunlock", "threads asleep at quiescence"])
p("T02", "Semaphore and future: no over-admission, no lost post",
  "For every semaphore the number of completed waits and successful trywaits never exceeds the initial value plus the number of posts begun, and trywait never blocks and fails only if at some moment during the call no unit was available. A unit that has been posted is never lost: no schedule leaves a waiter asleep for good while a unit is available. A future hands its one put value to the getter, whichever of put and get comes first.",
  ["schedules"], "every interleaving of waiters, try-waiters and posters, at the granularity of single memory accesses and futex calls",
  "lib/thread/test/sem.myr and future.myr see one OS-chosen schedule each",
  ["lib/thread/sem+futex.myr", "lib/thread/future.myr", "lib/thread/do.myr", "lib/thread/futex+linux.myr"],
  [("value and waiter count in adjacent words", "lib/thread/sem+futex.myr: semwait, semtrywait, sempost"), ("future = semaphore + slot", "lib/thread/future.myr")],
  ["return of semwait/semtrywait/futget", "threads asleep at quiescence"])
p("T03", "Reader-writer lock: writers exclude everyone, nobody is stranded",
  "While a thread holds the lock for writing nobody else holds it; any number of readers may hold it together. The try variants never block and fail only when the lock was held in a conflicting mode at some moment during the call. Once every holder has released, every thread still waiting for the lock eventually gets it.",
  ["schedules"], "every interleaving of readers and writers, at the granularity of single memory accesses and futex calls, with waits that may return early",
  "lib/thread/test/rwlock.myr runs one herd on one OS-chosen schedule",
  ["lib/thread/rwlock+futex.myr", "lib/thread/futex+linux.myr"],
  [("reader count / writer mark / wait bit in one word", "lib/thread/rwlock+futex.myr")],
  ["return of rdlock/wrlock/try*", "threads asleep at quiescence"])
p("T04", "Condition variable: a wait cannot miss a signal; it returns holding the lock",
  "A thread that waits on a condition while holding its mutex releases the mutex, and holds it again, exclusively, when the wait returns. A signal sent after a thread began waiting (it had the mutex, and the signaller locked the mutex afterwards) wakes at least one of the threads waiting at that moment, and a broadcast wakes all of them. No schedule leaves a thread asleep that a signal or broadcast should have woken.",
  ["schedules"], "every interleaving of waiters, signallers and broadcasters, at the granularity of single memory accesses and futex calls",
  "lib/thread/test/condvar.myr re-broadcasts in a loop, which hides a missed wakeup, and sees only OS-chosen schedules",
  ["lib/thread/condvar+linux.myr", "lib/thread/mutex+futex.myr", "lib/thread/futex+linux.myr"],
  [("sequence counter read before releasing the mutex; requeue on broadcast", "lib/thread/condvar+linux.myr")],
  ["return of condwait", "threads asleep at quiescence"])
p("T05", "Wait group: wait returns exactly when the count has been posted down",
  "A wait on a group created with count n returns only after n posts have been made, and once n posts have been made every waiter returns. This holds for any number of waiters and posters, whether they arrive before, during or after the last post.",
  ["schedules"], "every interleaving of waiters and posters at the granularity of single memory accesses and futex calls",
  "lib/thread/test/waitgrp.myr samples a handful of OS-chosen schedules",
  ["lib/thread/waitgrp+futex.myr", "lib/thread/futex+linux.myr"],
  [("count in a futex word; last post wakes all", "lib/thread/waitgrp+futex.myr")],
  ["return of wgwait", "threads asleep at quiescence"])
p("T06", "Thread queue: first-in first-out, each item delivered exactly once",
  "Every item put on a thread queue is returned by exactly one get, and the gets and puts are explained by one first-in first-out order consistent with real time. A get blocks only while the queue is empty: no schedule leaves a getter asleep while an item is queued.",
  ["schedules"], "every interleaving of several producers and consumers at the granularity of single memory accesses and futex calls",
  "lib/thread/test/queue.myr has one producer and one consumer on OS-chosen schedules",
  ["lib/thread/queue.myr", "lib/thread/condvar+linux.myr", "lib/thread/mutex+futex.myr"],
  [("linked list under a mutex and a condition variable", "lib/thread/queue.myr")],
  ["return of qget/qput", "threads asleep at quiescence"])
p("T07", "Atomics, spawn, TLS and allocation behave under real parallelism",
  "Each atomic get, set, add, compare-and-swap and exchange, at every width, acts as one indivisible step that returns the value it replaced. Every spawned thread runs its function once, with its own captured values, its own thread id and its own thread-local slots. Blocks allocated and freed by threads running in parallel are never shared between two owners.",
  ["schedules", "inputs"], "every interleaving of the parallel operations and all operand values",
  "lib/thread/test/atomic.myr only checks that a counter adds up; tls and spawn tests run a few threads once",
  ["lib/thread/atomic.myr", "lib/thread/atomic-impl+x64.s", "lib/thread/spawn+linux.myr", "lib/thread/tls+fsbase.myr", "lib/thread/tls-impl+fsbase-x64.s", "lib/thread/hookstd.myr", "lib/std/threadhooks.myr", "lib/std/bytealloc.myr"],
  [("lock-prefixed instructions", "lib/thread/atomic-impl+x64.s"), ("thread header at the top of each stack", "lib/thread/spawn+linux.myr"), ("allocator lock installed by the thread library", "lib/thread/hookstd.myr")],
  ["return values of the atomic operations", "values seen by each thread"])

# ---------------------------------------------------------------- language
p("L01", "Integer arithmetic and conversions are two's complement at every width",
  "For every integer type, addition, subtraction, multiplication, division, remainder, negation, the bitwise operators, in-range shifts, comparisons and compound assignments yield the two's complement result at that type's width, with right shift and division following the type's signedness. A cast between integer types truncates, or extends by the signedness of the source. The result does not depend on whether the operands are variables, memory, constants or sub-expressions.",
  ["programs", "inputs"], "all expressions over all integer types and all operand values",
  "test/ has one small program per operator with a few literal operands",
  ["6/isel.c", "6/simp.c", "6/insns.def", "mi/flatten.c", "parse/infer.c", "parse/fold.c"],
  [("instruction selection per width and signedness", "6/isel.c"), ("lowering of casts and operators", "6/simp.c, mi/flatten.c")],
  ["values printed by the compiled program"])
p("L02", "Compile-time evaluation equals run-time evaluation",
  "A constant expression has the same value when the compiler evaluates it (array sizes, global initialisers, folded subexpressions, constants used in patterns) as the same expression has when computed at run time from variables of the same types. Conditions the compiler decides statically select the branch the run-time condition would.",
  ["programs", "inputs"], "all constant integer and boolean expressions over all integer types",
  "test/foldidx.myr and a few others fold a handful of small expressions",
  ["parse/fold.c", "parse/infer.c", "6/blob.c", "6/simp.c", "mi/flatten.c"],
  [("constant folder", "parse/fold.c: fold"), ("static data emission", "6/blob.c")],
  ["values printed by the compiled program", "array lengths"])
p("L03", "Match runs the first matching arm, with the right bindings",
  "A match statement executes exactly the body of the first arm, in source order, whose pattern matches the value, with every variable in the pattern bound to the corresponding part of the value. This holds for literal, constant, string, union, tuple, struct, array, pointer, wildcard and nested patterns, and for patterns that filter a for loop.",
  ["programs", "inputs"], "all pattern lists and all values of the matched type",
  "test/match*.myr check a few arm lists on a few values; mi/match_test.c is not run",
  ["mi/match.c", "mi/flatten.c", "parse/infer.c"],
  [("decision tree construction and lowering", "mi/match.c")],
  ["which arm ran and the bound values"])
p("L04", "Non-exhaustive matches are rejected, exhaustive ones compile",
  "The compiler rejects a match statement if some value of the matched type is matched by none of its patterns, and accepts it if its patterns cover every value and each arm can be reached. This holds for unions, tuples, structs, booleans, void, pointers and their nestings, and integers and strings, which need a wildcard.",
  ["programs"], "all pattern lists over the matchable types",
  "test/ has two programs that must fail to compile for this reason",
  ["mi/match.c", "parse/infer.c"],
  [("exhaustiveness as a hole in the decision tree", "mi/match.c")],
  ["accept/reject by the compiler"])
p("L05", "Control flow and evaluation order follow the language definition",
  "Statements execute in the order the language defines: if/elif/else, for, while, iteration over sequences, break, continue, goto, return and nested function calls. Operands and arguments are evaluated left to right, && and || evaluate their right side only when needed, the conditional expression evaluates one branch, and an assignment's target is evaluated once. A compiled program's observable effects are those, in that order.",
  ["programs", "inputs"], "all programs over these statements and expressions",
  "the test programs are short and check one construct at a time",
  ["mi/flatten.c", "mi/cfg.c", "6/simp.c", "6/isel.c", "6/ra.c", "6/peep.c"],
  [("flattening of expressions and control flow", "mi/flatten.c"), ("control flow graph and trimming", "mi/cfg.c")],
  ["sequence of effects of the compiled program"])
p("L06", "Closures capture their variables by value at creation",
  "A function value sees the enclosing stack variables it uses with the values they had when it was created, whatever is later assigned outside it, and its own assignments to them stay private to it. Globals and memory reached through captured pointers stay shared. A closure behaves the same when nested, passed, returned or called from the heap after duplication.",
  ["programs"], "all nestings, captured types and sizes, and assignment/call orders",
  "test/ has four closure programs capturing one or two ints",
  ["6/simp.c", "parse/stab.c", "parse/gram.y", "mi/flatten.c", "lib/std/fndup.myr"],
  [("environment construction", "6/simp.c"), ("capture collection", "parse/stab.c")],
  ["values computed by closure calls"])
p("L07", "Out-of-range indexing and slicing always terminates the program",
  "Indexing an array or slice at i terminates the program abnormally unless 0 <= i < len, and slicing a slice or array [lo:hi] terminates it unless 0 <= lo <= hi <= len; within range both never terminate it and designate exactly the requested elements. This holds for reads and writes, for constant and computed indices of any integer type, and for nested expressions.",
  ["programs", "inputs"], "all sequence kinds and lengths and all index values",
  "test/bounds.myr is commented out of the suite",
  ["6/simp.c", "mi/flatten.c", "6/isel.c", "rt/abort-linux.s"],
  [("bounds checks inserted on lowering", "mi/flatten.c, 6/simp.c")],
  ["exit status", "elements read or written"])
p("L08", "Aggregates are values: copies are complete and independent",
  "Assigning, passing, returning or storing a struct, tuple, union or array copies all of it: later writes to either copy never show in the other, and no byte of a neighbouring object changes. Members left out of a struct or array literal are zero. Slices and pointers refer to the storage they were taken from, so writes through them are seen there.",
  ["programs", "inputs"], "all shapes and sizes of aggregates, nestings and sequences of copies and writes",
  "test/struct*.myr and tuple*.myr use one or two shapes each",
  ["6/simp.c", "6/isel.c", "mi/flatten.c", "6/blob.c", "parse/type.c", "6/typeinfo.c"],
  [("blits, stack layout, size and alignment", "6/simp.c, 6/isel.c")],
  ["contents printed by the compiled program"])
p("L09", "Live values survive calls, spills and any number of arguments",
  "Every argument, local variable and temporary keeps its value until its last use, however many are live at once, across nested and recursive calls, loops and mixed integer widths and floats, and every callee receives exactly the argument values passed, in order, and every caller the value returned, whatever their number, type and size.",
  ["programs", "inputs"], "all functions, argument lists and numbers of simultaneously live values",
  "few test programs have more live values than the machine has registers",
  ["6/ra.c", "6/isel.c", "6/locs.c", "6/simp.c", "6/peep.c", "mi/reaching.c"],
  [("graph colouring register allocator with spilling and coalescing", "6/ra.c"), ("calling convention", "6/isel.c")],
  ["values printed by the compiled program"])
p("L10", "Type checking accepts exactly the well-typed programs",
  "A program in which every use of a value is consistent with one type for each variable, literal and function under the language's rules (no implicit conversions, operators restricted by trait, exact arity, tags and members that exist, array sizes that agree) compiles; a program that breaks one of these rules is rejected with an error and produces no object file.",
  ["programs"], "all programs over the typed constructs",
  "test/ has about ten programs that must fail to compile",
  ["parse/infer.c", "parse/type.c", "parse/stab.c", "parse/specialize.c"],
  [("unification with delayed types and default types", "parse/infer.c")],
  ["accept/reject by the compiler"])
p("L11", "Generics and traits pick the code for the type at hand",
  "A generic function or type instantiated at a type behaves as its body does with that type written in place of the parameter, independently for each instantiation. A trait function runs the implementation declared for the type it is applied to, directly, through generics constrained by the trait, through nested generics and across files, and applying it to a type without an implementation is rejected.",
  ["programs"], "all combinations of generic definitions, traits, implementations and instantiation types",
  "test/generic*.myr and trait*.myr instantiate at one or two types",
  ["parse/specialize.c", "parse/infer.c", "parse/stab.c", "parse/type.c"],
  [("specialisation", "parse/specialize.c"), ("implementation lookup", "parse/infer.c, parse/stab.c")],
  ["values printed by the compiled program", "accept/reject"])
p("L12", "Splitting a program into packages and files does not change its meaning",
  "A declaration imported from another file or package (constants, variables, functions, generics, types, traits and implementations) has the same type, value and behaviour as in the file that defines it, also through chains of imports and merged packages. Names that are not exported, or are package-local and used from outside, are rejected. Initialisers of used files run once, before those of their users and before main.",
  ["programs", "configurations"], "all ways to distribute declarations over files and packages",
  "test/ has six import programs",
  ["parse/use.c", "parse/export.c", "parse/stab.c", "muse/muse.c", "parse/names.c", "6/main.c"],
  [("use-file writer and reader", "parse/use.c"), ("export tagging", "parse/export.c"), ("use-file merging", "muse/muse.c")],
  ["values printed by the linked program", "accept/reject", "order of initialisers"])
p("L13", "Source text is read exactly: literals, escapes, comments, line ends",
  "Every integer, character, string and float literal denotes the value its notation defines, in every base, with separators, suffixes and all escapes. Comments nest and are ignored, line comments end at the line, adjacent strings join and newline and semicolon are equivalent. Malformed literals, unterminated strings and comments are rejected.",
  ["inputs"], "all literal and comment texts",
  "test programs use ordinary literals",
  ["parse/tok.c", "parse/gram.y", "util/util.c", "6/gengas.c", "6/blob.c"],
  [("hand-written lexer", "parse/tok.c")],
  ["values printed by the compiled program", "accept/reject"])
p("L14", "Reading a variable that was never assigned on some path is rejected",
  "Taking every condition either way, a function with a path on which a local variable of a number, boolean, character or pointer type is read though nothing has been assigned to it since its declaration is rejected, and so is a function with a result that has a path to its end without a return. Functions in which every path assigns before reading and returns are accepted.",
  ["programs"], "all control flow shapes and assignment placements",
  "test/usedef.myr and matchbind are single straight-line cases",
  ["mi/dfcheck.c", "mi/reaching.c", "mi/cfg.c"],
  [("reaching definitions", "mi/reaching.c, mi/dfcheck.c")],
  ["accept/reject by the compiler"])

p("L15", "Variable arguments arrive whole, with true type descriptions and layout",
  "A function with a variable number of arguments finds, in order and whatever fixed arguments precede them, every argument with the value passed and with a type description that names its kind, its size, alignment and length, and recursively its member, tag and element types in declaration order. Every member of a struct or tuple lies at its natural alignment after the member before it, a union holds its tag and the largest of its values, and sizeof reports the size that is really used.",
  ["programs"], "all argument lists over all types, nested to any depth, with any names and any number of members",
  "test/exporttyinfo.myr and lib/std's fmt tests pass a few fixed argument lists of built-in types; the descriptions of nested, wide and long-named types are never walked",
  ["mi/typeinfo.c", "6/typeinfo.c", "6/simp.c", "6/gengas.c", "lib/std/introspect.myr", "lib/std/varargs.myr"],
  [("type descriptions", "6/typeinfo.c (writetypeinfo)"), ("placing of variable arguments", "6/simp.c (vasimp), 6/isel.c"), ("layout", "6/simp.c, 6/locs.c: size, align, offset")],
  ["values and descriptions found by the callee, sizeof and member offsets"])

# ---------------------------------------------------------------- build tool
p("B01", "After any sequence of edits, an incremental build equals a clean build",
  "After any sequence of edits to a project's sources and build files, running the build tool leaves the same program behaviour as building the same sources from scratch: everything that depends, directly or not, on something newer is rebuilt. A build with nothing changed rebuilds nothing, and a failed build is reported and not mistaken for an up-to-date one later.",
  ["histories", "configurations"], "all dependency graphs and all histories of edits, failed builds and builds",
  "no test runs the build tool twice on changing sources",
  ["mbld/build.myr", "mbld/deps.myr", "mbld/util.myr", "mbld/libs.myr"],
  [("modification-time staleness over the dependency graph", "mbld/build.myr")],
  ["output of the built program", "commands run"])
p("B02", "Build targets, tags and dependencies are resolved as documented",
  "For each stem the build tool selects the source file whose system tags all match and are most numerous, and fails on a tie or when none matches. Sources are compiled after everything they use, libraries are linked with all libraries they need, and dependency cycles are reported as errors.",
  ["configurations"], "all sets of tagged files and dependency graphs",
  "only the repository's own build files exercise this",
  ["mbld/syssel.myr", "mbld/deps.myr", "mbld/parse.myr", "mbld/libs.myr"],
  [("tag matching", "mbld/syssel.myr"), ("dependency graph", "mbld/deps.myr")],
  ["output of the built program", "exit status"])

# ---------------------------------------------------------------- std
p("S01", "Allocated memory is aligned, exclusive and keeps its contents",
  "Memory returned by the allocation functions is suitably aligned, does not overlap any other live block or the allocator's own records, and keeps its contents until it is freed; zeroing variants return zeroed memory. Growing a slice keeps the old elements, and the zeroing variant zeroes the new ones. This holds for every history of allocations, growths and frees of any sizes.",
  ["histories", "inputs"], "all sequences of alloc/free/grow calls over all sizes",
  "lib/std/test/alloc.myr and bytealloc.myr run a few fixed sequences",
  ["lib/std/bytealloc.myr", "lib/std/alloc.myr", "lib/std/memops-impl+posixy-x64.s"],
  [("slab allocator, big-block cache", "lib/std/bytealloc.myr"), ("slice header and growth", "lib/std/alloc.myr")],
  ["addresses and contents"])
p("S02", "The hash table is a finite map",
  "After any sequence of insertions, overwrites and deletions, lookup of a key yields the value last stored for it, or nothing if it was never stored or has been deleted; the count is the number of stored keys; and the key list and the iterator give each stored key exactly once with its value. Colliding hashes and growth do not change this.",
  ["histories", "inputs"], "all operation sequences and key sets, including colliding ones",
  "lib/std/test/htab.myr inserts and deletes a few dozen keys in fixed order",
  ["lib/std/htab.myr", "lib/std/hashfuncs.myr"],
  [("open addressing with tombstones", "lib/std/htab.myr")],
  ["results of htget, hthas, htgetv, htkeys, htcount, iteration"])
p("S03", "The bit set is a set of numbers",
  "After any sequence of operations a bit set contains exactly the numbers that adding, deleting, clearing, union, intersection and difference leave in a mathematical set; membership, count, iteration (ascending), equality, hashing of equal sets, duplication and the subset test agree with that set, and add and delete report whether they changed it. The sets' capacities never matter.",
  ["histories", "inputs"], "all operation sequences and element values, sets of different capacity",
  "lib/std/test/bitset.myr checks a few small sets",
  ["lib/std/bitset.myr"], [("array of words", "lib/std/bitset.myr")],
  ["results of bshas, bscount, bybsvalue, eq, bsissubset"])
p("S04", "Sorting orders a permutation; searching finds exactly what is there",
  "Sorting any slice by any consistent comparison leaves a permutation of its elements in non-decreasing order. Binary search on a sorted slice and linear search on any slice return the index of an element comparing equal if there is one and nothing otherwise. The comparison functions order numbers and strings consistently.",
  ["inputs"], "all slices, lengths and comparison functions",
  "lib/std/test/sort.myr and search.myr use a few fixed slices",
  ["lib/std/sort.myr", "lib/std/search.myr", "lib/std/cmp.myr", "lib/std/extremum.myr"],
  [("heap sort", "lib/std/sort.myr")], ["sorted slice", "search result"])
p("S05", "Slice editing functions act as sequence operations",
  "Pushing, popping, inserting, deleting, joining, duplicating, copying and filling slices have the effect of the corresponding sequence operation, change no other element, and leave slices that merely shared contents before a duplication independent. Equality of slices is element-wise.",
  ["histories", "inputs"], "all operation sequences, element types and lengths",
  "a handful of fixed sequences in lib/std/test",
  ["lib/std/slpush.myr", "lib/std/slpop.myr", "lib/std/slput.myr", "lib/std/sljoin.myr", "lib/std/sldup.myr", "lib/std/slcp.myr", "lib/std/slfill.myr", "lib/std/sleq.myr", "lib/std/alloc.myr"],
  [("growth and element moves", "lib/std/slput.myr, lib/std/alloc.myr")], ["slice contents"])
p("S06", "String search, split, join, replace and strip are exact",
  "Finding a substring returns its first (or last) position or nothing; splitting at a delimiter yields the pieces between its successive occurrences, and joining them with the delimiter restores the text; tokenising yields the maximal runs without white space; replacing substitutes each successive occurrence; stripping removes exactly the blank ends; prefix, suffix and comparison functions agree with the byte sequences.",
  ["inputs"], "all byte strings, delimiters and buffer sizes, including empty and overlapping ones",
  "lib/std/test/str*.myr check a few strings each",
  ["lib/std/strfind.myr", "lib/std/strsplit.myr", "lib/std/strjoin.myr", "lib/std/strreplace.myr", "lib/std/strstrip.myr", "lib/std/striter.myr", "lib/std/cmp.myr", "lib/std/hasprefix.myr", "lib/std/hassuffix.myr", "lib/std/chomp.myr", "lib/std/strbuf.myr"],
  [("naive search, slicing", "lib/std/strfind.myr, lib/std/strsplit.myr")], ["returned strings and offsets"])
p("S07", "UTF-8 encoding and decoding are inverse; stepping always progresses",
  "Encoding any code point and decoding the bytes gives the code point back, with the length the length function reports, and encoding into too small a buffer fails without writing. Stepping through any byte string consumes at least one byte per step, never reads past the end, yields each encoded character in order, and reports a bad character for a byte that cannot start one or a truncated sequence.",
  ["inputs"], "all code points and all byte strings",
  "lib/std/test/utf.myr checks a few characters",
  ["lib/std/utf.myr", "lib/std/striter.myr"], [("lead-byte classification", "lib/std/utf.myr: charstep")],
  ["decoded characters and consumed lengths"])
p("S08", "Big integer arithmetic is exact",
  "Addition, subtraction, multiplication, division with remainder (truncating), shifts, bitwise and/or, modular exponentiation, comparison, parsing and formatting of big integers give the exact mathematical result for operands of any sign and size, leave operands they do not assign unchanged, and keep the number in normal form so that equal numbers compare equal.",
  ["inputs", "histories"], "all operands of any size and sign, all operation sequences",
  "lib/std/test/bigint.myr checks a few dozen fixed calculations",
  ["lib/std/bigint.myr"], [("limb arithmetic with carries and quotient estimation", "lib/std/bigint.myr")],
  ["printed value and comparisons"])
p("S09", "Integer text conversion and formatting directives are exact",
  "Formatting any integer of any type and parsing the text gives the integer back, in every supported base, and parsing rejects text that is not a number in that base. The formatting functions replace each directive by the text of the matching argument with the requested base, width and padding, copy all other text, treat doubled braces as literal ones, and return or write the same bytes whichever output function is used.",
  ["inputs"], "all integers, bases, widths, format strings and argument lists",
  "lib/std/test/fmt.myr checks a few dozen fixed calls",
  ["lib/std/fmt.myr", "lib/std/intfmt.myr", "lib/std/intparse.myr", "lib/std/fmtfuncs.myr", "lib/std/varargs.myr", "lib/std/introspect.myr", "lib/std/strbuf.myr"],
  [("directive parser", "lib/std/fmt.myr"), ("type-directed argument walk", "lib/std/varargs.myr, lib/std/introspect.myr")],
  ["formatted text", "parse result"])
p("S10", "Path functions normalise to the path they name",
  "Joining and normalising a path removes empty and '.' components and resolves '..' against the component before it, keeps leading '..' of relative paths and drops them at the root, and never changes which file the path names in a tree without links; normalising twice changes nothing. Directory name and base name split a path at its last component.",
  ["inputs"], "all paths",
  "lib/std/test/pathjoin.myr checks about fifteen paths",
  ["lib/std/pathjoin.myr", "lib/std/dirname.myr"], [("component cancellation", "lib/std/pathjoin.myr")], ["returned path"])
p("S11", "IP address parsing accepts exactly the valid addresses",
  "Parsing a textual IPv4 or IPv6 address yields its bytes exactly when the text is a valid address: four decimal parts of 0..255, or eight groups of up to 0xffff of which one run may be abbreviated by '::'. Everything else is refused.",
  ["inputs"], "all texts",
  "lib/std/test/ipparse.myr checks about twenty texts",
  ["lib/std/ipparse.myr", "lib/std/intparse.myr"], [("segment parser with '::' expansion", "lib/std/ipparse.myr")], ["parse result"])
p("S12", "Option parsing partitions the command line",
  "Parsing a command line yields every option with its argument, in order, and the remaining arguments, in order: grouped flags are separated, an option's argument is the rest of its word or else the next word, '--' ends the options, and destinations receive their arguments. Missing arguments, unknown options and wrong argument counts are reported and end the program with failure.",
  ["inputs"], "all command lines and option descriptions",
  "lib/std/test/optparse.myr checks a few command lines",
  ["lib/std/optparse.myr"], [("argument cursor", "lib/std/optparse.myr: optnext, next")], ["parsed options, exit status"])
p("S13", "Fixed-width integers are stored and loaded in the stated byte order",
  "Storing an integer with a given width and byte order writes exactly that many bytes in that order and no others, and loading them gives the integer back, truncated to the width, for every integer type; the buffered I/O variants put and get the same bytes, or report the end of input without inventing a value.",
  ["inputs"], "all integers, widths, byte orders and buffer contents",
  "lib/std/test and lib/bio/test use a few fixed values",
  ["lib/std/getint.myr", "lib/std/putint.myr", "lib/std/endian.myr", "lib/bio/puti.myr", "lib/bio/geti.myr"],
  [("shifts and masks per width", "lib/std/getint.myr, lib/std/putint.myr")], ["buffer bytes, loaded value"])

# ---------------------------------------------------------------- other libraries
p("I01", "Buffered reading returns the underlying bytes, once, in order",
  "Whatever the sizes of the reads issued and however the underlying source splits its data, the bytes handed out by reading, peeking, single byte and character reads, delimited reads and skips are the source's bytes, in order, none lost, repeated or invented; delimited reads stop at the first delimiter. End of input and errors are reported exactly when no requested byte is left, after everything before them was delivered.",
  ["inputs", "histories", "fault_sequences"], "all operation sequences, request sizes and splittings of the source's data, with ends and errors anywhere",
  "lib/bio/test reads small files that the source delivers whole",
  ["lib/bio/bio.myr", "lib/bio/mem.myr", "lib/bio/fd.myr", "lib/bio/iter.myr"],
  [("buffer refill and bypass", "lib/bio/bio.myr: read, ensureread, fill")], ["returned bytes, status"])
p("I02", "Buffered writing delivers every byte, once, in order",
  "After a successful flush or close the underlying sink has received exactly the bytes written, in order, however writes are sized and however the sink accepts them in part. If the sink fails, the failure is reported by the write, flush or close that meets it, and what the sink received is a prefix of what was written. Seeking writes out what was buffered and discards what was read ahead, so the next transfer happens at the new position.",
  ["inputs", "histories", "fault_sequences"], "all operation sequences and sizes, partial acceptances and failures of the sink",
  "lib/bio/test writes small files to a sink that takes everything",
  ["lib/bio/bio.myr", "lib/bio/fd.myr", "lib/bio/mem.myr", "lib/bio/puti.myr"],
  [("write buffer and bypass", "lib/bio/bio.myr: write, flush, ensurewrite, seek")], ["bytes received by the sink, status"])
p("R01", "Regular expressions match what their pattern denotes",
  "Matching a whole text succeeds exactly if the text belongs to the language of the pattern, and searching succeeds exactly if some part of the text does, returning the leftmost such part. The text reported for each capture group lies within its enclosing match and is what that group matched. Malformed patterns are refused, and compiling and matching terminate for every pattern and text.",
  ["inputs"], "all patterns and texts",
  "lib/regex/test runs a few dozen fixed pairs",
  ["lib/regex/compile.myr", "lib/regex/interp.myr", "lib/regex/ranges.myr"],
  [("compilation to a thread-list virtual machine", "lib/regex/compile.myr, lib/regex/interp.myr")], ["match result, capture offsets, substitution result"])
p("J01", "JSON parsing accepts exactly JSON and preserves its value",
  "Parsing a text succeeds exactly if the text is a JSON document, and the result is the value the text denotes: structure, member order, strings with escapes decoded, and numbers. Formatting a value yields JSON text that parses back to the same value. Parsing terminates without fault on any byte string.",
  ["inputs"], "all byte strings and all JSON values",
  "lib/json/test parses a fixed corpus and only checks acceptance",
  ["lib/json/parse.myr", "lib/json/fmt.myr"], [("recursive descent parser", "lib/json/parse.myr")], ["parse result, formatted text"])
p("N01", "Configuration files: what is loaded is what the file says, and survives saving",
  "Loading a configuration file gives each section and key the value the file assigns to it, ignoring comments, blank lines and surrounding white space, and refuses files with malformed lines or duplicate keys, naming the line. After any sequence of gets and puts, a get yields the last value put or loaded, and writing the file and loading it again gives the same sections, keys and values.",
  ["inputs", "histories"], "all files and sequences of gets and puts",
  "lib/inifile/test loads one file and writes one",
  ["lib/inifile/parse.myr", "lib/inifile/access.myr", "lib/inifile/write.myr"], [("line parser", "lib/inifile/parse.myr")], ["values, sections, error line"])
p("D01", "Dates convert to instants and back, and calendar arithmetic is consistent",
  "Every instant corresponds to exactly one proleptic Gregorian date and time of day in UTC, the conversions both ways are inverse, the weekday advances by one per day, and leap years are those divisible by 4 except centuries not divisible by 400. Adding durations and calendar periods and taking differences agree with that calendar, and formatting a date and parsing the text with the same format gives it back.",
  ["inputs"], "all instants, dates, periods and formats",
  "lib/date/test checks about thirty dates",
  ["lib/date/date.myr", "lib/date/fmt.myr", "lib/date/parse.myr", "lib/date/names.myr"], [("day-number conversion", "lib/date/date.myr: recalc, mkinstant")], ["instant fields, epoch microseconds, text"])
p("H01", "HTTP messages are framed and parsed exactly, whatever the transport does",
  "A URL is split into scheme, host, port, path and parameters exactly as written, and malformed ones are refused. A response with a length or with chunked encoding yields exactly its body, whatever the splitting of the stream, and truncated or malformed messages are reported as errors, not as shorter bodies. The request a client sends carries the method, path, host and body it was given.",
  ["inputs", "fault_sequences"], "all URLs, messages and splittings of the byte stream",
  "lib/http has no tests",
  ["lib/http/url.myr", "lib/http/parse.myr", "lib/http/client.myr", "lib/http/server.myr", "lib/http/session.myr"],
  [("header and chunk parser", "lib/http/parse.myr")], ["parsed URL, response, bytes sent"])
p("F01", "Inflate reproduces the compressed data or reports an error",
  "Decoding a valid DEFLATE stream made of any sequence of stored, fixed and dynamic blocks writes exactly the bytes it encodes, including back-references that overlap or reach the full window. Truncated or invalid streams are reported as errors; decoding never reads or writes outside its buffers and always terminates.",
  ["inputs"], "all byte streams",
  "lib/flate/test decodes about twenty fixed streams",
  ["lib/flate/flate.myr"], [("canonical Huffman decoding and ring window", "lib/flate/flate.myr")], ["output bytes, status"])
p("E01", "Escaped text reads back as the original in its target syntax",
  "Text escaped for URLs, HTML, the shell or regular expressions contains no character that is special in that syntax except as part of an escape, and interpreting it in that syntax gives back exactly the original text.",
  ["inputs"], "all texts",
  "lib/escfmt/test checks a few strings",
  ["lib/escfmt/escurl.myr", "lib/escfmt/eschtml.myr", "lib/escfmt/escsh.myr", "lib/escfmt/escre.myr"], [("character classes", "lib/escfmt")], ["escaped text"])
p("P01", "Iterator adaptors visit exactly what they promise, in order",
  "Iterating by permutation visits every distinct arrangement exactly once in ascending order; by chunk, consecutive pieces of the given size that concatenate to the sequence; enumerated, reversed, zipped and by reference, each element once with its index, from the end, in pairs up to the shorter length, and as a reference to the element itself. Loops over user-defined iterators call the step function until it declines and the clean-up for each value.",
  ["inputs"], "all sequences, lengths and chunk sizes",
  "lib/iter/test checks a few fixed sequences",
  ["lib/iter/perm.myr", "lib/iter/chunk.myr", "lib/iter/enum.myr", "lib/iter/ref.myr", "lib/iter/reverse.myr", "lib/iter/zip.myr"], [("index state", "lib/iter")], ["visited values"])
p("W01", "Directory walking and removal cover the tree and nothing else",
  "Walking a directory visits each file below it exactly once, also when symbolic links form loops, and terminates. Recursive removal removes the named tree entirely and nothing outside it, in particular not what symbolic links in it point to. Creating a path makes all its missing directories, and temporary files and directories are new and exclusively created.",
  ["inputs", "histories"], "all directory trees, with links and loops",
  "lib/fileutil/test walks a small fixed tree",
  ["lib/fileutil/walk.myr", "lib/fileutil/del.myr", "lib/fileutil/loopcheck+posixy.myr", "lib/std/diriter.myr", "lib/std/dir+linux.myr", "lib/std/mkpath.myr", "lib/std/mktemp.myr"],
  [("directory stack and loop check", "lib/fileutil/walk.myr")], ["visited paths, remaining files"])
p("K01", "Message digests depend only on the bytes digested",
  "Feeding a message to a hash or HMAC in any sequence of pieces, including empty ones and ones that straddle internal block boundaries, gives the same digest as feeding it at once; independent computations do not influence each other; and messages that differ in content or length give different digests.",
  ["inputs", "histories"], "all messages, splittings and interleavings of computations",
  "lib/crypto/test hashes a few fixed messages in one piece",
  ["lib/crypto/sha1.myr", "lib/crypto/sha256.myr", "lib/crypto/sha512.myr", "lib/crypto/sha3.myr", "lib/crypto/md5.myr", "lib/crypto/hmac.myr", "lib/crypto/hash.myr"],
  [("block buffering", "lib/crypto/*: add functions")], ["digest"])
# ------------------------------------------------- listed, but not claimed
p("X01", "Floating point text conversion round-trips",
  "Formatting a finite floating point number and parsing the text gives the same number, and parsing rounds to nearest.",
  ["inputs"], "all finite floats and all decimal texts", "lib/std/test/fltfmt.myr and fltparse.myr check fixed values",
  ["lib/std/fltfmt.myr", "lib/std/fltparse.myr", "lib/std/fltbits.myr"], [("big integer scaling", "lib/std/fltfmt.myr")])
p("X02", "Elementary functions are accurate to their stated error",
  "The functions of the math library return results within their documented error bounds for all arguments.",
  ["inputs"], "all floating point arguments", "lib/math/test samples fixed arguments",
  ["lib/math/exp-impl.myr", "lib/math/log-impl.myr", "lib/math/sin-impl.myr", "lib/math/powr-impl.myr"], [("polynomial approximation", "lib/math")])
p("X03", "Ciphers and digests compute their published functions",
  "AES, AES-GCM, ChaCha20, Curve25519, RSA and the digests compute the functions of their standards for all inputs.",
  ["inputs"], "all keys and messages", "lib/crypto/test uses published vectors",
  ["lib/crypto/aes.myr", "lib/crypto/aesgcm.myr", "lib/crypto/chacha20.myr", "lib/crypto/curve25519.myr", "lib/crypto/rsa.myr"], [("reference algorithms", "lib/crypto")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
