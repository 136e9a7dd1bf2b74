import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
V="src/Vector.c";S="src/String.c";L="src/List.c";B="src/Bitset.c";F="src/Format.c";AP="src/ArgParse.c";AL="src/Allocator.c"
p("C01","Vector behaves as a sequence under every operation history",
 "After any sequence of push, pop, insert, range insert, in-place construction, delete, range delete, set, swap, resize (with or without an initializer), clear, reserve and shrink operations, a growable vector holds exactly the elements, in exactly the order, that the same operations give on an ideal sequence, and its reported size and every element accessor agree with it. Every access or modification at an index that does not exist is refused with the out-of-range status and changes nothing. This holds for every element size, growth factor, shrink threshold and initial capacity.",
 ["histories","configurations"],"All operation histories over the public vector operations up to a size bound (closed under reachability), for every combination of element size, growth factor, shrink threshold and initial capacity in the grid.",
 "tests/Vector.cpp pushes and inserts one fixed ascending sequence in a single configuration family; interactions of shift, reallocation and shrink at the capacity boundary need all histories.",
 [V,"include/Zycore/Vector.h"],[("shift left/right on insert and delete","src/Vector.c ZyanVectorShiftLeft/ShiftRight"),("growth before writing","src/Vector.c PushBack/InsertRange/EmplaceEx/ResizeEx")],
 [("size/capacity/data","logical length, allocated elements, storage","include/Zycore/Vector.h ZyanVector")],["return statuses","element accessors","size query"])
p("C02","Vector capacity policy: minimum, growth, shrink, reserve",
 "A container's capacity is never below its size, is at least any capacity requested at creation or by reserve, and is released down to exactly the size (at least one element) by shrink-to-fit. With shrink threshold zero no other operation ever lowers the capacity, with growth factor one a growing operation allocates exactly what it needs, and with a growth factor above one appending n elements causes only logarithmically many reallocations. With a non-zero threshold that is not below the growth factor, a removal gives storage back exactly when size times threshold falls below the capacity.",
 ["histories","configurations"],"All histories of growing and shrinking operations over a grid of growth factors, thresholds, element sizes and initial capacities.",
 "The tests never check capacity after deletions nor count reallocations, and use two parameter settings only.",
 [V,S,"include/Zycore/Vector.h","include/Zycore/String.h"],[("grow/shrink predicates","src/Vector.c ZYCORE_VECTOR_SHOULD_GROW/SHRINK"),("reallocation","src/Vector.c ZyanVectorReallocate")],
 [("capacity","number of elements the storage can hold","include/Zycore/Vector.h ZyanVector")],["capacity queries","calls into the supplied allocator"])
p("C03","Every stored element is destroyed exactly once",
 "For vectors and lists created with an element destructor, every element that entered the container is passed to the destructor exactly once: when it is overwritten, deleted, popped, truncated by resize, cleared, or when the container is destroyed. No live element is ever passed to it before its removal, it is never called on storage that does not hold a live element, and the value it sees is the value that was stored.",
 ["histories","fault_sequences"],"All operation histories up to a depth, ending with destruction, with and without an allocator failure injected at each allocation point.",
 "No test installs a destructor that counts or identifies elements.",
 [V,L],[("destructor loops","src/Vector.c DeleteRange/PopBack/ResizeEx/Set/Destroy"),("destructor calls","src/List.c PopBack/PopFront/ResizeEx/SetNodeData/Destroy")],None,["destructor callback"])
p("C04","Fixed-buffer containers never exceed their buffer and fail cleanly",
 "A vector, string, bitset or list placed in a caller-supplied buffer never reads or writes a byte outside that buffer and never calls an allocator. An operation whose result would not fit fails with the insufficient-buffer status and leaves the size and contents exactly as they were, while every operation whose result does fit succeeds.",
 ["histories","configurations"],"All operation histories up to a bound, for every buffer capacity from the minimum up to a bound.",
 "The tests use a fixed buffer large enough for everything they insert, except for one overflowing push.",
 [V,S,B,L,F],[("fixed buffer branch","src/Vector.c ZyanVectorReallocate"),("node carving","src/List.c ZyanListAllocateNode")],None,["return statuses","guard bytes around the buffer"])
p("C05","A failed allocation leaves containers unchanged, usable and leak-free",
 "If the allocator fails at any point during any vector, string, bitset, list or formatting operation, the operation reports that failure, the container keeps the contents and size it had before (a deletion whose storage release fails may instead be complete), and all later operations and the final destruction behave as if the failed call had never been made. No storage is leaked, released twice, or used after release.",
 ["fault_sequences","histories"],"Every operation history up to a depth x every position at which the allocator refuses a request (including repeated refusals).",
 "No test ever makes an allocator fail.",
 [V,S,B,L,F,AL],[("status propagation","include/Zycore/Status.h ZYAN_CHECK"),("capacity update around reallocation","src/Vector.c ZyanVectorReallocate")],None,["custom allocator callbacks","return statuses"])
p("C06","Allocator protocol: sizes, pairing and exclusivity",
 "Every block a container obtains through a supplied allocator is later returned exactly once to that same allocator, with the element size and count of the most recent request for that block, and a reallocation is only ever requested for the block currently owned. Containers given their own allocator never touch the default heap, and the default allocator delivers a block large enough for element size times count or reports failure.",
 ["histories","configurations","inputs"],"All operation histories up to a bound for vector, string, bitset, list and argument parser, each ended by destruction, with a checking allocator; all boundary size/count pairs for the default allocator.",
 "The tests use the default allocator only, whose deallocation ignores size and count, so mismatches are invisible.",
 [AL,V,L,S,B,AP],[("default allocator","src/Allocator.c"),("deallocate on destroy","src/Vector.c ZyanVectorDestroy, src/List.c ZyanListDeallocateNode")],None,["custom allocator callbacks","malloc/realloc/free calls"])
p("C07","Vector search finds exactly the right element",
 "Linear search over any index range reports the lowest index inside the range whose element matches, or not found with index -1. Binary search over any sorted range, including one with duplicates, reports found exactly when an equal element is in the range, together with the lowest index in the range whose element is not less than the key (the insertion point, which keeps the range sorted). Neither search looks at an element outside the range or modifies anything.",
 ["inputs","configurations"],"All vectors up to a length over a small ordered alphabet, all keys, all index/count pairs including empty and out-of-range ones.",
 "The test searches one vector without duplicates and only the full range.",
 [V],[("linear scan","src/Vector.c ZyanVectorFindEx"),("lower-bound bisection","src/Vector.c ZyanVectorBinarySearchEx")],None,["return status","found index","comparison callback arguments"])
p("C08","Out-of-range and overflowing arguments are rejected without effect",
 "Whatever index, count, size or capacity a caller passes, including values so large that their sum or product wraps around, every vector, string, bitset and list operation either performs exactly the requested operation or fails with an error, and in the latter case neither the container nor any memory outside it changes. Null object arguments are rejected with the invalid-argument status.",
 ["inputs","histories"],"All combinations of boundary values (0, size-1, size, size+1, 2^31, 2^32, 2^63, max, max-size and neighbours) for every index/count/size parameter of every operation, in every reachable small state.",
 "Tests probe a few indices just past the end; nothing passes a count whose sum with the index wraps.",
 [V,S,B,L],[("range guards","src/Vector.c DeleteRange/FindEx/InsertRange, src/String.c *Ex functions"),("argument guards","all modules")],None,["return statuses","memory safety"])
p("C09","String editing: exact content and permanent NUL termination",
 "After any sequence of append, insert, delete, truncate, clear, set-character, resize, reserve and shrink operations (whole-string and sub-range forms), a string's content and length are exactly those of the ideal character sequence. Its data is always followed by a terminating zero byte that is not counted in the reported size or capacity and can neither be read as a character, overwritten nor deleted through the interface.",
 ["histories","configurations"],"All operation histories over a two-letter alphabet up to a length bound, for dynamic strings with a grid of growth/shrink settings, plus large-block histories.",
 "The string test file contains no tests.",
 [S,"include/Zycore/String.h"],[("re-termination after edit","src/String.c ZYCORE_STRING_NULLTERMINATE"),("guard against touching the terminator","src/String.c index checks")],
 [("size incl. terminator","vector size counts the terminating zero","include/Zycore/String.h")],["C string data","size/capacity queries"])
p("C10","Substring search returns the right occurrence in every direction and mode",
 "Left search returns the smallest and right search the largest position at which the needle occurs entirely inside the searched part of the haystack, or not-found with -1; the case-insensitive forms treat exactly the letters A-Z and a-z as equal and nothing else. The result depends only on the characters of the two strings or views, never on bytes beyond their ends or on zero bytes inside or after them, and a search range outside the haystack is refused.",
 ["inputs"],"All haystacks and needles up to a length over an alphabet with letters of both cases and the characters that differ from others only in the case bit, all index/count pairs, terminated and unterminated views.",
 "There is no string test; correctness is over all haystack/needle/range triples.",
 [S],[("scan loops","src/String.c ZyanStringLPosEx/LPosIEx/RPosEx/RPosIEx")],None,["status and found index"])
p("C11","String comparison is a consistent order and decides equality exactly",
 "Comparison reports equal exactly when lengths and all characters agree (for the case-insensitive form: agree after folding only A-Z/a-z), otherwise it is antisymmetric and transitive, and for strings of equal length the sign is that of the first differing character (folded in the case-insensitive form). It never depends on bytes beyond the end of either operand.",
 ["inputs"],"All pairs and triples of strings up to a length over an alphabet including case pairs, case-bit neighbours and bytes above 127, terminated and unterminated.",
 "There is no string test.",
 [S],[("comparison loops","src/String.c ZyanStringCompare/ZyanStringCompareI")],None,["status and comparison result"])
p("C12","String views denote exactly the requested characters",
 "A view over a string, another view, a C string or a raw buffer has exactly the requested length and characters, shares storage without copying or writing to it, and needs no terminator; a range that does not lie inside its source is refused. A view can be used wherever a string view is accepted (character access, append, insert, duplicate, concatenate, search, compare, and building further views) with the same result as an independent string of the same characters.",
 ["inputs","programs"],"All sources up to a length, all sub-ranges, all chains of nested views up to a depth, each consumed by every view-taking operation.",
 "No test creates a view of a part of a string.",
 [S,"include/Zycore/String.h"],[("view construction","src/String.c ZyanStringViewInside*")],None,["view size/data queries","results of consuming operations"])
p("C13","Case conversion touches exactly the ASCII letters in range",
 "Lower- and upper-casing change exactly the letters A-Z respectively a-z within the requested range to their counterparts and leave every other byte value, every character outside the range, the length and the terminator unchanged. A range reaching past the end is refused without changing anything.",
 ["inputs"],"All 256 byte values at all positions and all index/count pairs on strings up to a bounded length.",
 "There is no string test.",[S],[("conversion loops","src/String.c ZyanStringToLowerCaseEx/ToUpperCaseEx")],None,["string content"])
p("C14","Number formatting is exact for every value, padding and sign",
 "Appending an unsigned or signed integer in decimal or hexadecimal yields exactly the previous content followed by the sign (minus for negatives, plus if forced), the optional prefix, and the digits zero-padded to the requested minimum length, in the requested letter case, for every 64-bit value and every padding length. If it cannot be completed, the string keeps its previous content.",
 ["inputs","configurations"],"All 16-bit values, all digit-boundary values of both bases with neighbours across 64 bits, all padding lengths, both cases and signs, optional prefixes, over dynamic and every too-small/just-fitting fixed buffer and a range of free capacities.",
 "No formatting function is called by any test.",
 [F,"include/Zycore/Format.h"],[("digit generation","src/Format.c ZyanStringAppendDecU64/HexU64"),("sign and prefix","src/Format.c AppendDecS/HexS")],None,["string content"])
p("C15","printf-style append is complete whatever the free capacity",
 "Appending formatted text produces the previous content followed by exactly the text the C formatter produces for the same format and arguments, regardless of how much capacity happens to be free before the call. On failure the previous content and its terminator are intact.",
 ["inputs","configurations","fault_sequences"],"All output lengths around every free-capacity value, for several argument shapes (register- and stack-passed, mixed types), dynamic strings with a grid of growth factors, fixed buffers of every size, allocator failure.",
 "No formatting function is called by any test; the retry path depends on capacity relative to output length.",
 [F],[("first attempt into spare capacity, then resize and retry","src/Format.c ZyanStringAppendFormat")],None,["string content","status"])
p("C16","Bitset behaves as a bit sequence under every operation history",
 "For every bit count, also ones that are not a multiple of eight, after any sequence of set, reset, assign, toggle, set-all, reset-all, flip, push, pop, clear, reserve and shrink operations every bit reads back as in the ideal bit sequence, and the reported size and capacity match it; first and last bit queries return the first and last bit. Access to a bit that does not exist and popping an empty bitset are refused without effect.",
 ["histories","configurations"],"All operation histories up to a size bound crossing byte boundaries, for all initial counts and growth/shrink settings.",
 "There is no bitset test.",[B,"include/Zycore/Bitset.h"],[("bit/byte index mapping","src/Bitset.c ZYAN_BITSET_BIT_OFFSET/BITS_TO_BYTES"),("push/pop byte growth","src/Bitset.c ZyanBitsetPush/Pop")],
 [("size and bytes","bit count and byte storage must stay consistent","include/Zycore/Bitset.h")],["bit tests","size queries"])
p("C17","Bitset aggregates and bulk logic equal their bitwise definitions",
 "The population count and the all/any/none queries depend on exactly the bits of the set and equal their definitions, for every size and history, never influenced by unused bits of the last byte. AND, OR, XOR of two equally long sets and any caller-supplied byte operation give in every bit exactly the bitwise result and leave the source untouched; with sets of different length, bits beyond the shorter one's bytes are unaffected.",
 ["inputs","histories"],"All bit patterns for every size up to a bound (two operands for the logical operations), including sets that were previously longer, all-set, flipped or processed with inverting byte operations.",
 "There is no bitset test.",[B],[("popcount and masks","src/Bitset.c ZyanBitsetCount/All/Any/None"),("byte operations","src/Bitset.c ZyanBitsetPerformByteOperation")],None,["aggregate queries"])
p("C18","List behaves as a doubly linked sequence under every history",
 "After any sequence of push, in-place construction, pop, removal of a node or node range, set, resize and clear at either end, walking the list forward from the head and backward from the tail both yield exactly the ideal sequence and its mirror image, with the reported size. Nodes that were not removed keep their identity and data, and popping an empty list is refused.",
 ["histories","configurations"],"All operation histories up to a size bound, for dynamic lists of several element sizes, closed under reachability.",
 "There is no list test.",[L,"include/Zycore/List.h"],[("link maintenance","src/List.c Push*/Pop*/ResizeEx")],
 [("head/tail/size","ends and length","include/Zycore/List.h ZyanList")],["node traversal","size query"])
p("C19","Fixed-buffer list recycles every node slot safely",
 "A list in a caller-supplied buffer can always hold as many elements as node slots fit into the buffer, no matter in which order elements were added and removed before, and an insertion fails with the insufficient-buffer status only when all slots are in use. Two live elements never share storage and no slot lies outside the buffer.",
 ["histories","configurations"],"All histories of push/pop/remove/resize/clear at both ends to closure, for every buffer capacity up to several slots, including capacities that are not a multiple of the slot size.",
 "There is no list test; slot reuse bugs need specific push/pop interleavings.",
 [L],[("free list then bump allocation","src/List.c ZyanListAllocateNode/DeallocateNode")],[("first_unused","free list of recycled nodes","include/Zycore/List.h ZyanList")],["node addresses","statuses"])
p("C20","Argument parser accepts exactly its grammar with exact results",
 "For every definition table and every argument vector, parsing succeeds exactly when the tokens form a valid command line under the documented rules, and then yields one entry per option occurrence or unnamed argument, in command-line order, with the right definition and the exact value text. Otherwise it returns the status for the first violation together with the offending token; unnamed-count limits, required options, grouped short options, attached and separate values and the end-of-options marker are all honoured.",
 ["inputs","configurations"],"All token sequences up to a length over an alphabet of option-like and value-like tokens, for a family of definition tables and all small unnamed-argument limits.",
 "tests/ArgParse.cpp covers about 20 hand-picked command lines.",
 [AP,"include/Zycore/ArgParse.h"],[("token loop","src/ArgParse.c ZyanArgParseEx")],None,["parsed vector","status","error token"])
p("C21","Argument parser failure leaves nothing behind",
 "Whenever argument parsing fails, for any input and at any allocation failure, nothing that the parser allocated stays allocated and the caller owns no result; on success the caller owns exactly the result vector, whose single destruction releases everything. Results and error tokens refer into the caller's argument vector and definition table, which are never modified.",
 ["inputs","fault_sequences"],"All token sequences of the C20 space x every allocation failure position, with a checking allocator.",
 "Tests do not count allocations or inject failures.",
 [AP],[("failure label destroys the vector","src/ArgParse.c failure")],None,["allocator callbacks"])
p("C22","No-libc fallback routines equal their C standard counterparts",
 "Built without a C library, the library's own memory and string routines return the same result and have the same effect on memory as the C standard functions they replace (comparison results up to sign), for all arguments for which those are defined, reading and writing nothing outside what the standard allows.",
 ["inputs","configurations"],"All byte strings up to a length over a small alphabet including bytes above 127, all counts, offsets and overlaps.",
 "The no-libc configuration is never built or run by the tests.",
 ["include/Zycore/LibC.h"],[("inline fallbacks","include/Zycore/LibC.h")],None,["return values and memory"])
p("C23","Atomic operations are linearizable under every interleaving",
 "Concurrent increments, decrements and compare-exchanges on a shared 32-bit, 64-bit or pointer-sized value behave as if each executed at one indivisible instant: the returned values and final value are those of some sequential order consistent with each thread's program. Increment and decrement return the new value, compare-exchange returns the original one and stores only on equality, over the full width of the type including wrap-around.",
 ["schedules","inputs"],"All interleavings at memory-access granularity of all small programs of 2-3 threads over the atomic operations, plus all boundary operand values sequentially.",
 "The atomics are used by no test.",
 ["include/Zycore/Atomic.h","include/Zycore/Internal/AtomicGNU.h"],[("compiler atomic builtins","include/Zycore/Internal/AtomicGNU.h")],None,["returned and final values"])
p("C24","Critical sections give recursive mutual exclusion in every schedule",
 "At no point in any schedule are two threads inside the same critical section; a thread may enter again any number of times and the section is released only after as many leaves. Try-enter never blocks and succeeds exactly when the section is free or already owned by the caller, distinct sections do not interfere, and an uncontended or released section can always be entered. If the system refuses to create a section, this is reported as a failure.",
 ["schedules"],"All interleavings of all small thread programs of enter, try-enter, nested enter and leave on one and two sections.",
 "No test uses more than one thread.",
 ["src/API/Synchronization.c"],[("recursive mutex","src/API/Synchronization.c ZyanCriticalSectionInitialize")],None,["statuses and a monitored owner variable"])
p("C25","Thread-local slots are isolated per thread and per slot",
 "A value read from a thread-local slot is always the last value the same thread stored in that slot, or null if it stored none since the slot was allocated, whatever other threads and other slots do. When a thread ends, the slot's destructor runs exactly once in that thread for each non-null value, with that value, and never for null values or released slots; thread identifiers are unique among live threads and stable within a thread. If the system refuses to provide a slot, this is reported as a failure.",
 ["schedules","histories"],"All interleavings of small programs of alloc, set, get, free and thread exit over 2-3 threads and 2-3 slots.",
 "No test uses thread-local storage.",
 ["src/API/Thread.c"],[("pthread keys","src/API/Thread.c ZyanThreadTls*")],None,["slot reads","destructor calls"])
p("C26","Page protection and release affect exactly the requested pages",
 "After changing the protection of a page range, each page in the range permits exactly the requested kinds of access and every other page keeps its previous protection and all pages keep their contents; releasing a range unmaps exactly that range. Requests the system refuses are reported as failures and change nothing outside the requested range (nothing at all if misaligned or invalid), the reported page size is the system's, and flushing the instruction cache succeeds on mapped code and preserves it.",
 ["histories","inputs"],"All sequences of protection changes over all sub-ranges of a small mapping and all protection values up to a depth, each page probed for read, write and execute.",
 "No test touches the memory API.",
 ["src/API/Memory.c","src/API/Process.c","include/Zycore/API/Memory.h"],[("mprotect/munmap wrappers","src/API/Memory.c")],None,["access probes"])
p("C27","Predefined comparators, status codes and arithmetic macros are exact",
 "The predefined and generated equality and ordering functions give for every pair of operand values, over the full width of their type, the mathematical equality and a three-way order with the documented sign. Status construction and decomposition are inverse to each other with the error flag deciding success, all status codes are distinct, version extraction recovers the encoded parts, and the minimum, maximum, absolute value, alignment, power-of-two and bit-width helpers equal their definitions. The fixed-width integer types have the widths, signedness and limits their names promise, with and without the C library, and the truth constants their documented values.",
 ["inputs"],"All pairs of 8-bit values, all boundary pairs of wider types, all module/code corner values, all values x alignments in a range.",
 "No test evaluates them beyond what vector search needs.",
 ["include/Zycore/Comparison.h","include/Zycore/Status.h","include/Zycore/Defines.h","include/Zycore/Types.h","include/Zycore/Zycore.h","src/Zycore.c"],[("comparison generators","include/Zycore/Comparison.h"),("status layout","include/Zycore/Status.h")],None,["returned values"])
p("C28","Objects used by different threads never interfere",
 "Threads that operate concurrently on their own vectors, strings, bitsets, lists and argument parsers, sharing only read-only inputs and the default allocator, obtain in every schedule exactly the results they obtain when run alone. The library keeps no hidden mutable state shared between unrelated objects.",
 ["schedules"],"All preemption-bounded interleavings, at memory-access granularity, of pairs of operation programs covering every module.",
 "All tests are single threaded.",
 [V,S,B,L,F,AP,AL],[("no global mutable state","all modules; src/Allocator.c default instance is constant")],None,["per-thread results","conflicting accesses to shared memory"])
p("C29","Duplicates and concatenations are exact, independent copies",
 "Duplicating a vector or string, or concatenating two strings, yields a new object with exactly the source contents in order and at least the requested capacity, in its own storage, for dynamic storage and caller-supplied buffers, and fails without touching the destination buffer's surroundings when a supplied buffer is too small. The sources are unchanged, and later changes to or destruction of either object never affect the other.",
 ["inputs","histories"],"All source contents up to a bound x all requested capacities x storage kinds, followed by all short mutation histories on either object.",
 "Duplication is tested once with one content; concatenation not at all.",
 [V,S],[("copy into fresh storage","src/Vector.c ZyanVectorDuplicate*, src/String.c ZyanStringDuplicate*/Concat*")],None,["contents of both objects"])
p("C30","Failed element construction is rolled back",
 "If the constructor passed to an in-place insertion reports failure, the insertion returns that failure and the container holds exactly the elements it held before, in order, with unchanged size, and remains fully usable; if it succeeds, the constructor ran exactly once on the new element's storage at the requested position. No storage is leaked in either case.",
 ["fault_sequences","histories"],"All histories of in-place insertions at every position with the constructor failing at every subset of calls, mixed with other operations, vectors and lists, dynamic and fixed buffers.",
 "Tests only use constructors that succeed.",
 [V,L],[("constructor call","src/Vector.c ZyanVectorEmplaceEx, src/List.c ZyanListEmplaceBack/Front")],None,["constructor callback","contents"])
p("C31","Standard stream terminal detection matches what each stream is",
 "The terminal query answers true exactly for those of the three standard streams that are connected to a terminal, false for streams connected to anything else and an invalid-argument status for a closed stream, independently per stream. Enabling terminal escape sequences is accepted exactly for the two output streams, and the query and enabling have no side effect on the streams.",
 ["configurations"],"All assignments of terminal, pipe, file, null device and closed to the three standard streams.",
 "No test uses the terminal API.",
 ["src/API/Terminal.c"],[("stream to descriptor mapping","src/API/Terminal.c ZyanTerminalIsTTY")],None,["returned status"])
p("C32","Containers behave identically without a C library",
 "Built in the configuration without a C library and driven through caller-supplied allocators or buffers, vectors, strings, bitsets, lists, number formatting and the argument parser give for every operation history the same statuses, contents, sizes and allocator requests as the regular build.",
 ["configurations","histories"],"All operation histories up to a depth executed on both builds in lockstep.",
 "The no-libc configuration is never built or run by the tests.",
 ["include/Zycore/LibC.h",V,S,B,L,F,AP],[("fallback routines and conditional compilation","ZYAN_NO_LIBC")],None,["statuses, contents, allocator calls"])
p("C33","Optimised builds without assertions behave identically",
 "Compiled with optimisation and without assertions, by either compiler, vectors, strings, bitsets, lists, number and printf formatting and the argument parser give for every operation history the same statuses, contents, sizes and allocator requests as the build with assertions. No behaviour depends on code that only runs inside an assertion or on undefined behaviour that optimisation may exploit.",
 ["configurations","histories"],"All operation histories up to a depth executed in lockstep on the build with assertions and on the optimised builds of two compilers.",
 "The tests are built and run in one configuration only.",
 [V,S,B,L,F,AP,"include/Zycore/Defines.h"],[("ZYAN_ASSERT","include/Zycore/Defines.h"),("functions annotated as constant expressions or with attributes","all modules")],None,["statuses, contents, allocator calls"])
p("C34","All guarantees hold on 32-bit targets",
 "Compiled for a target with 32-bit sizes and pointers, where number formatting takes separate 32-bit paths, vectors, strings, bitsets, lists, views, formatting, argument parsing, the predefined comparators and the C library replacements give the same statuses, contents, text and capacities as on a 64-bit target. Requests whose byte size, sum or product does not fit into 32 bits are refused without effect, and no access leaves the storage.",
 ["configurations","histories","inputs"],"The state spaces and inputs of the other properties explored again on a 32-bit build of the library, with boundary arguments around 2^16, 2^31 and 2^32.",
 "The tests are built for a 64-bit target only, so code compiled only for 32-bit targets never runs.",
 [V,S,B,L,F,AP,AL,"include/Zycore/LibC.h","include/Zycore/Types.h"],[("32-bit formatting","src/Format.c ZyanStringAppendDecU32/HexU32"),("size computations in ZyanUSize","src/Vector.c, src/Allocator.c, src/List.c, src/Bitset.c")],None,["statuses, contents, allocator calls"])
p("C35","An object may be its own operand",
 "Appending a string, or a range of it, to itself and inserting it into itself at any position has exactly the effect it has with an independent copy as the source, for every storage mode, also when the storage moves, and leaves the string unchanged when storage runs out. Combining a bitset with itself, comparing and searching a string with itself or concatenating it with itself follows the definitions. Storing a copy of a container's own element into the same container works wherever that element stays in place.",
 ["inputs","fault_sequences"],"All self operations with all positions and ranges on all short strings in all storage modes with every allocation failing, all bitset contents, all pairs of own elements.",
 "No test uses an object as its own operand.",
 [S,V,B,L],[("self insertion","src/String.c ZyanStringInsertSelf, ZyanStringAppend*"),("byte-wise in-place combination","src/Bitset.c ZyanBitsetPerformByteOperation"),("copy of the item","src/List.c ZyanListPush*/SetNodeData/ResizeEx, src/Vector.c ZyanVectorSet/PushBack")],None,["contents, statuses"])
p("C36","Results never depend on what memory held before",
 "Whatever bytes the storage of an object, memory obtained from an allocator, a caller's buffer beyond the documented content or the stack contain before an operation runs, every status, content, size and capacity is the same. In particular every initialization and duplication establishes all of the object's state, and an element or slot that was removed leaves nothing behind that a later operation interprets.",
 ["inputs","histories"],"The state spaces and inputs of the other properties explored again with all unwritten memory and locals set to zero, to ones and to further patterns.",
 "A test run sees whatever its memory happens to hold, mostly zeros.",
 [V,S,B,L,F,AP,AL,"include/Zycore/LibC.h"],[("initialization of all members","src/*.c Zyan*Init*, Zyan*Duplicate*"),("fresh storage","src/Bitset.c ZyanBitsetInit*/Push, src/List.c ZyanListAllocateNode")],None,["statuses, contents, capacities"])
p("C37","Operations write only to what they are documented to change",
 "Queries, searches, comparisons, views, duplications and every use as a source leave the object, its storage and all of their memory untouched, not even temporarily changed, in every state and for every storage mode. Elements, texts, views and source objects handed to a modifying operation, and the configuration, definitions and argument vector handed to the argument parser, are only read. Constant objects may therefore live in read-only memory and be read by any number of threads at once.",
 ["histories","inputs"],"Every distinct object state reachable within bounds, with every read operation and every operation that takes the object as a source executed while that memory is write-protected.",
 "Tests compare contents afterwards; a value that is modified and restored, or a write of the value already there, is invisible to them.",
 [V,S,B,L,F,AP],[("const parameters","include/Zycore/*.h"),("search and comparison loops","src/String.c, src/Vector.c ZyanVectorFindEx/BinarySearchEx"),("source operands","src/Bitset.c ZyanBitsetPerformByteOperation, src/String.c Append/Insert/Duplicate/Concat")],None,["write accesses to protected pages"])
p("C38","The guarantees hold for objects of more than two and four gibibytes",
 "Vectors, strings, views, bitsets, lists and page ranges whose number of elements, characters, bits or bytes lies just below, at or above 2^31 and 2^32 behave as small ones do: editing, capacity, element access, search in both directions, comparison, case conversion, duplication, concatenation, counting and the built-in C library replacements give the exact result at every place. Requests to the allocator cover the whole object, and nothing outside it is touched.",
 ["histories","inputs"],"Every one- and two-step history of the listed operations at places around the boundaries of objects of each size, on sparse memory, and every whole-pass operation.",
 "Tests use objects of a few elements; an intermediate 32-bit or signed value is invisible until an object exceeds it.",
 [V,S,B,L,"include/Zycore/LibC.h","src/API/Memory.c"],[("sizes and offsets","src/Vector.c, src/String.c, src/Bitset.c"),("loops over the content","src/String.c LPos/RPos/Compare/ToLowerCase, src/Bitset.c Count/All/Any, include/Zycore/LibC.h")],None,["contents at the boundaries","statuses","allocator requests"])
for x in P:
    n=x["statement"].count(". ")+1
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert n<=3,(x["id"],n)
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
