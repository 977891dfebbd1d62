#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long strings stay reviewable)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))

I = "include/dart/"
prop("C01", "A mutation through one handle is never visible through any other handle",
  "Every handle behaves as an independent value: after any sequence of copies, moves, nestings, extractions, mutations and failed calls, each live handle reads exactly what its own history of operations gives it, and a change made through one handle (including a change to a value that was inserted into, or taken out of, another) never appears through another. "
  "Positions in a container obtained before a change through a different handle keep denoting the same elements. A call that is refused leaves every handle as it was.",
  ["histories", "programs", "fault_sequences"],
  "every finite history of operations over any number of handles of every kind, mutable and finalized, typed and untyped, shared by copy, move, assignment, insertion, extraction, projection, wrapping, view promotion or destruction, including refused and allocation-failed calls",
  "Copy-on-write is a property of histories: the tests mutate one of at most two sharers with a handful of calls, so an operation that forgets to detach, or detaches too little, in some position or for some type goes unseen.",
  [I+"heap/array.tcc", I+"heap/object.tcc", I+"heap/detail.tcc", I+"packet/array.tcc", I+"packet/object.tcc", I+"packet/detail.tcc", I+"array.tcc", I+"object.tcc", I+"api.tcc"],
  [("copy_on_write before in-place mutation", I+"heap/detail.tcc"), ("shared child containers detached at each level", I+"heap/array.tcc, "+I+"heap/object.tcc"), ("promotion of a finalized packet to a private mutable copy", I+"packet/detail.tcc")],
  [("shared container", "element storage shared between handles", I+"dart.h basic_heap::data")],
  ["every public accessor, iterator, comparison and serializer of each live handle after each step"])

prop("C02", "Handles sharing a value across threads never interfere, in any interleaving",
  "With a thread-safe reference counter, threads that each own their handles to a shared value, mutable or finalized, may copy, read, mutate, finalize, serialize and drop their own handles concurrently without synchronisation, and each thread observes exactly what it would observe alone. "
  "No interleaving produces a data race, a use of released storage, or a double or missed release.",
  ["schedules", "histories"],
  "every interleaving, at the granularity of individual memory accesses, of two to four threads running arbitrary histories over handles that share storage, created before or handed over with proper synchronisation",
  "No test starts a thread, and a real multi-threaded test would sample a handful of interleavings; the window between a uniqueness check and an in-place write, or between a decrement and a destruction, needs a controlled schedule.",
  [I+"heap/detail.tcc", I+"support/ptrs.h", I+"support/ptrs.tcc", I+"refcount_traits.h", I+"heap/array.tcc", I+"heap/object.tcc", I+"buffer/detail.tcc", I+"common.tcc"],
  [("atomic reference counts", I+"support/ptrs.tcc"), ("uniqueness test before in-place mutation", I+"heap/detail.tcc copy_on_write"), ("immutable finalized buffers", I+"buffer/buffer.h")],
  [("use count", "number of owners of shared storage", I+"support/ptrs.h")],
  ["per-thread recorded observations", "happens-before graph of all instrumented accesses"],
  None)

prop("C03", "Shared storage is released exactly once, as soon as its last owner is gone",
  "Storage behind values is freed exactly once, when and only when its last owning handle, element position, or extracted child is gone; nothing is leaked when a history ends and nothing is used afterwards. "
  "Views of objects, arrays and packets own nothing: creating or destroying one changes no reported owner count and releases nothing, and promoting a view to an owner keeps the value alive by itself. The owner count a handle reports equals the number of owners that exist.",
  ["histories", "fault_sequences"],
  "every history of copies, moves, self-assignments, insertions, erasures, extractions, iterations, view creations and promotions, failed calls and destructions in every order, for every supported reference counter",
  "Tests end with everything destroyed in scope order and check no allocator state; lifetime errors show only for particular orders of destruction, sharing through nested and view types, or error exits.",
  [I+"support/ptrs.h", I+"support/ptrs.tcc", I+"refcount_traits.h", I+"heap/detail.tcc", I+"buffer/detail.tcc", I+"buffer/api.tcc", I+"common.tcc", "src/generic.cc"],
  [("shareable/skinny/unsafe pointers and control blocks", I+"support/ptrs.tcc"), ("refcount traits and view pointers", I+"refcount_traits.h, "+I+"common.h"), ("tagged-union constructors and destructors in the C layer", "src/helpers.h")],
  [], ["the simulated allocator's live set, refcount() of each handle"])

prop("C04", "A failed allocation is reported and harms nothing",
  "If any allocation made by the library fails during an operation, the operation still succeeds or ends with a catchable error, never with process termination, and no storage is leaked or corrupted. Every handle other than the one being changed still reads its previous value; the one being changed holds either its previous value or the new one and remains fully usable. "
  "Repeating the call once memory is available succeeds as if the failure had not happened.",
  ["fault_sequences", "histories"],
  "every operation of the library in every reachable state, and every index of an allocation within it, failing singly, repeatedly or permanently until memory returns (allocations made inside the third-party JSON parser and printer are not the library's)",
  "The tests never fail an allocation; the paths run when one fails (partially built containers, noexcept functions, half-detached copies, error handlers that allocate) are never executed.",
  [I+"heap/detail.tcc", I+"heap/object.tcc", I+"heap/array.tcc", I+"buffer/detail.tcc", I+"common.tcc", I+"support/ptrs.tcc", I+"object.tcc", I+"connector/yaml.tcc"],
  [("construct-then-commit ordering and RAII", I+"heap/*.tcc"), ("aligned buffer allocation with its deleter", I+"common.tcc")],
  [], ["exceptions crossing the public API, allocator live set, all handles afterwards"])

prop("C05", "A finalized value reads the same wherever and however its bytes arrive",
  "Finalizing a value and delivering its bytes, through any chunking, duplication, reordering of messages, misaligned or reused receive memory, hand-over of ownership, or persistence and restart, yields a packet that is accepted by validation and from which every way of reading gives exactly the original value, at every nesting depth and for absent keys and indices too. "
  "Re-sending bytes taken from a received packet, or from any object nested in it at any depth, works as well.",
  ["inputs", "histories", "fault_sequences"],
  "every value within the format's limits with distinct keys, every delivery path into a receiving buffer, and every accessor applied to the received packet",
  "Tests finalize a few small constants and read a few keys in place in the same memory; field widths, alignment padding, key order, cached key prefixes and offsets interact only for particular sizes, key sets and placements.",
  [I+"common.tcc", I+"common.h", I+"object.tcc", I+"array.tcc", I+"string.tcc", I+"primitive.tcc", I+"buffer/detail.tcc", I+"buffer/api.tcc", I+"buffer/object.tcc", I+"buffer/array.tcc", "include/dart.h"],
  [("sorted vtable with cached key prefix and binary search", I+"object.tcc"), ("alignment of every element relative to its container", I+"common.tcc"), ("adopting and copying buffer constructors", "include/dart.h basic_buffer")],
  [("packet bytes", "self-contained encoding of the value", I+"common.h layout notes")],
  ["iterators, subscripts, lookups, sizes, comparison, JSON output, definalization on the receiving side"])

prop("C06", "Untrusted packet bytes are rejected or read safely, in bounded time",
  "Validating any bytes that arrive, whatever corruption they suffered, terminates in time proportional to their length, touches nothing outside them, and changes nothing; the reporting and the throwing form of validation always agree. "
  "Any packet that validation accepts can afterwards be traversed, searched, compared, serialized and converted to mutable form without touching memory outside its bytes, ending in values or in catchable errors.",
  ["inputs", "fault_sequences"],
  "every byte string, in particular those produced from real packets by bit flips, overwrites, splices, truncation and extension in transit or storage, with nesting that fits the stack",
  "Tests validate a handful of intact packets and a small fuzz corpus for crashes; a missing bound in one element type or one field is reached only by corruption of that field in a particular position.",
  [I+"array.tcc", I+"object.tcc", I+"string.tcc", I+"primitive.tcc", I+"common.tcc", "include/dart.h"],
  [("per-element is_valid with byte budget", I+"array.tcc, "+I+"object.tcc, "+I+"string.tcc, "+I+"primitive.tcc"), ("validate_pointer / is_valid / validate entry points", I+"common.tcc")],
  [], ["redzoned receive memory, is_valid() and validate() results, subsequent reads"])

prop("C07", "A torn or short write is never mistaken for a complete packet",
  "No proper prefix of a packet's bytes is accepted by validation, and the length a packet reports is exactly the bytes it needs. "
  "A log of packets that is cut at any byte by a crash, with the rest lost or overwritten with stale bytes beyond a recorded length, therefore recovers to exactly the packets fully written before the cut, in order and unaltered.",
  ["crash_points", "fault_sequences", "inputs"],
  "every sequence of values, every cut point in bytes, every partial final write, and every following restart and further append",
  "Tests never truncate a packet; a length check that is off by padding, by one element or for one type only shows at particular cut points of particular shapes.",
  [I+"array.tcc", I+"object.tcc", I+"string.tcc", I+"primitive.tcc", I+"common.tcc"],
  [("declared byte length checked against available bytes", I+"common.tcc valid_buffer/is_valid"), ("children bounded by parent", I+"array.tcc, "+I+"object.tcc")],
  [("declared size", "total bytes of an aggregate in its header", I+"common.h")],
  ["is_valid/validate on every prefix; recovery scan of the simulated log"])

prop("C08", "Equal values have identical bytes, whatever history or memory produced them",
  "The bytes of a finalized packet depend only on the value (a zero's sign is part of it): any two histories, insertion orders, mixes of mutable and finalized parts, and any previous contents of the memory used, that lead to the same value give byte-for-byte identical packets, padding included. Finalizing, un-finalizing and finalizing again is stable. "
  "Nothing of previously freed memory ever appears in a packet.",
  ["histories", "inputs", "configurations"],
  "every value with distinct keys, every history that builds it, every reference counter, and every initial content of freshly allocated memory",
  "Tests compare bytes for one or two constants built one way; padding and unused fields are zero by luck of a fresh heap, and order-dependence needs different build histories.",
  [I+"common.tcc", I+"object.tcc", I+"array.tcc", I+"string.tcc", I+"buffer/detail.tcc", I+"connector/json.tcc"],
  [("zeroed padding between elements", I+"array.tcc, "+I+"object.tcc"), ("one canonical key order", I+"common.h map comparator and "+I+"object.tcc"), ("narrowest-width numeric encoding", I+"common.tcc")],
  [], ["get_bytes/dup_bytes of packets built by independent histories under differently poisoned memory"])

prop("C09", "Finalizing and un-finalizing change representation, never value or rules",
  "Moving a value between mutable and finalized form, at any point of a history and any number of times, never changes what it reads as, and forms of the same value compare equal to each other. A finalized handle refuses every mutation with a state error and is left unchanged; the same handle accepts mutation again once un-finalized, and a mutable one again refuses byte access. "
  "Operations applied to the wrong type of value are refused with a type error in either form.",
  ["histories"],
  "every history interleaving conversions between the two forms (lift, lower, finalize, definalize, constructor and assignment conversions, wrappers) with reads and attempted mutations",
  "Tests convert once in each direction on small constants; a state machine over histories with nested, shared and partly finalized values is not sampled.",
  [I+"packet/api.tcc", I+"packet/detail.tcc", I+"packet/array.tcc", I+"packet/object.tcc", I+"heap/api.tcc", I+"buffer/api.tcc", I+"api.tcc"],
  [("packet dispatch over heap/buffer", I+"packet/*.tcc"), ("lower/lift", I+"packet/api.tcc")],
  [], ["is_finalized, exceptions, values after each conversion"])

prop("C10", "Anything taken out of a value stays valid for as long as it is held",
  "Elements obtained by subscript, lookup, iteration or key listing, typed wrappers, iterators over finalized packets, owning promotions of views, and duplicated bytes each remain valid and unchanged after every other handle, the container, or the receive memory they came from is modified or destroyed. ",
  ["histories", "programs"],
  "every way of extracting, every kind of source, every order of later mutation and destruction of the sources, and every use of the extracted thing afterwards",
  "Tests use extracted elements while the parent is still alive on the stack; ownership that is missing for one access path dangles silently.",
  [I+"buffer/detail.tcc", I+"buffer/iterator.tcc", I+"iterator.tcc", I+"heap/iterator.tcc", I+"packet/iterator.tcc", I+"api.tcc", I+"buffer/api.tcc", "include/dart.h"],
  [("buffer elements and iterators share ownership of the whole packet", I+"buffer/detail.tcc"), ("mutable elements share child storage", I+"heap/detail.tcc")],
  [], ["deep reads of extracted handles under a poisoning allocator"])

prop("C11", "Reading a received packet allocates nothing and cannot fail for lack of memory",
  "Once a finalized packet exists, looking up keys and indices, iterating, extracting elements, copying handles, asking for types, sizes and primitive or string contents, and validating, succeed with the right answer even when every allocation fails. ",
  ["fault_sequences", "histories"],
  "every finalized packet, every read-only accessor on it, with all allocations failing throughout",
  "Tests run with memory always available, so an accidental copy on a read path changes nothing they can see.",
  [I+"buffer/object.tcc", I+"buffer/array.tcc", I+"buffer/string.tcc", I+"buffer/primitive.tcc", I+"buffer/iterator.tcc", I+"buffer/detail.tcc", I+"object.tcc", I+"array.tcc", I+"common.tcc"],
  [("in-place access through raw elements", I+"buffer/*.tcc")],
  [], ["results and exceptions of accessors with the simulated allocator exhausted"])

prop("C12", "The C interface turns every failure into an error code",
  "Every call of the C interface returns: misuse, wrong types, malformed text and exhausted memory come back as a non-OK code with a message readable until the next call on that thread, and never as an exception, termination or corruption. The code tells the kind of failure, values not being assigned keep their contents, and destroying whatever a failed call leaves behind is safe. "
  "Successful calls have the same effect as the corresponding C++ operation.",
  ["histories", "fault_sequences", "inputs"],
  "every history of C calls over values of every kind and reference counter, with wrong-type, out-of-range, malformed and allocation-failing calls at any point",
  "Tests call each C function a few times on the success path with memory available.",
  ["src/generic.cc", "src/heap.cc", "src/buffer.cc", "src/helpers.h", I+"abi.h"],
  [("err_handler around every entry point", "src/helpers.h"), ("type/refcount dispatch", "src/helpers.h")],
  [("errmsg", "per-thread last error message", "src/helpers.h / src/generic.cc")],
  ["return codes, dart_get_error, contents of all values, allocator live set"])

prop("C13", "C interface threads see only their own errors and their own changes",
  "Threads using the C interface concurrently on their own handles, including handles to a value they share, each read back only the error messages of their own calls and only the results of their own operations, in every interleaving, without data races. ",
  ["schedules", "histories"],
  "every interleaving of two to four threads making arbitrary successful and failing C calls over handles that share thread-safe-counted storage",
  "The C tests are single-threaded.",
  ["src/helpers.h", "src/generic.cc", "src/heap.cc", "src/buffer.cc"],
  [("thread-local error message", "src/generic.cc"), ("atomic counts for the safe variants", I+"support/ptrs.tcc")],
  [], ["per-thread recorded codes, messages and values"])

prop("C14", "Any conforming reference counter gives the same behaviour",
  "The same history gives the same observable results whichever supported reference counter carries it, including a user-supplied one that merely meets the documented requirements; the library takes, copies, moves and releases it strictly within those requirements. "
  "Converting a packet or a mutable value between reference counters yields an equal value that shares nothing with its source.",
  ["configurations", "histories"],
  "every history, under the standard, unsafe, skinny and a protocol-checking custom counter, and every conversion between them",
  "Tests instantiate several counters but run the same few histories and compare nothing across counters.",
  [I+"refcount_traits.h", I+"support/ptrs.h", I+"support/ptrs.tcc", I+"api.tcc", I+"heap/api.tcc", I+"buffer/api.tcc"],
  [("refcount trait shims", I+"refcount_traits.h"), ("transmogrify", I+"api.tcc")],
  [], ["full observation log of each history per counter"])

prop("C15", "C and C++ holders of one value share it without interfering",
  "A value handed between the C and the C++ interface, in either direction, reads the same on both sides, is kept alive by either side alone, is released once both are done, and obeys value isolation between the sides under mutation. ",
  ["histories"],
  "every interleaving of C and C++ operations on values handed over in either direction, in every destruction order and for each supported counter",
  "The tests hand one value over once and read it.",
  [I+"api_swap.h", "src/helpers.h", I+"abi.h"],
  [("reinterpretation of the C storage as the C++ handle", I+"api_swap.h")],
  [], ["values on both sides, allocator live set"])

prop("C16", "Damaged or interrupted text input yields a value or an error, nothing else",
  "Parsing text that was cut, damaged, spliced or otherwise malformed on its way in, or while memory is failing, either returns a well-formed value or ends in a catchable error, without leaking, without touching memory outside the text, and without affecting any existing handle. "
  "Parsing an undamaged text gives the same value whatever happened in earlier failed parses and whichever form, mutable or finalized, is asked for.",
  ["inputs", "fault_sequences", "histories"],
  "every text derived from valid JSON or YAML by truncation, corruption or splicing, every failing allocation of the value-building code, with nesting that fits the stack",
  "Tests parse valid documents and a few malformed ones with memory available.",
  [I+"connector/json.tcc", I+"connector/yaml.tcc", I+"packet/api.tcc", I+"heap/api.tcc", I+"buffer/api.tcc"],
  [("parser callbacks building values on a stack", I+"connector/json.tcc, "+I+"connector/yaml.tcc")],
  [], ["exceptions, resulting values, allocator live set"])

prop("C17", "Native conversions are exact or refused, even while memory is failing",
  "A native object (number, text, standard container, optional, variant, tuple, time, user type, or any nesting of these) turned into a value or stored in one reads as that object; reading the value back as the same type gives the original (times to the whole second), and reading it as a type of another kind is refused with a type error (numbers of one kind narrow as in C++; any value reads as a truth value: false and null as false, all others as true). "
  "A value compares equal to a native object exactly when it holds what converting that object would give (numbers compare by value), whichever side of the comparison it stands on. When memory fails, the conversion either completes or reports it, leaves every handle as it was, and leaks nothing.",
  ["histories", "fault_sequences", "inputs"],
  "every nesting of supported native types, every history of conversions over live handles, every failing allocation within a conversion",
  "Tests convert a fixed list of constants with memory available.",
  [I+"conversions.h", I+"conversion_traits.h", I+"convert.h" if os.path.exists("/repo/"+I+"convert.h") else I+"shim.h", I+"operators.tcc"],
  [("conversion traits for standard types", I+"conversions.h"), ("dispatch to built-in and user conversions", I+"conversion_traits.h")],
  [], ["values read through every interface, native objects read back, exceptions, allocator live set"])

prop("C18", "Equality compares contents, whatever holds the values",
  "Two values compare equal exactly when they hold the same contents: the same type and, for numbers and booleans, the same number; for text, the same bytes; for arrays, equal elements in order; for objects, the same keys with equal values. "
  "It does not matter in which form each is held (mutable, finalized, mixed, a view, a typed wrapper, part of something else), how it came to be, or on which side it stands; inequality is the opposite of equality, and zeros of either sign are equal. Comparing changes nothing, keeps nothing, and needs no memory that could run out.",
  ["histories", "inputs", "fault_sequences"],
  "every pair of values held under one reference counter, in every pair of forms, at any point of any history; text and numbers other than NaN",
  "Tests compare a few constants; two forms that disagree on one kind of difference (a key renamed, an absent key against null, a number retyped, a last element) are not sampled.",
  [I+"conversion_traits.h", I+"operators.tcc", I+"heap/api.tcc", I+"buffer/api.tcc", I+"packet/api.tcc"],
  [("comparison within and across representations", I+"conversion_traits.h")],
  [], ["results of == and != in both directions, allocator live set"])

prop("C19", "JSON text denotes the value it was written from and reads back as it",
  "Whatever history produced a value and whatever form it is held in (mutable, finalized, mixed, a view, a typed wrapper), writing it as JSON gives well-formed text, the same for every form, which denotes exactly that value; read back into either form it gives an equal value (decimals exactly when full precision is asked for), and a finalized result has the bytes the value itself finalizes to. "
  "Not-a-number and infinities are written and read when that is asked for, and only then are they promised. Failed allocations on the way are reported and change and leak nothing.",
  ["histories", "fault_sequences", "inputs"],
  "every value (text is any bytes), every history that produced it, every route to its text and back, failing allocations of the library's own code (RapidJSON's C allocator is taken not to fail)",
  "Tests round-trip a few documents held in one form.",
  [I+"connector/json.tcc", I+"object.tcc", I+"array.tcc", I+"packet/api.tcc"],
  [("serializer over any form", I+"connector/json.tcc"), ("parse into a mutable tree or straight into a packet", I+"connector/json.tcc")],
  [], ["text against an independent strict reader, values read back, bytes, allocator live set"])

prop("C20", "Optionals, variants and owning pointers hold exactly what they were given",
  "The library's optional, variant and owning pointers (skinny, unsafe and shareable over any counter) hold what was last put in them and nothing else: every object put in is made once, destroyed once, and lives as long as something holds it. "
  "Owning pointers report the number of owners and delete with the deleter given, once, when the last owner lets go, even when the object released is what led to the pointer assigned from; a moved-from pointer is null; a view never owns. "
  "When a constructor, an assignment or an allocation fails, its exception is passed on, nothing is leaked or destroyed twice, and an optional holds its old value or nothing, a pointer what it held. "
  "Reading what is not there is refused, and comparisons order what is held, with nothing before any value.",
  ["histories", "fault_sequences"],
  "every history of making, copying, moving, assigning, swapping, resetting and reading them, self-assignment and chains included, with failing constructors, assignments and allocations",
  "Tests make and drop a few pointers of int, and never fail a constructor or release a chain through its own head.",
  [I+"support/ptrs.tcc", I+"support/optional.tcc", I+"support/variant.h", I+"refcount_traits.h"],
  [("counted pointers, shareable pointers, views", I+"support/ptrs.tcc"), ("optional", I+"support/optional.tcc"), ("variant", I+"support/variant.h")],
  [], ["registry of live objects, owner counts, values held, outcomes, allocator live set"])

NA = [
 ("N04", "Packets are byte-identical across machine byte orders",
  "A packet produced on a machine of either byte order is read identically on the other.",
  ["configurations"], "every value and pair of byte orders", "Tests run on one byte order.", [I+"support/ordered.h", I+"common.h"], "byte-order wrappers"),
 ("N05", "The string view behaves like its standard counterpart",
  "The shipped string view behaves as the standard one for the operations the library exposes.",
  ["inputs"], "every text and position", "Tests exercise a few operations.", [I+"support/string_view.tcc"], "shim selection"),
]
for id, t, s, over, q, w, f, m in NA:
    prop(id, t, s, over, q, w, f, [(m, f[0])])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        p["statement"] = p["statement"].strip()
        assert len(p["title"]) <= 80, p["id"]
        for f in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + f): print("missing", p["id"], f)
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
