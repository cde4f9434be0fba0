#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that it can be edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Index and range arguments are accepted exactly when they are in bounds",
  "Every operation of a vector that takes an index, a count or a range (of any bound kinds, up to the largest integers) performs its effect exactly when the argument is in bounds for the current length, and otherwise panics (or, for the fallible variants, reports failure). A rejected call changes nothing: length, contents and capacity stay as they were and a value that was passed in is dropped once or handed back.",
  ["inputs", "histories", "configurations"], "all lengths, indices, counts and range bounds 0..=usize::MAX, all storages and element types, every vector state",
  "Tests sample a few small indices on short vectors; the boundary index, inverted ranges, excluded and overflowing bounds and zero-sized elements are a space of 2^64 values per argument.",
  ["src/lib.rs", "src/slice.rs", "src/iter/raw_cursor.rs"],
  [("explicit bounds checks before the unchecked operation", "src/lib.rs insert/remove/swap_remove/split_off/*_array"), ("check_range", "src/slice.rs")])
p("C02", "Element operations change the sequence exactly as specified",
  "Adding, inserting, popping, removing, swap-removing, truncating and clearing (single elements and arrays, panicking and fallible forms) leave exactly the sequence that the same operation on a mathematical list gives, and return exactly the element or array that was removed, or a reference to the one that was added. All other elements keep their identity and order.",
  ["inputs", "histories", "configurations"], "all lengths, capacities, indices, array sizes, storages and element types",
  "Tests compare a handful of short vectors; the claim is for every length and index, in particular the first, last and one-past-last position and a vector that is exactly full.",
  ["src/lib.rs"], [("*_unchecked operations", "src/lib.rs")], [("len", "number of live elements", "src/lib.rs GenericVec")])
p("C03", "Bulk operations produce exactly the specified sequence",
  "Growing, resizing, extending (from slices, iterators, closures), cloning, splitting off, appending, converting and shrinking leave the vectors involved with exactly the specified contents: old elements kept in order, then the requested number of new ones in order, with elements that move between vectors present in exactly one of them. User code is called exactly once per new element, in order.",
  ["inputs", "histories", "configurations"], "all lengths, amounts, storages, iterators (any length and any size_hint), closures and element types",
  "Tests use short fixed sequences; the claim covers every length split, capacity boundary, lying size hint and zero amount, for the ordinary and the specialised implementation.",
  ["src/lib.rs", "src/extension.rs", "src/iter.rs", "src/impls.rs"],
  [("reserve before spare-capacity writes", "src/lib.rs grow*/extend*"), ("Extension", "src/extension.rs"), ("split_off_into", "src/lib.rs")])
p("C04", "No operation touches memory outside initialised, owned capacity",
  "No safe operation, and no unsafe operation used within its documented contract, reads or writes outside the storage's capacity, reads or hands out an element slot that holds no live value, or uses a pointer from before a reallocation. After every operation, including one that unwinds, the length never exceeds the capacity and every slot below the length holds a live value.",
  ["inputs", "histories", "fault_sequences", "configurations"], "all call sequences of the safe API, all lengths/capacities/arguments, user code that panics at any call",
  "Out-of-bounds and uninitialised accesses in release builds are silent in tests, and depend on exact length/capacity relations that the samples do not hit.",
  ["src/lib.rs", "src/extension.rs", "src/iter/raw_cursor.rs", "src/iter/splice.rs", "src/slice.rs", "src/iter/into_iter.rs"],
  [("len <= capacity and elements 0..len initialised", "src/lib.rs GenericVec"), ("pointer re-derivation after reserve", "src/iter/raw_cursor.rs reserve")])
p("C05", "Every element is dropped exactly once or handed over",
  "Whenever an operation completes normally, every element value that entered the vector is still in it, was handed to the caller, or was dropped, and exactly one of these: none is dropped twice, lost without being dropped, or dropped and then still accessible. Dropping a vector or any of its iterators drops each remaining element once and releases its storage once.",
  ["inputs", "histories", "configurations"], "all operations and iterator usages, all lengths and arguments, element types with and without drop glue",
  "Leaks and double drops of plain values are invisible to value-comparing tests and depend on the interplay of partial iteration with drop.",
  ["src/lib.rs", "src/iter/into_iter.rs", "src/iter/drain.rs", "src/iter/drain_filter.rs", "src/iter/splice.rs", "src/iter/raw_cursor.rs", "src/extension.rs"],
  [("Drop implementations", "src/lib.rs, src/iter/*"), ("mem::forget / ManuallyDrop pairing", "src/iter/*, src/lib.rs")])
p("C06", "A panic in user code leaves the vector valid",
  "If user code (a closure, an iterator, Clone, a comparison or an element's destructor) or the storage's reserve panics inside any operation, the vector that is left behind is valid: its length counts only live elements, no element is dropped twice or duplicated, and elements that the operation had not yet removed are still there. Values produced before the panic are dropped once or are in the vector.",
  ["inputs", "fault_sequences", "histories"], "a panic at every call of user code or of the storage inside every operation, all lengths and arguments",
  "Tests hardly inject panics; the claim is about every possible panic point of every operation.",
  ["src/lib.rs", "src/extension.rs", "src/iter/drain_filter.rs", "src/iter/splice.rs", "src/slice.rs", "src/iter.rs"],
  [("length set before destructors run", "src/lib.rs truncate"), ("guards that finish on unwind", "src/iter/*.rs"), ("SetOnDrop", "src/iter/drain_filter.rs")])
p("C07", "Fallible operations never panic, allocate or lose the value",
  "The fallible operations (try_push, try_insert, try_pop, try_remove, try_swap_remove, try_reserve, try_write_front/back and the array forms) never panic on any argument; they fail exactly when the operation is impossible without growing, and on failure the vector is unchanged and a passed value comes back unmodified. try_reserve returns true exactly if the capacity now suffices, and never changes the contents.",
  ["inputs", "histories", "configurations"], "all arguments including usize::MAX, all lengths and capacities, all storages and element types",
  "Tests call them on one full and one empty vector; the failure condition is a relation between length, capacity, index and array size over all values.",
  ["src/lib.rs", "src/iter/cursor.rs", "src/raw"],
  [("capacity/length comparison before the unchecked operation", "src/lib.rs try_*")])
p("C08", "Cursor reads, writes and skips keep the vector's order",
  "A cursor over a range lets elements be read, dropped, skipped or replaced from both ends in any order: each safe operation succeeds exactly when an element or an unfilled slot is there for it, and reports the number of remaining elements and unfilled slots exactly. When the cursor ends (finish, drop or unwinding), the vector holds the elements before the range, those written or skipped at the front, those not reached, those written or skipped at the back and the elements after the range, in that order, with the unfilled slots closed.",
  ["inputs", "histories", "configurations"], "all ranges, all sequences of cursor operations, reserve at any point it is allowed, all storages and element types",
  "The number of operation interleavings is unbounded and tests exercise a few fixed scripts.",
  ["src/iter/raw_cursor.rs", "src/iter/cursor.rs"],
  [("four-pointer protocol", "src/iter/raw_cursor.rs"), ("emptiness checks", "src/iter/cursor.rs")],
  [("write_front..read_front, read_back..write_back", "unfilled slots", "src/iter/raw_cursor.rs")])
p("C09", "drain, drain_filter and retain remove exactly the selected elements",
  "drain yields exactly the elements of the range, in order from whichever end is asked, and afterwards the vector holds exactly the others in order. drain_filter and retain call the predicate exactly once per element of the range with that element, remove and yield exactly those selected, and keep the rest in order, also when the iterator is dropped early or the predicate panics.",
  ["inputs", "histories", "fault_sequences"], "all ranges, predicates (as arbitrary decision sequences, panicking anywhere), interleavings of next and next_back, early drops",
  "The predicate's decision sequence and the point at which iteration stops form an unbounded space.",
  ["src/iter/drain.rs", "src/iter/drain_filter.rs", "src/iter/raw_cursor.rs", "src/lib.rs"],
  [("RawCursor take/skip", "src/iter/raw_cursor.rs"), ("drop completes the iteration", "src/iter/drain*.rs")])
p("C10", "splice replaces the range with exactly the iterator's items",
  "After a splice ends, the vector holds the elements before the range, all items of the replacement iterator in order, then the elements after the range; the removed elements were yielded or dropped once. This holds for every replacement length (shorter, equal, longer, empty), wrong size hints, early drop, and with and without an allocator; if the replacement iterator panics the vector is still valid.",
  ["inputs", "histories", "fault_sequences", "configurations"], "all ranges, replacement iterators of any length and size_hint, panics, storages with and without spare capacity",
  "Tests use short replacements; the insertion paths at the end, in the middle, with full buffers and without an allocator depend on the relation of four quantities.",
  ["src/iter/splice.rs", "src/iter/raw_cursor.rs"],
  [("Splice::drop", "src/iter/splice.rs"), ("RawCursor::reserve", "src/iter/raw_cursor.rs")])
p("C11", "Leaking an iterator or cursor never exposes dead elements",
  "If a cursor, drain, drain_filter, splice or owning iterator is leaked (never dropped) at any point of its use, the vector it came from remains valid: its length covers only elements that nobody else owns, so using or dropping it later reads no moved-out slot and drops nothing twice. Elements may be leaked, nothing else.",
  ["inputs", "histories"], "every point of use at which the guard may be leaked, all ranges and lengths",
  "Tests do not leak guards in the middle of an iteration; the violation would be undefined behaviour rather than a wrong value.",
  ["src/iter/raw_cursor.rs", "src/iter/drain.rs", "src/iter/drain_filter.rs", "src/iter/splice.rs"],
  [("length set to the range start while a cursor exists", "src/iter/raw_cursor.rs new")])
p("C12", "Zero-sized elements behave like any other elements",
  "For zero-sized element types every operation has the same observable effect as for other types: lengths, counts, success or failure, the number of values handed out and the number of destructor calls agree with the list semantics, and nothing is allocated. Capacity is that of the address space and is never exceeded silently.",
  ["inputs", "histories", "configurations"], "all operations, lengths and arguments at element size zero, with and without drop glue, all storages",
  "Size-zero code paths are separate branches throughout and tests touch few of them.",
  ["src/iter/raw_cursor.rs", "src/lib.rs", "src/iter/splice.rs", "src/raw/zero_sized.rs", "src/raw/capacity.rs", "src/raw/uninit.rs"],
  [("IS_ZS branches with integers in pointers", "src/iter/raw_cursor.rs"), ("ZST capacity", "src/lib.rs capacity/reserve/try_reserve")])
p("C13", "A storage provides at least the capacity it reports or promises",
  "For every storage, the reported capacity for an element type times its size never exceeds the memory the storage owns; a reserve that returns, a try_reserve that returns true and a with_capacity that returns leave at least the requested capacity for the requested element type, keep the existing contents, and never shrink. A fixed storage reports its capacity exactly and accepts a request exactly when it fits, and the compile-time capacity agrees with the run-time one.",
  ["inputs", "configurations"], "all requested capacities 0..=usize::MAX, all pairs of buffer and element sizes including zero, all current capacities",
  "The rounding between element sizes and the overflow cases form a product space that tests sample at a few points.",
  ["src/raw/capacity.rs", "src/raw/heap/stable.rs", "src/raw/heap/nightly.rs", "src/raw/slice.rs", "src/raw/uninit.rs", "src/raw/array/stable.rs", "src/raw/array/nightly.rs", "src/raw/zero_sized.rs"],
  [("capacity() rounding", "src/raw/capacity.rs"), ("reserve/try_reserve comparisons", "src/raw/*")])
p("C14", "Heap memory is allocated and released correctly exactly once",
  "Heap storage allocates only non-zero sizes that fit the address space, passes the deallocator and the reallocator exactly the layout the block was allocated with, releases each block exactly once and only blocks it allocated, and keeps the old block and capacity when an attempt to grow fails. Growth is at least geometric.",
  ["inputs", "histories", "fault_sequences", "configurations"], "all capacities and element layouts, allocation failure at every request, creation through every constructor",
  "Layout mismatches and frees of never-allocated blocks are not observable in tests with the system allocator, and allocation failure is never injected.",
  ["src/raw/heap/stable.rs", "src/raw/heap/nightly.rs"],
  [("Drop/reserve_slow/with_capacity", "src/raw/heap/*.rs")], [("capacity", "0 means nothing is allocated", "src/raw/heap/*.rs")])
p("C15", "The owning iterator yields each element once from both ends",
  "The owning iterator of a vector yields every element exactly once, in order from the front and in reverse order from the back, for any mix of next, next_back and nth; its reported remaining length, slices and count are exact at every point, it stays exhausted once exhausted, and dropping it drops exactly the elements not yielded and releases the storage once, also if a destructor panics.",
  ["inputs", "histories", "fault_sequences"], "all lengths, all interleavings of iterator calls, all arguments to nth, panicking destructors",
  "Interleavings of front, back and skipping calls are unbounded; tests iterate front to back.",
  ["src/iter/into_iter.rs"], [("index/len window", "src/iter/into_iter.rs")], [("index", "elements already yielded from the front", "src/iter/into_iter.rs")])
p("C16", "Thread-safety markers follow the element and storage types",
  "A vector, cursor, iterator or storage can be sent to or shared with another thread exactly when that is sound: never when it owns or borrows elements (or an allocator, closure or replacement iterator) that are not Send, respectively not Sync, and always when all of these are.",
  ["programs", "configurations"], "all programs: every instantiation of the public types with element, storage, allocator, closure and iterator types with and without Send/Sync",
  "Tests cannot show that a program is rejected, and a missing bound shows only in programs nobody wrote.",
  ["src/iter/raw_cursor.rs", "src/raw/slice.rs", "src/raw/uninit.rs", "src/raw/heap/stable.rs", "src/raw/heap/nightly.rs", "src/lib.rs"],
  [("unsafe impl Send/Sync and PhantomData markers", "src/lib.rs, src/iter/raw_cursor.rs, src/raw/*")])
p("C17", "Unsound uses of borrows, initialised buffers and unsafe functions don't compile",
  "Programs that would break memory safety through the API are rejected at compile time: a cursor or iterator outliving or aliasing its vector, a vector outliving its borrowed buffer, initialised buffers with element types that are not Copy, set_len on a storage that may be uninitialised, calling an operation with a safety contract outside unsafe, and moving lifetimes to longer ones through a mutable vector. The corresponding sound programs compile.",
  ["programs"], "all programs using the public API",
  "Only programs that compile can be tests.",
  ["src/lib.rs", "src/raw.rs", "src/raw/slice.rs", "src/raw/array/stable.rs", "src/iter/raw_cursor.rs"],
  [("lifetimes in SliceVec/RawCursor", "src/lib.rs, src/iter/raw_cursor.rs"), ("StorageInit and Copy bounds", "src/raw.rs, src/raw/array*, src/lib.rs")])
p("C18", "Elements are never placed at misaligned addresses",
  "A vector cannot be created safely over a storage whose memory is less aligned than the element type: such a construction fails at compile time or panics before any element access, and a construction over sufficiently aligned memory never does. Buffers with a separate alignment type are aligned for both.",
  ["inputs", "programs", "configurations"], "all pairs of buffer, alignment and element types, every constructor",
  "Tests try a couple of type pairs; a misaligned access usually goes unnoticed on the test machine.",
  ["src/lib.rs", "src/raw/uninit.rs", "src/raw/slice.rs", "src/raw/heap/stable.rs", "src/raw/heap/nightly.rs"],
  [("IS_ALIGNED asserts", "src/lib.rs with_storage/with_align"), ("AlignedBuffer", "src/raw/uninit.rs")])
p("C19", "A vector compares, orders, hashes and indexes like its slice",
  "Equality, partial and total ordering, hashing, debug formatting, indexing, dereferencing, borrowing, reference conversions and by-reference iteration of a vector give exactly the result of the same operation on the slice of its elements, of exactly its length and in order. The result is the same in every direction of the comparison.",
  ["inputs", "configurations"], "all contents, lengths, other operands and index types",
  "Tests compare a few equal vectors; unequal lengths, prefix relations and hash/borrow coherence are universal claims.",
  ["src/impls.rs", "src/lib.rs", "src/iter/into_iter.rs"], [("forwarding to as_slice/as_mut_slice", "src/impls.rs")])
p("C20", "Conversions to and from Vec, arrays and raw parts are lossless",
  "Converting between a heap vector and a standard Vec, between an array vector and an array, and between a vector and its raw parts moves exactly the same elements in the same order with the same length, capacity and memory block, without copying, leaking, dropping or reallocating. A conversion that needs a full array panics exactly when the vector is not full.",
  ["inputs", "configurations"], "all lengths and capacities including zero and zero-sized elements, all array sizes",
  "Round trips are tested on single values; capacity, layout and empty cases are not.",
  ["src/impls.rs", "src/lib.rs", "src/raw/heap/stable.rs", "src/raw/heap/nightly.rs"], [("into/from_raw_parts with ManuallyDrop", "src/impls.rs, src/lib.rs")])
p("C21", "dedup keeps the first of each run of equal elements",
  "dedup, dedup_by and dedup_by_key compare each element with the last kept one, in order and exactly once, remove exactly those reported equal, keep the others in order with the first always kept, and drop each removed element once. If the comparison panics no element is lost or duplicated.",
  ["inputs", "fault_sequences"], "all lengths and comparison outcomes (as arbitrary decision sequences, panicking anywhere)",
  "The outcome sequence is unbounded; tests use a few small lists with one comparison function.",
  ["src/slice.rs", "src/lib.rs"], [("partition_dedup_by with swaps", "src/slice.rs"), ("truncate of the tail", "src/lib.rs dedup_by")])
p("C22", "Debug assertions and overflow checks never fire in correct use",
  "In builds with debug assertions and overflow checks, no safe operation on any argument panics except where its documentation says so, and such builds accept, reject and compute exactly the same as release builds. The internal assertions state conditions that always hold.",
  ["inputs", "histories", "configurations"], "all operations, arguments and states in checked and unchecked builds, all feature combinations",
  "Tests run in one profile and only reach sampled states.",
  ["src/lib.rs", "src/iter/raw_cursor.rs", "src/slice.rs"], [("debug_assert! preconditions", "src/lib.rs, src/iter/raw_cursor.rs"), ("wrapping arithmetic", "src/lib.rs, src/raw/*")])
p("C23", "The macros and the spare-capacity protocol are sound and exact",
  "gvec! builds a vector of exactly the listed or repeated values in order, evaluates each user expression once and in order, gives user expressions no unsafe context, and leaks or double-drops nothing if one panics. Filling the spare capacity through spare_capacity_mut and committing it appends exactly the values written, and dropping the spare vector instead leaves the original vector unchanged.",
  ["inputs", "programs", "fault_sequences"], "all numbers of values, panicking expressions, all amounts of spare capacity and values written",
  "Tests expand the macros with literals only; hygiene, evaluation counts and panics are claims over all expressions.",
  ["src/lib.rs"], [("gvec!/save_spare!/uninit_array!", "src/lib.rs"), ("spare_capacity_mut", "src/lib.rs")])
p("C24", "Borrowed and boxed storages behave like the storage itself",
  "A vector over a mutable borrow or a box of a storage (also unsized) has the same capacity, compile-time capacity, alignment requirement, element addresses and reserve behaviour as one over the storage itself, for any nesting, and every request reaches the underlying storage exactly once.",
  ["inputs", "configurations"], "all storages, nestings, element types and requests",
  "Forwarding is tested on one storage each; a method that forwards to the wrong one type-checks.",
  ["src/raw.rs"], [("Storage for &mut S and Box<S>", "src/raw.rs")])
p("N01", "Pushing is amortised constant time and operations are linear",
  "A sequence of n pushes onto a heap vector costs O(n) in total and every bulk operation is linear in the elements it touches.",
  ["histories"], "all operation sequences", "Tests measure nothing.", ["src/raw/heap/stable.rs", "src/lib.rs"], [("doubling", "src/raw/heap/*.rs")])
p("N02", "Pointer provenance and aliasing rules are obeyed",
  "No operation uses a reference or pointer in a way that the aliasing model of the language (Stacked or Tree Borrows) forbids.",
  ["inputs", "histories"], "all operations and interleavings of shared and exclusive borrows", "Tests run compiled code, where most violations have no effect.",
  ["src/iter/raw_cursor.rs", "src/lib.rs"], [("NonNull<GenericVec> in RawCursor", "src/iter/raw_cursor.rs")])
p("N03", "Foreign storage implementations with hostile behaviour are contained",
  "A storage implemented outside the crate that violates the safety contract of its trait cannot make the safe API unsound.",
  ["programs"], "all implementations of the storage traits", "An implementation is an arbitrary program.", ["src/raw.rs"], [("unsafe trait Storage", "src/raw.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
