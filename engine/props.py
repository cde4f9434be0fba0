"""What decides each property."""
COMMON_ASSUMPTIONS = [
    "rustc's type checker and MIR construction are right; the crate behaves as its MIR says",
]
PROPS = {
    "C16": dict(witness=True, witness_floor=540,
                explain="Type-level witnesses: generic client programs, type-checked against the current source in the stable and "
                        "nightly lanes, with and without std. For every public type and every parameter, the program that needs the marker "
                        "while the parameter lacks it must be rejected and its twin, which adds exactly that bound, accepted; the "
                        "parameters are universally quantified, so acceptance and rejection hold for all instantiations.",
                level_note="Decides the marker for every public type, generically in all parameters, by the compiler's own trait solver.",
                technique="type-level witnesses (compile-fail/compile-pass pairs) decided by the type checker"),
    "C17": dict(witness=True, witness_floor=300,
                explain="Type-level witnesses: pairs of client programs that differ by the offending construct; the unsound one must be "
                        "rejected by the borrow checker, trait solver, privacy or unsafety checker and the sound twin accepted.",
                level_note="Decides the listed classes of unsound programs, one generic witness pair per public entry point and class.",
                technique="type-level witnesses (compile-fail/compile-pass pairs) decided by the type checker"),
}

ABSINT = ("abstract interpretation of the compiler's MIR: interprocedural, relational (linear facts over lengths, capacities, indices), "
          "segmented-array domain for memory, ghost sequences for element identity, partitioning and loop fixpoints with widening")


def absint(explain, note, **kw):
    return dict(engine=True, technique=ABSINT, explain=explain, level_note=note, **kw)


OPS = ("Every operation is called by a small client (scen/scenarios.rs) on an arbitrary vector: symbolic length, capacity, indices and "
       "counts, elements named by ghost sequences, an abstract element type (owned, zero-sized or Copy) and an abstract storage that may "
       "grow, refuse or panic as its trait allows. ")
ASS = [
    "the transformers of engine/prims.py and scen/stdmodel.rs describe the called functions of core/alloc as documented",
    "abstract storages keep the contract of the unsafe traits RawStorage and Storage",
    "a call that panics with a storage or user panic unwinds; aborting is not modelled",
]
NOTE = ("Sound over-approximation of the MIR semantics up to the listed open paths (0 unless the evidence says otherwise); "
        "a violation is reported only for a partition that is reached by exact steps and has a model of its linear facts.")

PROPS.update({
    "C01": absint(OPS + "Rule: for every partition of the arguments against the length and capacity, the exit is a panic (or failure) exactly "
                  "when the argument is out of bounds, and the vector is unchanged then.", NOTE, assumptions=ASS),
    "C02": absint(OPS + "Rule: at every exit the memory of the vector holds exactly the runs of ghost elements that the list operation gives, and "
                  "the returned value or reference is the specified element.", NOTE, assumptions=ASS),
    "C03": absint(OPS + "Loops are solved by a fixpoint with relational widening; rule: at every normal exit each vector's memory holds exactly the "
                  "specified ghost runs (old elements, then new ones in order) and the user-code log is exactly the sequence of calls.",
                  NOTE, assumptions=ASS),
    "C04": absint(OPS + "Rule: every memory access in every scenario lies within the capacity of a live region and its current allocation, every "
                  "read slot holds a live element, and at every exit (unwinding ones included) len <= capacity and all slots below len are live.",
                  NOTE, assumptions=ASS),
    "C05": absint(OPS + "Rule: at every exit the ghost elements that entered are partitioned by vectors, returned values, drop log and hand-over log; "
                  "each storage is held or released exactly once.", NOTE, assumptions=ASS),
    "C06": absint(OPS + "User code and the storage's reserve may panic at each call. Rule: at every unwinding exit each vector that is left satisfies "
                  "len <= capacity with live, distinct elements below len, nothing is dropped twice, elements the operation had not removed are "
                  "there, and values produced before are dropped or in a vector.",
                  NOTE, assumptions=ASS),
    "C07": absint(OPS + "Rule: no exit of a fallible operation is a panic, success and failure follow the partition of room and bounds exactly, and "
                  "on failure contents, length and allocation are unchanged and the argument is in the returned error.", NOTE, assumptions=ASS),
    "C08": absint(OPS + "The client opens a cursor on an arbitrary range, takes arbitrary numbers of elements from both ends (any shape of the "
                  "unfilled slots) and performs one or two arbitrary cursor operations, or reserve. A ghost model (written front, unfilled, unread, "
                  "unfilled, written back) says for each operation whether it must succeed and which element it yields. Rule: results, reported "
                  "lengths and the vector left after the drop of the cursor agree with the model on every partition, unwinding exits included.",
                  NOTE, assumptions=ASS + ["histories are covered up to two operations after the arbitrary shape; the shape (counts of both sides) is symbolic, "
                                           "so it stands for every longer history of takes"]),
    "C09": absint(OPS + "The client of drain and drain_filter calls next and next_back in any order, any number of times, and then drops the iterator; "
                  "the predicate is arbitrary user code. Loops (the client's and the iterator's own) are solved by a fixpoint. Rule: at every exit "
                  "the log of yielded elements is x[s..s+p) and, from the back, x[e-1..], the predicate saw each element of the range once in order, and "
                  "the vector holds x[0..s), the refused elements in order, x[e..len).", NOTE, assumptions=ASS),
    "C10": absint(OPS + "The client of splice calls next and next_back in any order, any number of times, and drops the iterator; the replacement "
                  "iterator is arbitrary (any number of items, any size hint, may panic). Loops are solved by a fixpoint. Rule: the yielded elements "
                  "are those of the range in order from each end, and after the drop the vector is x[0..s), the replacement's items in order, "
                  "x[e..len); with a panic or a refused reserve, nothing outside the range is lost and every element is owned once.", NOTE, assumptions=ASS),
    "C11": absint(OPS + "The client obtains the guard or iterator, uses it in any way and forgets it. Rule: the vector that is left has len <= capacity "
                  "and live elements below len that nobody else owns (elements may leak).", NOTE, assumptions=ASS),
    "C12": absint(OPS + "Here the element type has size zero: element pointers carry no identity, so the rules are stated with counts (length, "
                  "values handed out, destructor calls, results), against the same specifications.", NOTE, assumptions=ASS),
    "C15": absint(OPS + "The client of into_iter calls next and next_back in any order, any number of times, and then drops, forgets, counts, "
                  "slices or skips (nth, nth_back). Rule: yielded elements are x[0..p) and from the back, len and size_hint are exact at every step, "
                  "as_slice is the rest in order, the rest is dropped once and the storage is released once; iterating references visits every "
                  "element once in order.", NOTE, assumptions=ASS),
    "C22": absint(OPS + "The crate is analysed twice, as compiled with and without debug assertions and overflow checks; rule: the checked build "
                  "has no panic or other deviation from the specification that the unchecked build doesn't have.", NOTE, assumptions=ASS),
    "C21": absint(OPS + "The comparison (or the key function and the comparison of keys) is arbitrary user code that may panic; elements that it "
                  "reports equal are renamed to an anonymous multiset R, the others to the ghost sequence K. Rule: comparison i gets the element x[i+1] and the "
                  "last kept one, at every normal exit every neighbour was compared, the vector is exactly K in order and all of R was dropped; "
                  "when user code panics, the vector holds K, R and the rest of x.", NOTE, assumptions=ASS),
    "C19": absint(OPS + "The other operand is a vector or whatever the as_ref of a user type gives; comparisons of slices and elements answer "
                  "arbitrarily and are logged. Rule: at every exit the answer is the one that the logged comparisons imply for the two whole sequences "
                  "(equality also needs equal lengths, ordering is lexicographic with the shorter prefix first; an answer that they do not imply is a "
                  "violation), the hasher is fed the length and all elements in order once, formatting gets the whole slice, and every view or indexed "
                  "reference is the exact part of the vector's memory.", NOTE, assumptions=ASS),
    "C24": absint(OPS + "W stands for &mut S, Box<S>, and their nestings of depth two, over the abstract storage S, whose requests and "
                  "constants are logged. Rule: each method of W, and each vector operation over W, makes exactly the same request of S once with the same argument, and "
                  "gives S's answer, constants and addresses. Type-level witnesses decide that the impls cover unsized storages and carry StorageInit and "
                  "StorageWithCapacity over exactly when S has them.", NOTE, assumptions=ASS, witness=True, witness_floor=30),
})

RAW = ("The storages themselves are analysed, monomorphic in the layouts (size and alignment) of the storage's unit, the element type and the "
       "alignment type, which are enumerated (12 layouts: zero-sized, 1 to 4096 bytes, with and without padding between them), and symbolic in "
       "every capacity, length and request. ")
RASS = ["core's Layout functions behave as documented for the analysed toolchain; the allocator keeps its contract and may fail at each call",
        "layouts outside the enumerated ones behave alike (the code depends on them only by products, quotients and comparisons)"]
PROPS.update({
    "C13": absint(RAW + "Rule: at every exit capacity * size_of element <= bytes owned (for fixed storages: the largest such number), a reserve that returns and a "
                  "try_reserve that gives true have capacity >= request and >= before, the contents of the old block are in the new one, "
                  "nothing changes when the request fits or is refused, with_capacity gives at least the request, fixed storages accept exactly what fits, "
                  "the constant capacity equals the one at run time.", NOTE, assumptions=RASS),
    "C14": absint(RAW + "A ledger records each block with the layout it was allocated with. Rule: every size passed to the allocator is non-zero and fits, every "
                  "deallocation and reallocation names a live block with its layout, at every exit exactly the block of the heap is live (none after drop or a panic), "
                  "raw parts pass ownership on, and the new capacity is at least twice the old one.", NOTE, assumptions=RASS),
    "C18": absint(RAW + "Rule: IS_ALIGNED is true exactly when the memory's alignment is at least the element's, TypeVec construction fails exactly when it isn't; "
                  "and for an abstract storage every construction of a vector that returns has checked IS_ALIGNED.", NOTE, assumptions=RASS),
})
PROPS.update({
    "C20": absint(OPS + "The block of the Vec or of the heap, its capacity and the allocator are abstract values that nothing may copy or lose. Rule: at every exit the result "
                  "owns the same block, capacity, length and allocator, and the block still holds the elements x[0..len) in order; nothing was dropped, copied, "
                  "released or allocated; the array conversion returns exactly if len = N; raw parts pass everything on.", NOTE, assumptions=ASS),
})
PROPS.update({
    "C23": absint(OPS + "The listed expressions are arbitrary user code (any may panic) that makes the next element of a ghost sequence; lists of 0 to 8 and 17 expressions and the "
                  "repeated form are analysed. The client of the spare vector pushes any number of values, then commits, drops or forgets it. Rule: the vector made holds "
                  "exactly the sequence in order, each expression is evaluated once, the storage is asked for no more than the number of values; after a commit the vector is "
                  "x[0..len) and then the pushed values, after a drop or a panic it is x[0..len) and the values were dropped once. Type-level witnesses decide that "
                  "user expressions get no unsafe context and that the macros' types are exact.", NOTE, assumptions=ASS + ["longer lists behave as the listed lengths (the macros treat every expression alike)"],
                  witness=True, witness_floor=12),
})
