"""What each check runs. `run.py` executes these; tools/gen_manifest.py writes MANIFEST.json from them."""
import abstract, custom
CHECKS = {}
GENERIC = ["element values are not inspected by the generic container code (data independence)",
           "layout as seen through element addresses and length identifies the state (cross-checked with several histories per state and with unmerged sequences)"]
def c(pid, **k):
    k.setdefault("level", "model_checking")
    k.setdefault("bin", pid.lower())
    k.setdefault("assumptions", GENERIC)
    CHECKS[pid] = k

c("C01", technique="explicit-state exploration of the real Chunk against a reference model, all layouts and all operation arguments",
  explanation="All reachable (left,right) layouts of Chunk for N=0..8, 16, 64 and several element sizes; from each, via several different histories, every operation with every argument is executed and compared with a bounded Vec model through every read view; plus all unmerged operation sequences up to a depth at N=1..3 (thorough: 4).",
  level_note="Exhaustive for the listed capacities over layouts and operations (any history length, by induction over layouts); other capacities are covered by the code being generic in N, not by enumeration.")
c("C02", technique="explicit-state exploration of the real RingBuffer against a reference model, all start positions, lengths and operation arguments",
  explanation="All reachable (origin,length) layouts of RingBuffer for N=0..8, 16, 64; from each, via several different histories, every operation with every argument is executed and compared with a bounded Vec model through every read view; plus all unmerged operation sequences up to a depth at N=1..3 (thorough: 4).",
  level_note="Exhaustive for the listed capacities over layouts and operations (any history length, by induction over layouts).")
c("C04", technique="explicit-state exploration of the real InlineArray against a reference model over many element/host pairings",
  explanation="All reachable lengths for 33 element/host pairings (header first, header last, odd sizes, no capacity, zero-sized); from each, via several histories, every operation with every argument compared with a bounded Vec; plus all unmerged sequences up to depth 4 at capacities 1..4.",
  level_note="Exhaustive for the listed pairings; other pairings rest on the geometry check C17 and on the code being generic.")

c("C03", technique="explicit-state exploration of the real SparseChunk against a map model, all occupancy patterns and all operation arguments",
  explanation="Every occupancy pattern for N=0..10, patterns with at most a few (or all but a few) occupied slots and the word/byte boundary patterns for N=31,32,33,63,64,65,127,128,129 and larger; from each, reached by several histories (with overwritten and removed slots), every operation with every argument, constructors from option sequences and comparisons with BTreeMap/HashMap, compared with a BTreeMap model through every read view; plus all unmerged operation sequences to a depth.",
  level_note="Exhaustive over occupancy patterns for the small capacities and over the listed families at the larger ones; other capacities rest on the code being generic in N.")
c("C05", technique="explicit-state exploration of the real containers with lifecycle-tracking elements: ownership audit after every operation and every drop point",
  explanation="From every reachable state of all four containers every operation (in and out of contract) with every argument, every drop point of draining and consuming iterators; after each, the multiset of tracked elements reachable from container, results and caller must equal the set of live ones, nothing dropped twice, and after dropping everything (in both orders) nothing may be live. All operation sequences to a depth unmerged as traces.",
  level_note="Exhaustive for the listed capacities over layouts and operations; the destructor of every element is observed, so a leak or double drop on any explored transition is decided.")
c("C06", technique="explicit-state exploration of the real containers over all out-of-contract argument values including arithmetic extremes, in both build profiles",
  explanation="From every reachable state every operation with every argument outside the contract (each bound +1, +2, powers of two, 2^63, usize::MAX-1, usize::MAX; all range bound kinds; pairs of containers where the transfer does not fit) must be refused by a panic or the documented None, the containers' contents, element identities and positions stay exactly as they were, values passed in are dropped once, the container answers a battery of operations as before; checked (overflow checks on) and release (off).",
  level_note="Argument values are exhaustive up to the contents+2 and then at the arithmetic extremes; all layouts at the listed capacities.")
c("C07", level="fault_enumeration", technique="exhaustive fault injection into the real code: every user callback of every operation from every reachable state panics in turn",
  rule="one evaluation = one state x operation x callback index (clone, destructor, comparison, hash, formatting, iterator next/len/drop, closures); non-trivial = the fault actually fired inside the operation; distinct by construction of the enumeration (no repetition of state, operation and position)",
  explanation="For every reachable state and every operation the number of user callbacks k is counted and the operation is re-run k times, the i-th callback panicking; afterwards no element was dropped twice, no dead or uninitialised slot is reachable, read-only operands are unchanged, the containers pass a battery of further operations and everything can be dropped. Pairs of states for the binary operations.",
  level_note="Exhaustive over the single panic position per operation from every state at the listed capacities; double panics abort the process by language rule and are not a container property.")
c("C08", technique="explicit-state exploration of the real containers against an adversarial iterator: every sequence of length answers and yields",
  explanation="From every reachable state and at every insertion index, bulk insertion/extension/construction is driven by iterators that answer every combination of claimed length (constant or changing on every query, up to usize::MAX), size_hint and actual yields in the bounded grid; guard zones around the container, element lifecycles, length within capacity and the surviving original elements are checked.",
  level_note="Exhaustive over the bounded grid of answers (lengths 0..capacity+2 and arithmetic extremes, changing answers of period two).")
c("C09", technique="explicit-state exploration of pairs of real containers: all source and target layouts, all counts and split positions",
  explanation="For every ordered pair of reachable layouts (several histories each) of two containers of one type: append, drain_from_front, drain_from_back with every count; for each single layout from_front, from_back, drain_from, split_off with every argument; element identities (not just values) of both afterwards must be the stated rearrangement.",
  level_note="All layout pairs for N=0..8 and the boundary layouts of N=16/64.")
c("C10", technique="explicit-state exploration of the real consuming and draining iterators: every interleaving of next/next_back/nth/... from every state",
  explanation="From every reachable state of all four containers every word over {next, next_back} up to two steps past exhaustion (lengths up to 6, patterns beyond), all short words mixing nth, nth_back and any, each finished by drop, collect, fold, rev, count, last; items, exact lengths and size_hint after every step, the remaining contents and usability of a drained container.",
  level_note="All interleavings are enumerated for contents up to 6 elements (9 in the thorough tier).")
c("C11", technique="explicit-state exploration of the real borrowing iterators: every interleaving from every state, all yielded references held and written through",
  explanation="From every reachable state every word over {next, next_back} up to two steps past exhaustion and short words mixing the other stepping methods, for shared, mutable, index, entry and optional-value iterators; all references are held at the same time, must be pairwise distinct, and a write through each changes exactly the addressed element.",
  level_note="All interleavings are enumerated for contents up to 6 elements (9 in the thorough tier).")

c("C12", technique="explicit-state exploration of the real slice views: all buffers, all windows and sub-windows, all operations through them",
  explanation="Every reachable (origin,length) layout of RingBuffer; for each, every window start..end (all bound kinds), every sub-window and split position, shared and mutable; every read (get, index, first/last, iter, search, equality, order, hash, Debug text) and every write through the window, compared with the corresponding range of a Vec; out-of-window arguments must be refused and the rest of the buffer untouched.",
  level_note="Exhaustive over layouts, windows and sub-windows for N<=6 (thorough: 8), boundary windows at N=16/64.")
c("C13", technique="explicit-state exploration of pairs of real containers with all contents over a small alphabet and all physical layouts",
  explanation="Every pair of values (all contents over an alphabet including a NaN-like element, in several layouts/histories each) is compared through ==, partial_cmp, cmp, Hash, Debug and the cross-type comparisons, against the same comparisons of the contents as slices; SparseChunk against option sequences and maps.",
  level_note="Exhaustive over contents (small alphabet) and layouts for the listed capacities; comparisons are generic in the element so a small alphabet with all orderings (less, equal, greater, unordered) is representative.")
c("C14", technique="explicit-state exploration of the real clone operations: every state cloned, then every operation applied to one copy with the other watched",
  explanation="From every reachable state of all four containers the container is cloned; every operation is applied to the clone and, separately, to the source: the other one must keep contents, order and element identities; elements cloned exactly once each, both dropped independently without double drop or leak.",
  level_note="Exhaustive for the listed capacities over states and operations.")
c("C15", technique="explicit-state exploration of the real io::Read/io::Write implementations against a byte queue, all chunkings",
  explanation="From every layout of Chunk<u8,N> and RingBuffer<u8,N> every read/write call (write, write_all, write_vectored, flush, read, read_exact, read_to_end, bytes) with every buffer size, then all call sequences to a depth without merging, compared with a byte queue: counts returned, bytes delivered, remaining contents, short writes at capacity.",
  level_note="Exhaustive for the listed capacities over layouts, buffer sizes and call sequences to the stated depth.")
c("C16", technique="explicit-state exploration of the real conversion: every source state of every pairing into every target capacity",
  explanation="Every reachable state of 24 InlineArray element/host pairings converted by value and by mutable reference into Chunk of capacity 0..8, 16, 64; identities and order of the elements, emptied source, no clones, refusal when it does not fit, both objects usable and dropped in both orders afterwards.",
  level_note="Exhaustive over states for the listed pairings and capacities.")
c("C17", bin_thorough="c17w", flags_thorough=["--features", "wide"],
  technique="exhaustive enumeration of a type grid with explicit-state exploration of every fill level of each real instantiation",
  explanation="Every pairing of a grid of element sizes/alignments with a grid of host sizes/alignments (1100 pairings, thorough: over 4000): size, alignment and capacity against the formula; at every fill level, with all-zero, all-one and varied slot bytes: slots aligned, inside the array, disjoint, counter intact, canaries around the array and adjacent arrays intact, moves, clones, insertion/removal/overwriting keep the bytes, refusal at capacity.",
  level_note="Exhaustive over the grid and fill levels; alignments up to 64, sizes up to 520 bytes (thorough: 1032).",
  assumptions=["sizes and alignments outside the grid behave like those in it (the layout code only computes with size, alignment and the order of two alignments)"])
c("C18", technique="explicit-state exploration of the real ordered insertion and binary search over all contents from a small alphabet and all layouts",
  explanation="Every reachable layout of Chunk and RingBuffer with every content over an alphabet with gaps (all sequences where short, all sorted sequences with duplicates beyond): binary_search, _by, _by_key and boundary searches for every key, also through all windows of RingBuffer, and insert_ordered of every key; results against a linear scan; plus all insertion sequences of up to 6 values from an empty container.",
  level_note="Exhaustive over contents and layouts for the small capacities; sorted contents at N=16/64 are a stated family.")

c("C19", technique="explicit-state exploration of the real pool constructors and clones in fresh and recycled memory, all source states",
  explanation="Every reachable state of Chunk, RingBuffer and SparseChunk (layouts, occupancy patterns) is cloned in place into pooled memory: without a pool, from a fresh pool, and recycled memory whose previous container had arbitrary contents; default construction likewise; the result must equal an ordinary clone in every view and keep doing so under every following operation; PoolRef copy-on-write from every state; all short histories of create/clone/mutate/drop over pool handles unmerged, with an audit of every element's destruction.",
  level_note="Exhaustive for the listed capacities over source states and one following operation, over pool-handle histories to a depth.")
c("C20", technique="exhaustive enumeration of input byte strings through the real generators, compared with an explicit element-by-element model of the generation",
  explanation="For all four containers at several capacities and element types (one and two bytes each, failing on a byte, bounded and unbounded) every byte string over an alphabet of the special bytes up to a length, plus longer families filling the container beyond capacity: arbitrary, arbitrary_take_rest and size_hint; length within capacity, elements exactly the generator's first ones, same result twice, no panic, error only where an element reports one, every element dropped once.",
  level_note="Exhaustive over the alphabet and lengths; the generators only branch on the low bit of the continuation byte, so the alphabet represents all bytes for them.")
c("C21", technique="explicit-state exploration of the real containers measuring element addresses before and after every operation, all layouts and positions",
  explanation="From every reachable layout of Chunk and RingBuffer (several histories each) every push, pop, insert, remove and ordered insertion at every position: the number of elements whose address changed against the bound; from every layout every run of pushes to one side until full (at most one relocation of the contents), for pushes to both sides.",
  level_note="Exhaustive over layouts and positions for N=0..9, 16, 64 (u32, u64 and tracked elements).")
c("C22", technique="explicit-state exploration of the real containers under a counting global allocator, all states and operations, plus the sizes over a type grid",
  explanation="From every reachable state of all four containers every operation, iterator, slice view, formatting, comparison, hashing, stream and conversion call, with elements that own no heap memory, under an allocator that counts; allocations may only come from what the caller supplied (the test's own boxes, collected vectors); element addresses lie inside the container; size_of within storage plus bookkeeping plus padding over a grid of types.",
  level_note="Exhaustive for the listed capacities over states and operations; sizes over the stated grid.",
  assumptions=GENERIC)
c("C23", custom=custom.c23, prebuild=custom.c23_prebuild,
  technique="explicit-state exploration of the real containers repeated in all 16 feature combinations and both profiles, differential comparison of every outcome",
  explanation="see coverage", level_note="All 16 combinations of std, ringbuffer, refpool, arbitrary and both profiles; within each the same exhaustively enumerated histories at capacities up to 8 (operations with all in- and out-of-contract arguments). The absence of std is decided by linking a no_std program.")
c("C24", custom=abstract.c24, prebuild=abstract.prebuild,
  technique="explicit-state exploration of the real containers executed on an abstract machine (Miri, Tree Borrows) that stops at the first undefined operation",
  explanation="see coverage",
  level_note="All layouts of Chunk, RingBuffer, InlineArray (capacities 0..3, thorough 5) and occupancy patterns of SparseChunk, with every operation, extreme arguments, pairs of operations, every panicking callback, lying iterators, every short interleaving of iterators with all references held and used, windows and splits, streams, conversions, pool construction. The aliasing model is Tree Borrows, the more permissive of the two.",
  assumptions=["the language's aliasing rules are those of Tree Borrows; the machine checks one execution per case, with its own choice of addresses",
               "refpool's handles are left out here (their counters are undefined behaviour on the machine by themselves); the pool constructors are called directly"])
c("C25", custom=abstract.c25, prebuild=abstract.prebuild,
  technique="stateless exploration of every interleaving of two threads over every crossing of a thread boundary the compiler accepts, the real containers executed on an abstract machine (Miri) with its data race detector",
  explanation="see coverage",
  level_note="Containers, consuming, draining, mutable and shared iterators and windows (21 types) x four kinds of element (sendable and shareable, only sendable, only shareable, neither) x layouts of 1 and 2 (thorough 3) elements x sent or shared x all interleavings of 2+2 (thorough 3+3) operations. Also references of one mutable iteration, halves of a window, clones and split-off parts used by two threads. A crossing the element kind does not allow and the compiler accepts is reported even where the operations explored do not race.",
  assumptions=["the four kinds of element stand for all: the bounds of an auto trait can only ask for Send and Sync of the element",
               "types that no public function returns are out of scope"])
c("C26", custom=abstract.c26, prebuild=abstract.prebuild,
  technique="explicit-state exploration of the real containers against their models, executed on abstract machines (Miri) of other word sizes and byte orders",
  explanation="see coverage",
  level_note="32-bit little endian (64-bit numbers aligned to 4), 32-bit big endian, 64-bit big endian. All layouts of Chunk, RingBuffer (capacities 0..2, thorough 4) and InlineArray (seven pairings) with every operation and extreme indices of the word size; the geometry of InlineArray (capacity, placement, alignment) for nine elements in six kinds of host; counters of one byte and more; occupancy patterns of SparseChunk of 1, 2, 33 (32-bit) and 65 (64-bit) slots; iterators in every order of ends, pairs of layouts compared and hashed, windows, streams, conversions. The 64-bit little endian target is the host of the other checks.",
  assumptions=["the abstract machine of a target behaves as the compiler's code for it does",
               "three targets stand for all: none has words of 16 bits, or 64-bit numbers aligned to 2"])
