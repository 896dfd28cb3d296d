#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Edit here, rerun, commit both."""
import json, os
SC="src/sized_chunk/mod.rs"; SCI="src/sized_chunk/iter.rs"; SCP="src/sized_chunk/refpool.rs"
RB="src/ring_buffer/mod.rs"; RBI="src/ring_buffer/iter.rs"; RBX="src/ring_buffer/index.rs"; RBS="src/ring_buffer/slice.rs"; RBP="src/ring_buffer/refpool.rs"
SP="src/sparse_chunk/mod.rs"; SPI="src/sparse_chunk/iter.rs"; SPP="src/sparse_chunk/refpool.rs"
IA="src/inline_array/mod.rs"; IAI="src/inline_array/iter.rs"; AR="src/arbitrary.rs"; LIB="src/lib.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Chunk behaves as a bounded double-ended sequence under every history",
 "After any history of constructors and operations on a Chunk of any capacity, its contents and order, its length, its empty/full answers and every value an operation returns are exactly those of a plain double-ended sequence limited to that capacity. Which end the elements were pushed from, and how they have been shifted around in memory, is never observable through indexing, slices, iteration or later operations.",
 ["histories","inputs","configurations"],"all operation histories, all index/count arguments, all capacities (including 0 and 1) and all element sizes",
 "The tests walk a few dozen hand-written histories at capacity 64, nearly all starting from an empty chunk filled from one side; most combinations of left/right gap, index and count are never executed.",
 [SC],[("re-centring on push into a full side",SC+" push_front/push_back"),("shift-shorter-side insert/remove",SC+" insert/remove/insert_from")],
 [("left/right","bounds of the live window inside the fixed array",SC)],["Deref/as_slice/Index","return values","len/is_empty/is_full"])
p("C02","RingBuffer behaves as a bounded double-ended sequence under every history",
 "After any history of constructors and operations on a RingBuffer of any capacity, its contents and order, its length, its empty/full answers and every value an operation returns are exactly those of a plain double-ended sequence limited to that capacity. Where the contents start in memory and whether they wrap around the end is never observable through indexing, iteration, element access/replace/swap or later operations.",
 ["histories","inputs","configurations"],"all operation histories, all start positions and lengths, all index/count arguments, all capacities",
 "Tests run at capacity 64 and only a handful ever wrap around; the fuzz targets sample and are not part of the suite.",
 [RB,RBX],[("modular raw index arithmetic",RBX),("segment-wise copy",RB+" copy_from"),("shift-shorter-side insert/remove",RB+" insert/remove/insert_from")],
 [("origin/length","physical start and number of live elements",RB)],["Index/get/iter","return values"])
p("C03","SparseChunk behaves as a map from indices below its capacity",
 "After any history of operations on a SparseChunk, lookups, insert/remove/pop results, length, empty/full answers, the reported indices and entries (in ascending index order), and comparisons with ordinary maps are exactly those of a map keyed by indices below the capacity. Building one from a sequence of optional values puts the k-th value at index k.",
 ["histories","inputs","configurations"],"all insertion/removal histories, all occupancy patterns, all indices including those at and beyond the capacity, all capacities",
 "Tests visit about ten occupancy patterns at capacities 32 and 64.",
 [SP,SPI],[("occupancy bitmap kept in step with the value slots",SP+" insert/remove/pop")],
 [("map","which slots hold a value",SP)],["get/index/entries/indices/len"])
p("C04","InlineArray behaves as a bounded vector under every history",
 "After any history of operations on an InlineArray, its contents and order, its length, its empty/full answers and every value an operation returns are exactly those of a plain vector limited to the array's capacity. This holds for every pairing of element type and host type, including zero-sized elements and pairings that leave no capacity.",
 ["histories","inputs","configurations"],"all operation histories, all index arguments, all element/host type pairings",
 "The tests exercise push/pop and one element per type pairing; insert, remove, split_off, drain and extend are covered by no test beyond capacity zero.",
 [IA,IAI],[("length counter stored inside the host-sized buffer",IA),("element shifting in insert/remove/split_off",IA)],
 [("length counter","number of live elements, stored beside them",IA)],["Deref slice","return values"])
p("C05","Every element is owned once and dropped exactly once",
 "In every history that is free of panics in user code, each element handed to any of the four containers is at every moment owned by exactly one place - a container, an iterator or the caller - and its destructor runs exactly once, when that owner gives it up. Nothing is leaked and nothing is dropped twice, including when a container, a consuming iterator or a draining iterator is dropped half-used and when a call is rejected by a panic.",
 ["histories","inputs"],"all operation histories and every point at which containers and iterators can be dropped",
 "One drop-count test per container, which only pushes and pops; no test counts drops for insert, remove, split, transfer, drain, overwrite, clear or partly consumed iterators.",
 [SC,SCI,RB,RBI,SP,SPI,IA,IAI],[("drop of the live window only",SC+" Drop"),("drop over the raw index range",RB+" Drop"),("drop of set bits",SP+" Drop"),("drop of the live prefix",IA+" Drop")],
 [],["Drop of element type"])
p("C06","Calls outside the contract are rejected and change nothing",
 "A call that exceeds the capacity, names an index or range outside the contents, pops or takes more than is there, or is built for too small a capacity is refused - by a panic, or by the documented None - in optimised and unoptimised builds alike, for every argument value up to the largest integer. After a refused call every container involved holds exactly what it held before (extending from an iterator takes elements one at a time, so there it also holds those that still fitted) and remains fully usable, and a value passed in by the caller is dropped once.",
 ["inputs","histories","configurations"],"all states, all out-of-contract argument values including those that overflow arithmetic, debug and release builds",
 "The tests check eight panics, in the debug profile only, and never look at the container afterwards.",
 [SC,RB,RBS,SP,IA],[("bounds and capacity assertions before any mutation",SC),("bounds and capacity assertions before any mutation",RB),("index assertions",SP+" insert/remove"),("capacity assertions",IA+" push/insert/split_off")],
 [],["panic or None","contents after the refused call"])
p("C07","A panic in user code never corrupts a container",
 "If the element type's clone, destructor or comparison, or a supplied iterator, panics at any point inside any operation, then no element is ever dropped twice and no uninitialised or moved-out slot is ever read, dropped or exposed, during the unwinding or afterwards. The containers involved stay usable and in a consistent state (elements may be leaked); a container that was only read, such as the source of a clone, is unchanged.",
 ["fault_sequences","histories","inputs"],"every callback position inside every operation from every state as the panic point",
 "Three tests inject one panic at one position and assert nothing about the container; no test has a panicking destructor.",
 [SC,RB,SP,IA],[("window emptied while a hole exists",SC+" write_from_iter"),("length grown element by element",SC+" clone / "+RB+" clone"),("length zeroed while a hole exists",RB+" insert_from"),("ownership released before destructors run",SC+" drop_left/drop_right/clear")],
 [],["drop log","contents after unwinding"])
p("C08","Iterators that lie about their length cannot break memory safety",
 "Bulk insertion and construction stay memory safe and leave the container in a consistent state, for every iterator: one that reports too many or too few elements, a different length each time it is asked, or a length close to the largest integer. No element is written outside the container, no existing element is overwritten without being accounted for, and no more than the capacity is ever stored.",
 ["inputs","fault_sequences"],"all sequences of length answers and actual yields, at every insertion index from every state, in debug and release builds",
 "Four tests try one constant wrong length each, in debug only, and do not inspect the result.",
 [SC,RB],[("length captured once and enforced with take",SC+" insert_from/write_from_iter"),("length captured once and enforced with take",RB+" insert_from")],
 [],["guard zones around the container","drop log","contents"])
p("C09","Moving elements between containers conserves them and their order",
 "Appending, draining a number of elements from the front or back of another container, splitting, and constructing from the front, back or whole of another container move exactly the stated elements, in order, to the stated end. For every pair of source and target states the concatenation of what both hold afterwards is the stated rearrangement of what they held before, with nothing lost, duplicated or reordered.",
 ["histories","inputs"],"all pairs of source and target states reachable by any histories, all counts and split positions",
 "Tests perform one append and one split_off on Chunk and one append on RingBuffer, each from freshly pushed contents.",
 [SC,RB,RBX],[("make-room shift followed by bulk copy",SC+" append/drain_from_front/drain_from_back"),("two-segment copy between wrapped buffers",RB+" copy_from")],
 [],["contents of both containers"])
p("C10","Consuming and draining iterators yield each element exactly once",
 "For every container state and every interleaving of front and back steps (front only, for the sparse array), consuming and draining iterators yield each remaining element exactly once from the requested end, report the exact remaining length where they promise one, keep answering None once exhausted, and give the elements in container order. Elements not yet taken when the iterator is dropped stay in a borrowed (drained) container in order, and a fully used draining iterator leaves it empty and reusable.",
 ["histories","inputs"],"all container states and all interleavings of next/next_back up to and past exhaustion, all drop points",
 "Tests collect whole iterators front to back; one test takes a fixed prefix and suffix.",
 [SCI,RBI,IAI,SPI],[("iterators implemented on pop at either end",SCI+", "+RBI+", "+IAI),("drain by first occupied index",SPI)],
 [],["next/next_back/size_hint/len"])
p("C11","Borrowing iterators visit exactly the contents and writes land in place",
 "For every container state and every interleaving of front and back steps, shared and mutable iterators (including the sparse array's index, entry and optional-value iterators) visit each element exactly once in order, report lengths consistently, and stay exhausted. Mutable iterators hand out references to pairwise distinct elements that can be held together, and a write through one changes that element only.",
 ["histories","inputs"],"all container states and all interleavings of next/next_back, with all yielded references held at once",
 "Tests compare whole front-to-back traversals of one 64-element container, and never write through a mutable iterator.",
 [RBI,RBX,SPI,IA,SC],[("left/right cursors plus remaining counter",RBI),("remaining bitmap",SPI)],
 [],["next/next_back/size_hint","contents after writes"])
p("C12","RingBuffer slices are exact windows onto the buffer",
 "For every buffer state and every nesting of range and split operations, a slice or mutable slice behaves as the corresponding sub-sequence: length, element access, iteration, search, comparison, copying out and further slicing see exactly the window's elements in order. Indices or ranges outside the window are refused even where the buffer has elements there, and writes through a mutable slice or its split halves change only the addressed element.",
 ["inputs","histories"],"all buffer states, all nested ranges of every bound kind, all in- and out-of-window indices",
 "No test constructs a slice other than implicitly through ordered insertion.",
 [RBS,RB],[("window kept as a logical range over the buffer",RBS)],[("range","window bounds in logical indices",RBS)],["Index/get/iter/split_at/slice"])
p("C13","Equality, ordering, hashing and Debug depend only on logical contents",
 "Two values with equal contents compare equal, order equal, hash equal and print alike whatever histories produced them; values with different contents compare and order as the corresponding plain sequences (or maps, for the sparse array) do, including across container and slice types. A container that can be borrowed as a slice hashes and orders exactly as that slice, so it can be looked up by it in a keyed collection.",
 ["histories","inputs"],"all pairs of contents and all pairs of internal layouts",
 "Tests use equality only as an assertion helper on one layout; ordering and hashing are never exercised.",
 [SC,RB,RBS,SP,IA],[("element-wise comparison via logical order",SC+", "+RB+", "+RBS),("hash via the borrowed slice",SC+", "+IA),("bitmap then value comparison",SP)],
 [],["==, cmp, partial_cmp, Hash, Debug"])
p("C14","Clones are equal to and independent of their source",
 "Cloning any container in any state, and copying out a slice, yields a container with equal contents that responds to every later operation as the source would, calling the element's clone exactly once per element. The source is unchanged, and no later operation on either affects the other.",
 ["histories","inputs"],"all source states, all operations applied to either copy afterwards",
 "One clone test per container on one never-wrapped, never-shifted state, with no operation afterwards.",
 [SC,RB,RBS,SP,IA],[("element-by-element clone preserving layout",SC+" Clone, "+RB+" Clone, "+SP+" Clone, "+IA+" Clone")],
 [],["contents of both after further operations"])
p("C15","Byte chunks and ring buffers are lossless FIFO byte streams",
 "Writing to a byte Chunk or RingBuffer through the standard I/O traits appends a prefix of the given bytes, as long as the free space allows and never longer, and returns its length; reading removes and returns bytes from the front in order, as many as are available and requested. For every interleaving of writes, reads and other operations, the bytes read are exactly the bytes written, in order, with no error and no panic.",
 ["histories","inputs"],"all interleavings of reads and writes of all sizes from all states, debug and release builds",
 "Two tests on RingBuffer write or read once from a non-wrapped state; Chunk's implementations have none.",
 [SC,RB],[("extend with the free space",SC+" io::Write"),("two-segment copy at the wrap point",RB+" copy_from_slice")],
 [],["io::Read/io::Write results","contents"])
p("C16","Converting an InlineArray into a Chunk moves every element",
 "Converting an InlineArray, by value or by mutable reference, into a Chunk of sufficient capacity yields a Chunk with the same elements in the same order and leaves a borrowed source empty and reusable; no element is cloned, dropped or lost. If the elements do not fit, the conversion panics and the source still owns all of them.",
 ["inputs","configurations","histories"],"all lengths, all pairs of array and chunk capacities, all element/host pairings",
 "Two tests convert a one-byte array and do not look at the result's contents.",
 [SC,IA],[("bulk copy then length reset",SC+" From<&mut InlineArray>")],[],["contents of both"])
p("C17","InlineArray geometry is sound for every element and host type",
 "For every element type and host type large enough to be usable, the array occupies the host's size (rounded up to its own alignment), reports as capacity the number of elements that fit beside one length counter, and keeps every element slot aligned, inside the array and disjoint from the other slots and the counter at every fill level. If the element's alignment cannot be guaranteed the capacity is zero, and zero-sized elements have effectively unlimited capacity.",
 ["configurations","inputs"],"all combinations of element size/alignment and host size/alignment, all fill levels",
 "Tests check a few alignments and one element each; none checks that the counter survives a full array or that slots stay inside it.",
 [IA],[("header-first or elements-first placement by alignment",IA+" HEADER_FIRST/ELEMENT_SKIP/HEADER_SKIP"),("capacity formula",IA+" capacity")],
 [("CAPACITY","elements that fit beside the counter",IA)],["size_of/align_of, element addresses, len"])
p("C18","Ordered insertion and binary search agree with the sorted sequence",
 "Ordered insertion into a sorted Chunk or RingBuffer in any layout leaves it sorted with exactly one more occurrence of the new value; into unsorted contents it still inserts exactly that value and keeps the others' relative order. Binary searches over ring buffers and their slices report a matching position if there is one and otherwise the position where the value would go.",
 ["inputs","histories"],"all contents over a small ordered alphabet with duplicates, all layouts, all searched or inserted values",
 "One doc-test inserts one value into five elements.",
 [SC,RB,RBS],[("binary search on the logical order then insert",SC+" insert_ordered, "+RB+" insert_ordered")],[],["contents, search results"])
p("C19","Pool construction and cloning match ordinary construction and cloning",
 "A container created or cloned in place in pooled memory - fresh or recycled with arbitrary stale contents - is indistinguishable from one made with the ordinary constructor or clone, in every source state. Elements in pooled containers are dropped exactly once, copies are independent, and a copy-on-write access never alters the shared original.",
 ["histories","inputs"],"all source states, all short histories of create/clone/mutate/drop against a pool that recycles memory",
 "One test per type clones one three-element container into fresh pool memory.",
 [SCP,RBP,SPP],[("field-wise in-place initialisation",SCP+", "+RBP+", "+SPP)],[],["PoolRef contents, drop log"])
p("C20","Arbitrary generation is total, bounded and consistent",
 "For every input byte string, generating a container with the Arbitrary support either returns an input-exhaustion style error or a valid container whose length is within its capacity; it never panics and is a deterministic function of the bytes. The element values are exactly the first capacity-many elements the generator itself would produce from those bytes, in order. The reported size hint never panics and generation never consumes more bytes than its upper bound.",
 ["inputs"],"all input byte strings (bounded length, small byte alphabet), all four containers",
 "No test calls the Arbitrary implementations; only the fuzz targets use them.",
 [AR],[("generator iterator limited to the capacity",AR)],[],["Arbitrary::arbitrary / arbitrary_take_rest / size_hint"])
p("C21","Element movement stays within the documented costs",
 "Pushing to and popping from either end of a RingBuffer, and popping from a Chunk, never relocate another element; consecutive pushes to the same side of a Chunk relocate its contents at most once until it is full. Insertion and removal in a RingBuffer, and in a Chunk with room on both sides, relocate no more elements than lie on the shorter side of the position.",
 ["histories","inputs"],"all states, all positions, all runs of same-side pushes",
 "No test observes element addresses or counts moves.",
 [SC,RB],[("shift to the far side when the near side is full",SC+" push_front/push_back"),("shorter-side choice",SC+" insert/remove, "+RB+" insert/remove")],[],["element addresses before and after"])
p("C22","Containers are inline: fixed size and no heap allocation",
 "Each container is stored entirely inline, with a size that depends only on its type and is no more than its element storage plus its bookkeeping and padding. No operation on any container, in any state, allocates or frees heap memory of its own.",
 ["histories","inputs","configurations"],"all states, all operations, all capacities",
 "No test measures allocation or size.",
 [SC,RB,SP,IA],[("MaybeUninit array field",SC+", "+RB+", "+SP),("host-sized buffer",IA)],[],["size_of, global allocator"])
p("C23","Behaviour does not depend on feature flags or build profile",
 "Every combination of the crate's feature flags builds, and the containers available in it give the same results, panics and contents for the same history in every combination and in debug and release builds. Feature flags only add or remove types and trait implementations. Without the std feature the crate does not depend on the standard library.",
 ["configurations","histories"],"all 16 feature combinations, debug and release, over one exhaustive set of histories",
 "The tests are run with all features in the debug profile only.",
 [LIB,SC,RB,SP,IA],[("cfg(feature) gates",LIB),("unconditional contract assertions",SC+", "+RB)],[],["digest of an exhaustive exploration in each configuration"])
p("C24","Safe use never triggers undefined behaviour",
 "No sequence of safe operations on any container, its iterators and its slices - with any number of the references they hand out held and used together, and with user code that panics - reads uninitialised memory, accesses memory out of bounds or after it is freed, misaligns an access, or violates the language's reference aliasing rules.",
 ["histories","inputs","fault_sequences"],"all short histories over all container states at small capacities, executed on the abstract machine (Tree Borrows aliasing rules)",
 "Upstream CI runs the example tests under Miri, which covers their few histories only, never with several mutable references alive, and this suite runs natively.",
 [SC,RB,RBI,RBS,SP,SPI,IA],[("raw-pointer mutable iteration",RBI+" IterMut, "+SPI+" IterMut"),("MaybeUninit storage",SC+", "+RB+", "+SP+", "+IA)],[],["Miri as the execution monitor"])
p("C25","Containers cross threads only when their elements may",
 "A container, and each of its iterators and slices, can be sent to or shared with another thread only if its element type can, so that safe code cannot cause a data race through them.",
 ["schedules","programs"],"all schedules of all programs that send or share a container, an iterator or a slice, for all element types",
 "No test uses a second thread, and one run of such a test would show one schedule; a race need not show in what it computes.",
 [SC,RB,RBI,SP,IA],[("auto traits over PhantomData<A> and MaybeUninit storage",IA+", "+RBI)],[],["the race detector of Miri"])
p("C26","The containers behave the same on every word size and byte order",
 "On targets with 32-bit and 64-bit words, of either byte order, every container gives the results its contract states: the same operations on the same contents give the same results, panics and contents, up to what the size of usize itself decides (the space InlineArray has beside its header, the largest index). No result depends on which half of a word is stored first or on how the target aligns 64-bit numbers.",
 ["configurations","histories","inputs"],"all short histories over all container states at small capacities, on one target of each kind",
 "The tests run on the 64-bit little endian machine of whoever runs them.",
 [SC,RB,RBI,SP,IA],[("_header_align: [(u64, usize); 0] and the element counter",IA),("wrapping index arithmetic on usize",RBI),("bitmap storage",SP)],[],["Miri as the machine of the target"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
