#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
B='include/boost/circular_buffer/base.hpp'; S='include/boost/circular_buffer/space_optimized.hpp'
D='include/boost/circular_buffer/details.hpp'; G='include/boost/circular_buffer/debug.hpp'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
LAY=[("m_buff/m_end","storage block","%s (private members)"%B),("m_first/m_last","oldest element / slot after the newest, wrapping",B),("m_size","number of live elements",B)]
H="every history of operations from every construction, in every wrapped position of the data inside the storage, and continuing after operations that failed because an allocation or an element operation threw"
prop("C01","Pushes and pops at both ends follow the bounded overwrite-oldest sequence",
 "At every point of every history a circular buffer holds exactly the sequence that its pushes and pops prescribe: a push adds the given value at its end, a push on a full buffer additionally drops the one element at the opposite end, a push on a zero-capacity buffer changes nothing, and a pop removes exactly the element at its end. Size, emptiness, fullness, remaining reserve, front and back always agree with that sequence, and the size never exceeds the capacity. This holds for both container types, for copied, moved and default-made items, and keeps holding after earlier operations failed.",
 ["histories","fault_sequences"],H,
 "Tests push a handful of literals into a few fixed buffers and compare; the wrap position, capacity, element type, failed predecessors and long mixed histories are unbounded.",
 [B,S],[("push_back_impl/push_front_impl, pop_back/pop_front",B),("increment/decrement wrap-around",B),("check_low_capacity/check_high_capacity",S)],
 ["size/empty/full/reserve/capacity/front/back and element reads after each call"],LAY)
prop("C02","Inserting at any position overwrites only at the documented end",
 "Inserting one item, n copies or a range at any position of a buffer with free room places the items there in order and keeps all others in order; where room runs out, a forward insertion drops elements from the beginning (items of the inserted group first-in first-out after the old ones) and a reverse insertion drops from the end, never anything else. An insertion that would only overwrite itself leaves the buffer unchanged, and the returned position designates the inserted item, or the documented begin/end when nothing was inserted. A count or range larger than the capacity behaves as its surviving part, and an item that is itself an element of the buffer counts with the value it had before the call.",
 ["histories","inputs","fault_sequences"],"every position, count, capacity, wrap layout and prior history, including after failed operations",
 "Tests cover hand-picked positions on small int buffers; the product of position, count, free room and wrap layout is not sampled.",
 [B,S],[("insert_item, insert_n, rinsert_impl, rinsert_n",B),("construct_or_replace/is_uninitialized",B)],
 ["contents, size, returned iterator"],LAY)
prop("C03","Erasing removes exactly the designated elements from either side",
 "Erasing an element, a range, the first n or last n elements, or clearing removes exactly those elements and leaves every other element with its value and order, whichever side is shifted to close the gap. The returned position designates the documented neighbour of the gap (the following element for forward erasure, the preceding one for reverse erasure, or end/begin). Capacity is not changed by erasing.",
 ["histories","inputs","fault_sequences"],"every range in every layout of every history, including after failed operations",
 "Tests erase a few literal ranges; ranges that cross the wrap point from each side at each capacity are not enumerated.",
 [B,S],[("erase/rerase (single and range), erase_begin, erase_end, clear, destroy_content",B)],["contents, size, returned iterator"],LAY)
prop("C04","Changing capacity or size keeps the documented elements",
 "Setting the capacity from the back keeps the oldest elements that fit and setting it from the front keeps the newest; resizing keeps the existing elements that fit at the chosen side, pads with copies of the given value, and raises the capacity only when the new size needs it. After the call capacity and size are exactly as requested. A request beyond the maximum size is refused with a length error and changes nothing, however large the request or narrow the allocator's size type; a value given for padding may be an element of the buffer.",
 ["histories","inputs","fault_sequences"],"every old and new capacity/size in every layout and history, every allocator limit, including after failed operations",
 "Tests try a few sizes on linear and one wrapped layout; refusal at the allocator's limit is hardly exercised.",
 [B,S],[("set_capacity, rset_capacity, resize, rresize, reset",B),("adjust_min_capacity and capacity_control",S+", "+D),("length check in allocate",B)],
 ["capacity/size/reserve/contents, std::length_error"],LAY)
prop("C05","Construction, assignment, copy, move and swap transfer values exactly",
 "A buffer built or assigned from a count, a range, a capacity with either, or another buffer has exactly the documented capacity and elements (of a range too long, the last elements that fit). A copy is equal to and afterwards fully independent of its source, a move or swap transfers contents, capacity and allocator without touching the elements, and a moved-from buffer is empty and usable. Self-assignment and self-swap change nothing.",
 ["histories","inputs","fault_sequences"],"every pair of source and target states, every capacity/range length relation, and every later divergence of copies",
 "Tests compare a few fixed buffers; independence of copies and re-use of moved-from buffers need arbitrary later histories.",
 [B,S],[("constructors, initialize*, operator=, assign*, assign_n, swap, swap_allocator",B),("init_capacity, reduce_capacity",S)],
 ["contents/capacity/allocator of both objects afterwards"],LAY)
prop("C06","Linearizing, rotating and array views describe the same sequence",
 "The two array views, concatenated, are always exactly the element sequence, with the second one empty whenever the buffer reports itself linearized. Linearizing returns a contiguous array holding the same sequence and leaves the buffer linearized; rotating makes the designated element the first and keeps cyclic order; neither changes size, capacity or the multiset of values. Writing through an array view writes the element.",
 ["histories","inputs","fault_sequences"],"every capacity, size and wrap position (including the overlapping swap cycles of linearize), every rotation point, for movable, copy-only and move-only elements",
 "Tests linearize some layouts of int buffers up to a handful of elements; the cyclic swapping depends on the arithmetic relation of offset, size and free room.",
 [B],[("linearize, is_linearized, rotate, array_one, array_two",B)],["array_one/array_two, linearize() pointer, sequence"],LAY)
prop("C07","Iterators and indexed access agree with the sequence in every layout",
 "In every reachable state all read routes (index, checked index, iterators forwards and backwards, reverse and const iterators, front/back, arrays) show the same sequence, and writes through any of them are seen by all. Iterator arithmetic, differences and ordering obey random-access laws over the whole range from begin to end, standard algorithms over its iterators give what they give on any other sequence, checked access beyond the size always throws out-of-range, and comparison of two buffers depends only on their sequences, not on layout, capacity or storage.",
 ["histories","inputs","fault_sequences"],"every layout reached by any history (wrapped, full, empty with shifted origin, after failure), every pair of positions and offsets",
 "Tests check iterator laws on a few positions of a few buffers; end() is represented specially and full/wrapped cases differ.",
 [D,B],[("iterator operators, linearize_pointer, null-pointer end()",D),("operator[]/at/front/back/array_*",B),("comparison operators",B+", "+S)],["iterators, accessors, comparisons"],LAY)
prop("C08","A failure at any point leaves a valid, fully usable buffer",
 "Whichever single or repeated failure strikes inside an operation (allocation, default/copy/move construction, assignment, or the caller's iterator), the very exception raised reaches the caller and the buffer afterwards is valid: size within capacity, every visible element a live object whose value is one of the buffer's previous values or one supplied to the call. Every later operation then behaves as specified from that state, and other buffers are unaffected.",
 ["fault_sequences","histories"],"every failing call position inside every operation, any number of failures in a history, every layout and element kind",
 "Existing exception tests throw at a few fixed counts from one element type and mostly check that no crash occurs; failure position x operation x layout is combinatorial.",
 [B,S,D],[("catch blocks of insert_n, rinsert_n, insert_item, rinsert_impl, linearize, push_front_impl, assign_n, initialize*",B),("uninitialized_* rollback",D),("capacity control update order",S)],
 ["the thrown exception, then full inspection and continued use"],LAY)
prop("C09","Strong-guarantee operations roll back completely",
 "If setting the capacity (from either side) or copy-assigning fails for any reason, contents, their order, size, capacity and all references and iterators into the target are exactly as before the call. A constructor that fails leaves no object, no element and no memory behind. Both container types give this guarantee.",
 ["fault_sequences","histories"],"every allocation and every element-operation failure inside these operations in every state, for throwing, nothrow-movable and copy-only elements",
 "Tests have no rollback check for the space-optimized container and none for every failure ordinal.",
 [B,S],[("allocate-copy-then-reset in set_capacity, rset_capacity, operator=",B),("set_capacity/rset_capacity/operator= of the space-optimized container",S),("constructor cleanup",B)],
 ["contents, capacity, element addresses before and after the failing call; allocator and element accounting"],LAY)
prop("C10","Every element is constructed and destroyed exactly once",
 "Elements are created only in free storage and destroyed exactly once; an element object is never read, assigned or destroyed before creation or after destruction, and never copied bytewise. After each operation, successful or not, the number of live elements owned by a buffer equals its size, popped, erased and dropped elements are destroyed at once, and when a buffer is gone none of its elements is left.",
 ["histories","fault_sequences"],"every history with failures at any point, for all non-scalar element kinds",
 "Tests count instances in a few scenarios only and never after failures inside multi-element operations.",
 [B,D],[("destroy_item/destroy_content/destroy_if_constructed, construct_or_replace",B),("uninitialized_copy/fill rollback",D)],
 ["element constructor/destructor events and storage shadow"],LAY)
prop("C11","The allocator contract is honoured",
 "Every block obtained from the allocator is returned exactly once, with the element count it was obtained with, to an equal allocator, and none is leaked by success, failure, swap, move or destruction. Elements are constructed and destroyed through the allocator that owns their storage. Allocators with state, with their own pointer type and with limited maximum size or a narrow size type work; with pointers into shared memory a buffer keeps working when its segment is mapped at another address.",
 ["histories","fault_sequences","configurations"],"all histories with several buffers holding unequal allocators, failures at any point, raw and fancy pointers",
 "Tests use the standard allocator nearly everywhere, which accepts any count and any instance.",
 [B,S],[("allocate/deallocate, destroy, reset, initialize_buffer",B),("swap_allocator",B),("deallocation in catch blocks",B)],["allocate/deallocate/construct/destroy calls"],LAY)
prop("C12","No hidden allocation, and no-throw operations succeed under total failure",
 "The fixed-capacity buffer allocates memory only when constructed with capacity, assigned, or explicitly given a different capacity (or resized beyond it); default construction and zero capacity allocate nothing. Pops, clearing, swapping, moving and all observers never fail even when every allocation and every element operation would fail, and rotation of a full buffer and linearizing of a linearized one touch no element. For elements with non-throwing moves, moving insertions, erasures, rotation and linearizing succeed even when every copy and allocation would fail.",
 ["fault_sequences","histories"],"every state in every history with all failure sources armed",
 "Tests cannot make everything fail at every state; a hidden temporary buffer or copy is invisible to them.",
 [B],[("in-place algorithms; noexcept members",B),("move_if_noexcept use",B)],["allocator calls, exceptions, termination"],LAY)
prop("C13","Stored elements with throwing moves are never moved, so failures lose no value",
 "When the element type can be copied and the moves an operation would use may throw, the operation does not move out of an element stored in a buffer: shifting, linearizing, rotating and reallocating copy instead, so that after a failure every stored element still carries a real value. Only items the caller passes as movable, and temporaries, are moved from.",
 ["fault_sequences","histories"],"all operations and failure points, for elements with throwing move constructor and/or assignment",
 "The defect is visible only if a move throws half-way in a multi-element operation; tests have no throwing-move element there.",
 [B,D],[("boost::move_if_noexcept uses",B),("uninitialized_move_if_noexcept",D)],["move events whose source lies in a buffer's storage; values after failure"])
prop("C14","References and iterators stay valid exactly as documented",
 "An iterator or reference that the documentation does not declare invalidated by an operation still designates the same element with the same value afterwards: pushes and pops of the fixed-capacity buffer disturb only overwritten or removed elements, inserts and erasures only the documented side, linearizing a linearized buffer, rotating a full one, setting the same capacity, move and swap none (references follow the contents). For the space-optimized buffer nothing beyond end() survives a modification, but observers never disturb.",
 ["histories","fault_sequences"],"all held positions across all histories, including failed operations with the strong guarantee",
 "Tests check a few iterators after a few calls; which positions move depends on layout and algorithm.",
 [B,D],[("in-place shifting direction in insert/rinsert/erase/rerase/rotate",B),("null end() iterator",D)],["addresses and iterators taken before, dereferenced after"],LAY)
prop("C15","Debug mode reports misuse and never rejects valid use",
 "With debug support on, every valid history runs without any assertion and behaves as without debug support. Dereferencing, advancing or comparing an invalidated, default, end or foreign iterator, and calling front, back, pops, index or erase outside their preconditions is reported by an assertion before it takes effect. Iterator copies of any lifetime and copying or destroying buffers keep the tracking intact.",
 ["histories","fault_sequences","schedules"],"all valid histories with iterators created, copied, assigned and destroyed in any order, and one misuse at any point",
 "Tests run debug assertions mostly disabled-by-default and check a few invalidation cases; false assertions and missed invalidations depend on history.",
 [G,B,D],[("debug_iterator_registry register/unregister/invalidate_*",G),("BOOST_CB_ASSERT sites",B+", "+D)],["the assertion handler"],[("m_iterators","registered debug iterators",G)])
prop("C16","The space-optimized buffer behaves like the plain one",
 "For every common history the space-optimized buffer shows the same sequence, size, capacity value, returned positions and exceptions of checked access as the fixed-storage buffer given the same calls, however its storage grows and shrinks. A failed growth or shrink never changes the outcome of later calls; a capacity far beyond the memory available (an unlimited one) only limits how far it may grow.",
 ["histories","fault_sequences"],"all common histories, all capacity controls (capacity, minimum), reallocation failures at any point",
 "Tests run the same fixed scenarios on both but never long random histories crossing the grow/shrink thresholds.",
 [S,B],[("check_low_capacity/check_high_capacity/ensure_reserve around each base operation",S)],["public API of both containers run in lockstep against one reference"],[("m_capacity_ctrl","user-visible capacity and minimum",S)])
prop("C17","The space-optimized buffer's memory follows its contents within bounds",
 "Its storage is always at least its size and never above its capacity, is at least the guaranteed minimum after construction with or setting of a capacity control and never falls below it by removing elements, and after removals is bounded by a small constant multiple of the size or the minimum. Construction, assignment and copying allocate exactly the documented amount (the larger of the number of items kept and the minimum), and growth never takes more than a small constant multiple of the size. Filling and draining repeatedly neither leaks nor accumulates memory, and storage changes caused by single insertions and removals stay spread out (as with std::vector): repeating a push and a pop does not replace the storage again and again at any size.",
 ["histories","fault_sequences"],"all histories of pushes, inserts, erasures and capacity changes with all capacity/minimum pairs",
 "Tests look at internal capacity at a few points only.",
 [S],[("check_low_capacity, check_high_capacity, ensure_reserve, adjust_min_capacity, init_capacity",S)],["allocator seam: slots held per container"],[("m_capacity_ctrl","capacity and minimum",S)])
prop("C18","Independent buffers and simultaneous readers do not interfere",
 "Threads working on distinct buffers each obtain exactly the results they would obtain alone, under every interleaving, with debug support too. Any number of threads reading one buffer simultaneously (without debug support) all see its sequence, because no observing operation writes to the buffer, its storage or any shared state.",
 ["schedules","fault_sequences"],"all interleavings of element, allocator and pointer operations of the threads, with failures injected into some of them",
 "The suite is single-threaded.",
 [B,D,S],[("no static or mutable state; const observers",B+", "+D)],["results per simulated thread; writes to protected memory while reading"])
prop("C19","A bounded buffer built on it delivers every item exactly once in order",
 "The documented bounded-buffer pattern (mutex, two conditions, push at one end, read by unread count at the other) delivers every produced item exactly once and in order per producer, never lets a producer pass a full buffer or a consumer pass an empty one, and makes progress whenever some thread can, under every schedule and spurious wake-up.",
 ["schedules"],"all thread interleavings at lock, wait, notify and element-operation granularity, any number of producers/consumers and any capacity",
 "The example is a timing benchmark with one producer and one consumer on real threads and discards the items.",
 ["example/circular_buffer_bound_example.cpp",B],[("push_front/operator[]/capacity used under the lock",B)],["values returned to consumers, blocked threads"])
prop("C20","Single-pass input ranges are consumed once, in order, without loss",
 "Constructing, assigning or inserting from a single-pass range gives the same result as from an equal multi-pass range: each source item is taken from the source at most once, in order, none is skipped or duplicated in the result, for both containers, in every state. If the source or an element copy fails midway the buffer stays valid.",
 ["inputs","histories","fault_sequences"],"all range lengths against all capacities, states and positions, stream failure at any point",
 "Tests use short literal istream-like ranges in a few states.",
 [B,S],[("input_iterator_tag overloads of initialize/assign/insert/rinsert",B),("insert/rinsert range forwarding",S)],["reads on the source iterator; resulting contents"])
prop("C21","Documented time complexity of each operation",
 "For circular_buffer, pushes, pops, swap, move, move assignment (apart from destroying the old elements), element access and the observers take constant time whatever the size; clear and the erase-at-an-end operations only destroy what they remove; single insert/erase cost at most the distance from the position to the nearer documented end; insertion of n copies or a multi-pass range is linear in that distance plus the items inserted and never above a multiple of the capacity, however large n is; rotate is linear in the shorter side and constant on a full buffer; linearize is linear and constant when already linear; copying, assigning, resizing and changing the capacity are linear in the elements involved; comparison is linear. For circular_buffer_space_optimized every operation is at most linear in its size plus the items involved. Cost counts element constructions, assignments and destructions, comparisons, reads of the source range and pointer steps.",
 ["inputs","histories"],"all sizes, layouts, positions and counts (including counts near the size_type maximum), for every element type and allocator",
 "Benchmarks are not part of the suite; tests never count operations.",[B,S],[("documented \\par Complexity of each member and its implementation (insert_n, rinsert_n, erase, rotate, linearize, set_capacity)",B),("ensure_reserve, check_low_capacity",S)],["operation counts of elements, allocator pointers and source iterators per call"])
prop("C22","Compile-time interface: noexcept, const-correctness and type requirements",
 "Members documented as non-throwing are declared so, iterators convert only from mutable to const, and each operation compiles for exactly the element types its documentation requires.",
 ["programs"],"all client programs","Only the programs in the suite are compiled.",[B,S,D],[("declarations",B)],["compilation"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
