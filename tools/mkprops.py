import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
Q="include/boost/lockfree/queue.hpp";S="include/boost/lockfree/stack.hpp";R="include/boost/lockfree/spsc_queue.hpp"
F="include/boost/lockfree/detail/freelist.hpp";PA="include/boost/lockfree/detail/parameter.hpp";PO="include/boost/lockfree/policies.hpp"
CP="include/boost/lockfree/detail/copy_payload.hpp";TP="include/boost/lockfree/detail/tagged_ptr_ptrcompression.hpp";TD="include/boost/lockfree/detail/tagged_ptr_dcas.hpp"
PX="include/boost/lockfree/detail/prefix.hpp";AT="include/boost/lockfree/detail/atomic.hpp"
p("C01","queue: every concurrent history is a linearizable FIFO history",
 "For any number of threads calling push, bounded_push, pop, consume_one, consume_all on one queue, every successful push hands over exactly one element, every element is popped exactly once, in FIFO order, and each operation appears to take effect atomically between its call and its return. In particular no element is lost, duplicated or invented, a pop fails only if the queue was empty at some instant during the call, and a push fails only if all nodes were in use at some instant during the call.",
 ["schedules","histories"],"all interleavings of all mixes of operations by any number of producers and consumers, for node-based, fixed-sized and compile-time-capacity queues",
 "The stress tests run a few native threads and only check that the multiset of popped values matches; they never check order across producers or real-time order, and see only the few interleavings the x86 scheduler happens to produce.",
 [Q,F],[("tail is read, its successor read, tail re-read, then the successor is CASed from null","queue::do_push"),("lagging tail is helped forward","queue::do_push / queue::pop"),("head is re-read before its successor is trusted; payload copied before the head CAS","queue::pop"),("node allocation / release is a lock-free stack of nodes","freelist_stack / fixed_size_freelist allocate_impl, deallocate_impl")],
 [("head","dummy node preceding the oldest element","queue.hpp"),("tail","last or last-but-one node","queue.hpp")],["return values and popped values of the public operations"])
p("C02","stack: every concurrent history is a linearizable LIFO history",
 "For any number of threads calling any mix of the stack's push, ranged push, pop, consume_one, consume_all, consume_all_atomic, consume_all_atomic_reversed and empty, each operation appears to take effect atomically between its call and its return, in LIFO order, and every pushed element is handed out exactly once. A ranged push becomes visible as one contiguous unit in range order; consume_all_atomic takes the whole content as of one instant and visits it newest first, consume_all_atomic_reversed oldest first. A pop fails only if the stack was empty at some instant during the call; a push stores less than asked only if the node pool ran out.",
 ["schedules","histories"],"all interleavings of all mixes of single, ranged and bulk operations by any number of threads, for node-based, fixed-sized and compile-time-capacity stacks",
 "Stress tests compare only multisets of values over a handful of native schedules and never run bulk operations concurrently.",
 [S,F],[("top-of-stack CAS with version tag","stack::link_nodes_atomic / consume_one / consume_all_atomic*"),("private chain built before one CAS publishes it","stack::prepare_node_list"),("whole list detached by one CAS to null","stack::consume_all_atomic, consume_all_atomic_reversed")],
 [("tos","top node handle and version tag","stack.hpp")],["return values, popped values, functor call order"])
p("C03","spsc_queue: one producer and one consumer always see an exact FIFO",
 "With one thread pushing (singly or in batches) and one thread popping or consuming (singly, in batches, into iterators, through functors), under every interleaving the consumer obtains exactly the pushed sequence, each element once and in order, with batch return values equal to the number of elements transferred. A push stores less than asked only if the buffer was full at an instant during the call, and a pop or consume returns less than asked only if no further element had been pushed at an instant during the call.",
 ["schedules","histories"],"all interleavings of all producer and consumer call sequences, all capacities and index positions including wrap-around, compile-time and run-time sized",
 "Tests exercise a few capacities and batch sizes with one native schedule each; wrap-around splits coinciding with a concurrent counterpart are hit by luck only.",
 [R],[("write index published after the elements are constructed, read index after they are consumed","ringbuffer_base::push / consume_one / consume_all / pop / pop_to_output_iterator"),("one slot is kept empty; indices wrap at capacity+1","ringbuffer_base::next_index, read_available, write_available")],
 [("write_index","next slot to write; owned by the producer","ringbuffer_base"),("read_index","next slot to read; owned by the consumer","ringbuffer_base")],["return values, popped values"])
p("C04","hand-over happens-before: no stale, torn or racing element data",
 "Whatever a thread wrote before pushing an element, including the element itself and data reachable through it, is visible to the thread that obtains that element, under every execution the C++ memory model allows and not merely on strongly ordered hardware. In the other direction, a consumer's accesses to an element's storage happen before a producer's reuse of that storage. No operation ever returns a torn or partially written element.",
 ["schedules","histories"],"all executions permitted by the C++11 memory model (stale loads, reordered publication) for queue, stack and spsc_queue, single and batch operations",
 "The tests run natively on x86, whose total store order hides missing acquire/release ordering, and pass plain ints whose content cannot tear.",
 [Q,S,R,F,AT],[("release store / acquire load of the ring indices","ringbuffer_base"),("sequentially consistent CAS publishes nodes; acquire or consume loads precede dereference","queue, stack, freelist")],None,
 ["element bytes and side data read by the consumer"])
p("C05","recycled nodes never corrupt a suspended operation (ABA safety)",
 "If an operation is suspended at any point and in the meantime other threads push and pop so that the same nodes are recycled and come back in any order, fewer than 2^16 times, the suspended operation still takes effect correctly when it resumes. No element is lost, duplicated, reordered or handed out after being popped, and no node ends up in the container and the free pool at once.",
 ["schedules","histories"],"every suspension point of every operation, every recycling history of up to 2^16-1 reuses in between, for pointer- and index-based nodes",
 "It takes a thread stalled between two specific instructions while others recycle the very same node a specific number of times; native threads practically never do that in a test.",
 [Q,S,F,TP,TD],[("16-bit (or word-sized) version tag incremented on every removal","tagged_ptr::get_next_tag, tagged_index::get_next_tag and their users"),("the next field keeps its tag while the node is in the free list and is incremented on construction","queue::node constructor, freelist deallocate_impl (set_ptr / set_index)")],
 [("tag","version counter next to every shared pointer or index","tagged_ptr, tagged_index")],["popped values after resumption"])
p("C06","lock-free and wait-free progress with stalled threads",
 "If any set of threads is stopped forever at arbitrary points inside queue or stack operations, the remaining threads still complete their operations, and in any schedule some operation completes within a bounded number of steps. Every spsc_queue operation completes within a number of its own steps bounded by the number of elements it transfers, which is at most what was asked for and never more than the capacity, no matter what the other side does or where it is stopped.",
 ["schedules","crash_points"],"every stopping point of every operation and every schedule of the survivors, with functors, element copies and the allocator themselves non-blocking",
 "Tests never stop a thread inside an operation; a hidden wait loop would only look like a slow test.",
 [Q,S,R,F],[("retry only after another thread's CAS succeeded; lagging tail is helped","queue::do_push, queue::pop"),("straight-line index protocol","ringbuffer_base"),("free list pops and pushes are CAS loops without locks","freelist")],None,["number of steps an operation needs"])
p("C07","queue used by one thread behaves exactly like a bounded FIFO model",
 "For every sequence of calls on any configuration of queue (all constructors, push, bounded_push, unsynchronized_push, pop, unsynchronized_pop, pops converting to another type, consume_one and consume_all with const and non-const functors, reserve, reserve_unsafe, empty), every return value, popped value, functor call sequence and count equals that of a simple FIFO model with the documented capacity rules. Instances are independent of each other.",
 ["inputs","histories","configurations"],"all call sequences, sizes including 0 and 1, element types and configurations",
 "Tests run a few fixed scripts per configuration with int elements and mostly default sizes.",
 [Q,F,CP],[("Michael-Scott list with dummy node","queue"),("unsynchronized variants mirror the atomic ones","queue::unsynchronized_push / unsynchronized_pop")],None,["return values, popped values"])
p("C08","stack used by one thread behaves exactly like a bounded LIFO model",
 "For every sequence of calls on any configuration of stack (all constructors, push, bounded_push, unsynchronized_push, their ranged forms with any iterator and any length including empty ranges, pop, unsynchronized_pop, converting pops, consume_one, consume_all, consume_all_atomic, consume_all_atomic_reversed with const and non-const functors, reserve, reserve_unsafe, empty), every return value, returned iterator, popped value, functor call sequence and count equals that of a simple LIFO model with the documented capacity rules. Instances are independent of each other.",
 ["inputs","histories","configurations"],"all call sequences, range lengths, sizes, element types, iterator kinds and configurations",
 "Tests run a few fixed scripts; ranged pushes are tested for node-based stacks with one array only, never empty and never at exhaustion.",
 [S,F,CP],[("singly linked list under a tagged top pointer","stack"),("partial ranged push returns the first element not pushed","stack::prepare_node_list")],None,["return values, iterators, popped values, functor call order"])
p("C09","spsc_queue used sequentially behaves exactly like a bounded FIFO model",
 "For every sequence of calls on any configuration of spsc_queue (all constructors, push of single elements, pointer+count, arrays and iterator ranges, pop without argument, into a value, a converted value, pointer+count, arrays and output iterators, consume_one, consume_all, front, reset, empty, read_available, write_available), every return value and transferred element equals that of a FIFO model of exactly the given capacity. This includes batches larger than the remaining space or content, empty batches, and every position of the ring indices relative to the wrap-around.",
 ["inputs","histories","configurations"],"all call sequences, batch sizes, capacities and wrap-around positions",
 "Tests use a few fixed batch sizes and capacities; the off-by-one cases at the buffer end depend on the combination of index position, batch size and fill level.",
 [R,CP],[("two-section copies when the range crosses the buffer end","ringbuffer_base::push / pop / consume_all / pop_to_output_iterator"),("index arithmetic","next_index, read_available, write_available")],None,["return values, elements, availability counts"])
p("C10","capacity is exact, never shrinks, and bounded pushes never allocate",
 "A container created for N elements accepts exactly N elements when it must not allocate (fixed-sized and compile-time sized containers always, node-based ones through bounded_push), and after any history of concurrent or sequential use that empties it, it again accepts exactly N. Fixed-sized containers never allocate after construction and bounded_push never allocates; reserve(n) adds room for exactly n further bounded pushes; unbounded push fails only if the allocator does.",
 ["inputs","histories","schedules","configurations"],"all sizes, configurations and histories, including contended ones where nodes travel through the free list",
 "Leaking or duplicating a node takes a rare interleaving or operation mix, and tests never measure how much a used container still holds.",
 [Q,S,R,F],[("pool of n+1 nodes for a queue of n (dummy node), n for a stack, n+1 slots for the ring","constructors"),("every removed node is returned exactly once","destruct<>"),("Bounded template flag forbids allocation","freelist allocate_impl")],None,["number of successful pushes, allocator calls"])
p("C11","element lifetimes: every stored copy is destroyed exactly once",
 "Every element copy that a container creates is constructed once in storage it owns, alive when a functor or copy reads it, and destroyed exactly once: when it is popped, consumed or discarded, on reset, or when the container is destroyed while still holding it. No destructor runs on storage that holds no element, and none is skipped, for every history of operations.",
 ["inputs","histories","schedules"],"all call histories, fill levels and ring positions at destruction or reset, batch and single operations, element types with non-trivial copy and destruction",
 "The destructor tests use one or two fixed scripts; most combinations of batch operation, wrap-around and leftover content are never destroyed under observation.",
 [S,R,F],[("destruct<> runs the node destructor and releases the node","freelist"),("copy_and_delete / run_functor_and_delete destroy each consumed slot","ringbuffer_base"),("destructors drain the container","~stack, ~compile_time_sized_ringbuffer, ~runtime_sized_ringbuffer, reset")],None,["constructor / destructor calls of the element type"])
p("C12","allocator discipline: own allocator, matched calls, nothing freed early",
 "A container performs all its dynamic allocation through a copy of the allocator it was given (rebound), releases every block exactly once with the size it was allocated with and through an equal allocator, and releases nothing before it is destroyed. Nodes are recycled, so the number of nodes ever allocated is exactly what the initial size, reserve calls and the peak number of simultaneously used nodes require.",
 ["inputs","histories","configurations"],"all call histories and configurations with stateful, non-interchangeable allocators",
 "Tests only check that an allocator argument compiles; they never audit its calls.",
 [Q,S,R,F,PA],[("freelist derives from the rebound allocator and keeps freed nodes","freelist_stack"),("single block for fixed-sized pools and rings","runtime_sized_freelist_storage, runtime_sized_ringbuffer")],None,["allocator calls"])
p("C13","failed pushes and allocations leave no trace",
 "If the allocator or an element's copy constructor throws while a container is constructed, reserved or pushed to (singly or by range), the exception reaches the caller, nothing of that push becomes visible, the earlier content is intact and in order, and the container stays fully usable. No memory block, node or element copy is leaked or destroyed twice, then or at destruction.",
 ["fault_sequences","inputs","histories"],"every call history with every position of the failing allocation or copy in it",
 "No test injects a failing allocator or throwing copy constructor into a container operation.",
 [Q,S,R,F],[("rollback of a partially built chain","stack::prepare_node_list"),("node taken from the pool before the element is constructed","freelist construct<>"),("elements constructed before the index is published","ringbuffer_base::push")],None,["exceptions, allocator balance, element balance, remaining capacity"])
p("C14","elements of any size and alignment come back bit-exact and aligned",
 "For every element type a container accepts, whatever its size, alignment and value representation, a popped or consumed element equals the pushed one in every byte of its value, and while it is stored it lives at an address aligned for its type. Neighbouring elements and memory outside the container are never modified.",
 ["inputs","configurations"],"all element sizes and alignments (including more than a cache line), all byte values, all storage configurations",
 "Tests store ints and a few small structs with default allocators.",
 [Q,S,R,F,PA],[("cache-line aligned nodes and storage","queue::node, compiletime_sized_freelist_storage, aligned_allocator_adaptor"),("aligned_storage of capacity+1 elements","compile_time_sized_ringbuffer"),("over-aligned default allocator","extract_allocator")],None,["element bytes, element addresses, guard bytes around the container"])
p("C15","versioned references: pointer or index and version never interfere",
 "A versioned reference returns exactly the pointer (any user-space address) or index (any 16-bit value) and the version it was given, changing one never changes the other, two references are equal exactly if both parts are equal, and the successor of a version cycles through all values before it repeats. This holds for both reference layouts (compressed and double-width).",
 ["inputs","configurations"],"all pointer values up to 47 bits, all 16-bit indices and tags, both implementations",
 "The unit test checks a handful of addresses and tags.",
 [TP,TD,F],[("pack_ptr / extract_ptr / extract_tag","tagged_ptr"),("index and tag fields","tagged_index")],None,["get_ptr, get_tag, get_next_tag, ==, !="])
p("C16","compile-time sized containers work in shared memory at any address",
 "A queue, stack or spsc_queue with compile-time capacity, and a run-time sized spsc_queue whose allocator uses relative pointers, keeps working when its memory is mapped at different addresses by different users: operations issued through either mapping act on the same logical container with unchanged FIFO or LIFO behaviour and capacity.",
 ["histories","inputs","configurations"],"all call histories with every operation issued through an arbitrary one of several mappings",
 "The interprocess test runs one queue in one process with forked children at the same address.",
 [Q,S,R,F],[("nodes inside the object, addressed by index","compiletime_sized_freelist_storage, fixed_size_freelist"),("allocator-defined pointer type","runtime_sized_ringbuffer")],None,["behaviour through the second mapping"])
p("C17","size limits: everything up to the limit works, everything above is refused",
 "Fixed-sized queues and stacks support every size up to the documented 16-bit limit with full capacity and correct order, and refuse larger run-time sizes with an exception and larger compile-time sizes at compile time instead of truncating them. Run-time sized containers work for every size they accept, including zero and one.",
 ["inputs","configurations"],"all requested sizes, in particular around 0, 1, powers of two, 2^16 and the maximum of the size type",
 "Tests use sizes 0 to a few hundred.",
 [Q,S,R,F],[("limit check before allocation","runtime_sized_freelist_storage"),("static assertions","compiletime_sized_freelist_storage, stack"),("null handle is the index one past the last node","fixed_size_freelist")],None,["constructor result, number of accepted elements"])
p("C18","configuration options mean what they say, in any order and combination",
 "The allocator, capacity and fixed_sized options have their documented meaning in any order and any valid combination, every documented operation compiles and works in every configuration for which it is documented, and invalid combinations or element types are rejected at compile time. A configuration never silently falls back to another one, and lock-freedom is reported truthfully.",
 ["configurations","programs"],"all option orders and combinations of the three containers, all documented members, supported language levels and atomic back ends",
 "Members of class templates are compiled only when used; tests instantiate a subset of members per configuration.",
 [Q,S,R,PA,PO,AT,PX],[("Boost.Parameter binding of options","queue_signature, stack_signature, ringbuffer_signature, extract_*"),("select_freelist","freelist.hpp")],None,["compilation result, resulting behaviour"])
p("C19","availability answers of spsc_queue are promises",
 "When the consumer is told that r elements are available, the next r elements can be popped without failure and the front reference stays the oldest element with its value unchanged until the consumer removes it, whatever the producer does meanwhile; when the producer is told there is space for w elements, the next w pushes succeed whatever the consumer does. Neither answer ever exceeds the capacity, and the two are exact whenever the other side is idle.",
 ["schedules","histories"],"all interleavings of the calls with the other side, all capacities and ring positions",
 "Tests query availability only on idle queues.",
 [R],[("acquire load of the other side's index, relaxed load of the own index","ringbuffer_base::read_available, write_available"),("front reads the slot at the own read index","ringbuffer_base::front")],None,["read_available, write_available, front, subsequent pushes and pops"])
p("C20","emptiness answers are truthful",
 "On an idle container empty() is true exactly if no element is stored, after any history. Under concurrency, the stack's empty() returns true only if the stack was empty at some instant during the call and false only if it was non-empty at some instant, and the answers of queue and spsc_queue are exact whenever no other operation overlaps the query.",
 ["schedules","histories"],"all histories and interleavings",
 "Tests call empty() on idle containers after fixed scripts.",
 [Q,S,R],[("compare head and tail handles without tags","queue::empty"),("top of stack is null","stack::empty"),("compare ring indices","ringbuffer_base::empty")],None,["empty()"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
