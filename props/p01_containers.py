EXPL = "Explicit-state breadth-first search over operation histories of the real class, lock-step against a reference model"
DFS = "Exhaustive depth-first enumeration of bounded operation sequences of the real class, lock-step against a reference model"
NOTE_SEQ = ("Complete within the stated bounds: every operation history up to the search depth (or until the reachable state graph is "
            "exhausted) is executed on the real code compiled from /repo with AddressSanitizer; a fresh object is rebuilt and replayed for every edge, so "
            "every model transition is checked against the implementation. Trusted: compiler, the reference model in the harness.")
NOTE_CONC = ("Complete within the stated program bounds: all interleavings of the harness threads at every shared access, all values the C++ "
             "memory model allows each atomic load to read (release/acquire and relaxed; stores not reordered before program-order-earlier loads, i.e. no load buffering), with happens-before "
             "race detection, on the real header compiled for x86-64 with thread-sanitizer instrumentation and an own scheduler. "
             "Trusted: compiler instrumentation, the engine in mc/conc.cc.")

P("C01", "Lock-free queue delivers every element once, in order, intact, under concurrency",
  "When one context puts and one other context gets on a lock-free single-producer single-consumer queue (fixed-size or run-time-sized), "
  "the consumer receives exactly the accepted elements, each once, in order and never torn, stale or half-written, under every interleaving and every "
  "reordering the C++ memory model permits, including queries, removal of the first element, and a consumer-side reset. "
  "A put is refused only when the queue may be full and a get returns nothing only when it may be empty: room or elements once reported to the only context that can use them up stay usable.",
  ["schedules", "histories"],
  "All interleavings and memory-model-permitted read values of a producer and a consumer running short programs (up to 3-4 operations each), over queue sizes 1, 2, 4, start offsets including index wrap-around and all fill levels; element types of one machine word, of one byte (flags and characters, whose neighbours share a word) and of several fields; positions near overflow.",
  "The tests call put and get from one thread only (and one two-thread smoke loop at best), so they see one schedule; a missing acquire or release is invisible on x86 and single-threaded.",
  ["util/lockfree_fifo_spsc.hh", "util/lockfree_fifo_spsc_dyn.hh"],
  [("release store of the write index after the element is written; acquire load before it is read", "util/lockfree_fifo_spsc.hh put/get"),
   ("release store of the read index after the element is consumed; acquire load before the slot is reused", "util/lockfree_fifo_spsc.hh get/put")],
  "Stateless model checking of the real headers: all interleavings and weak-memory reads under a controlled scheduler with race detection", "model_checking", NOTE_CONC,
  "One execution = one schedule plus one choice of value per atomic load of a two-thread program on a queue of a given size, offset and fill; each is a different choice sequence, sleep sets remove equivalent ones. Non-trivial: at least one context switch or non-latest read.",
  [dict(name="c01", src="c01_spsc_conc.cc", engine="conc")],
  ["One producer and one consumer context, as documented; reset is called from the consumer context (reset from the producer while a get is in flight is a recorded finding)."],
  ["LockFreeFifoSpsc / LockFreeFifoSpscDyn: put, get, get_move, get_or_default, remove_first, reset, num_free, num_filled, full, empty"],
  [("write index", "number of elements ever put", "head_"), ("read index", "number of elements ever taken", "tail_")])

P("C02", "Queue accounting is exact over every operation history",
  "Over every sequence of operations on a lock-free queue used from one context, put succeeds exactly when fewer than the capacity are waiting, every get form returns the oldest waiting element or "
  "reports (get: nothing, get_move: false with the destination untouched, get_or_default: a default value) that none is waiting, and the reported filled/free counts, empty/full flags and capacity always match the elements waiting. "
  "This holds across any number of wrap-arounds including overflow of the position counters, after construction with an initial offset or initial contents, after repositioning the read or write position or read offset within the capacity, after reset, and for the run-time-sized queue after resizing.",
  ["histories", "configurations"],
  "All operation histories up to a depth at which the reachable states repeat, for capacities 1..8 (run-time-sized: every size, powers of two or not), several element types (including flags and non-trivially-copyable ones), start offsets and position counters near and across overflow; element values include the default and the largest value.",
  "The tests follow a handful of straight put/get sequences on one capacity starting at zero.",
  ["util/lockfree_fifo_spsc.hh", "util/lockfree_fifo_spsc_dyn.hh"],
  [("free-running indices masked to the power-of-two capacity", "util/lockfree_fifo_spsc.hh"), ("run-time mask", "util/lockfree_fifo_spsc_dyn.hh")],
  EXPL, "model_checking", NOTE_SEQ,
  "One execution replays one history of queue operations from construction; states are (positions modulo capacity, distance, slot contents normalised), distinct by hash. Non-trivial: an operation that changes state or a refused one.",
  [dict(name="c02", src="c02_fifo_seq.cc"), dict(name="c02big", src="big.cc", flags=["-DBIG=2"]), dict(name="c02pair", src="pairs.cc", flags=["-DPAIR=2"])])

P("C03", "Thread-safe pool never hands a slot to two owners",
  "Under every interleaving of threads creating, using and destroying slots of the thread-safe pool, a slot is owned by at most one creator at a time, destroying it succeeds exactly once per creation, creation fails only if each slot was in use at some moment during the call, "
  "and what was written to a slot before it was released is visible to its next owner and to whoever sees it released. Indices outside the pool are never created, always read as unused and cannot be destroyed, and clearing the pool frees every slot and resets its contents.",
  ["schedules", "histories"],
  "All interleavings and weak-memory reads of two or three threads each running up to three create/use/destroy/is_used calls on pools of 1 to 3 slots; plus every single-context operation history.",
  "There is no test of the pool at all; a non-atomic test-and-set or a relaxed flag only fails under specific interleavings.",
  ["util/thread_safe_pool.hh"],
  [("compare-exchange on a per-slot flag", "util/thread_safe_pool.hh create/destroy")],
  "Stateless model checking of the real header (all interleavings and weak-memory reads), plus explicit-state search over single-context histories", "model_checking", NOTE_CONC,
  "One execution = one schedule and one choice of value per atomic load of a two- or three-thread program; sequential part: one operation history. Non-trivial: at least one context switch or non-latest read.",
  [dict(name="c03", src="c03_pool_conc.cc", engine="conc"), dict(name="c03s", src="c13_pool.cc", flags=["-DONLY_TS"]), dict(name="c03big", src="big.cc", flags=["-DBIG=13", "-DONLY_TS"]), dict(name="c03pair", src="pairs.cc", flags=["-DPAIR=3"])],
  ["clear() is called while no other context uses the pool."])

P("C04", "Filtered interpolated array takes each announced reading once and ramps to it",
  "New readings are taken only after new data has been announced and at most once per announcement, channel by channel in order; if announcer and reader run concurrently, everything written before an announcement is visible to the pickup that consumes it and the newest announcement is never lost. "
  "Between pickups every output ramps linearly from where it was to the filtered reading over the configured (first) or previously observed number of updates, reaches it exactly at the last update of the ramp and stays there, for every interleaving of announcements, pickups and updates.",
  ["schedules", "histories"],
  "All interleavings of an announcing and a polling context with up to 3 announcements and 3 polls; all operation histories of announce/pickup/update/set-period to a depth, for 1-3 channels and two filters; all ramp lengths up to several hundred; a hold of more than 2^32 updates.",
  "The tests run one thread and a few ramps of fixed length; the flag hand-over race is invisible to them.",
  ["util/filtered_interp_array.hh", "util/interp_param.hh"],
  [("atomic new-data flag exchanged by the reader", "util/filtered_interp_array.hh add_new_readings"), ("ramp length learned from the number of updates since the last pickup", "util/filtered_interp_array.hh")],
  "Stateless model checking of announce/pickup interleavings on the real header, plus explicit-state search over histories against a ramp model", "model_checking", NOTE_CONC + " Ramp values are compared with a double-precision line with a tolerance covering accumulated float rounding; end points are compared exactly.",
  "One execution = one schedule/read-value choice of an announcer and a poller, or one operation history. Non-trivial: a pickup took place.",
  [dict(name="c04", src="c04_farray_conc.cc", engine="conc"), dict(name="c04s", src="c04_farray_seq.cc", opt="-O2"), dict(name="c04pair", src="pairs.cc", flags=["-DPAIR=4"])],
  ["Changing the configured number of updates in the middle of a ramp is left open."])

P("C08", "Ring buffers keep the newest elements in order, over every history",
  "Over every sequence of writing, reading, peeking, filling, resetting and repositioning, a ring buffer's element count, empty/full state, front element, peeked elements and get results match a queue that drops its oldest element when a write finds it full, and its head and tail positions agree with that count. "
  "Reading an empty buffer returns nothing (or a default value) and changes nothing. This holds for both the general and the power-of-two variant, over any number of wrap-arounds.",
  ["histories", "configurations"],
  "All operation histories until the reachable states are exhausted (or to the depth bound) for capacities 1..8 and several element types including owning ones. Besides, closed reachable state spaces over finite value alphabets (default value, largest, lowest and top bit, ordinary values) for several element types, so that no value, repetition or coincidence of values is singled out.",
  "The tests run a few fixed sequences on one or two capacities.",
  ["util/circular_buffer.hh", "util/circular_buffer_opt.hh"],
  [("overwrite-on-full advances the tail with the head", "util/circular_buffer.hh put"), ("full flag distinguishes full from empty", "util/circular_buffer.hh")],
  EXPL, "model_checking", NOTE_SEQ,
  "One execution replays one operation history; states distinct by positions, flags and slot contents. Non-trivial: state-changing or refused operation.",
  [dict(name="c08", src="c08_circbuf.cc"), dict(name="c08big", src="big.cc", flags=["-DBIG=8"]), dict(name="c08pair", src="pairs.cc", flags=["-DPAIR=8"])],
  ["Moving the head position of a full buffer is left open."])

P("C09", "Block access to ring memory touches exactly the addressed samples",
  "Reading, writing, mixing, crossfading or advancing a block through a ring (external-buffer ring or block-writable ring) transfers exactly the addressed elements in order across the wrap point, leaves every other element and the memory around the buffer untouched, "
  "advances the read or write position by the block length modulo the size, and reports reaching the end of the filled region or another position exactly when the block passes it.",
  ["inputs", "configurations"],
  "All combinations of buffer size 1..7, start positions, markers and block lengths up to two laps in sequences of two operations, for float and integer samples; crossfades over 17 phases with every pair of old and new values from special sets (zero, equal, negative, large, tiny) in float, double and int; plain writes of extreme values (limits of the type, NaN, infinities) over extreme contents for six types; large rings.",
  "The tests use one buffer size and a few positions; wrap-around boundary combinations are not covered.",
  ["util/circular_buffer_ext.hh", "util/circular_buffer_block.hh"],
  [("split of a block at the end of the buffer", "util/circular_buffer_block.hh write"), ("wrapped index advance", "util/circular_buffer_ext.hh")],
  DFS, "model_checking", NOTE_SEQ,
  "One execution = one choice of size, positions, operation(s), block length and contents. Non-trivial: block crosses the wrap point or reports a crossing.",
  [dict(name="c09", src="c09_ring_access.cc"), dict(name="c09big", src="big.cc", flags=["-DBIG=9"]), dict(name="c09pair", src="pairs.cc", flags=["-DPAIR=9"])],
  ["Blocks are at most as long as the buffer; in crossfades whole-number samples may be rounded either way; crossing tests cover blocks of at most one lap."])

P("C10", "Bounded stack keeps the most recent elements in LIFO order",
  "Over every sequence of pushes, pops and queries, the bounded stack behaves like a stack that silently drops its oldest element when a push finds it full: pops return the most recent remaining element, popping or looking at an empty stack reports so (or yields zero) and changes nothing, and size and emptiness always match. "
  "A stack constructed with elements contains exactly those, the last one on top.",
  ["histories", "configurations"],
  "All operation histories until states repeat for capacities 1..5; long runs of pushes and pops over many laps. Besides, closed reachable state spaces over finite value alphabets (default value, largest, lowest and top bit, ordinary values) for several element types, so that no value, repetition or coincidence of values is singled out.",
  "The tests follow a few sequences on one capacity.",
  ["util/circular_stack.hh"], [("modular head index with saturating size", "util/circular_stack.hh")],
  EXPL, "model_checking", NOTE_SEQ, "One execution replays one history; states distinct by size, head and contents. Non-trivial: state-changing or refused operation.",
  [dict(name="c10", src="c10_cstack.cc"), dict(name="c10big", src="big.cc", flags=["-DBIG=10"]), dict(name="c10pair", src="pairs.cc", flags=["-DPAIR=10"])])

P("C11", "Fixed-capacity vector behaves as a bounded std::vector",
  "Over every sequence of push, pop, insert, erase, resize, clear, assignment and copy within its preconditions, a fixed-capacity vector holds the same elements in the same order as an unbounded vector would, refuses (without changing anything) what exceeds its capacity, takes the value passed even if it is one of its own elements, "
  "and its size, availability, element access, iteration and span views agree with its contents. Nothing outside its storage is ever touched, also for elements that own memory.",
  ["histories", "configurations"],
  "All operation histories to a depth for capacities 1..4 with integer and heap-owning elements; every (size, position) pair of insert/erase for capacity 12. Besides, closed reachable state spaces over finite value alphabets (default value, largest, lowest and top bit, ordinary values) for several element types, so that no value, repetition or coincidence of values is singled out.",
  "The tests run straight sequences with integers on one capacity.",
  ["util/fixed_vector.hh"], [("size checked against capacity before growing", "util/fixed_vector.hh push_back/resize/insert"), ("element shifting on insert and erase", "util/fixed_vector.hh")],
  EXPL, "model_checking", NOTE_SEQ, "One execution replays one history; states distinct by size and contents. Non-trivial: state-changing or refused operation.",
  [dict(name="c11", src="c11_fvector.cc"), dict(name="c11idx", src="c11_fvector.cc", flags=["-D_GLIBCXX_ASSERTIONS", "-DBOUNDS_ONLY"]), dict(name="c11big", src="big.cc", flags=["-DBIG=11"]), dict(name="c11pair", src="pairs.cc", flags=["-DPAIR=11"])])

P("C12", "Small sequential maps behave as bounded key-value maps",
  "Over every sequence of insertions, overwrites, removals and lookups, the fixed-size sequential maps contain exactly the pairs a list of key-value pairs would, each lookup (mutable or const, by key, iterator or pointer) finds the value stored last for that key and nothing for an absent key, including keys equal to the default key value, and size, fullness and iteration agree. "
  "Inserting into a full map is refused without change, and the overwriting insertion of the evicting map replaces entries in the order they were stored, also after removals; values taken from the map itself may be stored again.",
  ["histories", "configurations"],
  "All operation histories to a depth over all keys from a small alphabet (including default-valued keys) for capacities 1..4, integer and string types; long eviction runs. Besides, closed reachable state spaces over finite value alphabets (default value, largest, lowest and top bit, ordinary values) for several element types, so that no value, repetition or coincidence of values is singled out.",
  "The tests use a few keys in straight sequences; default-valued keys, removal patterns and repeated eviction are not explored.",
  ["util/sequential_map.hh", "util/seq_map.hh"], [("linear search over the used entries", "util/sequential_map.hh"), ("shift on remove; rotating overwrite position", "util/seq_map.hh")],
  EXPL, "model_checking", NOTE_SEQ, "One execution replays one history; states distinct by model contents and eviction position. Non-trivial: state-changing or refused operation.",
  [dict(name="c12", src="c12_maps.cc"), dict(name="c12big", src="big.cc", flags=["-DBIG=12"]), dict(name="c12pair", src="pairs.cc", flags=["-DPAIR=12"])],
  ["Inserting a key already present in the evicting map is left open."])

P("C13", "Object pools never hand out an object twice and recycle every slot",
  "Over every sequence of creations and destructions, a pool hands out only objects inside itself that are not in use, succeeds exactly while fewer than its capacity are in use, leaves objects in use undisturbed, and makes every destroyed object available again. "
  "Destroying null, a foreign object or index, or one already destroyed is refused without effect.",
  ["histories", "configurations"],
  "All create/destroy/clear histories until states repeat, pools of 1..4 objects, with heap-owning objects. Besides, closed reachable state spaces over finite value alphabets (default value, largest, lowest and top bit, ordinary values) for several element types, so that no value, repetition or coincidence of values is singled out.",
  "The pools have no tests.",
  ["util/pool.hh", "util/thread_safe_pool.hh"], [("used flags searched on create", "util/pool.hh"), ],
  EXPL, "model_checking", NOTE_SEQ, "One execution replays one history; states distinct by used flags and ownership. Non-trivial: state-changing or refused operation.",
  [dict(name="c13", src="c13_pool.cc"), dict(name="c13big", src="big.cc", flags=["-DBIG=13"]), dict(name="c13pair", src="pairs.cc", flags=["-DPAIR=13"])])

P("C14", "Allocators hand out disjoint, aligned, in-bounds memory or fail",
  "Every block a monotonic allocator returns lies entirely inside its arena, does not overlap any earlier block and the reported free space shrinks by exactly its size; it fails exactly when the request exceeds the free space, also for requests near the maximum integer. "
  "The aligned allocator returns storage of the requested alignment large enough for the request or fails, also for requests whose byte count overflows; padded types are aligned and sized so that no two objects share an aligned chunk.",
  ["histories", "inputs"],
  "All request sequences over a set of sizes including 0, exact fit, one over and values near the maximum, for arenas of several sizes; alignments 1..4096 and element counts; several padded types and alignments.",
  "The allocators have no tests beyond ordinary use.",
  ["util/monotonic_allocator.hh", "util/aligned_allocator.hh", "util/padded_aligned.hh"], [("remaining-space comparison", "util/monotonic_allocator.hh"), ("std::aligned_alloc with rounded size", "util/aligned_allocator.hh")],
  DFS, "model_checking", NOTE_SEQ, "One execution = one sequence of requests. Non-trivial: a request succeeded or was refused at the boundary.",
  [dict(name="c14", src="c14_alloc.cc", flags=["-D_GLIBCXX_ASSERTIONS"]), dict(name="c14pair", src="pairs.cc", flags=["-DPAIR=14"])])

P("C15", "Fixed-capacity strings stay terminated and equal the truncated text",
  "Over every sequence of constructions, copies (also through volatile access, between capacities, and to and from standard strings) and clearing, a fixed-capacity string holds exactly the text an unbounded string would, cut at its capacity, is always terminated inside its storage, and its length, remaining space, iteration, views and comparisons agree with that text. No operation reads or writes outside the string's storage or the source text.",
  ["histories", "inputs"],
  "All sequences of 2 operations (3 at capacity 0; thorough one more at capacities 0 and 1) over source texts of every length around the capacity, capacities 0..3 and larger; with and without std::string support; also from any part of its own text; characters with the top bit set; every single byte value; comparison of all pairs of short texts across capacities.",
  "The tests check a handful of literal strings.",
  ["util/static_string.hh"], [("bounded copy loop with terminator", "util/static_string.hh")],
  DFS, "model_checking", NOTE_SEQ, "One execution = one sequence of operations with chosen sources. Non-trivial: an operation left text behind.",
  [dict(name="c15", src="c15_sstring.cc"), dict(name="c15std", src="c15_sstring.cc", flags=["-DCPPUTIL_STATIC_STRING_USE_STD_STRING"]), dict(name="c15big", src="big.cc", flags=["-DBIG=15"]), dict(name="c15pair", src="pairs.cc", flags=["-DPAIR=15"])])

P("C16", "One-shot sample buffers store and replay every sample in order",
  "A fill-once buffer stores each added value at the next position, reports full exactly when all positions are filled and ignores further values; a replay buffer returns its contents in order, reports depletion exactly after the last, and returns zero from then on; refilling or resetting either restarts it. Nothing outside the buffers is touched.",
  ["histories", "configurations"],
  "All operation histories until states repeat for sizes 1..5. Besides, closed reachable state spaces over finite value alphabets (default value, largest, lowest and top bit, ordinary values) for several element types, so that no value, repetition or coincidence of values is singled out.",
  "These buffers have no tests.",
  ["util/input_output_buffer.hh"], [("position compared with the size", "util/input_output_buffer.hh")],
  EXPL, "model_checking", NOTE_SEQ, "One execution replays one history; states distinct by position and contents. Non-trivial: state-changing or refused operation.",
  [dict(name="c16", src="c16_iobuf.cc"), dict(name="c16big", src="big.cc", flags=["-DBIG=16"]), dict(name="c16pair", src="pairs.cc", flags=["-DPAIR=16"])])
