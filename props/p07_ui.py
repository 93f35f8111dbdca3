SW = "Exhaustive enumeration of a bounded input space through the real code against an independent reference"
EX = "Stateless exhaustive exploration of every bounded call history of the real code against an independent reference model"
BF = "Explicit-state breadth-first search over the real objects, to closure of the reachable states, against an independent reference model"
N = "Complete within the stated bounds on the real code from /repo, with AddressSanitizer. Trusted: compiler, reference model in the harness."
P("C32", "Colours convert, blend and saturate exactly per channel",
  "Every 16-bit colour survives conversion to 8-bit channels and back in both colour classes; conversion from 8 bits drops low bits and from floats clamps; adding light and adjusting saturate; every blend, by 8-bit, 32-bit or float phase, or directly on 16-bit colours, gives each channel its weighted mean (rounded down) without leaking between channels and returns the end points exactly where its phase reaches them; "
  "hue, saturation and value give the textbook colour within 3 steps, its brightest channel exactly the value, and grey without saturation.",
  ["inputs"],
  "All pairs of channel values with all 256 phases; all 65536 16-bit colours; blends of 16-bit colours over all pairs of values per channel and all phases; all 2^24 hue/saturation/value triples; float levels from -2 to 3 in 512ths.",
  "About 25 conversions and six blends are tested.",
  ["util/colors.hh", "util/colors_rgb565.hh", "util/hsv.hh"], [("packed three-channel blend", "util/colors.hh static blend"), ("division-free blend by 255", "util/colors.hh blend(Color,uint8_t)"), ("six hue regions", "util/hsv.hh operator Color")],
  SW, "exploration", N, "One evaluation = one pair of values or colours with all its phases, or one hue and saturation with all values. All distinct; non-trivial: values differ.",
  [dict(name="c32", src="c32_colors.cc", opt="-O2")], ["operator+ beyond 255 (saturates on some processors, wraps elsewhere) is left open."])
P("C33", "Triggers have hysteresis and statistics see every sample",
  "After any input history a Schmitt trigger is high exactly if the input exceeded its high threshold more recently than it fell below its low one, with one pending event per change, reported once; the rising trigger answers true exactly on those rises. "
  "Signal statistics hold the exact minimum and maximum of all samples since the start or the last reset, of any sign, and the exact recursive filter value.",
  ["operation_sequences", "inputs"],
  "All reachable states for five threshold pairs with inputs at, just beyond and far from the thresholds and all read, clear and reset calls; every input sequence of 5 (thorough 7); every history of 6 (7) samples and resets for three filter coefficients and five number types.",
  "One rise and fall is tested; statistics only on positive samples.",
  ["util/schmitt_trigger.hh", "util/analyzed_signal.hh"], [("threshold comparison by state", "util/schmitt_trigger.hh process/update"), ("extremes and recursive filter", "util/analyzed_signal.hh update")],
  BF, "model_checking", N, "One transition = one call in one reachable state; one execution = one history. Non-trivial: state high, at least one sample.",
  [dict(name="c33", src="c33_schmitt.cc", opt="-O2"), dict(name="c33pair", src="pairs.cc", flags=["-DPAIR=33"])], ["The average field, marked to do, is only checked after a reset."])
P("C34", "Debouncers and togglers report each edge once, on exactly the right reading",
  "After any history of readings and calls a debouncer registers a press or release exactly when its last readings match the rising or falling pattern within the mask, otherwise following or keeping its state as configured; togglers register every change of level. "
  "Each event is reported by exactly one read, survives until read, cleared or superseded, and copies, updates and transfers between togglers carry state and events; steady-state counters count the readings since the last edge. Any non-zero reading is high.",
  ["operation_sequences"],
  "All reachable states of togglers (pairs of objects with all copy and transfer calls), compact togglers and debouncers with masks of 3, 8 and 12 bits and both state modes; counters to depth 8-9 (thorough 11); all sequences of 16-18 (24-25) readings.",
  "Only the counting toggler is tested, on about a dozen fixed sequences; no debouncer is tested.",
  ["util/debouncer.hh", "util/debouncer_compact.hh"], [("shift register against two patterns", "util/debouncer.hh Debouncer::register_state"), ("read-and-clear events", "util/debouncer.hh Toggler")],
  BF, "model_checking", N, "One transition = one call in one reachable state; one evaluation = one sequence of readings. Non-trivial: a press registered.",
  [dict(name="c34", src="c34_debounce.cc", opt="-O2"), dict(name="c34pair", src="pairs.cc", flags=["-DPAIR=34"])],
  ["When both events are pending in the source of an update or transfer, whether the rising one arrives is left open, as is process() inherited by Debouncer."])
P("C35", "Changes and polls are never missed, doubled or early across clock overflow",
  "Edge detectors classify every pair of successive states exactly; a change is reported once after any number of updates, never without one. Rate-limited polls look at the state exactly when the period has elapsed since the last look (or when forced), and periodic events fire exactly when at least the period has elapsed since they last fired, for every integer time type, across any overflow and any number of skipped ticks.",
  ["operation_sequences", "inputs"],
  "Every history of 9 (thorough 12) detector calls; every history of 4 (5) polls with five start times and six delays; 8-bit clocks at every starting and second poll time; every history of 6 (7) polls for five wider clock types around zero, overflow and sign change.",
  "Only polls at every single tick across the overflow are tested.",
  ["util/edge_detector.hh", "util/change_detector.hh", "util/poll_change.hh", "util/poll_event.hh"], [("elapsed time modulo the clock range", "util/poll_event.hh poll, util/poll_change.hh poll"), ("previous state", "util/edge_detector.hh")],
  EX, "model_checking", N, "One execution = one call history. All distinct; non-trivial: a high state, a change seen, an event fired.",
  [dict(name="c35", src="c35_edges.cc", opt="-O2"), dict(name="c35pair", src="pairs.cc", flags=["-DPAIR=35"])], ["Clocks that run backwards are excluded."])
P("C36", "The encoder reports each detent once, never falsely, and no motion is lost",
  "After any history of pin readings a quadrature encoder reports a step exactly when the last four different readings are the full clockwise or counter-clockwise cycle into the detent (both pins high; both low when inverted). So for any walk of the shaft, bounce and repeated readings included, each report follows three quarter steps in its direction, ends in a detent, comes once, and no uninterrupted step is missed. "
  "Rotary motion is conserved: every step added, transferred and used arrives exactly once, and positions are the sum of what arrived.",
  ["operation_sequences"],
  "All reachable states of both encoders with all four readings; all walks of 14 (thorough 20) quarter steps from all positions, with and without repeats; all histories of 5 (6) moves, uses and transfers between three motion objects.",
  "Two turns in each direction are tested; inverted encoders and motion objects are not.",
  ["util/quadrature_encoder.hh", "util/rotary_motion.hh"], [("history of two-bit states in one byte", "util/quadrature_encoder.hh get_motion"), ("take and clear", "util/rotary_motion.hh use_motion/transfer_motion")],
  BF, "model_checking", N, "One transition = one reading in one reachable state; one evaluation = one walk; one execution = one history. Non-trivial: a step reported or moved.",
  [dict(name="c36", src="c36_encoder.cc", opt="-O2"), dict(name="c36pair", src="pairs.cc", flags=["-DPAIR=36"])], ["Before the first reading both pins count as low, as in the code."])
P("C37", "Parameters report every accepted change once and reject smaller ones",
  "After any history a latched parameter holds the last value that was assigned or that differed from the then current value by at least the minimum change; values stored closer are ignored, and a stored change is reported once. A parameter reports a change once if its value was set to a different one since the last report (and at first), never otherwise; a reference parameter reads and writes its variable and reports exactly when the variable differs from what it was at the last report.",
  ["operation_sequences", "inputs"],
  "All reachable states of pairs of parameters over nine values around the threshold in eight latched types, four values in three parameter types, three in two reference types; all pairs of 8-bit values for five thresholds.",
  "One accepted store is tested.",
  ["util/parameter.hh"], [("minimum change", "util/parameter.hh LatchedParam::store_changed"), ("changed flag, last value", "util/parameter.hh Parameter, RefParameter")],
  BF, "model_checking", N, "One transition = one call in one reachable state; one evaluation = one pair of values. Non-trivial: value accepted.",
  [dict(name="c37", src="c37_param.cc", opt="-O2"), dict(name="c37pair", src="pairs.cc", flags=["-DPAIR=37"])], ["Differences the value type cannot hold are excluded; whether assigning a parameter to another merges or replaces the pending change is open."])
P("C38", "A stored callable calls exactly what it holds, and owns it exactly once",
  "After any history of construction, copying, assignment (also to itself), calls and destruction, calling a function object runs the callable it holds with its own state, passes arguments and results through unchanged, and its truth value says whether it holds one; copies are independent; every captured object is constructed, copied and destroyed properly exactly once, at an address with its alignment, and never moved by its bytes.",
  ["operation_sequences", "inputs"],
  "Every history of 5 (thorough 6) operations over three slots with empty, plain, tracked-capture and function-pointer callables, for four function types; every 16-bit value through references, objects, and mixed argument lists.",
  "No test copies a function object with a capture that needs copying.",
  ["util/callable.hh", "util/overloaded.hh"], [("type-erased call and life time", "util/callable.hh invoke, manage")],
  EX, "model_checking", N, "One execution = one history; one evaluation = one value. All distinct; non-trivial: a tracked capture copied.",
  [dict(name="c38", src="c38_callable.cc"), dict(name="c38pair", src="pairs.cc", flags=["-DPAIR=38"])], ["Calling an empty object and captures aligned to more than 8 bytes are excluded."])
P("C39", "Zipped loops visit each position of all containers once and stop at the shortest",
  "For containers of any sizes, kinds and constness, zip, countzip and enumerate visit exactly the positions up to the shortest container, in order, giving the position and references to those very elements; writes reach the elements and nothing else; temporaries live as long as the loop; iterators step the same with either increment.",
  ["inputs"],
  "Every triple of container sizes 0..7 (thorough 0..12) in eight forms; every mixture of increments up to 7 (10) steps; all pairs of array sizes 0..4.",
  "Equal sizes and one shorter container are tested.",
  ["util/zip.hh", "util/countzip.hh", "util/iterator_helpers.hh"], [("end when any iterator ends", "util/iterator_helpers.hh any_match"), ("count with the iterators", "util/countzip.hh operator++")],
  SW, "exploration", N, "One evaluation = one combination of sizes in all forms. All distinct; non-trivial: no container empty.",
  [dict(name="c39", src="c39_zip.cc"), dict(name="c39flag", src="c39_zip.cc", flags=["-DCOUNTZIP_SUPPORT_VECTORBOOL"]), dict(name="c39big", src="big.cc", flags=["-DBIG=39"]), dict(name="c39pair", src="pairs.cc", flags=["-DPAIR=39"])], [])
P("C40", "A partition contains every element exactly once and is balanced",
  "For every list of values the parts contain each index (up to the capacity) exactly once; without its smallest element no part would exceed the smallest part, also with initial sums; without initial sums the largest sum is within (4/3 - 1/(3n)) of the best possible; the values are not changed, and calculating again forgets the previous parts.",
  ["inputs"],
  "Every list of up to 6 (thorough 7) values 0..4 (0..5), and of up to 9 (10) values 0..1, for 1 to 4 parts, four number types and a capacity of 3, plain, with initial sums, and reused; the optimum by brute force.",
  "One list of six values is tested.",
  ["util/partition.hh"], [("largest first into the smallest part", "util/partition.hh calc_partitions")],
  SW, "exploration", N, "One evaluation = one list. All distinct; non-trivial: at least two elements.",
  [dict(name="c40", src="c40_partition.cc"), dict(name="c40big", src="big.cc", flags=["-DBIG=40"]), dict(name="c40pair", src="pairs.cc", flags=["-DPAIR=40"])], ["At most one initial sum per part; sums fit the number type."])
P("C41", "Rectangles intersect exactly when they share a point; concave polygons are found",
  "Two rectangles share columns, rows or points exactly if some coordinate lies in both (edges included), whichever of the two is asked and however they nest; sizes, corners and centres (to the half unit) agree between the two forms. A simple polygon, in either direction, with any number type, scale or collinear points, is called concave exactly if some edge's line has points on both sides; fewer than three points never are.",
  ["inputs"],
  "All pairs of rectangles in a 5x5 (thorough 7x7) grid around zero; 14 positions and 8 extents each way; all simple polygons of up to 5 points on a 4x4 grid and 6 on 3x3 (thorough also 5 on 5x5, 6 on 4x4, 7 on 3x3) in ten coordinate types and scales.",
  "Two polygons are checked at compile time; rectangles are not tested.",
  ["util/geometry.hh"], [("overlap of ranges", "util/geometry.hh RectC"), ("turning directions", "util/geometry.hh is_poly_concave")],
  SW, "exploration", N, "One evaluation = one pair of rectangles or one point list. All distinct; non-trivial: proper rectangles, concave polygon.",
  [dict(name="c41", src="c41_geometry.cc", opt="-O2")], ["Self-intersecting polygons and rectangles with negative extent are excluded; coordinates differ by less than 2^31."])
P("C42", "Bytes, bit fields, padding, integer choice and vector stand-ins are exact",
  "A byte block holds exactly the bytes of everything printed, least significant first, in order. Combining flags gives exactly their union, of none zero. The smallest integer types are the smallest that hold the limits. Padded objects start and end on their alignment and do not share it. Big buffers own their object once. The stand-ins for vector instructions compute every lane like the instruction and leave operands alone.",
  ["inputs", "operation_sequences"],
  "Every sequence of 3 (thorough 4) prints of seven values; all pairs of 8-bit flags; limits around every power of two to 2^64 (signed 2^61, and pairs); sizes 1..40 with seven alignments; every triple of seven values in every lane.",
  "None of these is tested beyond a few static assertions.",
  ["util/byte_block.hh", "util/bitfield.hh", "util/padded_aligned.hh", "util/smallest_integer.hh", "util/big_buffer.hh", "util/soft_neon.hh"],
  [("byte order", "util/byte_block.hh printU16LE/printU32LE"), ("union", "util/bitfield.hh"), ("lanes", "util/soft_neon.hh")],
  SW, "exploration", N, "One evaluation = one combination of values; one execution = one print sequence. All distinct; non-trivial: values not zero.",
  [dict(name="c42", src="c42_blocks.cc"), dict(name="c42pair", src="pairs.cc", flags=["-DPAIR=42"])], ["The platform header sys/alloc_buffer.hh, not part of the repository, is replaced by an empty stand-in; copying a big buffer is excluded."])
P("C44", "The memory test passes good memory and finds every fault that shows on reading",
  "For any range the memory test writes and then reads back every word of it, and nothing outside; it answers true exactly if every word read back as written, so it finds every pair of addresses, or stuck or joined address lines, that share a word, every stuck bit and disturbed word that shows, and never calls good memory bad. A reversed address range is refused untouched; an empty one passes.",
  ["fault_sequences", "inputs"],
  "Memories of 0..299 (thorough 1999) words without fault; every bit of up to 24 (64) words stuck either way, every lost write; every pair of up to 40 (100) words aliased; every stuck address line up to 2^14 (2^22) words, every joined pair up to 2^14 (2^16); every word disturbing every bit of every other of 12 (32). Ranges of constant length 1..16, 32, 64, fully optimized: good, every stuck bit, lost write and aliased pair.",
  "It is not tested, and working memory cannot show what it misses.",
  ["util/mem_test.hh"], [("pattern that does not repeat within 2^32 words", "util/mem_test.hh encode")],
  "Exhaustive fault enumeration: the real code runs on a simulated faulty memory for every fault of the model", "model_checking",
  "Complete within the stated fault model on the real code from /repo; every access is intercepted through compiler instrumentation. Trusted: compiler, the fault simulator in the harness.",
  "One evaluation = one run on one faulty memory. All distinct; non-trivial: the fault was found (or memory not empty).",
  [dict(name="c44", src="c44_memtest.cc", asan=False, flags=["-fsanitize=thread"]),
   dict(name="c44fix", src="c44_memtest.cc", more_src=["c44_fixed.cc"], asan=False, opt="-O3", flags=["-fsanitize=thread", "-DFIXED_ONLY"])], ["Which value of a stuck bit shows depends on the pattern and is left open."])
P("C43", "LED flashes, fades and breathing show the right colour for the right time",
  "After any history of settings, each update shows: during a flash of m milliseconds its colour, for m times the update rate in updates (to one update); during a fade a linear blend from its colour back to the base over that time; otherwise the base blended with the breathing colour by a triangle wave of the set frequency, to one rounding step per blend; all scaled by the calibration. Breathing keeps time through flashes, and resetting it shows the base. Each channel's driver gets its own level.",
  ["operation_sequences", "inputs"],
  "Every history of 4 (thorough 5) settings and runs of updates, to just before and just after the end of each flash, for update rates of 60 and 100 Hz, of 3 (4) at 1000 Hz, eight flash times from 0.5 to 4000 ms; all levels with all brightnesses.",
  "It is not tested.",
  ["util/rgbled.hh", "util/oscs.hh", "util/colors.hh"], [("flash counter", "util/rgbled.hh flash_once_ms"), ("choice of colour", "util/rgbled.hh update_animation")],
  EX, "model_checking", N, "One execution = one history; one evaluation = one level and brightness. All distinct; non-trivial: flashing or breathing.",
  [dict(name="c43", src="c43_rgbled.cc", opt="-O2"), dict(name="c43pair", src="pairs.cc", flags=["-DPAIR=43"])], [])
