SW = "Exhaustive enumeration of a bounded input space through the real code against an independent reference"
N = "Complete within the stated bounds on the real code from /repo, with AddressSanitizer. Trusted: compiler, libm, reference implementation in the harness."
P("C24", "Integer and threshold arithmetic is exact over its whole domain",
  "For every input whose result is representable: powers of two are recognised, rounded up (0 if not representable) and logged exactly for every unsigned width; integer powers are exact modulo 2^32; wrapping, dead zones, constraining, range mapping, differences, interpolation (within one step where not whole), saturation, byte swapping and the smallest-integer types equal their mathematical definitions; "
  "the random helper stays in its range and is even; finite and infinite floats are told apart; a hysteresis gate turns on only above the on threshold and off only below the off threshold.",
  ["inputs"],
  "All 8/16-bit values; 32/64-bit values of up to three (64-bit quick: two) ones or runs, complements and neighbours (thorough: all 2^32); all small ranges, widths, centres and values around them; for all eight integer types every pair and triple of values around the powers of two and the type's limits; one in 257 (thorough: all) float bit patterns.",
  "The tests sample a few values; 64-bit values, odd widths, limits and exact thresholds are not tried.",
  ["util/math.hh", "util/cortex_math.hh", "util/smallest_integer.hh"],
  [("bit smearing", "util/math.hh next_power_of_2"), ("repeated range subtraction", "util/math.hh wrap"), ("saturation without ARM instructions", "util/cortex_math.hh")],
  SW, "exploration", N, "One evaluation = one input (all32/allfloat: a block of 65536). All distinct. Non-trivial: input changed by the function or outside the range.",
  [dict(name="c24", src="c24_math.cc", opt="-O2")], ["The input exactly at the off threshold is left open; signed overflow is excluded."])
P("C25", "Table-driven functions approximate the true functions everywhere",
  "Every table entry equals its function; sine and cosine of any moderate argument, negative or many turns away, are within 4e-6 plus the rounding of the argument and never exceed one; the tangent agrees away from its poles; powers of two are exact to a few parts per million from -120 to 120 and go to zero and infinity beyond; pitch multiple and filter frequency clamp and follow their curves.",
  ["inputs"],
  "All 2048 entries of six tables; 120 thousand (thorough 6 million) arguments of both signs over hundreds to thousands of turns; 20 thousand (400 thousand) arguments of the exponential functions.",
  "The tests try positive arguments at a handful of points.",
  ["util/math_tables.cc", "util/math.hh", "util/interp_array.hh"],
  [("wrapped table interpolation", "util/interp_array.hh interp_by_index_wrap"), ("scaling by 32 per unit", "util/math.hh pow2")],
  SW, "exploration", N, "One evaluation = one table index or argument in all functions. All distinct and non-trivial.",
  [dict(name="c25", src="c25_tables.cc", opt="-O2", repo_src=["util/math_tables.cc"])], ["Arguments beyond 2^31 table steps are excluded."])
P("C26", "Table interpolation is exact, wraps and clamps",
  "An interpolation array returns the stored element at every element position and the straight line between neighbours in between; its wrapping forms are periodic for every index or phase, negative or many turns away, with the last element joined to the first; the truncating forms return the element at or before the position. "
  "A lookup table, built or generated, does the same between its end points and returns the end points outside them. Nothing outside the table is read.",
  ["inputs"],
  "Arrays of 1 to 9 elements of three types at all positions in sixteenths of an element from -40 to 40 turns; tables of 2 to 9 points over 35 ranges at all 32nds of a step, three steps beyond either end.",
  "The tests try a few non-negative positions and one generated table at its nodes.",
  ["util/interp_array.hh", "util/lookup_table.hh", "util/lut.hh"], [("index and phase split, wrap", "util/interp_array.hh interp_by_index_wrap"), ("clamped position", "util/lookup_table.hh lookup")],
  SW, "exploration", N, "One evaluation = one position in one table. All distinct; non-trivial: strictly between two elements.",
  [dict(name="c26", src="c26_interp.cc", opt="-O2"), dict(name="c26big", src="big.cc", flags=["-DBIG=26"]), dict(name="c26pair", src="pairs.cc", flags=["-DPAIR=26"])])
