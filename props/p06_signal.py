SW = "Exhaustive enumeration of a bounded input space through the real code against an independent reference"
EX = "Stateless exhaustive exploration of every bounded call history of the real code against an independent reference model"
N = "Complete within the stated bounds on the real code from /repo, with AddressSanitizer. Trusted: compiler, libm, reference model in the harness."
P("C27", "Oscillators keep exact phase and one-shots keep time",
  "After any history of calls, ramp, triangle and sine oscillators output the value of their wave at the sum of all phase steps since the last phase setting, modulo one turn, in integer and float form and within their range; the step follows frequency, period in seconds and period in milliseconds; the count-down decreases by its step, stops at zero and restarts only on reset; "
  "a one-shot is true for its pulse length rounded up to whole updates and false until started again.",
  ["operation_sequences", "inputs"],
  "Every history of 4-5 (thorough 5-6) calls with nine phases, five frequencies, eight periods at two update rates; one in 4099 (thorough 37) of all phases; every one-shot history of 6 (7) calls; pulses and count-downs of hundreds of lengths, and pulses of millions of updates.",
  "One triangle cycle at one frequency and four one-shots are tested; ramps, sines and count-downs are not.",
  ["util/oscs.hh"], [("phase accumulation and folding", "util/oscs.hh TriangleOscillator"), ("remaining-time subtraction", "util/oscs.hh OneShot::update")],
  EX, "model_checking", N, "One execution = one call history (or one phase, pulse, cycle). All distinct; non-trivial: oscillator running away from phase 0, pulse running.",
  [dict(name="c27", src="c27_oscs.cc", opt="-O2", repo_src=["util/math_tables.cc"]), dict(name="c27pair", src="pairs.cc", flags=["-DPAIR=27"], repo_src=["util/math_tables.cc"])],
  ["Zero periods, and steps above half a turn for periods and float frequencies, are excluded. SineOscillator::val(), which unlike the others also advances, is left open."])
P("C28", "Filters compute exactly their mean or bounded step at every input",
  "At every moment a moving average is the truncated mean of its last Size inputs (zeros before the first); an oversampler holds the mean of the last complete block, through resizing, resets and assignment; a hysteresis filter follows its input at the stated distance and ignores smaller moves; a quadratic filter moves by its law and never past the input; "
  "a cascade feeds the first filter on input and the second on reading.",
  ["operation_sequences", "inputs"],
  "Every input sequence of 8-11 (thorough 12-14) values over {0, 1, largest} for sizes 1 to 8; every history of 7 (9) calls of the resizing oversampler; every sequence of 5 (6) of 17 inputs of the one-pole filters; every history of 8 (10) calls of three cascades.",
  "Only one history of the resizing oversampler is tested.",
  ["util/filter.hh"], [("running sum with replacement", "util/filter.hh MovingAverage::add_val"), ("block accumulation", "util/filter.hh Oversampler, ResizingOversampler::set_size"), ("state update", "util/filter.hh NonLinearOnePoleLp")],
  EX, "model_checking", N, "One execution = one call sequence. All distinct; non-trivial: window full, block completed, or partial step taken.",
  [dict(name="c28", src="c28_filters.cc", opt="-O2"), dict(name="c28big", src="big.cc", flags=["-DBIG=28"]), dict(name="c28pair", src="pairs.cc", flags=["-DPAIR=28"])],
  ["Inputs whose sum exceeds the accumulator, size 0 of the resizing oversampler, and quadratic inputs above the divisor are excluded."])
P("C29", "Parameter interpolation reaches its target in the stated number of steps",
  "After any history, a new target leaves the current value unchanged and each following step moves it by an equal share, so that it lies on the straight line after every step and reaches the target after exactly the number of updates in force when the target was set (integers: rounded towards zero, never past it); snapping jumps to the last target.",
  ["operation_sequences", "inputs"],
  "Every history of 4-8 (thorough 5-10) calls over four targets, five update counts and five number types; whole ramps of every length up to 300 (3000).",
  "The tests follow six fixed ramps of one of the three classes.",
  ["util/interp_param.hh"], [("step size fixed when the target is set", "util/interp_param.hh set_new_value"), ("accumulation", "util/interp_param.hh next")],
  EX, "model_checking", N, "One execution = one call history. All distinct; non-trivial: a ramp completed.",
  [dict(name="c29", src="c29_param.cc", opt="-O2"), dict(name="c29big", src="big.cc", flags=["-DBIG=29"]), dict(name="c29pair", src="pairs.cc", flags=["-DPAIR=29"])],
  ["Zero updates and a change of the number of updates in mid-ramp are left open."])
P("C30", "Calibration reproduces its measured points and inverts",
  "A two-point calibration, however it is built, maps both measurements to their targets and everything else along the straight line through them, and the reverse maps back; default calibration changes nothing. "
  "The octave calibrator's slope is that of the latest two measurements of different notes and values, and its offset is the C0 measurement once there is one, otherwise the extrapolation to C0; ignored measurements change nothing and reset forgets everything.",
  ["operation_sequences", "inputs"],
  "All targets and measurements from 9 (thorough 13) values, at 13 points each; slopes, offsets and values in quarters; every history of 4-5 (6-7) measurements of four notes and values, ignored measurements and resets, for four number types.",
  "The tests follow a few fixed calibrations.",
  ["util/calibrator.hh", "util/voct_calibrator.hh"], [("slope and offset from two points", "util/calibrator.hh calibrate_chan"), ("two latest data points", "util/voct_calibrator.hh record_measurement")],
  EX, "model_checking", N, "One execution = one calibration or one measurement history. All distinct; non-trivial: different points giving a slope.",
  [dict(name="c30", src="c30_calib.cc", opt="-O2"), dict(name="c30pair", src="pairs.cc", flags=["-DPAIR=30"])],
  ["Two-point calibrations with equal targets or equal measurements are excluded."])
P("C31", "Audio samples scale, sign-extend and saturate at every level",
  "For every sample format a raw sample sign-extends from its used bits whatever the unused bits hold, scales to its value over full scale within -1 and 1, and returns unchanged when scaled back (up to float precision above 24 bits); "
  "any finite output level converts monotonically to its sample value and saturates at the format's limits, never wrapping; storing a channel changes no other.",
  ["inputs"],
  "Nine signed formats of 6 to 32 bits: all sample values up to 20 bits, every 17th (thorough: all) of 24 bits and one in 4096 (256) beyond, with three fillings of unused bits; thirteen formats at 32769 levels in [-4,4], neighbours of full scale and levels up to 1e9.",
  "One format is tested at about 20 values, none beyond full scale.",
  ["util/audio_frame.hh", "util/cortex_math.hh"], [("bit-field sign extension", "util/audio_frame.hh sign_extend"), ("saturating conversion", "util/audio_frame.hh scaleOutput")],
  SW, "exploration", N, "One evaluation = one sample value or level. All distinct; non-trivial: not zero.",
  [dict(name="c31", src="c31_audio.cc", opt="-O2")],
  ["Input scaling of unsigned formats and levels that are not finite are left open."])
