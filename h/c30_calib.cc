// C30: calibration; two-point fits over a grid and every short measurement history.
#include "mc.hh"
#include <cmath>
#include <cstdint>
#include <type_traits>
#include <utility>
#include <vector>
#include "util/calibrator.hh"
#include "util/voct_calibrator.hh"

static bool close(double a, double b, double scale, double tol = 4e-6) {
	return std::fabs(a - b) <= tol * (1 + std::fabs(scale));
}
static void fit(const Calibrator &c, double t0, double t1, double m0, double m1, const char *how) {
	double sc = std::fabs(t0) + std::fabs(t1), slope = (t1 - t0) / (m1 - m0);
	// error of the offset is magnified by the slope
	double big = sc + std::fabs(slope) * (std::fabs(m0) + std::fabs(m1) + 1);
	for (int k = -4; k <= 8; k++) {
		double raw = m0 + (m1 - m0) * k / 4, want = t0 + (t1 - t0) * k / 4;
		float got = c.adjust(float(raw));
		MC_CHECK(close(got, want, big), "%s with targets %g,%g at %g,%g: adjust(%g) is %g, expected %g", how, t0, t1, m0, m1, raw, double(got), want);
		float back = c.reverse_calibrate(float(want));
		MC_CHECK(close(back, raw, std::fabs(m0) + std::fabs(m1) + sc / std::fabs(slope)), "%s with targets %g,%g at %g,%g: reverse_calibrate(%g) is %g, expected %g", how, t0, t1, m0, m1, want, double(back), raw);
	}
	MC_CHECK(close(c.slope(), slope, slope), "%s: slope %g, expected %g", how, double(c.slope()), slope);
}
template<class T>
static void voct(mc::Ctx &c, int depth) {
	using V = VoctCalibrator<T>;
	using Note = typename V::Note;
	mc::Arena<V> a;
	V &v = a.make(0xA5);
	T offset = 0, slope = 0;
	bool c0 = false;
	std::vector<std::pair<int, T>> last;
	MC_CHECK(v.offset() == T(0) && v.slope() == T(0), "a new calibrator is not zero");
	for (int d = 0; d < depth; d++) {
		int op = int(c.choose(6));
		if (op == 5) {
			c.log("reset");
			v.reset();
			offset = slope = 0;
			c0 = false;
			last.clear();
		} else if (op == 4) {
			c.log("record None");
			v.record_measurement(V::None, T(77));
		} else {
			static const int NT[] = {0, 1, 3, 10};
			static const int MS[] = {20, 1060, -840, 2055};
			int note = NT[op];
			T m = T(MS[c.choose(4)]);
			c.log("record C%d = %g", note, double(m));
			v.record_measurement(Note(note), m);
			if (note == 0) {
				c0 = true;
				offset = m;
			}
			last.push_back({note, m});
			if (last.size() > 2)
				last.erase(last.begin());
			if (last.size() == 2) {
				auto [n0, m0] = last[0];
				auto [n1, m1] = last[1];
				if (n0 != n1 && m0 != m1) {
					slope = T(T(m1 - m0) / T(n1 - n0));
					c.nontrivial();
				}
				if (!c0) {
					T o0 = T(m0 - slope * n0), o1 = T(m1 - slope * n1);
					offset = T((o0 + o1) / 2);
				}
			}
		}
		auto same = [](T x, T y) { return std::is_integral_v<T> ? x == y : std::fabs(double(x) - double(y)) <= 1e-6 * (1000 + std::fabs(double(y))); };
		MC_CHECK(same(v.slope(), slope), "slope is %g, expected %g", double(v.slope()), double(slope));
		MC_CHECK(same(v.offset(), offset), "offset is %g, expected %g", double(v.offset()), double(offset));
		if (c0 && !last.empty())
			MC_CHECK(same(v.offset(), offset), "offset is %g, C0 measured at %g", double(v.offset()), double(offset));
	}
}
template<class T>
static void rv(const char *n, int q, int t) {
	mc::Reg(n, [=](mc::Job &j) {
		int depth = j.tier(q, t);
		j.note(mc::fmt("%s: every history of %d measurements (4 notes, 4 values), ignored measurements and resets", n, depth));
		j.explore({}, [=](mc::Ctx &c) { voct<T>(c, depth); });
	});
}
static int init = [] {
	mc::Reg("two-point", [](mc::Job &j) {
		int N = j.tier(9, 13);
		j.note("two-point: every pair of different targets and of different measurements on a grid, all four ways to build, at and around the points, and back");
		static const double V[] = {0, 1, -1, 0.22, -0.46, 3, 10, -32768, 8388607, 0.001, 100, -7.5, 65535};
		uint64_t n = uint64_t(N);
		j.sweep(0, n * n * n * n, [&](uint64_t i) {
			double t0 = V[i % n], t1 = V[i / n % n], m0 = V[i / n / n % n], m1 = V[i / n / n / n];
			if (t0 == t1 || m0 == m1)
				return false;
			Calibrator a;
			a.calibrate_chan(float(t0), float(t1), float(m0), float(m1));
			fit(a, float(t0), float(t1), float(m0), float(m1), "calibrate_chan");
			Calibrator b;
			b.set_slope_offset(17, 23);
			b.calibrate_chan({float(t0), float(t1)}, {float(m0), float(m1)});
			fit(b, float(t0), float(t1), float(m0), float(m1), "calibrate_chan of pairs");
			fit(Calibrator{{float(t0), float(t1)}, {float(m0), float(m1)}}, float(t0), float(t1), float(m0), float(m1), "constructor");
			Calibrator d;
			d.set_slope_offset(a.slope(), a.offset());
			fit(d, float(t0), float(t1), float(m0), float(m1), "set_slope_offset");
			return true;
		});
	});
	mc::Reg("slope-offset", [](mc::Job &j) {
		j.note("slope-offset: slopes and offsets in quarters, all values in quarters, exact");
		j.sweep(0, 33 * 33 * 65, [](uint64_t i) {
			float s = float(int(i % 33) - 16) / 4, o = float(int(i / 33 % 33) - 16) / 4, x = float(int(i / 33 / 33) - 32) / 4;
			Calibrator c{s, o}, d;
			d.set_slope_offset(s, o);
			MC_CHECK(c.slope() == s && c.offset() == o && d.slope() == s && d.offset() == o, "slope/offset do not read back");
			MC_CHECK(c.adjust(x) == (x - o) * s && d.adjust(x) == (x - o) * s, "slope %g offset %g: adjust(%g) is %g", double(s), double(o), double(x), double(c.adjust(x)));
			if (s != 0)
				MC_CHECK(close(c.reverse_calibrate(c.adjust(x)), x, 0) && close(c.adjust(c.reverse_calibrate(x)), x, 0, 2e-5), "slope %g offset %g: %g does not come back", double(s), double(o), double(x));
			Calibrator e;
			MC_CHECK(e.adjust(x) == x && e.reverse_calibrate(x) == x, "the default calibration changes %g", double(x));
			return s != 1;
		});
	});
	rv<int16_t>("voct-int16", 5, 7);
	rv<int32_t>("voct-int32", 5, 6);
	rv<float>("voct-float", 5, 6);
	rv<double>("voct-double", 4, 6);
	return 0;
}();
