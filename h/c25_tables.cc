// C25: tables and the functions built on them, against libm in double precision.
#include "mc.hh"
#include <cmath>
#include "util/math.hh"
namespace MT = MathTools;
static const double PI = 3.14159265358979323846;

static void near(double got, double want, double rel, double abs_, const char *what, double x) {
	MC_CHECK(std::isfinite(got) && std::fabs(got - want) <= rel * std::fabs(want) + abs_, "%s(%.9g) is %.9g, expected %.9g", what, x, got, want);
}
// x in a list of exactly representable multiples of 2^-k
static int init = [] {
	mc::Reg("entries", [](mc::Job &j) {
		j.note("entries: all 2048 entries of all six tables");
		j.sweep(0, 2048, [&](uint64_t u) {
			unsigned i = unsigned(u);
			double x = double(i) / 2047;
			near(sinTable[i], std::sin(2 * PI * i / 2048), 0, 1e-6, "sinTable entry", i);
			if (i != 1024)
				near(tanTable[i], std::tan(PI * i / 2048), 1e-4, 1e-6, "tanTable entry", i);
			else
				MC_CHECK(std::fabs(tanTable[i]) > 1e6f, "tanTable has no pole at its middle");
			near(exp5Table[i], std::exp2(5 * x), 1e-6, 1e-6, "exp5Table entry", i);
			near(exp10Table[i], std::exp2(10 * x), 2e-6, 2e-6, "exp10Table entry", i);
			near(pow9Table[i], std::pow(x, 8.8), 1e-4, 1.2e-6, "pow9Table entry", i);
			near(logTable[i], std::log(20 + 19980 * x), 1e-6, 2e-6, "logTable entry", i);
			if (i) {
				MC_CHECK(exp5Table[i] > exp5Table[i - 1] && exp10Table[i] > exp10Table[i - 1] && logTable[i] > logTable[i - 1] && pow9Table[i] >= pow9Table[i - 1],
						 "a table is not monotone at entry %u", i);
			}
			return true;
		});
	}, 3);
	mc::shards("circle", 4, [](mc::Job &j, int s, int n) {
		int64_t R = j.tier(60000, 3000000);
		j.note("circle: sine and cosine at evenly spaced arguments from -R/100 to R/100 (R = 60000, thorough 3000000), i.e. both signs and many turns");
		j.sweep(uint64_t(2 * R + 1) * s / n, uint64_t(2 * R + 1) * (s + 1) / n, [&](uint64_t u) {
			float x = float(int64_t(u) - R) * 0.01f;
			double ax = std::fabs(double(x)), tol = 4e-6 + ax * 4e-7;
			near(MT::sin(x), std::sin(double(x)), 0, tol, "sin", x);
			near(MT::cos(x), std::cos(double(x)), 0, tol, "cos", x);
			near(MT::cos_close(x), std::cos(double(x)), 0, tol + 2 * PI / 2048, "cos_close", x);
			float y = float(int64_t(u) - R) / 4096;
			near(MT::sin01(y), std::sin(2 * PI * double(y)), 0, 4e-6 + std::fabs(double(y)) * 1e-9, "sin01", y);
			MC_CHECK(std::fabs(MT::sin(x)) <= 1.f && std::fabs(MT::cos(x)) <= 1.f && std::fabs(MT::sin01(y)) <= 1.f, "sine above one at %g", double(x));
			// tangent, away from its poles
			double t = std::fabs(std::remainder(double(x) - PI / 2, PI));
			if (t > 0.1 + ax * 1e-6) {
				near(MT::tan(x), std::tan(double(x)), 2e-3, 1e-5 + ax * 4e-5, "tan", x);
				near(MT::tan_close(x), std::tan(double(x)), 0.04, 0.01 + ax * 4e-5, "tan_close", x);
			}
			return true;
		});
	}, 3);
	mc::Reg("powers", [](mc::Job &j) {
		int64_t N = j.tier(20000, 400000);
		j.note("powers: pow2 on [-120,120] and beyond the range of floats on both sides, setPitchMultiple on [-2,2], audioFreqToNorm on [0,30000], at evenly spaced arguments");
		j.sweep(0, uint64_t(N) + 1, [&](uint64_t u) {
			float f = float(double(u) / double(N));
			float x = -120 + 240 * f;
			near(MT::pow2(x), std::exp2(double(x)), 3e-6 + 3e-7 * std::fabs(double(x)), 0, "pow2", x);
			float p = -2 + 4 * f;
			double pc = p > 1 ? 1 : p < -1 ? -1 : double(p);
			near(MT::setPitchMultiple(p), std::exp2(5 * pc), 5e-6, 0, "setPitchMultiple", p);
			float h = 30000 * f;
			double hc = h < 20 ? 20 : h > 20000 ? 20000 : double(h);
			near(MT::audioFreqToNorm(h), (std::log(hc) - std::log(20.)) / (std::log(20000.) - std::log(20.)), 1e-5, 0.012 , "audioFreqToNorm", h);
			return true;
		});
		j.sweep(uint64_t(N) + 1, uint64_t(N) + 242, [&](uint64_t u) {
			float x = float(int64_t(u - uint64_t(N) - 1) - 120);
			near(MT::pow2(x), std::exp2(double(x)), 4e-6 + 1e-7 * std::fabs(double(x)), 0, "pow2", x);
			return true;
		});
		// out to the limits of float and beyond: to zero below, to infinity above
		uint64_t at = uint64_t(N) + 242;
		j.sweep(at, at + 2 * 4096, [&](uint64_t u) {
			u -= at;
			unsigned k = unsigned(u / 2);
			float x = k < 2048 ? 120.f + float(k) / 64 : std::ldexp(1.f + float(k % 32) / 32, 7 + int(k - 2048) / 32 * 2);
			if (k == 4095)
				x = std::numeric_limits<float>::infinity();
			if (u & 1)
				x = -x;
			float g = MT::pow2(x);
			double w = std::exp2(double(x));
			if (x >= 128)
				MC_CHECK(g == std::numeric_limits<float>::infinity(), "pow2(%g) is %g", double(x), double(g));
			else
				MC_CHECK(std::fabs(double(g) - w) <= w * 5e-5 + 4.6e-44, "pow2(%g) is %g, exact %g", double(x), double(g), w);
			return true;
		});
	}, 3);
	return 0;
}();
