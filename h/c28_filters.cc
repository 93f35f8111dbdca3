// C28: filters; every short input sequence (interleaved with reads, resizes and resets) against exact references.
#include "mc.hh"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include "util/filter.hh"

// moving average: mean of the last Size inputs, truncated; zeros before the first
template<unsigned S, class T>
static void mavg(mc::Ctx &c, int depth, unsigned top, unsigned mid = 0) {
	using F = MovingAverage<S, T, 12>;
	mc::Arena<F> a;
	F &f = a.make(0xA5);
	std::vector<unsigned> in;
	MC_CHECK(f.val() == 0, "a new MovingAverage is not zero");
	for (int d = 0; d < depth; d++) {
		const unsigned V[] = {0, 1, top};
		unsigned v = mid ? unsigned(c.choose(mid)) : V[c.choose(3)];
		in.push_back(v);
		uint64_t sum = 0;
		for (size_t k = in.size() > S ? in.size() - S : 0; k < in.size(); k++)
			sum += in[k];
		c.log("add %u", v);
		T r = f.add_val(T(v));
		MC_CHECK(r == T(sum / S) && f.val() == r, "MovingAverage<%u> after %zu inputs returns %u (val %u), expected %llu", S, in.size(), unsigned(r), unsigned(f.val()),
				 (unsigned long long)(sum / S));
		if (in.size() > S)
			c.nontrivial();
	}
}
// oversamplers: hold the mean of the last complete block
template<unsigned S, class F, bool Float>
static void over(mc::Ctx &c, int depth, unsigned top, unsigned mid = 0) {
	mc::Arena<F> a;
	F &f = a.make(0xA5);
	uint64_t sum = 0;
	unsigned n = 0;
	double held = 0;
	MC_CHECK(double(f.val()) == 0, "a new oversampler is not zero");
	for (int d = 0; d < depth; d++) {
		const unsigned V[] = {0, 1, top};
		unsigned v = mid ? unsigned(c.choose(mid)) : V[c.choose(3)];
		c.log("add %u", v);
		sum += v;
		if (++n == S) {
			held = Float ? double(sum) / S : double(sum / S);
			sum = n = 0;
			c.nontrivial();
		}
		double r = double(f.add_val(v));
		MC_CHECK(r == double(f.val()), "add_val and val disagree");
		MC_CHECK(Float ? std::fabs(r - held) <= held * 2e-7 : r == held, "oversampler<%u> returns %.9g, expected %.9g", S, r, held);
	}
}
// resizing oversampler; sums of small dyadic numbers are exact
static void resize(mc::Ctx &c, int depth) {
	mc::Arena<ResizingOversampler> a, b;
	unsigned size = 1;
	int k = int(c.choose(4));
	if (k == 0)
		a.make(0xA5);
	else
		a.make(0xA5, size = unsigned(k + 1));
	c.log("size %u", size);
	double sum = 0, held = 0;
	unsigned n = 0;
	int ser = 0;
	for (int d = 0; d < depth; d++) {
		auto &f = a.get();
		switch (c.choose(4)) {
			case 0: {
				float v = float(++ser) * (ser & 1 ? 0.5f : -1.25f);
				c.log("add %g", double(v));
				sum += double(v);
				if (++n >= size) {
					held = double(float(sum) / float(size));
					sum = n = 0;
					c.nontrivial();
				}
				float r = f.add_val(v);
				MC_CHECK(std::fabs(double(r) - held) <= std::fabs(held) * 2e-7, "add_val returns %.9g, expected %.9g", double(r), held);
				break;
			}
			case 1: {
				static const unsigned S[] = {1, 2, 3, 5};
				unsigned s = S[c.choose(4)];
				c.log("set_size %u", s);
				f.set_size(s);
				if (n >= s) {
					held = double(float(sum) / float(n));
					sum = n = 0;
				}
				size = s;
				break;
			}
			case 2:
				c.log("reset");
				f.reset();
				sum = held = n = 0;
				break;
			case 3: { // assignment carries everything over
				c.log("assign to another");
				auto &o = b.make(0x3C, 7u);
				o.add_val(100);
				o = f;
				auto &me = o;
				o = me;
				a.make(0x77);
				a.get() = o;
				break;
			}
		}
		MC_CHECK(std::fabs(double(a.get().val()) - held) <= std::fabs(held) * 2e-7, "val() is %.9g, expected %.9g", double(a.get().val()), held);
	}
}
static float dyad(mc::Ctx &c, int n, float unit) {
	return float(int(c.choose(2 * n + 1)) - n) * unit;
}
template<class F, class Step>
static void onepole(mc::Ctx &c, int depth, int n, float unit, Step step, double tol) {
	mc::Arena<F> a;
	F &f = a.make(0xA5);
	double s = 0;
	MC_CHECK(f.val() == 0.f, "a new filter is not zero");
	for (int d = 0; d < depth; d++) {
		float v = dyad(c, n, unit);
		double old = s;
		s = s + step(double(v) - s);
		float r = f.add_val(v);
		c.log("add %g -> %g", double(v), double(r));
		MC_CHECK(f.val() == r && std::fabs(double(r) - s) <= tol, "filter returns %.9g (val %.9g), expected %.9g", double(r), double(f.val()), s);
		// never leaves the interval between the old state and the input
		double lo = std::min(old, double(v)) - tol, hi = std::max(old, double(v)) + tol;
		MC_CHECK(double(r) >= lo && double(r) <= hi, "filter overshoots: from %g towards %g it goes to %g", old, double(v), double(r));
		if (s != old && s != double(v))
			c.nontrivial();
	}
}
// a filter that remembers everything, to see what a cascade feeds
struct Spy {
	unsigned s = 1;
	unsigned add_val(unsigned v) {
		return s = s * 31 + v;
	}
	unsigned val() {
		return s;
	}
};
template<class A, class B, class T>
static void cascade(mc::Ctx &c, int depth) {
	mc::Arena<CascadingFilter<T, A, B>> ar;
	auto &f = ar.make(0xA5);
	A a{};
	B b{};
	for (int d = 0; d < depth; d++) {
		int op = int(c.choose(4));
		if (op < 3) {
			T v = T(op * 5);
			T want = a.add_val(v), got = f.add_val(v);
			c.log("add %d", op * 5);
			MC_CHECK(got == want, "cascade add_val returns %u, the first filter gives %u", unsigned(got), unsigned(want));
		} else {
			T want = b.add_val(a.val()), got = f.val();
			c.log("val");
			MC_CHECK(got == want, "cascade val returns %u, expected %u", unsigned(got), unsigned(want));
			c.nontrivial();
		}
	}
}
template<class F>
static void ex(const char *n, const char *what, int q, int t, F f) {
	mc::Reg(n, [=](mc::Job &j) {
		int depth = j.tier(q, t);
		j.note(mc::fmt("%s: %s, every sequence of %d calls", n, what, depth));
		j.explore({}, [=](mc::Ctx &c) { f(c, depth); });
	});
}
static int init = [] {
	ex("avg1", "moving average of 1, inputs 0, 1, 4095", 9, 13, [](mc::Ctx &c, int d) { mavg<1, unsigned>(c, d, 4095); });
	ex("avg2", "moving average of 2", 10, 13, [](mc::Ctx &c, int d) { mavg<2, unsigned>(c, d, 4095); });
	ex("avg4", "moving average of 4, 16-bit", 11, 14, [](mc::Ctx &c, int d) { mavg<4, uint16_t>(c, d, 4095); });
	ex("avg8", "moving average of 8, 8-bit", 11, 14, [](mc::Ctx &c, int d) { mavg<8, uint8_t>(c, d, 255); });
	ex("avg2-small", "moving average of 2, inputs 0..5", 7, 8, [](mc::Ctx &c, int d) { mavg<2, unsigned>(c, d, 0, 6); });
	ex("avg4-small", "moving average of 4, inputs 0..3", 9, 11, [](mc::Ctx &c, int d) { mavg<4, unsigned>(c, d, 0, 4); });
	ex("avg8-small", "moving average of 8, inputs 0..1", 18, 21, [](mc::Ctx &c, int d) { mavg<8, uint16_t>(c, d, 0, 2); });
	ex("over2-small", "oversampler of 2, inputs 0..5", 7, 8, [](mc::Ctx &c, int d) { over<2, Oversampler<2>, false>(c, d, 0, 6); });
	ex("over4-small", "oversampler of 4, inputs 0..3", 9, 11, [](mc::Ctx &c, int d) { over<4, Oversampler<4>, false>(c, d, 0, 4); });
	ex("smooth3-small", "smooth oversampler of 3, inputs 0..3", 9, 11, [](mc::Ctx &c, int d) { over<3, SmoothOversampler<3>, true>(c, d, 0, 4); });
	ex("over1", "oversampler of 1", 8, 12, [](mc::Ctx &c, int d) { over<1, Oversampler<1>, false>(c, d, 4095); });
	ex("over2", "oversampler of 2", 10, 13, [](mc::Ctx &c, int d) { over<2, Oversampler<2, uint16_t>, false>(c, d, 4095); });
	ex("over4", "oversampler of 4", 11, 14, [](mc::Ctx &c, int d) { over<4, Oversampler<4>, false>(c, d, 0x3FFFFFFF); });
	ex("smooth1", "smooth oversampler of 1", 8, 12, [](mc::Ctx &c, int d) { over<1, SmoothOversampler<1>, true>(c, d, 4095); });
	ex("smooth3", "smooth oversampler of 3", 11, 14, [](mc::Ctx &c, int d) { over<3, SmoothOversampler<3>, true>(c, d, 4095); });
	ex("smooth5", "smooth oversampler of 5", 11, 14, [](mc::Ctx &c, int d) { over<5, SmoothOversampler<5>, true>(c, d, 4095); });
	ex("resize", "resizing oversampler: inputs, sizes 1, 2, 3, 5, reset, assignment", 7, 9, [](mc::Ctx &c, int d) { resize(c, d); });
	ex("hyst", "hysteresis filter of 1/4, inputs -2..2 in quarters", 5, 6, [](mc::Ctx &c, int d) {
		onepole<HysteresisFilter<1, 4>>(c, d, 8, 0.25f, [](double x) { return x > .25 ? x - .25 : x < -.25 ? x + .25 : 0; }, 0);
	});
	ex("hyst-eighths", "hysteresis filter of 3/8, inputs -1..1 in eighths", 5, 6, [](mc::Ctx &c, int d) {
		onepole<HysteresisFilter<3, 8>>(c, d, 8, 0.125f, [](double x) { return x > .375 ? x - .375 : x < -.375 ? x + .375 : 0; }, 0);
	});
	ex("quad", "quadratic one-pole of divisor 4, inputs -2..2 in quarters", 5, 6, [](mc::Ctx &c, int d) {
		onepole<QuadraticOnePoleLp<4>>(c, d, 8, 0.25f, [](double x) { return std::fabs(x) * x / 4; }, 1e-5);
	});
	ex("quad-4095", "quadratic one-pole of divisor 4095, inputs -2000..2000", 5, 6, [](mc::Ctx &c, int d) {
		onepole<QuadraticOnePoleLp<4095>>(c, d, 8, 250.f, [](double x) { return std::fabs(x) * x / 4095; }, 1e-2);
	});
	mc::Reg("one-pole-state", [](mc::Job &j) {
		j.note("one-pole-state: filters built with an initial value, all pairs of value and input on a grid");
		j.sweep(0, 41 * 41, [](uint64_t i) {
			float s = float(int(i % 41) - 20) / 4, v = float(int(i / 41) - 20) / 4;
			NonLinearOnePoleLp<float, TransferHysteresis<1, 2>> f{s};
			MC_CHECK(f.val() == s, "initial value %g is not kept", double(s));
			float d = v - s, w = d > .5f ? v - .5f : d < -.5f ? v + .5f : s;
			MC_CHECK(f.add_val(v) == w && f.val() == w, "from %g with input %g: %g, expected %g", double(s), double(v), double(f.val()), double(w));
			return w != s;
		});
	});
	ex("none", "no filter", 6, 8, [](mc::Ctx &c, int d) {
		mc::Arena<NoFilter<unsigned>> a;
		auto &f = a.make(0xA5);
		unsigned last = 0;
		for (int i = 0; i < d; i++) {
			if (c.flip()) {
				last = unsigned(i * 7 + 1);
				MC_CHECK(f.add_val(last) == last, "add_val");
			}
			MC_CHECK(f.val() == last, "val");
		}
	});
	ex("cascade-spy", "cascade of two order-sensitive stand-ins", 8, 10, [](mc::Ctx &c, int d) { cascade<Spy, Spy, unsigned>(c, d); });
	ex("cascade-avg", "cascade of an average of 2 and of 4", 8, 10, [](mc::Ctx &c, int d) { cascade<MovingAverage<2>, MovingAverage<4>, unsigned>(c, d); });
	ex("cascade-over", "cascade of an oversampler and an average", 8, 10, [](mc::Ctx &c, int d) { cascade<Oversampler<2>, MovingAverage<2>, unsigned>(c, d); });
	return 0;
}();
