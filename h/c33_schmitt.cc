// C33: Schmitt triggers to closure; signal statistics over every short input history.
#include "mc.hh"
#include <algorithm>
#include <cmath>
#include "util/schmitt_trigger.hh"
#include "util/analyzed_signal.hh"

struct Thr {
	float low, high;
	bool dflt;
};
static const Thr THR[] = {{0.4f, 0.6f, true}, {0.25f, 0.75f, false}, {-1.f, 1.f, false}, {0.5f, 0.5f, false}, {0.f, 0.125f, false}};
static float level(const Thr &t, int k) {
	const float V[] = {t.low - 10, std::nextafterf(t.low, -100.f), t.low, (t.low + t.high) / 2, t.high, std::nextafterf(t.high, 100.f), t.high + 10};
	return V[k];
}
struct Schmitt {
	Thr t;
	mc::Arena<cpputil::SchmittTrigger> a;
	mc::Arena<cpputil::RisingSchmittTrigger> r;
	bool high = false, rise = false, fall = false, rhigh = false;
	Schmitt(Thr t)
		: t(t) {
		if (t.dflt)
			a.make(0xA5), r.make(0xA5);
		else
			a.make(0xA5, t.low, t.high), r.make(0xA5, t.low, t.high);
	}
	int nops() {
		return 7 + 9;
	}
	std::string opname(int o) {
		static const char *n[] = {"just_went_high", "just_went_low", "is_just_pressed", "is_just_released", "clear_events", "reset", "register_state(1)", "register_state(0)", "set_state_no_events(1)"};
		return o < 7 ? mc::fmt("process(%.9g)", double(level(t, o))) : n[o - 7];
	}
	bool apply(int o) {
		auto &s = a.get();
		if (o < 7) {
			float v = level(t, o);
			s.process(v);
			bool edge = false;
			if (!high && v > t.high)
				high = true, rise = true, fall = false;
			else if (high && v < t.low)
				high = false, fall = true, rise = false;
			if (!rhigh && v > t.high)
				rhigh = edge = true;
			else if (rhigh && v < t.low)
				rhigh = false;
			bool got = r.get().update(v);
			MC_CHECK(got == edge, "rising trigger: update(%.9g) returned %d", double(v), got);
		} else
			switch (o - 7) {
				case 0:
				case 2: {
					bool g = o == 7 ? s.just_went_high() : s.is_just_pressed();
					MC_CHECK(g == rise, "rising event reported %d, expected %d", g, rise);
					rise = false;
					break;
				}
				case 1:
				case 3: {
					bool g = o == 8 ? s.just_went_low() : s.is_just_released();
					MC_CHECK(g == fall, "falling event reported %d, expected %d", g, fall);
					fall = false;
					break;
				}
				case 4:
					s.clear_events();
					rise = fall = false;
					break;
				case 5:
					s.reset();
					high = rise = fall = false;
					break;
				case 6:
				case 7: {
					bool n = o == 13;
					s.register_state(n);
					if (n != high)
						(n ? rise : fall) = true;
					high = n;
					break;
				}
				case 8:
					s.set_state_no_events(1);
					high = true;
					break;
			}
		MC_CHECK(s.is_high() == high && s.is_pressed() == high && bool(s) == high, "state is %d, expected %d", s.is_high(), high);
		return true;
	}
	void key(mc::Hash &h) {
		h.bytes(a.mem, sizeof a.mem);
		h.bytes(r.mem, sizeof r.mem);
		h.u64(high | rise << 1 | fall << 2 | rhigh << 3);
	}
};
// every step sequence: the implementation's key could alias; enumerate plain sequences too
static void seqs(mc::Ctx &c, Thr t, int depth) {
	Schmitt s(t);
	for (int i = 0; i < depth; i++) {
		int o = int(c.choose(9));
		c.log("%s", s.opname(o).c_str());
		s.apply(o);
		if (s.high)
			c.nontrivial();
	}
}
template<class S>
static void sig(mc::Ctx &c, S &s, double coef, int depth) {
	static const float V[] = {-8.f, -1.f, 0.f, 4.f};
	double mn = INFINITY, mx = -INFINITY, iir = 0;
	bool any = false;
	for (int d = 0; d < depth; d++) {
		int o = int(c.choose(8));
		float v = V[o % 4];
		if (o < 4) {
			c.log("update %g", double(v));
			s.update(v);
			mn = std::min(mn, double(v));
			mx = std::max(mx, double(v));
			iir += coef * (double(v) - iir);
			c.nontrivial();
		} else {
			c.log("reset_to %g", double(v));
			s.reset_to(v);
			mn = mx = iir = double(v);
			MC_CHECK(s.avg == v, "average after reset_to(%g) is %g", double(v), double(s.avg));
		}
		any = true;
		MC_CHECK(double(s.min) == mn && double(s.max) == mx, "minimum %g maximum %g, expected %g and %g", double(s.min), double(s.max), mn, mx);
		MC_CHECK(std::fabs(double(s.iir) - iir) <= 2e-6 * 10, "filtered value %.9g, expected %.9g", double(s.iir), iir);
	}
	(void)any;
}
template<class T>
static void peak(mc::Ctx &c, int depth) {
	static const int V[] = {0, 1, -1, 100, -100};
	mc::Arena<PeakMeter<T>> a;
	auto &p = a.make(0xA5);
	T mn{}, mx{};
	bool any = false;
	for (int d = 0; d < depth; d++) {
		int o = int(c.choose(8));
		if (o == 7) {
			c.log("reset");
			p.reset();
			any = false;
		} else {
			T v = o < 5 ? T(V[o]) : o == 5 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
			c.log("update %g", double(v));
			p.update(v);
			mn = any ? std::min(mn, v) : v;
			mx = any ? std::max(mx, v) : v;
			any = true;
			c.nontrivial();
		}
		if (any)
			MC_CHECK(p.min == mn && p.max == mx, "minimum %g maximum %g, expected %g and %g", double(p.min), double(p.max), double(mn), double(mx));
	}
}
template<class F>
static void ex(const std::string &n, const char *what, int q, int t, F f) {
	mc::Reg(n, [=](mc::Job &j) {
		int depth = j.tier(q, t);
		j.note(mc::fmt("%s: %s, every history of %d calls", n.c_str(), what, depth));
		j.explore({}, [=](mc::Ctx &c) { f(c, depth); });
	});
}
static int init = [] {
	for (int k = 0; k < 5; k++) {
		mc::Reg(mc::fmt("trigger%d", k), [=](mc::Job &j) { j.bfs<Schmitt>({.depth = 40}, [=] { return std::make_unique<Schmitt>(THR[k]); }); });
		ex(mc::fmt("trigger-seq%d", k), "seven input levels at and around the thresholds, two reads", 5, 7, [=](mc::Ctx &c, int d) { seqs(c, THR[k], d); });
	}
	ex("signal-half", "coefficient 1/2, four inputs, four resets", 6, 7, [](mc::Ctx &c, int d) {
		mc::Arena<AnalyzedSignal<2>> a;
		sig(c, a.make(0xA5), 0.5, d);
	});
	ex("signal-100", "coefficient 1/100, four inputs, four resets", 6, 7, [](mc::Ctx &c, int d) {
		mc::Arena<AnalyzedSignal<100>> a;
		sig(c, a.make(0xA5), 0.01, d);
	});
	ex("signal-any", "coefficient 3/4, four inputs, four resets", 6, 7, [](mc::Ctx &c, int d) {
		mc::Arena<AnalyzedSig> a;
		sig(c, a.make(0xA5, 0.75f), 0.75, d);
	});
	mc::Reg("signal-extreme", [](mc::Job &j) {
		j.note("signal-extreme: minimum and maximum over every sequence of four samples from the whole range of floats");
		static const float V[] = {0.f, -0.5f, 1e-30f, -1e-38f, 3e9f, -3e9f, 1e20f, -1e20f, std::numeric_limits<float>::max(), std::numeric_limits<float>::lowest()};
		j.sweep(0, 10000, [](uint64_t i) {
			AnalyzedSignal<4> s;
			AnalyzedSig t{0.5f};
			float mn = 0, mx = 0;
			for (int k = 0; k < 4; k++, i /= 10) {
				float v = V[i % 10];
				s.update(v);
				t.update(v);
				mn = k ? std::min(mn, v) : v;
				mx = k ? std::max(mx, v) : v;
				MC_CHECK(s.min == mn && s.max == mx && t.min == mn && t.max == mx, "after %d samples ending in %g: minimum %g maximum %g, expected %g and %g", k + 1, double(v), double(s.min), double(s.max), double(mn), double(mx));
			}
			return true;
		});
	});
	mc::Reg("signal-wide", [](mc::Job &j) {
		j.note("signal-wide: first and second samples at every whole number from -70000 to 70000 and around every power of two");
		j.sweep(0, 140001 + 2 * 24 * 7, [](uint64_t i) {
			int64_t k = int64_t(i) - 140001;
			float v = k < 0 ? float(int64_t(i) - 70000) : float((k & 1 ? -1 : 1) * (int64_t(1) << (k / 14)) + k / 2 % 7 - 3);
			for (int d = -1; d <= 1; d++) {
				float w = v + float(d);
				AnalyzedSig s{0.5f};
				PeakMeter<int> pm;
				s.update(v), s.update(w), pm.update(int(v)), pm.update(int(w));
				MC_CHECK(s.min == std::min(v, w) && s.max == std::max(v, w) && pm.min == std::min(int(v), int(w)) && pm.max == std::max(int(v), int(w)), "minimum and maximum of %g and %g are %g and %g, %d and %d", double(v),
						 double(w), double(s.min), double(s.max), pm.min, pm.max);
				double iir = 0.5 * v + 0.5 * (w - 0.5 * v);
				MC_CHECK(std::fabs(double(s.iir) - iir) <= 1e-6 * (1 + std::fabs(iir)) && s.avg == s.iir, "after %g and %g the filtered value is %.9g, expected %.9g", double(v), double(w), double(s.iir), iir);
				s.reset_to(v);
				MC_CHECK(s.min == v && s.max == v && s.iir == v && s.avg == v, "reset_to(%g) leaves %g %g %g", double(v), double(s.min), double(s.max), double(s.iir));
			}
			return true;
		});
	});
	ex("peak-float", "", 6, 7, [](mc::Ctx &c, int d) { peak<float>(c, d); });
	ex("peak-int", "", 6, 7, [](mc::Ctx &c, int d) { peak<int>(c, d); });
	ex("peak-int8", "", 6, 7, [](mc::Ctx &c, int d) { peak<int8_t>(c, d); });
	ex("peak-unsigned", "", 6, 7, [](mc::Ctx &c, int d) { peak<unsigned>(c, d); });
	ex("peak-double", "", 6, 7, [](mc::Ctx &c, int d) { peak<double>(c, d); });
	return 0;
}();
