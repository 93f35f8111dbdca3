// C27: oscillators and one-shots; every short history of calls and every phase against 64-bit references.
#include "mc.hh"
#include <cmath>
#include "util/oscs.hh"

static const uint32_t PH[] = {0, 1, 0x3FFFFFFF, 0x40000000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xC0000000, 0xFFFFFFFF};
static const uint32_t FR[] = {0, 1, 3, 50, 1000};
static const double PI2 = 6.283185307179586;

static uint32_t fold(uint32_t ph) { // 0 -> 0, 2^31 -> top, 2^32 -> 0
	return ph < 0x80000000u ? ph * 2 : 0xFFFFFFFFu - (ph - 0x80000000u) * 2;
}
static bool near32(uint32_t a, uint64_t b, uint32_t tol) {
	uint64_t d = a > b ? a - b : b - a;
	return d <= tol;
}

enum Kind { TRI, ACC, SINE, DOWN };
template<int Rate, Kind K>
static void history(mc::Ctx &c, int depth) {
	constexpr uint32_t unit = 0xFFFFFFFFu / uint32_t(Rate);
	uint32_t ph = 0, inc = 0;
	auto go = [&](auto &o) {
		for (int d = 0; d < depth; d++) {
			int op = int(c.choose(K == TRI ? 7 : K == DOWN ? 5 : 6));
			switch (op) {
				case 0:
					c.log("update");
					o.update();
					if constexpr (K == DOWN) {
						ph = inc == 0 || ph <= inc ? 0 : ph - inc;
					} else
						ph += inc;
					break;
				case 1: {
					uint32_t f = FR[c.choose(5)];
					c.log("set_frequency(%u)", f);
					o.set_frequency(f);
					inc = f * unit;
					break;
				}
				case 2: {
					uint32_t p = PH[c.choose(9)];
					c.log("set_phase(%#x)", p);
					o.set_phase(p);
					ph = p;
					break;
				}
				case 3:
					if constexpr (K == DOWN) {
						c.log("reset");
						o.reset();
						ph = 0xFFFFFFFFu;
					} else {
						uint32_t v = o.process();
						ph += inc;
						c.log("process -> %u", v);
						if constexpr (K == TRI)
							MC_CHECK(near32(v, fold(ph), 1), "process() at phase %#x returned %#x, expected %#x", ph, v, fold(ph));
						else if constexpr (K == ACC)
							MC_CHECK(v == ph, "process() returned %#x, phase is %#x", v, ph);
						else {
							double s = (std::sin(PI2 * ph / 4294967296.0) + 1) / 2 * 4294967040.0;
							MC_CHECK(std::fabs(v - s) <= 13000, "sine process() at phase %#x returned %u, expected %.0f", ph, v, s);
						}
					}
					break;
				case 4:
					if constexpr (K == DOWN) {
						static const uint32_t MS[] = {1, 9, 16, 20, 1000, 60000};
						uint32_t ms = MS[c.choose(6)];
						c.log("set_period_ms(%u)", ms);
						o.set_period_ms(ms);
						auto probe = o;
						probe.set_phase(0xFFFFFFFFu);
						probe.update();
						uint32_t got = 0xFFFFFFFFu - probe.val();
						double want = unit * 1000.0 / ms;
						if (want < 4294967295.0)
							MC_CHECK(std::fabs(got - want) <= 1 + want * 4e-7, "set_period_ms(%u): steps of %u, expected %.1f", ms, got, want);
						else
							MC_CHECK(probe.val() == 0, "set_period_ms(%u), shorter than an update: not over after one, %#x left", ms, probe.val());
						inc = got;
					} else if constexpr (K == SINE) {
						ph += inc;
						double s = std::sin(PI2 * ph / 4294967296.0);
						bool uni = c.flip();
						float v = uni ? o.process_unipolar() : o.process_bipolar();
						c.log("process_%s -> %g", uni ? "unipolar" : "bipolar", double(v));
						if (uni)
							s = (s + 1) / 2;
						MC_CHECK(std::fabs(double(v) - s) <= 6e-6 && v <= 1.f && v >= (uni ? 0.f : -1.f), "sine at phase %#x is %g, expected %g", ph, double(v), s);
					} else {
						float v = o.process_float();
						ph += inc;
						c.log("process_float -> %g", double(v));
						double w = (K == TRI ? fold(ph) : ph) / 4294967295.0;
						MC_CHECK(v >= 0.f && v <= 1.f && std::fabs(double(v) - w) <= 2e-7, "process_float() at phase %#x is %.9g, expected %.9g", ph, double(v), w);
					}
					break;
				case 5:
					if constexpr (K == TRI) {
						bool ms = c.flip();
						static const uint32_t P[] = {1, 2, 3, 7, 250, 999, 1500, 60000};
						uint32_t p = P[c.choose(8)];
						c.log("set_period_%s(%u)", ms ? "ms" : "sec", p);
						ms ? o.set_period_ms(p) : o.set_period_sec(p);
						double want = double(unit) / p * (ms ? 1000 : 1);
						auto probe = o;
						probe.set_phase(0);
						probe.update();
						uint32_t twice = probe.val();
						uint32_t got = twice / 2;
						if (want < 2147483647.0)
							MC_CHECK(std::fabs(got - want) <= 1 + want * 3e-7, "set_period_%s(%u): advances by %u per update, expected %.1f", ms ? "ms" : "sec", p, got, want);
						// recover the exact step for the rest of the history
						inc = got;
						if (want >= 2147483647.0)
							throw mc::Prune{};
					} else if constexpr (K == ACC) {
						uint32_t v = o.Process();
						ph += inc;
						MC_CHECK(v == ph, "Process() returned %#x, phase is %#x", v, ph);
					} else if constexpr (K == SINE) {
						c.log("update");
						o.update();
						ph += inc;
					}
					break;
				case 6:
					if constexpr (K == TRI) {
						static const float F[] = {0.f, 0.25f, 1.f, 10.f, 440.5f};
						int k = int(c.choose(7));
						if (k >= 5) {
							int f = k == 5 ? 7 : 0;
							c.log("set_frequency(int %d)", f);
							o.set_frequency(f);
							inc = f * unit;
							break;
						}
						c.log("set_frequency(%g)", double(F[k]));
						o.set_frequency(F[k]);
						double want = double(F[k]) * unit;
						auto probe = o;
						probe.set_phase(0);
						probe.update();
						uint32_t got = probe.val() / 2;
						if (want < 2147483000.0)
							MC_CHECK(std::fabs(got - want) <= 1 + want * 3e-7, "set_frequency(%g): advances by %u per update, expected %.1f", double(F[k]), got, want);
						else
							throw mc::Prune{};
						inc = got;
					}
					break;
			}
			if constexpr (K == TRI)
				MC_CHECK(near32(o.val(), fold(ph), 1), "val() is %#x, expected %#x at phase %#x", o.val(), fold(ph), ph);
			if constexpr (K == ACC || K == DOWN)
				MC_CHECK(o.val() == ph, "val() is %#x, expected %#x", o.val(), ph);
			if (ph && inc)
				c.nontrivial();
		}
	};
	using O = std::conditional_t<K == TRI, TriangleOscillator<Rate>, std::conditional_t<K == ACC, PhaseAccum<Rate>, std::conditional_t<K == SINE, SineOscillator<Rate>, DownCounter<Rate>>>>;
	mc::Arena<O> a;
	if constexpr (K == DOWN) {
		ph = 0xFFFFFFFFu;
		inc = 0xFFFFFFFFu;
		c.log("DownCounter<%d>", Rate);
		go(a.make(0xA5));
	} else {
		int f = int(c.choose(3));
		if (f == 0) {
			c.log("default");
			go(a.make(0xA5));
		} else {
			inc = FR[f + 1] * unit;
			c.log("constructed with frequency %u", FR[f + 1]);
			go(a.make(0xA5, FR[f + 1]));
		}
	}
}
template<int Rate, Kind K>
static void reg(const char *n) {
	mc::Reg(mc::fmt("%s-%d", n, Rate), [=](mc::Job &j) {
		int depth = j.tier(K == TRI ? 4 : 5, K == TRI ? 5 : 6);
		j.note(mc::fmt("%s: every history of %d calls with 5 frequencies, 9 phases and 8 periods at %d updates per second", n, depth, Rate));
		j.explore({}, [=](mc::Ctx &c) { history<Rate, K>(c, depth); });
	});
}
static int init = [] {
	reg<120, TRI>("triangle");
	reg<48000, TRI>("triangle");
	reg<1, ACC>("ramp");
	reg<48000, ACC>("ramp");
	reg<1000, SINE>("sine");
	reg<48000, SINE>("sine");
	reg<100, DOWN>("down");
	reg<48000, DOWN>("down");
	mc::shards("phases", 4, [](mc::Job &j, int s, int n) {
		j.note("phases: triangle, ramp and sine value at one in 4099 (thorough: 37) of all 2^32 phases, and the 256 phases around each eighth of a turn");
		uint64_t step = uint64_t(j.tier(4099, 37)), tot = (1ull << 32) / step + 2048;
		TriangleOscillator<48000> t;
		PhaseAccum<48000> a;
		SineOscillator<48000> si;
		j.sweep(tot * s / n, tot * (s + 1) / n, [&](uint64_t i) {
			uint32_t p = i < 2048 ? uint32_t((i / 256) << 29) + uint32_t(i % 256) - 128 : uint32_t((i - 2048) * step);
			t.set_phase(p);
			MC_CHECK(near32(t.val(), fold(p), 1), "triangle at phase %#x is %#x, expected %#x", p, t.val(), fold(p));
			a.set_phase(p);
			MC_CHECK(a.val() == p, "ramp at phase %#x is %#x", p, a.val());
			float f = a.process_float();
			MC_CHECK(f >= 0 && f <= 1.f && std::fabs(double(f) - p / 4294967295.0) <= 2e-7, "ramp at phase %#x as float is %.9g", p, double(f));
			si.set_phase(p);
			double w = std::sin(PI2 * p / 4294967296.0);
			float b = si.process_bipolar();
			MC_CHECK(std::fabs(double(b) - w) <= 6e-6 && std::fabs(b) <= 1.f, "sine at phase %#x is %.9g, expected %.9g", p, double(b), w);
			uint32_t u = si.process();
			MC_CHECK(std::fabs(u - (w + 1) / 2 * 4294967040.0) <= 13000, "sine at phase %#x as integer is %u", p, u);
			return p != 0;
		});
	});
	mc::shards("freqs", 2, [](mc::Job &j, int s, int n) {
		j.note("freqs: every frequency 0..70000, around every power of two and every quarter and half turn per update, as set or as constructed, for all four kinds of 48 kHz, 1 kHz and 1 Hz oscillators");
		static std::vector<uint32_t> F;
		for (uint32_t f = 0; f <= 70000; f++)
			F.push_back(f);
		for (int b = 17; b < 32; b++)
			for (int d = -2; d <= 2; d++)
				F.push_back((1u << b) + uint32_t(d));
		F.push_back(0xFFFFFFFFu);
		j.sweep(F.size() * s / n, F.size() * (s + 1) / n, [&](uint64_t i) {
			uint32_t f = F[i];
			auto one = [&]<int R>(std::integral_constant<int, R>) {
				uint32_t inc = f * (0xFFFFFFFFu / uint32_t(R));
				for (int how = 0; how < 2; how++) {
					auto mk = [&](auto zero) {
						using O = decltype(zero);
						if (how)
							return O{f};
						O o;
						o.set_frequency(f);
						return o;
					};
					auto t = mk(TriangleOscillator<R>{});
					auto a = mk(PhaseAccum<R>{});
					auto si = mk(SineOscillator<R>{});
					uint32_t ph = 0;
					for (int k = 0; k < 3; k++) {
						t.update();
						a.update();
						ph += inc;
						double w1 = std::sin(PI2 * ph / 4294967296.0);
						float v = si.process_bipolar();
						MC_CHECK(near32(t.val(), fold(ph), 1), "triangle<%d> at %u Hz after %d updates is %#x, expected %#x", R, f, k + 1, t.val(), fold(ph));
						MC_CHECK(a.val() == ph, "ramp<%d> at %u Hz after %d updates is %#x, expected %#x", R, f, k + 1, a.val(), ph);
						MC_CHECK(std::fabs(double(v) - w1) <= 6e-6, "sine<%d> at %u Hz after %d samples is %.9g, expected %.9g", R, f, k + 1, double(v), w1);
					}
				}
				DownCounter<R> d;
				d.reset();
				d.set_frequency(f);
				uint32_t left = 0xFFFFFFFFu;
				for (int k = 0; k < 3; k++) {
					d.update();
					left = inc == 0 || left <= inc ? 0 : left - inc;
					MC_CHECK(d.val() == left, "down counter<%d> at %u Hz after %d updates is %#x, expected %#x", R, f, k + 1, d.val(), left);
				}
			};
			one(std::integral_constant<int, 48000>{});
			one(std::integral_constant<int, 1000>{});
			one(std::integral_constant<int, 1>{});
			return f != 0;
		});
	});
	mc::Reg("cycle", [](mc::Job &j) {
		j.note("cycle: one full cycle of the triangle for every frequency 1..24: monotone up to the top, then down to zero, in the documented number of updates");
		j.sweep(1, 25, [](uint64_t f) {
			constexpr int R = 4800;
			TriangleOscillator<R> t;
			t.set_frequency(uint32_t(f));
			uint32_t prev = t.val();
			uint32_t top = 0;
			int turns = 0, n = 0;
			bool up = true;
			while (turns < 2 && n < 3 * R) {
				uint32_t v = t.process();
				n++;
				if (v > top)
					top = v;
				if (up != (v > prev)) {
					up = !up;
					turns++;
				}
				prev = v;
			}
			int want = int(R / int(f));
			MC_CHECK(std::abs(n - want) <= want / 1000 + 2, "triangle at %llu Hz: a cycle takes %d updates, expected %d", (unsigned long long)f, n, want);
			MC_CHECK(top > 0xFFFFFFFFu - 8000000u * uint32_t(f), "triangle at %llu Hz tops at %#x", (unsigned long long)f, top);
			return true;
		});
	});
	mc::Reg("oneshot", [](mc::Job &j) {
		int depth = j.tier(6, 7);
		j.note(mc::fmt("oneshot: every history of %d calls (start with 8 widths, update, stop, change of rate) at dyadic rates, exact", depth));
		j.explore({}, [=](mc::Ctx &c) {
			static const float rates[] = {4.f, 8.f};
			double rate = rates[c.choose(2)];
			mc::Arena<OneShot> a;
			OneShot &o = a.make(0xA5, float(rate));
			double left = 0;
			for (int d = 0; d < depth; d++) {
				switch (c.choose(4)) {
					case 0: {
						bool r = o.update();
						c.log("update -> %d", r);
						MC_CHECK(r == (left > 0), "update() is %d with %g s of pulse left", r, left);
						if (left > 0) {
							left -= 1 / rate;
							c.nontrivial();
						}
						break;
					}
					case 1: {
						static const float W[] = {0.f, 0.0625f, 0.125f, 0.25f, 0.375f, 1.f};
						float w = W[c.choose(6)];
						c.log("start(%g)", double(w));
						o.start(w);
						left = double(w);
						break;
					}
					case 2:
						c.log("stop");
						o.stop();
						left = 0;
						break;
					case 3: {
						static const float H[] = {0.f, -1.f, 16.f};
						float h = H[c.choose(3)];
						c.log("set_update_rate_hz(%g)", double(h));
						o.set_update_rate_hz(h);
						if (h > 0)
							rate = double(h);
						break;
					}
				}
			}
		});
	});
	mc::shards("oneshot-length", 2, [](mc::Job &j, int s, int n) {
		j.note("oneshot-length: pulses of every length up to 3000 (thorough 20000) updates at six audio and control rates");
		uint64_t L = uint64_t(j.tier(3000, 20000)), step = uint64_t(j.tier(7, 3));
		static const float R[] = {48000.f, 44100.f, 96000.f, 1000.f, 333.f, 100.f};
		j.sweep(L * 6 / step * s / n, L * 6 / step * (s + 1) / n, [&](uint64_t i) {
			i *= step;
			float r = R[i % 6];
			int len = int(i / 6) + 1;
			float w = float(len) / r;
			OneShot o{r};
			o.start(w);
			int k = 0;
			while (o.update() && k <= 2 * len + 10)
				k++;
			MC_CHECK(std::abs(k - len) <= 1 + len / 100000, "a pulse of %g s at %g Hz lasts %d updates, expected %d", double(w), double(r), k, len);
			MC_CHECK(!o.update() && !o.update(), "the pulse starts again by itself");
			return true;
		});
	});
	mc::shards("oneshot-long", 2, [](mc::Job &j, int s, int n) {
		j.note("oneshot-long: pulses of 5 s to 20 minutes at four rates, undisturbed and with the rate changed on the way");
		static const float R[] = {48000.f, 44100.f, 96000.f, 1000.f}, W[] = {5.f, 20.f, 63.9f, 128.5f, 300.f, 600.f, 1200.f};
		j.sweep(uint64_t(56 * s / n), uint64_t(56 * (s + 1) / n), [&](uint64_t i) {
			float r = R[i % 4], r2 = i / 28 ? R[(i + 1) % 4] : r, w = W[i / 4 % 7];
			OneShot o{r};
			o.start(w);
			long half = long(double(w) * double(r) / 2), k = 0;
			while (k < half && o.update())
				k++;
			MC_CHECK(k == half, "a pulse of %g s at %g Hz is over after %ld updates", double(w), double(r), k);
			if (r2 != r)
				o.set_update_rate_hz(r2);
			double want = double(half) + (double(w) - double(half) / double(r)) * double(r2);
			while (double(k) < want * 2 && o.update())
				k++;
			MC_CHECK(std::abs(double(k) - want) <= 2 + want * 2e-6, "a pulse of %g s, half at %g Hz and half at %g Hz, lasts %ld updates, expected %.1f", double(w), double(r), double(r2), k, want);
			for (int e = 0; e < 100; e++)
				MC_CHECK(!o.update(), "the pulse starts again by itself");
			o.set_update_rate_hz(r);
			MC_CHECK(!o.update(), "changing the rate starts the pulse again");
			return true;
		});
	});
	mc::Reg("countdown", [](mc::Job &j) {
		j.note("countdown: full count-downs for periods of 1 to 500 ms at 1000 updates per second");
		j.sweep(1, 501, [&](uint64_t ms) {
			DownCounter<1000> d;
			d.set_period_ms(uint32_t(ms));
			d.reset();
			uint32_t prev = d.val();
			MC_CHECK(prev == 0xFFFFFFFFu, "reset does not start at the top");
			int n = 0;
			while (d.val() && n < 2000) {
				d.update();
				MC_CHECK(d.val() < prev, "the count-down does not decrease");
				prev = d.val();
				n++;
			}
			MC_CHECK(std::abs(n - int(ms)) <= 1, "a period of %d ms at 1000 Hz takes %d updates", int(ms), n);
			for (int k = 0; k < 3; k++) {
				d.update();
				MC_CHECK(d.val() == 0, "the counter leaves zero by itself");
			}
			return true;
		});
	});
	return 0;
}();
