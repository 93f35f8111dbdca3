// C43: animated RGB LED: every history of settings and updates against a model in real numbers.
#include "mc.hh"
#include <cmath>
#include <algorithm>
#include "util/rgbled.hh"

struct Out {
	uint8_t v[3] = {1, 2, 3};
	int sets[3] = {};
};
template<int Ch>
struct Led { // each channel has its own driver type
	Out *o;
	void set(uint8_t x) const {
		o->v[Ch] = x;
		o->sets[Ch]++;
	}
};
struct D3 {
	double c[3];
};
static D3 of(Color c) {
	return {double(c.red()), double(c.green()), double(c.blue())};
}
static D3 mix(D3 a, D3 b, double t) {
	D3 r;
	for (int i = 0; i < 3; i++)
		r.c[i] = a.c[i] * (1 - t) + b.c[i] * t;
	return r;
}
template<unsigned Rate>
static void history(mc::Ctx &c, int depth, int first) {
	Out out;
	MixedRgbLed<Led<0>, Led<1>, Led<2>, Rate> led{Led<0>{&out}, Led<1>{&out}, Led<2>{&out}};
	D3 base{}, flash{}, breathe{255, 0, 0};
	double ftol = 0; // accumulated rounding of the base colour
	double N = 0, k = 1e9, phase = 0, step = 0;
	bool smooth = false;
	int adj[3] = {128, 128, 128};
	auto update = [&] {
		led.update_animation();
		k++;
		phase += step;
		phase -= std::floor(phase);
		D3 b = base;
		double t = phase <= 0.5 ? phase * 2 : 2 - phase * 2;
		D3 calm = mix(b, breathe, t);
		double left = N > 0 ? 1 - k / N : -1;
		D3 lit = smooth ? mix(b, flash, std::clamp(left, 0.0, 1.0)) : flash;
		double edge = N > 0 ? k - N : 1e9; // around the end of a flash either is right, for one update
		bool may_lit = edge <= 1.01 + N * 2e-6, may_calm = edge >= -1.01 - N * 2e-6;
		// a blend may be off by two steps (its phase has 8 bits, its result is rounded down); all else is exact
		auto near = [&](D3 w, int i, double tol) {
			if (tol == 0)
				return out.v[i] == std::min(255, int(w.c[i]) * adj[i] / 128);
			return out.v[i] >= std::min(255.0, (w.c[i] - tol) * adj[i] / 128) - 1 && out.v[i] <= std::min(255.0, (w.c[i] + tol) * adj[i] / 128);
		};
		double tolc = ftol + (t > 0 ? 2.01 : 0), toll = smooth ? ftol + 2.01 : 0;
		bool okl = may_lit, okc = may_calm;
		for (int i = 0; i < 3; i++) {
			okl = okl && near(lit, i, toll);
			okc = okc && near(calm, i, tolc);
		}
		if (smooth && may_lit && may_calm && !okl && !okc) {
			// a fade lands between its last steps
			for (int i = 0; i < 3; i++) {
				double x = out.v[i], lo = std::min({lit.c[i], calm.c[i], b.c[i]}), hi = std::max({lit.c[i], calm.c[i], b.c[i], mix(b, flash, 1.01 / N).c[i]});
				if (x < lo * adj[i] / 128 - 5 || x > std::min(255.0, hi * adj[i] / 128) + 5)
					break;
				okl = i == 2;
			}
		}
		MC_CHECK(okl || okc,
				 "update %.0f after a flash or fade of %.1f updates shows (%d,%d,%d); expected (%.0f,%.0f,%.0f)%s(%.0f,%.0f,%.0f) before calibration %d,%d,%d; breathing phase %.3f", k, N, out.v[0], out.v[1],
				 out.v[2], lit.c[0], lit.c[1], lit.c[2], may_lit && may_calm ? " or " : may_lit ? ", not " : " over, but ", calm.c[0], calm.c[1], calm.c[2], adj[0], adj[1], adj[2], phase);
		if (may_lit || t > 0)
			c.nontrivial();
	};
	static const Color COL[] = {Color(200, 100, 50), Color(0, 255, 128), Color(0, 0, 0)};
	for (int d = 0; d < depth; d++) {
		switch (int op = d ? int(c.choose(8)) : first; op) {
			case 0: { // updates: one, a few, to just before and just after the end of the flash
				int kind = int(c.choose(4)), n = 1;
				bool flashing = N > 0 && k < N;
				if (kind == 1)
					n = 6;
				else if (kind >= 2) {
					if (!flashing)
						throw mc::Prune{};
					n = int(N - k) + (kind == 2 ? -1 : 3);
					if (n <= 1)
						throw mc::Prune{};
				}
				c.log("%d updates", n);
				while (n--)
					update();
				break;
			}
			case 1: {
				Color col = COL[c.choose(3)];
				c.log("base colour %d,%d,%d", col.red(), col.green(), col.blue());
				led.set_base_color(col);
				base = of(col);
				ftol = 0;
				break;
			}
			case 2:
				if (c.flip()) {
					c.log("blend base with 0,255,128");
					led.blend_base_color(COL[1]);
					base = mix(base, of(COL[1]), 0.5);
					ftol = ftol / 2 + 1;
				} else {
					c.log("add 20,0,5 to base");
					if (base.c[0] > 230 || base.c[2] > 245)
						throw mc::Prune{};
					led.add_base_color(Color(20, 0, 5));
					base.c[0] += 20;
					base.c[2] += 5;
				}
				break;
			case 3:
			case 4: {
				static const float MS[] = {0.5f, 9, 16, 20, 45, 700, 1500, 4000};
				float ms = MS[c.choose(8)];
				Color col = COL[c.choose(2)];
				c.log("%s for %g ms, colour %d,%d,%d", op == 3 ? "flash" : "fade", double(ms), col.red(), col.green(), col.blue());
				if (op == 3)
					led.flash_once_ms(col, ms);
				else
					led.fade_once_ms(col, ms);
				flash = of(col);
				smooth = op == 4;
				N = double(ms) * Rate / 1000;
				k = 0;
				break;
			}
			case 5: {
				const float F[] = {0.3f, Rate / 16.f, Rate / 7.f};
				float f = F[c.choose(3)];
				Color col = COL[c.choose(2)];
				c.log("breathe %d,%d,%d at %g Hz", col.red(), col.green(), col.blue(), double(f));
				led.breathe(col, f);
				breathe = of(col);
				step = double(f) / Rate;
				break;
			}
			case 6:
				c.log("reset_breathe");
				led.reset_breathe();
				step = phase = 0;
				break;
			case 7: {
				static const uint8_t A[3][3] = {{128, 128, 128}, {64, 128, 200}, {0, 255, 100}};
				int a = int(c.choose(3));
				c.log("calibration %d,%d,%d", A[a][0], A[a][1], A[a][2]);
				led.set_color_calibration({A[a][0], A[a][1], A[a][2]});
				for (int i = 0; i < 3; i++)
					adj[i] = A[a][i];
				break;
			}
		}
	}
	for (int i = 0; i < 3; i++)
		update();
}
static int init = [] {
	auto reg = [](const char *n, auto f, int dq, int dt) {
		mc::shards(n, 8, [=](mc::Job &j, int s, int) {
			int depth = j.tier(dq, dt);
			j.note(mc::fmt("%s: every history of %d settings and runs of updates (each job with a different first one), then three updates", n, depth));
			j.explore({}, [=](mc::Ctx &c) { f(c, depth, s); });
		});
	};
	reg("led-100Hz", [](mc::Ctx &c, int d, int s) { history<100>(c, d, s); }, 4, 5);
	reg("led-1000Hz", [](mc::Ctx &c, int d, int s) { history<1000>(c, d, s); }, 3, 4);
	reg("led-60Hz", [](mc::Ctx &c, int d, int s) { history<60>(c, d, s); }, 4, 5);
	mc::Reg("default-rate", [](mc::Job &j) {
		j.note("default-rate: flashes and breathing of an LED that names no rate last as long as at 1000 Hz");
		j.sweep(1, 400, [](uint64_t ms) {
			Out o1, o2, o3;
			MixedRgbLed<Led<0>, Led<1>, Led<2>> a{Led<0>{&o1}, Led<1>{&o1}, Led<2>{&o1}};
			MixedRgbLed<Led<0>, Led<1>, Led<2>, 1000> b{Led<0>{&o2}, Led<1>{&o2}, Led<2>{&o2}};
			RgbLed<Led<0>> c{Led<0>{&o3}, Led<0>{&o3}, Led<0>{&o3}};
			Color g{200, 200, 200};
			auto all = [&](auto f) { f(a), f(b), f(c); };
			all([&](auto &l) { l.flash_once_ms(g, float(ms)); });
			for (unsigned i = 0; i < ms + 5; i++) {
				all([](auto &l) { l.update_animation(); });
				MC_CHECK(o1.v[0] == o2.v[0] && o3.v[0] == o2.v[2], "flash of %u ms: update %u of an LED that names no rate differs from one at 1000 Hz", unsigned(ms), i);
			}
			all([&](auto &l) { l.breathe(g, 100.f / float(ms)); });
			for (unsigned i = 0; i < 3 * ms; i++) {
				all([](auto &l) { l.update_animation(); });
				MC_CHECK(o1.v[0] == o2.v[0] && o3.v[0] == o2.v[2], "breathing: update %u of an LED that names no rate differs from one at 1000 Hz", i);
			}
			return true;
		});
	});
	reg("led-20kHz", [](mc::Ctx &c, int d, int s) { history<20000>(c, d, s); }, 2, 3);
	mc::Reg("long", [](mc::Job &j) {
		j.note("long: flashes and fades of 5 s to 60 s at 1000 Hz, every update");
		j.sweep(0, 2 * 6, [](uint64_t x) {
			static const int S[] = {5, 10, 16, 33, 45, 60};
			unsigned n = unsigned(S[x / 2] * 1000);
			Out out;
			MixedRgbLed<Led<0>, Led<1>, Led<2>, 1000> led{Led<0>{&out}, Led<1>{&out}, Led<2>{&out}};
			Color base{10, 200, 0}, f{250, 20, 128};
			led.set_base_color(base);
			if (x & 1)
				led.fade_once_ms(f, float(n));
			else
				led.flash_once_ms(f, float(n));
			for (unsigned k = 1; k <= n + 1000; k++) {
				led.update_animation();
				if (k % 8192 == 0)
					mc::tick();
				D3 b = of(base), w = k >= n ? b : x & 1 ? mix(b, of(f), 1 - double(k) / n) : of(f);
				if (k + 1 >= n && k <= n + 1)
					continue;
				for (int i = 0; i < 3; i++)
					MC_CHECK(std::fabs(out.v[i] - w.c[i]) <= ((x & 1) && k < n ? 2.01 : 0), "update %u after a %s of %u updates: channel %d is %d, expected %g", k, x & 1 ? "fade" : "flash", n, i, out.v[i], w.c[i]);
			}
			return true;
		});
	});
	mc::Reg("drivers", [](mc::Job &j) {
		j.note("drivers: three drivers of one type that differ in state, in every order of outputs, under every level");
		struct Pin {
			Out *o;
			int ch;
			void set(uint8_t x) const {
				o->v[ch] = x;
				o->sets[ch]++;
			}
		};
		j.sweep(0, 6 * 256, [](uint64_t i) {
			static const int order[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
			Out out;
			int a = int(i % 256);
			auto &ch = order[i / 256];
			Color col{uint8_t(a), uint8_t(255 - a), uint8_t(a ^ 0x55)};
			const int lv[3] = {a, 255 - a, a ^ 0x55};
			RgbLed<Pin> led{Pin{&out, ch[0]}, Pin{&out, ch[1]}, Pin{&out, ch[2]}};
			led.set_base_color(col);
			for (int way = 0; way < 3; way++) {
				if (way == 0)
					led.update_animation();
				else if (way == 1)
					led.set_color(Color{uint8_t(255 - lv[0]), uint8_t(255 - lv[1]), uint8_t(255 - lv[2])});
				else
					led.set_color(col, 1.f);
				for (int k = 0; k < 3; k++)
					MC_CHECK(out.v[ch[k]] == (way == 1 ? 255 - lv[k] : lv[k]), "output %d shows %d, expected %d", ch[k], out.v[ch[k]], way == 1 ? 255 - lv[k] : lv[k]);
			}
			return a != 0;
		});
	});
	mc::Reg("set", [](mc::Job &j) {
		j.note("set: every level with every brightness of 8 bits, and 257 float brightnesses");
		j.sweep(0, 65536, [](uint64_t i) {
			Out out;
			RgbLed<Led<0>> one; // same type for each channel
			(void)one;
			MixedRgbLed<Led<0>, Led<1>, Led<2>> led{Led<0>{&out}, Led<1>{&out}, Led<2>{&out}};
			int a = int(i & 255), br = int(i >> 8);
			Color col{uint8_t(a), uint8_t(255 - a), uint8_t(a ^ 0x55)};
			const int lv[3] = {a, 255 - a, a ^ 0x55};
			led.set_color(col);
			for (int k = 0; k < 3; k++)
				MC_CHECK(out.v[k] == lv[k], "channel %d set to %d, expected %d", k, out.v[k], lv[k]);
			led.set_color(col, uint8_t(br));
			for (int k = 0; k < 3; k++)
				MC_CHECK(out.v[k] <= lv[k] && out.v[k] * 256 > lv[k] * br - 256 && out.v[k] * 255 <= lv[k] * br, "level %d at brightness %d/255 set to %d", lv[k], br, out.v[k]);
			for (float f : {br / 256.f, (br + 1) / 256.f}) {
				led.set_color(col, f);
				for (int k = 0; k < 3; k++)
					MC_CHECK(out.v[k] <= lv[k] * double(f) + 0.51 && out.v[k] > lv[k] * double(f) - 1.001, "level %d at brightness %g set to %d", lv[k], double(f), out.v[k]);
			}
			return a && br;
		});
	});
	return 0;
}();
