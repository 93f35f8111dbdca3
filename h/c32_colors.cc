// C32: colours; every channel pair, every 16-bit colour, every HSV triple.
#include "mc.hh"
#include <cmath>
#include "util/colors.hh"
#include "util/colors_rgb565.hh"
#include "util/hsv.hh"

static const int LV[] = {0, 1, 2, 3, 7, 8, 63, 64, 127, 128, 129, 191, 200, 247, 248, 252, 254, 255};
static void ck(const Color &c, int r, int g, int b, const char *what) {
	MC_CHECK(c.red() == r && c.green() == g && c.blue() == b, "%s gives %d,%d,%d, expected %d,%d,%d", what, c.red(), c.green(), c.blue(), r, g, b);
}
static Color mk(int r, int g, int b) {
	return Color{uint8_t(r), uint8_t(g), uint8_t(b)};
}
static int sat(int x) {
	return x > 255 ? 255 : x;
}
static int init = [] {
	mc::Reg("pairs", [](mc::Job &j) {
		j.note("pairs: all pairs of channel values in each channel (the other channels held at different values) in combine, half blend, sum, adjust, comparison");
		j.sweep(0, 65536 * 3, [](uint64_t i) {
			int a = int(i % 256), b = int(i / 256 % 256), k = int(i / 65536);
			int x[3] = {10, 130, 250}, y[3] = {33, 120, 5};
			x[k] = a;
			y[k] = b;
			Color p = mk(x[0], x[1], x[2]), q = mk(y[0], y[1], y[2]);
			ck(p, x[0], x[1], x[2], "a colour");
			ck(p.combine(q), sat(x[0] + y[0]), sat(x[1] + y[1]), sat(x[2] + y[2]), "combine");
			if (x[0] + y[0] < 256 && x[1] + y[1] < 256 && x[2] + y[2] < 256)
				ck(p + q, x[0] + y[0], x[1] + y[1], x[2] + y[2], "operator+");
			Color h = p.blend(q);
			int hv[3] = {h.red(), h.green(), h.blue()};
			for (int c = 0; c < 3; c++)
				MC_CHECK(std::abs(hv[c] - (x[c] + y[c]) / 2) <= 1, "half blend of %d and %d gives %d", x[c], y[c], hv[c]);
			ck(p.adjust({uint8_t(y[0]), uint8_t(y[1]), uint8_t(y[2])}), sat(x[0] * y[0] / 128), sat(x[1] * y[1] / 128), sat(x[2] * y[2] / 128), "adjust");
			bool eq = x[0] == y[0] && x[1] == y[1] && x[2] == y[2];
			MC_CHECK((p == q) == eq && (p != q) == !eq, "comparison");
			Color r = mk(x[0], x[1], x[2]);
			MC_CHECK(p == r && !(p != r), "equal colours compare different");
			r = mk(k == 0 ? b : x[0], k == 1 ? b : x[1], k == 2 ? b : x[2]);
			MC_CHECK((p == r) == (a == b) && (p != r) == (a != b), "colours differing only in channel %d compare wrong", k);
			return a != b;
		});
	});
	mc::Reg("blend", [](mc::Job &j) {
		j.note("blend: all pairs of channel values with all 256 phases (8-bit and 32-bit phase; float phase for every 16th), channels kept apart");
		j.sweep(0, 65536, [&](uint64_t i) {
			int a = int(i % 256), b = int(i / 256);
			int a2 = 255 - a, b2 = (b * 7 + 3) & 255, a3 = (a * 5 + 1) & 255, b3 = a;
			Color p = mk(a, a2, a3), q = mk(b, b2, b3);
			auto f8 = [](int x, int y, int ph) { return (x * (255 - ph) + y * ph) / 255; };
			auto f32 = [](int x, int y, int ph) { return (x * (256 - ph) + y * ph) / 256; };
			for (int ph = 0; ph < 256; ph++) {
				ck(p.blend(q, uint8_t(ph)), f8(a, b, ph), f8(a2, b2, ph), f8(a3, b3, ph), "blend with an 8-bit phase");
				for (uint32_t low : {0u, 0xFFFFFFu})
					ck(p.blend(q, uint32_t(ph) << 24 | low), f32(a, b, ph), f32(a2, b2, ph), f32(a3, b3, ph), "blend with a 32-bit phase");
				if (ph % 16 == 0 || ph == 255) {
					float f = ph == 255 ? 1.f : float(ph) / 256;
					Color r = p.blend(q, f);
					int g[3] = {r.red(), r.green(), r.blue()}, s[3] = {a, a2, a3}, t[3] = {b, b2, b3};
					for (int c = 0; c < 3; c++) {
						double w = s[c] + (t[c] - s[c]) * double(f);
						MC_CHECK(std::fabs(g[c] - w) <= 1.001, "blend of %d and %d at %g gives %d", s[c], t[c], double(f), g[c]);
						if (w == std::floor(w)) // end points, and whole means at phases of n/256
							MC_CHECK(g[c] == int(w), "blend of %d and %d at %g gives %d instead of exactly %g", s[c], t[c], double(f), g[c], w);
						MC_CHECK(g[c] <= w, "blend of %d and %d at %g is rounded up to %d", s[c], t[c], double(f), g[c]);
					}
					Color m = p * f;
					MC_CHECK(std::fabs(m.red() - a * double(f)) <= 1.001 && std::fabs(m.green() - a2 * double(f)) <= 1.001 && std::fabs(m.blue() - a3 * double(f)) <= 1.001, "scaling by %g", double(f));
					int mg[3] = {m.red(), m.green(), m.blue()};
					for (int c = 0; c < 3; c++)
						MC_CHECK(mg[c] == int(std::floor(s[c] * double(f))), "%d times %g gives %d", s[c], double(f), mg[c]);
				}
			}
			return a != b;
		});
	});
	mc::Reg("rgb565", [](mc::Job &j) {
		j.note("rgb565: all 65536 16-bit colours, through both colour classes and back; all 8-bit values per channel");
		j.sweep(0, 65536, [](uint64_t i) {
			uint16_t v = uint16_t(i);
			Color c{v};
			ck(c, (v >> 11) << 3, (v >> 5 & 63) << 2, (v & 31) << 3, "a 16-bit colour");
			MC_CHECK(c.Rgb565() == v, "16-bit colour %#x comes back as %#x", v, c.Rgb565());
			RGB565 r;
			r = v;
			MC_CHECK(r.raw() == v && uint16_t(r) == v, "RGB565 of raw %#x is %#x/%#x", v, r.raw(), uint16_t(r));
			MC_CHECK(r.red() == c.red() && r.green() == c.green() && r.blue() == c.blue(), "the two classes disagree on %#x", v);
			RGB565 s{r.red(), r.green(), r.blue()};
			MC_CHECK(s.raw() == v, "RGB565 rebuilt from its channels is %#x, was %#x", s.raw(), v);
			RGB565 t{uint32_t(c.red()) << 16 | uint32_t(c.green()) << 8 | c.blue()};
			MC_CHECK(t.raw() == v, "RGB565 from 24 bits is %#x, expected %#x", t.raw(), v);
			MC_CHECK(RGB565{}.raw() == 0, "default RGB565 is not black");
			return v != 0;
		});
		j.sweep(65536, 65536 + 768, [](uint64_t i) {
			i -= 65536;
			int v = int(i % 256), k = int(i / 256);
			int x[3] = {0x55, 0xAA, 0x33};
			x[k] = v;
			uint16_t w = uint16_t((x[0] >> 3) << 11 | (x[1] >> 2) << 5 | x[2] >> 3);
			MC_CHECK((RGB565{uint8_t(x[0]), uint8_t(x[1]), uint8_t(x[2])}.raw() == w), "RGB565(%d,%d,%d)", x[0], x[1], x[2]);
			MC_CHECK((RGB565{uint32_t(x[0] << 16 | x[1] << 8 | x[2])}.raw() == w), "RGB565(24 bits %d,%d,%d)", x[0], x[1], x[2]);
			MC_CHECK((RGB565{uint32_t(0xFF000000u | uint32_t(x[0] << 16 | x[1] << 8 | x[2]))}.raw() == w), "RGB565(24 bits with alpha)");
			MC_CHECK(mk(x[0], x[1], x[2]).Rgb565() == w, "Color(%d,%d,%d).Rgb565", x[0], x[1], x[2]);
			return true;
		});
	});
	mc::Reg("rgb565-float", [](mc::Job &j) {
		j.note("rgb565-float: float levels at all multiples of 1/512 from -2 to 3, per channel");
		j.sweep(0, 2561 * 3, [](uint64_t i) {
			int k = int(i / 2561);
			float f = float(int(i % 2561) - 1024) / 512;
			float x[3] = {0.5f, 0.25f, 0.125f};
			x[k] = f;
			auto q = [](float v, int n) { return v <= 0 ? 0 : v >= 1 ? n - 1 : int(v * float(n)); };
			RGB565 c{x[0], x[1], x[2]};
			uint16_t w = uint16_t(q(x[0], 32) << 11 | q(x[1], 64) << 5 | q(x[2], 32));
			MC_CHECK(c.raw() == w, "RGB565(%gf,%gf,%gf) is %#x, expected %#x", double(x[0]), double(x[1]), double(x[2]), c.raw(), w);
			return f > 0;
		});
	});
	mc::shards("blend565", 4, [](mc::Job &j, int s, int n) {
		j.note("blend565: blends of 16-bit colours: all pairs of values of one channel with the others at 3 settings, all 256 phases, and float phases");
		j.sweep(uint64_t(64 * 64 * 9) * s / n, uint64_t(64 * 64 * 9) * (s + 1) / n, [](uint64_t i) {
			int a = int(i % 64), b = int(i / 64 % 64), set = int(i / 4096);
			int k = set % 3, o = set / 3;
			static const int other[3][6] = {{0, 63, 31, 31, 0, 0}, {31, 0, 0, 5, 63, 31}, {17, 40, 3, 16, 41, 4}};
			int x[3] = {other[o][0], other[o][1], other[o][2]}, y[3] = {other[o][3], other[o][4], other[o][5]};
			if (k != 1 && (a > 31 || b > 31))
				return false;
			x[k] = a;
			y[k] = b;
			uint16_t p = uint16_t(x[0] << 11 | x[1] << 5 | x[2]), q = uint16_t(y[0] << 11 | y[1] << 5 | y[2]);
			for (int ph = 0; ph < 256; ph++) {
				int al = (ph + 4) / 8;
				int r[3];
				for (int c = 0; c < 3; c++)
					r[c] = (x[c] * (32 - al) + y[c] * al) / 32;
				uint16_t w = uint16_t(r[0] << 11 | r[1] << 5 | r[2]);
				uint16_t g = Color::blend(p, q, uint8_t(ph));
				MC_CHECK(g == w, "blend of %#x and %#x with phase %d gives %#x, expected %#x", p, q, ph, g, w);
				float f = float(ph) / 255;
				int fp = int(f * 255);
				MC_CHECK(Color::blend(p, q, f) == Color::blend(p, q, uint8_t(fp)), "float and integer phase disagree at %d", ph);
				// the slow blend works on 8-bit channels and lands within one step
				Color sc{Color::slow_blend(p, q, f)};
				int sx[3] = {sc.red() >> 3, sc.green() >> 2, sc.blue() >> 3};
				for (int c = 0; c < 3; c++) {
					double e = x[c] + (y[c] - x[c]) * ph / 255.0;
					MC_CHECK(sx[c] <= e + 0.01 && sx[c] >= e - 1.4, "slow_blend of %#x and %#x at %g: channel %d is %d, exact %.3f", p, q, double(f), c, sx[c], e);
				}
			}
			return a != b;
		});
	});
	mc::shards("hsv", 4, [](mc::Job &j, int s, int n) {
		j.note("hsv: all 2^24 hue, saturation, value triples");
		j.sweep(uint64_t(65536) * s / n, uint64_t(65536) * (s + 1) / n, [](uint64_t i) {
			int h = int(i % 256), sa = int(i / 256);
			for (int v = 0; v < 256; v++) {
				Color c = HSVColor{uint8_t(h), uint8_t(sa), uint8_t(v)};
				int x[3] = {c.red(), c.green(), c.blue()};
				int mx = std::max(x[0], std::max(x[1], x[2])), mn = std::min(x[0], std::min(x[1], x[2]));
				MC_CHECK(mx == v, "HSV %d,%d,%d: brightest channel is %d", h, sa, v, mx);
				if (!sa) {
					MC_CHECK(mn == v, "HSV %d,0,%d is not grey", h, v);
					continue;
				}
				// textbook conversion with the hue circle of 6*43 steps
				double hh = h / 43.0, S = sa / 255.0, V = v;
				int reg = int(hh);
				double f = hh - reg, P = V * (1 - S), Q = V * (1 - S * f), T = V * (1 - S * (1 - f));
				double w[3];
				switch (reg) {
					case 0: w[0] = V, w[1] = T, w[2] = P; break;
					case 1: w[0] = Q, w[1] = V, w[2] = P; break;
					case 2: w[0] = P, w[1] = V, w[2] = T; break;
					case 3: w[0] = P, w[1] = Q, w[2] = V; break;
					case 4: w[0] = T, w[1] = P, w[2] = V; break;
					default: w[0] = V, w[1] = P, w[2] = Q; break;
				}
				for (int k = 0; k < 3; k++)
					MC_CHECK(std::fabs(x[k] - w[k]) <= 3.0, "HSV %d,%d,%d: channel %d is %d, expected %.2f", h, sa, v, k, x[k], w[k]);
			}
			return sa != 0;
		});
	});
	return 0;
}();
