// C41: rectangles and polygons on every small grid.
#include "mc.hh"
#include <array>
#include "util/geometry.hh"

static bool rects(uint64_t i, int n, int off) {
	auto next = [&] { int v = int(i % n) + off; i /= n; return v; };
	int a[8];
	for (auto &x : a)
		x = next();
	RectC p{.left = a[0], .top = a[1], .right = a[2], .bottom = a[3]}, q{.left = a[4], .top = a[5], .right = a[6], .bottom = a[7]};
	if (p.left > p.right || p.top > p.bottom || q.left > q.right || q.top > q.bottom)
		return false;
	bool x = false, y = false;
	for (int v = off; v < off + n; v++) {
		x |= v >= p.left && v <= p.right && v >= q.left && v <= q.right;
		y |= v >= p.top && v <= p.bottom && v >= q.top && v <= q.bottom;
	}
	auto txt = [&] { return mc::fmt("(%d,%d)-(%d,%d) and (%d,%d)-(%d,%d)", p.left, p.top, p.right, p.bottom, q.left, q.top, q.right, q.bottom); };
	MC_CHECK(p.x_intersects(q) == x && q.x_intersects(p) == x, "%s share columns: %d; reported %d and, exchanged, %d", txt().c_str(), x, p.x_intersects(q), q.x_intersects(p));
	MC_CHECK(p.y_intersects(q) == y && q.y_intersects(p) == y, "%s share rows: %d; reported %d and, exchanged, %d", txt().c_str(), y, p.y_intersects(q), q.y_intersects(p));
	MC_CHECK(p.is_intersecting(q) == (x && y) && q.is_intersecting(p) == (x && y), "%s intersect: %d; reported %d", txt().c_str(), x && y, p.is_intersecting(q));
	return true;
}
static bool sizes(uint64_t i) {
	static const int V[] = {0, 1, 2, 3, 7, 319, 32767, 1000000, -1, -2, -3, -8, -32768, -1000001};
	int l = V[i % 14], t = V[i / 14 % 14], w = V[i / 196 % 14], h = V[i / 2744 % 14];
	if (w < 0 || h < 0)
		return false;
	Rect r{.left = l, .top = t, .width = w, .height = h};
	RectC c{.left = l, .top = t, .right = l + w, .bottom = t + h};
	MC_CHECK(r.right() == c.right && r.bottom() == c.bottom && c.width() == w && c.height() == h, "rectangle at %d,%d of %dx%d: right %d bottom %d, back %dx%d", l, t, w, h, r.right(), r.bottom(), c.width(), c.height());
	auto mid = [&](int m, int lo, int len, const char *what) { MC_CHECK(std::abs(2L * m - (2L * lo + len)) <= 1 && m >= lo && m <= lo + len, "%s of %d + %d is %d", what, lo, len, m); };
	mid(r.center_x(), l, w, "centre");
	mid(r.center_y(), t, h, "centre");
	mid(c.center_x(), l, w, "centre");
	mid(c.center_y(), t, h, "centre");
	MC_CHECK(c.is_intersecting(c), "a rectangle does not intersect itself");
	return true;
}
struct Pt {
	int x, y;
};
static long cross(Pt o, Pt a, Pt b) {
	return long(a.x - o.x) * (b.y - o.y) - long(a.y - o.y) * (b.x - o.x);
}
static int sgn(long v) {
	return (v > 0) - (v < 0);
}
static bool onseg(Pt a, Pt b, Pt p) {
	return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
static bool touch(Pt a, Pt b, Pt c, Pt d) {
	if (sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0)
		return true;
	return onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b);
}
static bool simple(const Pt *p, int n) {
	for (int i = 0; i < n; i++) {
		Pt a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n];
		if ((a.x == b.x && a.y == b.y) || (cross(a, b, c) == 0 && (onseg(a, b, c) || onseg(b, c, a))))
			return false; // repeated point, or turning back on itself
		for (int k = i + 2; k < n; k++)
			if ((k + 1) % n != i && touch(a, b, p[k], p[(k + 1) % n]))
				return false;
	}
	return true;
}
static bool concave(const Pt *p, int n) { // no: all points on one side of every edge
	for (int i = 0; i < n; i++) {
		bool l = false, r = false;
		for (int k = 0; k < n; k++) {
			long c = cross(p[i], p[(i + 1) % n], p[k]);
			l |= c > 0;
			r |= c < 0;
		}
		if (l && r)
			return true;
	}
	return false;
}
template<class T, class F>
static void ask(const Pt *p, int n, bool want, const char *type, F conv) {
	struct TP {
		T x, y;
	};
	std::vector<TP> v; // exact-size heap block
	v.reserve(n);
	for (int i = 0; i < n; i++)
		v.push_back({conv(p[i].x), conv(p[i].y)});
	bool got = is_poly_concave<TP>(std::span<const TP>(v));
	if (got != want) {
		std::string s;
		for (int i = 0; i < n; i++)
			s += mc::fmt("(%d,%d) ", p[i].x, p[i].y);
		mc::fail("polygon %s(%s) is %s, reported %s", s.c_str(), type, want ? "concave" : "convex", got ? "concave" : "convex");
	}
}
static void all(const Pt *p, int n, bool want) {
	ask<int>(p, n, want, "int", [](int v) { return v - 1; });
	ask<uint8_t>(p, n, want, "uint8_t to 255", [](int v) { return uint8_t(v * 60); });
	ask<int8_t>(p, n, want, "int8_t", [](int v) { return int8_t(v * 50 - 100); });
	ask<uint16_t>(p, n, want, "uint16_t", [](int v) { return uint16_t(v * 3000); });
	ask<float>(p, n, want, "float, quarters", [](int v) { return v * 0.25f; });
	ask<double>(p, n, want, "double, 1/1024", [](int v) { return v / 1024.0 - 1; });
	ask<float>(p, n, want, "float, millions", [](int v) { return v * 1048576.f; });
	ask<int32_t>(p, n, want, "int32_t, 100000", [](int v) { return v * 100000 - 150000; });
	ask<uint32_t>(p, n, want, "uint32_t", [](int v) { return uint32_t(v); });
	ask<int32_t>(p, n, want, "int32_t, 65536", [](int v) { return v * 65536; });
}
static void polys(mc::Job &j, int s, int k, int g, int n) {
	j.note(mc::fmt("polygons of %d points on a grid of %dx%d, ten coordinate types", n, g, g));
	uint64_t tot = 1;
	for (int i = 0; i < n; i++)
		tot *= uint64_t(g * g);
	j.sweep(tot * s / k, tot * (s + 1) / k, [&](uint64_t i) {
		Pt p[8];
		for (int m = 0; m < n; m++, i /= uint64_t(g * g))
			p[m] = {int(i % g), int(i / g % g)};
		if (n < 3) {
			all(p, n, false);
			return false;
		}
		if (!simple(p, n))
			return false;
		bool want = concave(p, n);
		all(p, n, want);
		return want;
	});
}
static int init = [] {
	mc::shards("rects", 2, [](mc::Job &j, int s, int k) {
		int n = j.tier(5, 7);
		j.note(mc::fmt("rects: every pair of rectangles with corners in a %dx%d grid around zero", n, n));
		uint64_t tot = 1;
		for (int i = 0; i < 8; i++)
			tot *= uint64_t(n);
		j.sweep(tot * s / k, tot * (s + 1) / k, [&](uint64_t i) { return rects(i, n, -n / 2); });
	});
	mc::Reg("far", [](mc::Job &j) {
		j.note("far: pairs of intervals with ends from 28 coordinates over the whole range of int32_t, both axes and both orders");
		static const int V[] = {INT32_MIN, INT32_MIN + 1, -65537, -65536, -65535, -32769, -32768, -257, -256, -255, -1, 0, 1, 127, 128, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 24, INT32_MAX - 1, INT32_MAX, 1 << 30};
		j.sweep(0, 28 * 28 * 28 * 28, [](uint64_t i) {
			int a = V[i % 28], b = V[i / 28 % 28], c = V[i / 784 % 28], d = V[i / 21952];
			if (a > b || c > d)
				return false;
			bool want = std::max(a, c) <= std::min(b, d);
			RectC p{.left = a, .top = 5, .right = b, .bottom = 5}, q{.left = c, .top = 5, .right = d, .bottom = 5};
			MC_CHECK(p.x_intersects(q) == want && p.is_intersecting(q) == want && p.y_intersects(q), "columns %d to %d and %d to %d share: %d; reported %d, %d", a, b, c, d, want, p.x_intersects(q), p.is_intersecting(q));
			RectC r{.left = 5, .top = a, .right = 5, .bottom = b}, s{.left = 5, .top = c, .right = 5, .bottom = d};
			MC_CHECK(r.y_intersects(s) == want && r.is_intersecting(s) == want && r.x_intersects(s), "rows %d to %d and %d to %d share: %d; reported %d, %d", a, b, c, d, want, r.y_intersects(s), r.is_intersecting(s));
			return want;
		});
	});
	mc::Reg("sizes", [](mc::Job &j) {
		j.note("sizes: all combinations of 14 positions and 8 extents");
		j.sweep(0, 14 * 14 * 14 * 14, sizes);
	});
	for (int n = 0; n <= 5; n++)
		mc::Reg(mc::fmt("poly4x4-%d", n), [n](mc::Job &j) { polys(j, 0, 1, 4, n); });
	mc::Reg("poly-many", [](mc::Job &j) {
		j.note("poly-many: 3 to 400 points (some of 65535, 65536, 65537 and 70000) along a parabola in either direction and from any start, whole or with one point moved inside");
		auto make = [](int n, int start, bool rev, int dent) {
			std::vector<Pt> p(static_cast<size_t>(n));
			for (int i = 0; i < n; i++) {
				int q = i - n / 2; // a parabola: every point is a corner
				Pt a{2 * q, q * q};
				if (i == dent) // deep inside, so that its neighbours turn the other way
					a.y += 40;
				int at = ((rev ? n - 1 - i : i) + start) % n;
				p[size_t(at)] = a;
			}
			return p;
		};
		auto go = [&](int n, int start, bool rev, int dent) {
			auto p = make(n, start, rev, dent);
			bool got = is_poly_concave<Pt>(std::span<const Pt>(p)), want = dent >= 0;
			MC_CHECK(got == want, "polygon of %d points from point %d, %s, point %d moved inside: reported %s", n, start, rev ? "reversed" : "forward", dent, got ? "concave" : "convex");
		};
		j.sweep(3, 401, [&](uint64_t n) {
			for (int rev = 0; rev < 2; rev++)
				for (int start : {0, 1, int(n) / 2, int(n) - 1}) {
					go(int(n), start, rev, -1);
					if (n >= 20)
						for (int d = 1; d + 1 < int(n); d++)
							go(int(n), start, rev, d);
				}
			return true;
		});
		j.sweep(1000, 1000 + 4 * 2 * 4, [&](uint64_t x) {
			x -= 1000;
			const int N[] = {65535, 65536, 65537, 70000};
			int n = N[x / 8];
			// far apart the coordinates no longer square within 32 bits: use a wide type
			struct L {
				int64_t x, y;
			};
			std::vector<L> p(static_cast<size_t>(n));
			int k = int(x / 2 % 4), dent = k == 0 ? -1 : k == 1 ? 5 : k == 2 ? n / 2 : n - 3;
			for (int i = 0; i < n; i++) {
				int64_t q = i - n / 2;
				p[size_t(x & 1 ? n - 1 - i : i)] = {2 * q, q * q + (i == dent ? 40 : 0)};
			}
			bool got = is_poly_concave<L>(std::span<const L>(p)), want = dent >= 0;
			MC_CHECK(got == want, "polygon of %d points, point %d moved inside: reported %s", n, dent, got ? "concave" : "convex");
			return true;
		});
	});
	mc::shards("poly3x3-6", 2, [](mc::Job &j, int s, int k) { polys(j, s, k, 3, 6); });
	mc::shards("poly5x5-5", 4, [](mc::Job &j, int s, int k) { polys(j, s, k, 5, 5); }, 2);
	mc::shards("poly4x4-6", 8, [](mc::Job &j, int s, int k) { polys(j, s, k, 4, 6); }, 2);
	mc::shards("poly3x3-7", 4, [](mc::Job &j, int s, int k) { polys(j, s, k, 3, 7); }, 2);
	return 0;
}();
