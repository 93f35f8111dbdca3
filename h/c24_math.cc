// C24: integer and threshold arithmetic of math.hh, cortex_math.hh and smallest_integer.hh against wide-integer references.
#include "mc.hh"
#include <cmath>
#include <limits>
#include "util/math.hh"
#include "util/cortex_math.hh"
#include "util/smallest_integer.hh"

namespace MT = MathTools;
typedef __int128 i128;
static int next_rand = 0;
extern "C" int rand() noexcept {
	return next_rand;
}

// values with few runs of ones, their complements and neighbours
static std::vector<uint64_t> patterns(int bits, int deg) {
	std::vector<uint64_t> v;
	uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
	auto add = [&](uint64_t x) {
		for (int d = -2; d <= 2; d++) {
			v.push_back((x + uint64_t(int64_t(d))) & m);
			v.push_back(~(x + uint64_t(int64_t(d))) & m);
		}
	};
	add(0);
	for (int a = 0; a < bits; a++) {
		add(1ull << a);
		for (int b = 0; b < a; b++) {
			add((1ull << a) | (1ull << b));
			add((1ull << a) - (1ull << b));
			if (deg > 2)
				for (int c = 0; c < b; c++) {
					add((1ull << a) | (1ull << b) | (1ull << c));
					add(((1ull << a) - (1ull << b)) ^ (1ull << c));
				}
		}
	}
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}

template<class T>
static bool np2(T v) {
	// smallest power of two not below v, 0 if the type cannot hold it
	i128 p = 1;
	while (p < i128(v))
		p *= 2;
	T want = p > i128(std::numeric_limits<T>::max()) ? T(0) : T(p);
	T got = MT::next_power_of_2(v);
	MC_CHECK(got == want, "next_power_of_2(%#llx) of a %zu-bit value is %#llx, expected %#llx", (unsigned long long)v,
			 sizeof(T) * 8, (unsigned long long)got, (unsigned long long)want);
	return got != v;
}
static bool bits32(uint32_t v) {
	int top = 0, ones = 0;
	for (int i = 0; i < 32; i++)
		if (v >> i & 1)
			top = i, ones++;
	MC_CHECK(MT::is_power_of_2(v) == (ones == 1), "is_power_of_2(%#x) is %d", v, MT::is_power_of_2(v));
	MC_CHECK(MT::log2_floor(v) == unsigned(top), "log2_floor(%#x) is %u, expected %d", v, MT::log2_floor(v), top);
	uint32_t sw = v << 24 | (v & 0xff00) << 8 | (v >> 8 & 0xff00) | v >> 24;
	MC_CHECK(MT::swap_bytes32(v) == sw, "swap_bytes32(%#x) is %#x", v, MT::swap_bytes32(v));
	uint32_t h = v >> 16, l = v & 0xffff;
	uint32_t comb = ((h & 0xff) << 8 | h >> 8) << 16 | ((l & 0xff) << 8 | l >> 8);
	MC_CHECK(MT::swap_bytes_and_combine(uint16_t(h), uint16_t(l)) == comb, "swap_bytes_and_combine(%#x,%#x) is %#x", h, l,
			 MT::swap_bytes_and_combine(uint16_t(h), uint16_t(l)));
	np2<uint32_t>(v);
	return v != 0;
}
template<unsigned A>
static void log2c() {
	static_assert(A > 0);
	int top = 0;
	for (int i = 0; i < 32; i++)
		if (A >> i & 1)
			top = i;
	MC_CHECK(int(MT::Log2<A>::val) == top, "Log2<%u> is %d, expected %d", A, int(MT::Log2<A>::val), top);
}
template<unsigned... I>
static void log2all(std::integer_sequence<unsigned, I...>) {
	(log2c<I + 1>(), ...);
	(log2c<0x80000000u - 40 + I % 80>(), ...);
	(log2c<0xFFFFFFFFu - I>(), ...);
}

static void sat(int32_t v) {
	for (uint32_t n = 1; n <= 32; n++) {
		int64_t hi = (int64_t(1) << (n - 1)) - 1, lo = -hi - 1;
		int64_t w = v > hi ? hi : v < lo ? lo : v;
		MC_CHECK(MT::signed_saturate(v, n) == w, "signed_saturate(%d,%u) is %d, expected %lld", v, n,
				 MT::signed_saturate(v, n), (long long)w);
	}
	for (uint32_t n = 0; n <= 31; n++) {
		int64_t hi = (int64_t(1) << n) - 1;
		int64_t w = v > hi ? hi : v < 0 ? 0 : v;
		MC_CHECK(MT::unsigned_saturate(v, n) == w, "unsigned_saturate(%d,%u) is %d, expected %lld", v, n,
				 MT::unsigned_saturate(v, n), (long long)w);
	}
}

template<uint64_t M>
static void sui() {
	constexpr size_t want = M < 256 ? 1 : M < 65536 ? 2 : M < (1ull << 32) ? 4 : 8;
	using T = typename SmallestUnsignedInt<M>::type;
	MC_CHECK(sizeof(T) == want && std::is_unsigned_v<T>, "SmallestUnsignedInt<%llu> has %zu bytes", (unsigned long long)M, sizeof(T));
}
template<int64_t lo, int64_t hi>
static void ssi() {
	auto fits = [](int b) {
		i128 top = (i128(1) << (b - 1)) - 1;
		return i128(hi) <= top && i128(lo) >= -top - 1;
	};
	size_t want = fits(8) ? 1 : fits(16) ? 2 : fits(32) ? 4 : 8;
	using T = typename SmallestSignedInt<lo, hi>::type;
	MC_CHECK(sizeof(T) == want && std::is_signed_v<T>, "SmallestSignedInt<%lld,%lld> has %zu bytes, expected %zu", (long long)lo,
			 (long long)hi, sizeof(T), want);
}
template<int64_t lo>
static void ssi_row() {
	constexpr int64_t base[] = {0, 1, 126, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967296};
	[&]<size_t... I>(std::index_sequence<I...>) {
		(ssi<-base[I] - lo, base[I]>(), ...);
		(ssi<-base[I] - lo, 5>(), ...);
		(ssi<(lo == 0 ? 0 : -lo), base[I] + 1>(), ...);
		(ssi<-lo - 3, base[I]>(), ...);
	}(std::make_index_sequence<15>());
}

template<uint32_t M, class T = uint32_t>
static void wrapM(uint64_t v) {
	T x = T(v);
	MC_CHECK((MT::wrap<M, T>(x) == T(uint64_t(x) % M)), "wrap<%u>(%llu) is %llu", M, (unsigned long long)x,
			 (unsigned long long)MT::wrap<M, T>(x));
}

template<unsigned W, int C>
static void plat_t(int v, int want) {
	if constexpr (C == 0) {
		if constexpr (requires { MT::plateau<W>(v); })
			MC_CHECK(MT::plateau<W>(v) == want, "plateau<%u>(%d) is %d, expected %d", W, v, int(MT::plateau<W>(v)), want);
	}
	MC_CHECK((MT::plateau<W>(v, C) == want), "plateau<%u>(%d,%d) is %d, expected %d", W, v, C, int(MT::plateau<W>(v, C)), want);
	if constexpr (requires { MT::plateau<W, C>(v); })
		MC_CHECK((MT::plateau<W, C>(v) == want), "plateau<%u,%d>(%d) is %d, expected %d", W, C, v, int(MT::plateau<W, C>(v)), want);
}
static int plat_ref(int v, unsigned w, int c) {
	int hw = int(w / 2);
	int d = v - c;
	return d > hw ? d - hw : d < -hw ? d + hw : 0;
}

// comparisons, differences and ranges at the limits of every integer type
template<class T>
static void limits_of(mc::Job &j, uint64_t base) {
	using L = std::numeric_limits<T>;
	std::vector<T> v;
	auto add = [&](i128 x) {
		for (int d = -2; d <= 2; d++)
			if (x + d >= i128(L::min()) && x + d <= i128(L::max()))
				v.push_back(T(x + d));
	};
	for (int b = 0; b < 64; b += 7)
		add(i128(1) << b), add(-(i128(1) << b));
	for (int b : {15, 16, 31, 32, 63, 64})
		add(i128(1) << b), add(-(i128(1) << b));
	add(0), add(i128(L::min())), add(i128(L::max())), add(i128(L::max()) / 2), add(i128(L::max()) / 3);
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	uint64_t n = v.size();
	auto fits = [](i128 x) { return x >= i128(L::min()) && x <= i128(L::max()); };
	j.sweep(base, base + n * n, [&](uint64_t i) {
		i -= base;
		T x = v[i % n], y = v[i / n];
		i128 d = i128(x) - i128(y);
		if (d < 0)
			d = -d;
		std::string what = mc::fmt("%zu-bit %s values %lld, %lld", sizeof(T) * 8, L::is_signed ? "signed" : "unsigned", (long long)x, (long long)y);
		MC_CHECK(MT::max(x, y) == (x > y ? x : y) && MT::min(x, y) == (x > y ? y : x), "max/min of %s", what.c_str());
		if (fits(d)) {
			MC_CHECK(i128(T(MT::abs_diff(x, y))) == d, "abs_diff of %s is %lld", what.c_str(), (long long)MT::abs_diff(x, y));
			MC_CHECK(i128(T(MT::diff(x, y))) == d, "diff of %s is %lld", what.c_str(), (long long)MT::diff(x, y));
		}
		for (T z : v) {
			if (z < y)
				continue;
			T w = x < y ? y : x > z ? z : x;
			MC_CHECK(MT::constrain(x, y, z) == w, "constrain of %s, %lld is %lld", what.c_str(), (long long)z, (long long)MT::constrain(x, y, z));
			bool in = x >= y && x <= z;
			if (!in || fits(i128(x) - i128(y))) {
				auto o = MT::between(x, y, z);
				MC_CHECK(o.has_value() == in && (!o || i128(*o) == i128(x) - i128(y)), "between of %s, %lld", what.c_str(), (long long)z);
			}
			i128 r = i128(z) - i128(y) + 1, over = x > z ? (i128(x) - i128(z)) / r : x < y ? (i128(y) - i128(x)) / r : 0;
			if (over > 300 || (sizeof(T) >= 4 && !fits(r)))
				continue; // takes one step per range
			i128 m = ((i128(x) - i128(y)) % r + r) % r + i128(y);
			T g = MT::wrap<T>(x, y, z);
			MC_CHECK(i128(g) == m, "wrap of %s, %lld is %lld, expected %lld", what.c_str(), (long long)z, (long long)g, (long long)m);
		}
		return x != y;
	});
}

static uint32_t fbits(float f) {
	uint32_t u;
	memcpy(&u, &f, 4);
	return u;
}
static float fofs(uint32_t u) {
	float f;
	memcpy(&f, &u, 4);
	return f;
}
static void fclass(uint32_t u) {
	float f = fofs(u);
	bool fin = (u & 0x7f800000) != 0x7f800000;
	bool inf = (u & 0x7fffffff) == 0x7f800000;
	MC_CHECK(MT::is_finite_fastmath(f) == fin, "is_finite_fastmath of bits %#x is %d", u, !fin);
	MC_CHECK(MT::is_inf_fastmath(f) == inf, "is_inf_fastmath of bits %#x is %d", u, !inf);
	if (fin || inf) {
		uint32_t a = u & 0x7fffffff;
		uint32_t g = fbits(MT::f_abs(f));
		MC_CHECK(a == 0 ? MT::f_abs(f) == 0.f : g == a, "f_abs of bits %#x gives bits %#x", u, g);
	}
}

static int init = [] {
	mc::Reg("narrow", [](mc::Job &j) {
		j.note("narrow: every 8- and 16-bit value in next_power_of_2 and swap_bytes16");
		j.sweep(0, 65536, [&](uint64_t i) {
			np2<uint16_t>(uint16_t(i));
			if (i < 256)
				np2<uint8_t>(uint8_t(i));
			uint16_t w = uint16_t(i << 8 | i >> 8);
			MC_CHECK(MT::swap_bytes16(uint16_t(i)) == w, "swap_bytes16(%#x) is %#x", unsigned(i), MT::swap_bytes16(uint16_t(i)));
			return true;
		});
	}, 3);
	mc::Reg("patterns32", [](mc::Job &j) {
		auto v = patterns(32, 3);
		j.note("patterns32: 32-bit values of up to three ones or runs of ones, complements and neighbours");
		j.sweep(0, v.size(), [&](uint64_t i) { return bits32(uint32_t(v[i])); });
	}, 3);
	mc::Reg("patterns64", [](mc::Job &j) {
		auto v = patterns(64, j.tier(2, 3));
		j.note("patterns64: 64-bit values of up to two (thorough: three) ones or runs of ones, complements and neighbours, in next_power_of_2");
		j.sweep(0, v.size(), [&](uint64_t i) { return np2<uint64_t>(v[i]); });
	}, 3);
	mc::shards("all32", 8, [](mc::Job &j, int s, int n) {
		j.note("all32: every 32-bit value in is_power_of_2, log2_floor, next_power_of_2, byte swaps");
		j.sweep(uint64_t(65536) * s / n, uint64_t(65536) * (s + 1) / n, [&](uint64_t i) {
			for (uint32_t k = 0; k < 65536; k++)
				bits32(uint32_t(i << 16 | k));
			return true;
		});
	}, 2);
	mc::shards("allfloat", 4, [](mc::Job &j, int s, int n) {
		j.note("allfloat: every float bit pattern in is_finite_fastmath, is_inf_fastmath, f_abs");
		j.sweep(uint64_t(65536) * s / n, uint64_t(65536) * (s + 1) / n, [&](uint64_t i) {
			uint32_t step = uint32_t(j.tier(257, 1));
			for (uint32_t k = 0; k < 65536; k += step)
				fclass(uint32_t(i << 16 | k));
			return true;
		});
	}, 3);
	mc::Reg("templates", [](mc::Job &j) {
		j.note("templates: Log2 of 1..200 and values around 2^31 and 2^32; smallest integer types at all 8/16/32-bit limits");
		j.sweep(0, 1, [&](uint64_t) {
			log2all(std::make_integer_sequence<unsigned, 200>());
			sui<0>(), sui<1>(), sui<127>(), sui<128>(), sui<254>(), sui<255>(), sui<256>(), sui<257>(), sui<65534>(), sui<65535>(),
				sui<65536>(), sui<65537>(), sui<0xFFFFFFFEull>(), sui<0xFFFFFFFFull>(), sui<0x100000000ull>(), sui<~0ull>();
			ssi_row<0>();
			ssi_row<1>();
			ssi_row<2>();
			return true;
		});
	}, 3);
	mc::Reg("ipow", [](mc::Job &j) {
		j.note("ipow: all bases 0..300 and around 2^16, 2^31, 2^32 to all powers 0..70, modulo 2^32; bipolar_type_range of all standard types");
		std::vector<uint32_t> b;
		for (uint32_t i = 0; i <= 300; i++)
			b.push_back(i);
		for (uint32_t d = 0; d < 8; d++)
			b.push_back(65532 + d), b.push_back(0x7FFFFFFCu + d), b.push_back(0xFFFFFFFCu + d);
		j.sweep(0, b.size() * 71, [&](uint64_t i) {
			uint32_t a = b[i / 71], e = uint32_t(i % 71), r = 1;
			for (uint32_t k = 0; k < e; k++)
				r *= a;
			MC_CHECK(MT::ipow(a, e) == r, "ipow(%u,%u) is %u, expected %u", a, e, MT::ipow(a, e), r);
			return a > 1 && e > 1;
		});
		j.sweep(b.size() * 71, b.size() * 71 + 1, [&](uint64_t) {
			MC_CHECK(MT::bipolar_type_range(int8_t(3)) == 127 && MT::bipolar_type_range(uint8_t(3)) == 127 &&
						 MT::bipolar_type_range(int16_t(3)) == 32767 && MT::bipolar_type_range(uint16_t(3)) == 32767 &&
						 MT::bipolar_type_range(int32_t(3)) == 2147483647u && MT::bipolar_type_range(uint32_t(3)) == 2147483647u,
					 "bipolar_type_range is not the largest positive value of the type's size");
			return true;
		});
	}, 3);
	mc::Reg("wrap", [](mc::Job &j) {
		int L = j.tier(12, 24), V = j.tier(60, 150);
		j.note("wrap: all ranges within a small interval, all values several ranges outside; wrap<Max> for nine Max values incl. 2^31");
		uint64_t n = 2 * L + 1;
		j.sweep(0, n * n * uint64_t(2 * V + 1), [&](uint64_t i) {
			int lo = int(i % n) - L;
			i /= n;
			int hi = int(i % n) - L;
			i /= n;
			int v = int(i) - V;
			if (lo > hi)
				return false;
			int r = hi - lo + 1, w = ((v - lo) % r + r) % r + lo;
			MC_CHECK(MT::wrap<int>(v, lo, hi) == w, "wrap(%d,%d,%d) is %d, expected %d", v, lo, hi, MT::wrap<int>(v, lo, hi), w);
			MC_CHECK(MT::wrap(int64_t(v), int64_t(lo), int64_t(hi)) == w, "64-bit wrap(%d,%d,%d)", v, lo, hi);
			MC_CHECK(MT::wrap<int16_t>(int16_t(v), int16_t(lo), int16_t(hi)) == w, "16-bit wrap(%d,%d,%d)", v, lo, hi);
			return v < lo || v > hi;
		});
		uint64_t b0 = n * n * uint64_t(2 * V + 1);
		j.sweep(b0, b0 + 100000, [&](uint64_t i) {
			uint64_t v = i - b0;
			wrapM<1>(v), wrapM<2>(v), wrapM<3>(v), wrapM<5>(v), wrapM<7, uint8_t>(v & 255), wrapM<8>(v), wrapM<256, uint16_t>(v & 65535),
				wrapM<1000>(v), wrapM<65535>(v), wrapM<0x80000000u>(v), wrapM<0x80000000u>(0xFFFFFFFFu - v), wrapM<0xFFFFFFFFu>(0xFFFFFFFFu - v);
			for (uint32_t o : {0u, 65536u, 99990u, 199990u, 0x30000u})
				MC_CHECK(MT::wrap<100000>(uint32_t(v) + o) == (uint32_t(v) + o) % 100000 && (MT::wrap<100000u, uint64_t>(v + o)) == (v + o) % 100000, "wrap<100000>(%llu)", (unsigned long long)(v + o));
			return true;
		});
	}, 3);
	mc::Reg("plateau", [](mc::Job &j) {
		int R = j.tier(40, 120);
		j.note("plateau: all widths 0..41 and values and centres in a symmetric interval; template forms for fixed widths and centres");
		uint64_t n = 2 * uint64_t(R) + 1;
		j.sweep(0, 42 * n * 41, [&](uint64_t i) {
			unsigned w = unsigned(i % 42);
			i /= 42;
			int c = int(i % 41) - 20;
			int v = int(i / 41) - R;
			int want = plat_ref(v, w, c);
			MC_CHECK(MT::plateau(v, w, c) == want, "plateau(%d,%u,%d) is %d, expected %d", v, w, c, MT::plateau(v, w, c), want);
			MC_CHECK(MT::plateau(v * 1000, w * 1000 / 2 * 2, c * 1000) == plat_ref(v * 1000, w * 1000 / 2 * 2, c * 1000), "plateau of %d*1000", v);
			return want != 0;
		});
		static const uint32_t W[] = {0, 1, 2, 3, 255, 256, 65535, 65536, 1u << 24, (1u << 30) - 1, 1u << 30, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xC0000000, 0xFFFFFFFE, 0xFFFFFFFF};
		static const int32_t C[] = {0, 1, -1, 1000, -1000, 1 << 30, -(1 << 30), 0x7FFFFFFF, -0x7FFFFFFF - 1, 123456789};
		j.sweep(10000000, 10000000 + 18 * 10 * 24, [&](uint64_t i) {
			i -= 10000000;
			uint32_t w = W[i % 18];
			int64_t c = C[i / 18 % 10];
			uint64_t k = i / 180;
			int64_t lo = c - int64_t(w / 2), hi = c + int64_t(w / 2);
			int64_t v = (k < 5 ? lo : k < 10 ? hi : k < 15 ? c : k < 17 ? INT32_MIN : k < 19 ? INT32_MAX : 0) + (k < 15 ? int64_t(k % 5) - 2 : k == 15 ? 0 : k == 16 ? 1 : k == 17 ? 0 : k == 18 ? -1 : int64_t(k) - 21);
			auto fits = [](int64_t x) { return x >= INT32_MIN && x <= INT32_MAX; };
			int64_t want = v > hi ? v - hi : v < lo ? v - lo : 0;
			if (!fits(lo) || !fits(hi) || !fits(v) || !fits(want))
				return false;
			MC_CHECK(MT::plateau(int32_t(v), w, int32_t(c)) == want, "plateau(%lld,%u,%lld) is %d, expected %lld", (long long)v, w, (long long)c, MT::plateau(int32_t(v), w, int32_t(c)), (long long)want);
			return want != 0;
		});
		uint64_t b0 = 42 * n * 41;
		j.sweep(b0, b0 + 601, [&](uint64_t i) {
			int v = int(i - b0) - 300;
			plat_t<0, 0>(v, plat_ref(v, 0, 0)), plat_t<1, 0>(v, plat_ref(v, 1, 0)), plat_t<7, 0>(v, plat_ref(v, 7, 0)),
				plat_t<60, 0>(v, plat_ref(v, 60, 0)), plat_t<20, 100>(v, plat_ref(v, 20, 100)), plat_t<21, -50>(v, plat_ref(v, 21, -50)),
				plat_t<100, -7>(v, plat_ref(v, 100, -7)), plat_t<2, 150>(v, plat_ref(v, 2, 150));
			return true;
		});
	}, 3);
	mc::Reg("map", [](mc::Job &j) {
		int L = j.tier(5, 8), V = L + 3;
		j.note("map: map_value over all small integer ranges, values in and outside, plus exact dyadic floats; constrain, min, max, between, abs_diff, diff on all small triples");
		uint64_t n = 2 * L + 1, nv = 2 * V + 1;
		j.sweep(0, n * n * n * n * nv, [&](uint64_t i) {
			int a = int(i % n) - L;
			i /= n;
			int b = int(i % n) - L;
			i /= n;
			int c = int(i % n) - L;
			i /= n;
			int d = int(i % n) - L;
			i /= n;
			int v = int(i) - V;
			if (a == b)
				return false;
			int w = (v - a) * (d - c) / (b - a) + c;
			MC_CHECK(MT::map_value(v, a, b, c, d) == w, "map_value(%d,%d,%d,%d,%d) is %d, expected %d", v, a, b, c, d,
					 MT::map_value(v, a, b, c, d), w);
			float q = float((v - a) * (d - c)) / float(b - a) + float(c);
			float g = MT::map_value(float(v), float(a), float(b), float(c), float(d));
			MC_CHECK(std::fabs(g - q) <= 1e-5f, "map_value(%d.f,%d.f,%d.f,%d.f,%d.f) is %g, expected %g", v, a, b, c, d, double(g), double(q));
			if (v == a)
				MC_CHECK(g == float(c), "map_value does not map in_min to out_min");
			return c != d;
		});
		uint64_t b0 = n * n * n * n * nv, m = 2 * 7 + 1;
		j.sweep(b0, b0 + m * m * m, [&](uint64_t i) {
			i -= b0;
			int x = int(i % m) - 7, y = int(i / m % m) - 7, z = int(i / m / m) - 7;
			if (y <= z) {
				int w = x < y ? y : x > z ? z : x;
				MC_CHECK(MT::constrain(x, y, z) == w && MT::constrain(float(x) / 4, float(y) / 4, float(z) / 4) == float(w) / 4,
						 "constrain(%d,%d,%d)", x, y, z);
				auto o = MT::between(x, y, z);
				MC_CHECK(o.has_value() == (x >= y && x <= z) && (!o || *o == x - y), "between(%d,%d,%d)", x, y, z);
			}
			MC_CHECK(MT::max(x, y) == (x > y ? x : y) && MT::min(x, y) == (x < y ? x : y), "max/min(%d,%d)", x, y);
			int d = x > y ? x - y : y - x;
			MC_CHECK(MT::abs_diff(x, y) == d && MT::diff(x, y) == d, "abs_diff/diff(%d,%d) is %d/%d", x, y, MT::abs_diff(x, y), MT::diff(x, y));
			unsigned ux = unsigned(x + 7), uy = unsigned(y + 7) + (z & 1 ? 0xFFFFFFF0u : 0u);
			unsigned ud = ux > uy ? ux - uy : uy - ux;
			MC_CHECK(MT::abs_diff(ux, uy) == ud && MT::diff(ux, uy) == ud, "abs_diff/diff(%u,%u) is %u/%u", ux, uy, MT::abs_diff(ux, uy), MT::diff(ux, uy));
			uint8_t bx = uint8_t(x * 17), by = uint8_t(y * 17);
			MC_CHECK(MT::abs_diff(bx, by) == uint8_t(bx > by ? bx - by : by - bx), "8-bit abs_diff(%u,%u)", bx, by);
			return true;
		});
	}, 3);
	mc::Reg("limits", [](mc::Job &j) {
		j.note("limits: constrain, min, max, between, abs_diff, diff and wrap for all eight integer types, all pairs and triples of values around the powers of two and the limits of the type");
		limits_of<int8_t>(j, 0);
		limits_of<uint8_t>(j, 1000000);
		limits_of<int16_t>(j, 2000000);
		limits_of<uint16_t>(j, 3000000);
		limits_of<int32_t>(j, 4000000);
		limits_of<uint32_t>(j, 5000000);
		limits_of<int64_t>(j, 6000000);
		limits_of<uint64_t>(j, 7000000);
	}, 3);
	mc::Reg("constants", [](mc::Job &j) {
		j.note("constants: differences of neighbours in 40 compile-time arrays of 2 to 9 values");
		[&]<unsigned... I>(std::integer_sequence<unsigned, I...>) {
			(j.sweep(I, I + 1,
					 [](uint64_t) {
						 constexpr auto a = [] {
							 std::array<int32_t, 2 + I % 8> r{};
							 for (unsigned k = 0; k < r.size(); k++)
								 r[k] = int32_t((I / 8 * 2654435761u + k * k * 40503u) >> (I % 13)) % 1000000 * (k % 3 ? 1 : -1);
							 return r;
						 }();
						 constexpr auto d = MT::array_adj_diff(a);
						 MC_CHECK(d.size() == a.size() - 1, "%zu differences of %zu values", d.size(), a.size());
						 for (unsigned k = 0; k < d.size(); k++)
							 MC_CHECK(d[k] == a[k + 1] - a[k], "difference %u of array %u is %d, expected %d", k, I, d[k], a[k + 1] - a[k]);
						 return true;
					 }),
			 ...);
		}(std::make_integer_sequence<unsigned, 40>());
	}, 3);
	mc::Reg("interpolate", [](mc::Job &j) {
		j.note("interpolate: integer interpolation with four phase ranges, all phases in, below and above the range, values of both signs up to 2^31; float interpolation on an exact dyadic grid");
		j.sweep(0, 64 * 64, [&](uint64_t i) {
			int a = int(i % 64), b = int(i / 64);
			// integers of both signs, phases in and beyond the range; what is not whole may be rounded either way
			auto chk = [&]<uint32_t P>(int sc) {
				for (int va : {a * sc, -a * sc})
					for (int vb : {b * sc, -b * sc})
						for (int p = -int(P); p <= 2 * int(P); p += P > 1000 ? 97 : 1) {
							int64_t t = int64_t(vb) * p, u = int64_t(va) * (int64_t(P) - p);
							if (std::llabs(t) > INT32_MAX || std::llabs(u) > INT32_MAX || std::llabs(t + u) > INT32_MAX)
								continue;
							int64_t w = (t + u) / int64_t(P), rem = (t + u) % int64_t(P);
							int32_t g = MT::interpolate<P>(va, vb, p);
							MC_CHECK(g == w || (t + u < 0 && rem && g == w - 1), "interpolate<%u>(%d,%d,%d) is %d, expected %lld", P, va, vb, p, g, (long long)w);
						}
			};
			chk.template operator()<1>(1);
			chk.template operator()<7>(1);
			chk.template operator()<1>(33554431);
			chk.template operator()<64>(3);
			chk.template operator()<100>(91753);
			chk.template operator()<255>(257);
			chk.template operator()<4096>(3001);
			float fa = float(a - 32) / 8, fb = float(b - 32) / 8;
			for (int p = 0; p <= 16; p++) {
				float ph = float(p) / 16, w = fa + (fb - fa) * ph;
				MC_CHECK(MT::interpolate(fa, fb, ph) == w && MT::interpolate3(fa, fb, ph) == w, "interpolate(%g,%g,%g)", double(fa), double(fb),
						 double(ph));
			}
			return a != b;
		});
	}, 3);
	mc::Reg("saturate", [](mc::Job &j) {
		auto v = patterns(32, j.tier(2, 3));
		j.note("saturate: all pattern values with all signed widths 1..32 and unsigned widths 0..31");
		j.sweep(0, v.size(), [&](uint64_t i) {
			sat(int32_t(uint32_t(v[i])));
			return true;
		});
	}, 3);
	mc::Reg("random", [](mc::Job &j) {
		j.note("random: the generator rand() is replaced; every value in blocks at both ends, the middle and 4096 evenly spaced values of its range, for 8 target ranges");
		j.sweep(0, 4096 * 2, [&](uint64_t i) {
			int64_t r = i < 4096 ? int64_t(i) * 524288 : i < 5400 ? int64_t(i) - 4096 : i < 6800 ? int64_t(RAND_MAX) - int64_t(i - 5400) : RAND_MAX / 2 - 700 + int64_t(i - 6800);
			next_rand = int(r);
			static const int lim[][2] = {{0, 1}, {1, 2}, {0, 10}, {-4, 4}, {5, 5}, {-100, -90}, {0, 1000000}, {-1, 0}};
			for (auto &l : lim) {
				int a = l[0], b = l[1];
				int g = MT::randomNumber<int>(a, b);
				MC_CHECK(g >= a && g <= b, "randomNumber(%d,%d) is %d for rand()=%d", a, b, g, next_rand);
				MC_CHECK(g != b || a == b || r == RAND_MAX, "randomNumber(%d,%d) reaches the maximum for rand()=%d", a, b, next_rand);
				int64_t w = i128(r) * (int64_t(b) - a) / RAND_MAX + a;
				MC_CHECK(g == w, "randomNumber(%d,%d) is %d for rand()=%d: not evenly distributed", a, b, g, next_rand);
				float f = MT::randomNumber<float>(float(a), float(b));
				MC_CHECK(f >= float(a) && f <= float(b), "randomNumber(%d.f,%d.f) is %g for rand()=%d", a, b, double(f), next_rand);
				double want = double(a) + double(r) / RAND_MAX * (double(b) - a);
				MC_CHECK(std::fabs(double(f) - want) <= 1e-6 * (std::fabs(double(a)) + std::fabs(double(b)) + 1), "randomNumber(%d.f,%d.f) is %g for rand()=%d", a, b, double(f), next_rand);
			}
			return true;
		});
	}, 3);
	mc::Reg("sine", [](mc::Job &j) {
		j.note("sine: faster_sine at all multiples of 2^-14 in [0,1]: zero at the documented points, odd about 1/2, within 0.06 of -sin");
		j.sweep(0, 16385, [&](uint64_t i) {
			float x = float(i) / 16384, y = MT::faster_sine(x);
			double s = -std::sin(2 * 3.14159265358979323846 * x);
			MC_CHECK(std::fabs(y - s) <= 0.0561, "faster_sine(%g) is %g, sine is %g", double(x), double(y), s);
			MC_CHECK(y >= -1.f && y <= 1.f, "faster_sine(%g) is %g", double(x), double(y));
			MC_CHECK(MT::faster_sine(1 - x) == -y, "faster_sine(%g) is not odd about 1/2", double(x));
			if (i % 4096 == 0)
				MC_CHECK(y == float(i / 4096 % 2 ? (i / 4096 == 1 ? -1 : 1) : 0), "faster_sine(%g) is %g", double(x), double(y));
			return i % 8192 != 0;
		});
	}, 3);
	mc::Reg("gate", [](mc::Job &j) {
		j.note("gate: hysteresis_gate and hysteresis_feedback over all threshold pairs, both previous outputs and all inputs on a grid of eighths");
		j.sweep(0, 9 * 9 * 2 * 17, [&](uint64_t i) {
			float off = float(i % 9) / 8, on = float(i / 9 % 9) / 8;
			float last = float(i / 81 % 2), in = float(int(i / 162) - 4) / 8;
			if (off > on)
				return false;
			float g = MT::hysteresis_gate(off, on, last, in);
			if (last == 0.f)
				MC_CHECK(g == (in > on ? 1.f : 0.f), "gate off, thresholds %g/%g, input %g: output %g", double(off), double(on), double(in), double(g));
			else if (in != off) // exactly at the threshold is left open
				MC_CHECK(g == (in < off ? 0.f : 1.f), "gate on, thresholds %g/%g, input %g: output %g", double(off), double(on), double(in), double(g));
			float h = MT::hysteresis_feedback(off, on, last, in);
			MC_CHECK(h == (in + last * off > on ? 1.f : 0.f), "hysteresis_feedback(%g,%g,%g,%g) is %g", double(off), double(on), double(last),
					 double(in), double(h));
			return off < on;
		});
	}, 3);
	return 0;
}();
