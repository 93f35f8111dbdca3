// C26: interpolation tables of every small size against exact rational interpolation on dyadic positions.
#include "mc.hh"
#include <cmath>
#include "util/interp_array.hh"
#include "util/lookup_table.hh"

static const int VALS[] = {100, -200, 2048, 0, -1024, 512, 7, 64, -3};

template<class T, unsigned S, class P>
struct IA {
	using A = InterpArray<T, S, P>;
	static constexpr int DEN = 16; // positions are multiples of 1/16 of an element
	static double at(const int *v, int64_t num, int64_t den) { // position num/den, wrapping
		int64_t k = num >= 0 ? num / den : -((-num + den - 1) / den);
		int64_t r = num - k * den;
		int64_t i0 = ((k % int64_t(S)) + S) % S, i1 = (i0 + 1) % S;
		return v[i0] + double(v[i1] - v[i0]) * double(r) / double(den);
	}
	static bool same(T got, double want) {
		if constexpr (std::is_integral_v<T>)
			return double(got) == std::trunc(want);
		else
			return double(got) == want;
	}
	static void run(mc::Job &j, uint64_t base, const char *tn) {
		const int64_t span = 40; // elements either side
		const uint64_t npos = uint64_t(2 * span * DEN * int(S)) + 1;
		uint64_t rot = 9;
		j.sweep(base, base + npos * rot, [&](uint64_t u) {
			u -= base;
			int v[S];
			mc::Arena<A> ar;
			A *a = &ar.make(0xA5);
			for (unsigned i = 0; i < S; i++) {
				v[i] = VALS[(i + u % rot) % 9];
				switch (i % 3) {
					case 0:
						(*a)[i] = T(v[i]);
						break;
					case 1:
						a->set(i, T(v[i]));
						break;
					default:
						a->set(i) = T(v[i]);
				}
			}
			const A &c = *a;
			for (unsigned i = 0; i < S; i++)
				MC_CHECK(c[i] == T(v[i]) && c.get(i) == T(v[i]) && (*a)[i] == T(v[i]), "%s size %u: element %u does not read back", tn, S, i);
			int64_t num = int64_t(u / rot) - span * DEN * int64_t(S);
			auto ck = [&](const char *f, double arg, T got, double want) {
				MC_CHECK(same(got, want), "InterpArray<%s,%u>::%s(%.17g) is %.9g, expected %.9g", tn, S, f, arg, double(got), want);
			};
			// by index, wrapping: any position
			P idx = P(num) / P(DEN);
			ck("interp_by_index_wrap", double(idx), c.interp_by_index_wrap(idx), at(v, num, DEN));
			// by phase, wrapping: exact when Size is a power of two
			if constexpr ((S & (S - 1)) == 0) {
				P ph = idx / P(S);
				ck("interp_wrap", double(ph), c.interp_wrap(ph), at(v, num, DEN));
				int64_t k = num >= 0 ? num / DEN : -((-num + DEN - 1) / DEN);
				ck("closest_wrap", double(ph), c.closest_wrap(ph), v[((k % int64_t(S)) + S) % S]);
			} else {
				// phases in units of 1/16 of a turn: multiply by Size exactly
				P ph = P(num) / P(DEN);
				ck("interp_wrap", double(ph), c.interp_wrap(ph), at(v, num * S, DEN));
				int64_t n2 = num * int64_t(S);
				int64_t k = n2 >= 0 ? n2 / DEN : -((-n2 + DEN - 1) / DEN);
				ck("closest_wrap", double(ph), c.closest_wrap(ph), v[((k % int64_t(S)) + S) % S]);
			}
			if (num >= 0 && num <= int64_t(S - 1) * DEN)
				ck("interp_by_index", double(idx), c.interp_by_index(idx), at(v, num, DEN));
			if (num >= 0 && num <= DEN * 4) { // phase num/64
				P ph = P(num) / P(DEN * 4);
				ck("interp", double(ph), c.interp(ph), at(v, num * (S - 1), DEN * 4));
				ck("closest", double(ph), c.closest(ph), v[num * (S - 1) / (DEN * 4)]);
			}
			ar.reset();
			return S > 1 && num % DEN != 0;
		});
	}
};
template<class T, class P, unsigned... S>
static void family(mc::Job &j, const char *tn, std::integer_sequence<unsigned, S...>) {
	j.note("arrays: sizes 1 to 9, all positions in sixteenths of an element from -40 to 40 turns, nine rotations of the contents");
	(IA<T, S + 1, P>::run(j, uint64_t(S) << 24, tn), ...);
}

// positions many turns away
template<unsigned S>
static void far_turns(mc::Job &j, uint64_t base) {
	j.sweep(base, base + 2 * 11 * (16 * S + 1), [&](uint64_t u) {
		u -= base;
		static const int64_t TURNS[] = {255, 256, 257, 32767, 32768, 65534, 65535, 65536, 70000, 131071, 1000003};
		int64_t t = TURNS[u / 2 % 11] * (u & 1 ? 1 : -1), num = t * S * 16 + int64_t(u / 22);
		int v[S];
		InterpArray<double, S, double> a;
		for (unsigned i = 0; i < S; i++)
			a[i] = v[i] = VALS[i];
		double want = IA<double, S, double>::at(v, num, 16), idx = double(num) / 16, got = a.interp_by_index_wrap(idx);
		MC_CHECK(got == want, "InterpArray<double,%u>::interp_by_index_wrap(%.17g) is %.9g, expected %.9g", S, idx, got, want);
		if constexpr ((S & (S - 1)) == 0) {
			got = a.interp_wrap(idx / S);
			MC_CHECK(got == want, "InterpArray<double,%u>::interp_wrap(%.17g) is %.9g, expected %.9g", S, idx / S, got, want);
			int64_t k = num >= 0 ? num / 16 : -((-num + 15) / 16);
			got = a.closest_wrap(idx / S);
			MC_CHECK(got == v[((k % int64_t(S)) + S) % S], "InterpArray<double,%u>::closest_wrap(%.17g) is %.9g", S, idx / S, got);
		}
		return true;
	});
}
template<size_t N, class T>
static void lut_all(mc::Job &j, uint64_t base) {
	// ranges [lo, lo+w]; positions in 1/32 of a step from beyond either end
	static const int W[] = {1, 2, 4, 3, 5, -2, -3};
	const int K = 32;
	const int npos = int(N - 1) * K + 2 * 3 * K + 1;
	j.sweep(base, base + uint64_t(7 * 5 * 9 * npos), [&](uint64_t u) {
		u -= base;
		int p = int(u % npos) - 3 * K;
		u /= npos;
		int rot = int(u % 9);
		u /= 9;
		int lo = int(u % 5) - 2, w = W[u / 5];
		std::array<T, N> d;
		for (size_t i = 0; i < N; i++)
			d[i] = T(VALS[(i + size_t(rot)) % 9]);
		mc::Arena<LookupTable<N, T>> ar;
		auto *t = &ar.make(0x5A, T(lo), T(lo + w), d);
		const auto &c = *t;
		double x = lo + double(w) * p / double(K) / double(N - 1);
		double want;
		double pos = double(p) / K;
		if (pos <= 0)
			want = d[0];
		else if (pos >= double(N - 1))
			want = d[N - 1];
		else {
			size_t k = size_t(pos);
			want = d[k] + (d[k + 1] - d[k]) * (pos - double(k));
		}
		bool exact = (w & (w - 1)) == 0 && w > 0 && ((N - 1) & (N - 2)) == 0;
		double tol = exact ? 0 : 0.02;
		T g = c.lookup(T(x)), g2 = c(T(x));
		MC_CHECK(g == g2 && std::fabs(double(g) - want) <= tol, "LookupTable<%zu> over [%d,%d]: lookup(%.9g) is %.9g, expected %.9g", N, lo, lo + w, x,
				 double(g), want);
		if (pos <= -1 || p == 0)
			MC_CHECK(g == d[0], "LookupTable<%zu>: lookup below the range is not the first point", N);
		if (pos >= double(N))
			MC_CHECK(g == d[N - 1], "LookupTable<%zu>: lookup above the range is not the last point", N);
		ar.reset();
		return pos > 0 && pos < double(N - 1) && p % K != 0;
	});
}
struct R1 {
	static constexpr float min = -2.f, max = 6.f;
};
struct R2 {
	static constexpr float min = 0.f, max = 1.f;
};
struct R3 {
	static constexpr float min = -0.3f, max = -0.1f;
};
template<size_t N, class R, class F>
static void gen(mc::Job &j, uint64_t base, F f) {
	static auto t = LookupTable<N>::template generate<R>(f);
	j.sweep(base, base + 16 * (N - 1) + 1, [&](uint64_t u) {
		u -= base;
		size_t k = u / 16;
		double x = R::min + double(R::max - R::min) * double(u) / 16 / double(N - 1);
		auto node = [&](size_t i) { return double(f(float(R::min + (double(R::max) - R::min) * double(i) / double(N - 1)))); };
		double a = node(k), b = node(k + 1 < N ? k + 1 : k), want = a + (b - a) * double(u % 16) / 16;
		double g = t.lookup(float(x));
		MC_CHECK(std::fabs(g - want) <= 1e-4 * (1 + std::fabs(want)), "generated LookupTable<%zu> over [%g,%g]: lookup(%.9g) is %.9g, expected %.9g", N,
				 double(R::min), double(R::max), x, g, want);
		return u % 16 != 0;
	});
}
static int init = [] {
	using Seq = std::make_integer_sequence<unsigned, 9>;
	mc::Reg("array-float", [](mc::Job &j) { family<float, float>(j, "float", Seq{}); }, 3);
	mc::Reg("array-default", [](mc::Job &j) { // the position type as it comes
		InterpArray<float, 4> a{{0, 10, 20, 30}};
		InterpArray<double, 5> b{{0, 16, 32, 48, 64}};
		j.sweep(0, 33, [&](uint64_t x) {
			float p = float(x) / 32;
			MC_CHECK(a.interp(p) == 30 * p && b.interp(p) == 64 * p, "interp(%g) with the default position type is %g and %g", p, double(a.interp(p)), b.interp(p));
			MC_CHECK(a.interp_by_index(3 * p) == 30 * p && b.interp_by_index(4 * p) == 64 * p, "interp_by_index(%g) with the default position type is wrong", 3 * p);
			MC_CHECK(a.interp_wrap(p * 0.75f) == 30 * p && b.interp_wrap(p * 0.75f) == 60 * p, "interp_wrap(%g) with the default position type is wrong", p * 0.75f);
			return x % 32 != 0;
		});
	});
	mc::Reg("array-double", [](mc::Job &j) { family<double, double>(j, "double", Seq{}); }, 3);
	mc::Reg("array-far", [](mc::Job &j) {
		j.note("array-far: sizes 1, 2, 3, 4, 7 and 8, all sixteenths of one turn after 255 to 1000003 turns either way");
		far_turns<1>(j, 0), far_turns<2>(j, 100000), far_turns<3>(j, 200000), far_turns<4>(j, 300000), far_turns<7>(j, 400000), far_turns<8>(j, 500000);
	});
	mc::Reg("array-long", [](mc::Job &j) { family<long, float>(j, "long", Seq{}); }, 3);
	mc::Reg("lookup", [](mc::Job &j) {
		j.note("lookup: 2..9 points, 7 range widths (two reversed), 5 offsets, nine rotations of the contents, all positions in 32nds of a step from three steps below to three above");
		[&]<size_t... I>(std::index_sequence<I...>) {
			(lut_all<I + 2, float>(j, uint64_t(I) << 24), ...);
			(lut_all<I + 2, double>(j, uint64_t(I + 16) << 24), ...);
		}(std::make_index_sequence<8>());
	}, 3);
	mc::Reg("generate", [](mc::Job &j) {
		j.note("generate: tables of 2, 3, 5, 33, 50, 256, 257, 300 and 1000 points generated from three functions over three ranges, all sixteenths of a step");
		auto q = [](float x) constexpr { return x * x + 7; };
		auto l = [](float x) constexpr { return 3 * x - 1; };
		auto c = [](float x) constexpr { return x * x * x; };
		gen<2, R1>(j, 0, q), gen<3, R1>(j, 10000, l), gen<5, R2>(j, 20000, c), gen<33, R3>(j, 30000, q), gen<50, R1>(j, 40000, c), gen<33, R2>(j, 50000, l), gen<256, R1>(j, 60000, q), gen<257, R2>(j, 70000, c), gen<300, R1>(j, 80000, l), gen<1000, R1>(j, 90000, q);
	}, 3);
	return 0;
}();
