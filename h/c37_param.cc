// C37: latched and change-tracking parameters to closure of their reachable states.
#include "mc.hh"
#include <cmath>
#include <limits>
#include <vector>
#include "util/parameter.hh"

template<class T, unsigned N, unsigned D, int Scale /*value = k / Scale*/>
struct Latch {
	using L = LatchedParam<T, N, D>;
	static constexpr int K = 9; // values 0..8 (and negative if signed)
	mc::Arena<L> a[2];
	struct M {
		int v = 0;
		bool ch = false;
	} m[2];
	static int val(int k) {
		return std::is_signed_v<T> ? k - 4 : k;
	}
	Latch() {
		for (auto &x : a)
			x.make(0xA5);
	}
	int nops() {
		return 2 * (2 * K + 2);
	}
	std::string opname(int o) {
		int w = o & 1;
		o >>= 1;
		if (o < K)
			return mc::fmt("%d.store_changed(%d/%d)", w, val(o), Scale);
		if (o < 2 * K)
			return mc::fmt("%d = %d/%d", w, val(o - K), Scale);
		return o == 2 * K ? mc::fmt("%d.did_change()", w) : mc::fmt("%d = other", w);
	}
	bool apply(int o) {
		int w = o & 1;
		o >>= 1;
		auto &l = a[w].get();
		auto &x = m[w];
		if (o < K) {
			int v = val(o);
			// |v - x.v| / Scale >= N / D, D > 1 only for fractional types
			long diff = std::labs(long(v) - x.v);
			bool want = std::is_floating_point_v<T> ? diff * long(D) >= long(N) * Scale : diff >= long(N / D);
			bool got = l.store_changed(T(v) / T(Scale));
			MC_CHECK(got == want, "storing %d/%d over %d/%d was %s", v, Scale, x.v, Scale, got ? "accepted" : "ignored");
			if (want) {
				x.v = v;
				x.ch = true;
			}
		} else if (o < 2 * K) {
			l = T(val(o - K)) / T(Scale);
			x.v = val(o - K);
		} else if (o == 2 * K) {
			bool got = l.did_change();
			MC_CHECK(got == x.ch, "did_change() is %d, expected %d", got, x.ch);
			x.ch = false;
		} else {
			l = a[!w].get();
			x = m[!w];
		}
		for (int i = 0; i < 2; i++) {
			T got = T(a[i].get());
			MC_CHECK(got == T(m[i].v) / T(Scale), "parameter %d holds %g, expected %d/%d", i, double(got), m[i].v, Scale);
			auto probe = a[i].get();
			MC_CHECK(probe.did_change() == m[i].ch && !probe.did_change(), "pending change of parameter %d is not %d", i, m[i].ch);
		}
		return true;
	}
	void key(mc::Hash &h) {
		for (auto &x : m)
			h.u64(unsigned(x.v) * 2 + x.ch);
		for (auto &x : a) {
			auto p = x.get();
			h.u64(p.did_change());
		}
	}
};
template<class T>
struct Par {
	mc::Arena<Parameter<T>> a[2];
	struct M {
		int v;
		bool ch = true;
	} m[2];
	Par() {
		a[0].make(0xA5);
		a[1].make(0xA5, T(2));
		m[0] = {0};
		m[1] = {2};
	}
	int nops() {
		return 2 * 10;
	}
	std::string opname(int o) {
		int w = o & 1;
		o >>= 1;
		if (o < 8)
			return mc::fmt("%d.%s(%d)", w, o & 1 ? "operator=" : "setValue", o / 2);
		return mc::fmt("%d.%s", w, o == 8 ? "isChanged()" : "operator=(other)");
	}
	bool apply(int o) {
		int w = o & 1;
		o >>= 1;
		auto &p = a[w].get();
		auto &x = m[w];
		if (o < 8) {
			int v = o / 2;
			if (o & 1)
				p = T(v);
			else
				p.setValue(T(v));
			if (x.v != v)
				x.ch = true;
			x.v = v;
		} else if (o == 8) {
			bool g = p.isChanged();
			MC_CHECK(g == x.ch, "isChanged() is %d, expected %d", g, x.ch);
			x.ch = false;
		} else {
			p = a[!w].get();
			x.v = m[!w].v; // whether the pending change is copied or merged is open; a difference must show
			auto probe = p;
			bool g = probe.isChanged();
			MC_CHECK(g || !m[!w].ch, "copying a parameter lost its pending change");
			x.ch = g;
		}
		for (int i = 0; i < 2; i++) {
			const auto &k = a[i].get();
			MC_CHECK(k.getValue() == T(m[i].v) && T(k) == T(m[i].v), "parameter %d holds %g, expected %d", i, double(k.getValue()), m[i].v);
		}
		return true;
	}
	void key(mc::Hash &h) {
		for (auto &x : m)
			h.u64(unsigned(x.v) * 2 + x.ch);
		for (auto &x : a) {
			auto p = x.get();
			h.u64(p.isChanged());
		}
	}
};
template<class T>
struct Ref {
	T var{};
	mc::Arena<RefParameter<T>> a[2];
	int v = 0, last[2] = {0, 0};
	Ref() {
		for (auto &x : a)
			x.make(0xA5, var);
	}
	int nops() {
		return 2 * 8 + 3;
	}
	std::string opname(int o) {
		if (o >= 16)
			return mc::fmt("variable = %d", o - 16);
		return mc::fmt("%d.%s", o & 1, o / 2 < 6 ? mc::fmt("%s(%d)", (o >> 1) & 1 ? "operator=" : "setValue", o / 4).c_str() : "isChanged()");
	}
	bool apply(int o) {
		if (o >= 16) {
			v = o - 16;
			var = T(v);
		} else {
			int w = o & 1;
			o >>= 1;
			auto &p = a[w].get();
			if (o < 6) {
				v = o / 2;
				if (o & 1)
					p = T(v);
				else
					p.setValue(T(v));
			} else {
				bool g = p.isChanged();
				MC_CHECK(g == (v != last[w]), "isChanged() is %d with value %d, last seen %d", g, v, last[w]);
				last[w] = v;
			}
		}
		MC_CHECK(var == T(v), "the referenced variable holds %g, expected %d", double(var), v);
		for (auto &x : a) {
			const auto &k = x.get();
			MC_CHECK(k.getValue() == T(v) && T(k) == T(v), "parameter reads %g, expected %d", double(k.getValue()), v);
		}
		return true;
	}
	void key(mc::Hash &h) {
		h.u64(unsigned(v) * 16 + unsigned(last[0]) * 4 + unsigned(last[1]));
	}
};
template<class S>
static void reg(const char *n) {
	mc::Reg(n, [](mc::Job &j) { j.bfs<S>({.depth = 60}, [] { return std::make_unique<S>(); }); });
}
template<class T, unsigned N>
static void pairs(mc::Job &j) {
	j.note("latch pairs: every pair of stored and new value of the 8-bit types whose difference the type can hold");
	j.sweep(0, 65536, [](uint64_t i) {
		T a = T(i & 255), b = T(i >> 8);
		int diff = std::abs(int(a) - int(b));
		if (diff > std::numeric_limits<T>::max())
			return false;
		LatchedParam<T, N> p;
		p = a;
		bool g = p.store_changed(b);
		MC_CHECK(g == (diff >= int(N)) && T(p) == (g ? b : a) && p.did_change() == g, "storing %d over %d with minimum change %u: %d, now %d", b, a, N, g, int(T(p)));
		return g;
	});
}
// every pair (small types) or triple (corner values of large ones) of values through both kinds of parameter
template<class T>
static void values(T a, T b, T e) {
	Parameter<T> p{a};
	T v{};
	RefParameter<T> r{v};
	T last{};
	bool ch = true;
	T cur = a, seq[] = {a, b, e, b};
	r.isChanged();
	auto D = [](T x) { return double(x); };
	for (unsigned k = 0; k < 4; k++)
		for (int rep = 0; rep < 2; rep++) {
			T n = seq[k];
			if (rep)
				p = n;
			else
				p.setValue(n);
			if (rep)
				r.setValue(n);
			else if (k % 2)
				v = n;
			else
				r = n;
			ch = ch || n != cur;
			cur = n;
			MC_CHECK(T(p) == n && p.getValue() == n && v == n && T(r) == n && r.getValue() == n, "a parameter set to %.17g does not hold it", D(n));
			if (rep || k != 1) { // one report is skipped
				MC_CHECK(p.isChanged() == ch && !p.isChanged(), "values %.17g %.17g %.17g: report of setting %u is not %d (once)", D(a), D(b), D(e), k, ch);
				ch = false;
				bool want = n != last;
				MC_CHECK(r.isChanged() == want && !r.isChanged(), "values %.17g %.17g %.17g: report of reference %u is not %d (once)", D(a), D(b), D(e), k, want);
				last = n;
			}
		}
}
template<class T>
static void corners(const char *name, std::vector<T> V) {
	mc::Reg(name, [V](mc::Job &j) {
		j.note("values: every triple of the listed values set through setValue, assignment or the variable, reported or skipped");
		uint64_t n = V.size();
		j.sweep(0, n * n * n, [&](uint64_t i) {
			values<T>(V[i % n], V[i / n % n], V[i / n / n]);
			return true;
		});
	});
}
template<class T>
static void corner_latch(const char *name, std::vector<T> V) {
	mc::Reg(name, [V](mc::Job &j) {
		j.note("latch corners: every pair of the listed values, where the difference can be represented exactly");
		uint64_t n = V.size();
		auto one = [](auto p, T a, T b, long double min) {
			long double d = (long double)a - b;
			if (d < 0)
				d = -d;
			if (d > (long double)std::numeric_limits<T>::max() || (long double)T(d) != d)
				return;
			p = a;
			bool g = p.store_changed(b), want = d >= min;
			MC_CHECK(g == want && T(p) == (want ? b : a) && p.did_change() == want && !p.did_change(), "storing %.17g over %.17g: %d, now %.17g", double(b), double(a), g, double(T(p)));
		};
		j.sweep(0, n * n, [&](uint64_t i) {
			T a = V[i % n], b = V[i / n];
			one(LatchedParam<T, 1>{}, a, b, 1);
			one(LatchedParam<T, 3>{}, a, b, 3);
			one(LatchedParam<T, 1u << 30>{}, a, b, 1u << 30);
			if constexpr (std::is_floating_point_v<T>)
				one(LatchedParam<T, 1, 1024>{}, a, b, 1.L / 1024);
			return a != b;
		});
	});
}
template<class T>
static std::vector<T> ints() {
	using L = std::numeric_limits<T>;
	std::vector<T> v{0, 1, 2, 3, 100, L::max(), T(L::max() - 1), T(L::max() - 3), L::min(), T(L::min() + 1), T(L::min() + 3), T(L::max() / 2), T(L::max() / 2 + 1)};
	for (unsigned b : {7u, 8u, 15u, 16u, 24u, 31u, 32u, 48u})
		if (b < sizeof(T) * 8 - 1)
			v.insert(v.end(), {T(T(1) << b), T((T(1) << b) + 1), T((T(1) << b) - 1)});
	if (std::is_signed_v<T>)
		for (auto n = v.size(); n-- > 0;)
			if (v[n] != L::min())
				v.push_back(T(-v[n]));
	return v;
}
template<class T>
static std::vector<T> floats() {
	using L = std::numeric_limits<T>;
	std::vector<T> v{T(0), T(1), T(1) + L::epsilon(), T(0.5), T(0.75), T(1) / 1024, T(1) / 1023, T(3), T(4), L::min(), L::denorm_min(), L::max(), L::infinity(), T(16777216), T(16777218), T(1e20)};
	for (auto n = v.size(); n-- > 0;)
		v.push_back(-v[n]);
	return v;
}
// steps that are no binary fraction: a change by the step is taken over, one short of it by 1e-9 of it is not
template<class T, unsigned N, unsigned D>
static void fraction(mc::Job &j, uint64_t base) {
	j.sweep(base, base + 2 * 7, [&](uint64_t i) {
		i -= base;
		T step = T(N) / T(D), sign = i & 1 ? -1 : 1;
		const double eps = sizeof(T) == 8 ? 1e-12 : 1e-6;
		static const double K[] = {1, 0.5, 0, 1.5, 1000, 1 - 1, 1 + 1};
		double k = i / 2 == 5 ? 1 - eps : i / 2 == 6 ? 1 + eps : K[i / 2];
		mc::Arena<LatchedParam<T, N, D>> a;
		auto &p = a.make(0xA5);
		T v = k == 1 ? sign * step : T(sign * double(step) * k);
		bool want = k >= 1, got = p.store_changed(v);
		MC_CHECK(got == want && T(p) == (want ? v : T(0)) && p.did_change() == want, "step %u/%u: storing %.17g over 0 was %s", N, D, double(v), got ? "accepted" : "ignored");
		return true;
	});
}
static int init = [] {
	mc::Reg("fractions", [](mc::Job &j) {
		j.note("fractions: steps of 1/3, 1/10, 7/10, 1/1000 and 333/100 in float and double: changes of just below, exactly and just above the step");
		fraction<double, 1, 3>(j, 0), fraction<double, 1, 10>(j, 100), fraction<double, 7, 10>(j, 200), fraction<double, 1, 1000>(j, 300), fraction<double, 333, 100>(j, 400);
		fraction<float, 1, 3>(j, 500), fraction<float, 1, 10>(j, 600), fraction<float, 7, 10>(j, 700), fraction<float, 1, 1000>(j, 800), fraction<float, 333, 100>(j, 900);
	});
	corners<bool>("values-bool", {false, true});
	corners<int8_t>("values-i8", ints<int8_t>());
	corners<uint16_t>("values-u16", ints<uint16_t>());
	corners<int>("values-int", ints<int>());
	corners<uint32_t>("values-u32", ints<uint32_t>());
	corners<int64_t>("values-i64", ints<int64_t>());
	corners<float>("values-float", floats<float>());
	corners<double>("values-double", floats<double>());
	corner_latch<int>("latch-corners-int", ints<int>());
	corner_latch<uint32_t>("latch-corners-u32", ints<uint32_t>());
	corner_latch<int64_t>("latch-corners-i64", ints<int64_t>());
	corner_latch<float>("latch-corners-float", floats<float>());
	corner_latch<double>("latch-corners-double", floats<double>());
	reg<Latch<int, 3, 1, 1>>("latch-int");
	reg<Latch<unsigned, 3, 1, 1>>("latch-unsigned");
	reg<Latch<uint8_t, 1, 1, 1>>("latch-u8");
	reg<Latch<int16_t, 7, 2, 1>>("latch-i16");
	reg<Latch<float, 1, 4096, 8192>>("latch-float");
	reg<Latch<float, 3, 1, 1>>("latch-float3");
	reg<Latch<double, 3, 8, 8>>("latch-double");
	reg<Latch<int, 0, 1, 1>>("latch-zero");
	mc::Reg("latch-pairs", [](mc::Job &j) {
		pairs<uint8_t, 1>(j);
		pairs<uint8_t, 5>(j);
		pairs<uint8_t, 255>(j);
		pairs<int8_t, 1>(j);
		pairs<int8_t, 100>(j);
	});
	reg<Par<int>>("param-int");
	reg<Par<float>>("param-float");
	reg<Par<uint8_t>>("param-u8");
	reg<Ref<int>>("ref-int");
	reg<Ref<float>>("ref-float");
	return 0;
}();
