// C40: balanced partition: every small list of values against its definition and the optimum by brute force.
#include "mc.hh"
#include <algorithm>
#include <limits>
#include <memory>
#include <span>
#include <array>
#include "util/partition.hh"

// smallest possible largest sum
static long optimum(const std::vector<long> &v, size_t k, std::vector<long> &sum, size_t parts) {
	if (k == v.size())
		return *std::max_element(sum.begin(), sum.end());
	long best = -1;
	for (size_t p = 0; p < parts; p++) {
		sum[p] += v[k];
		long r = optimum(v, k + 1, sum, parts);
		sum[p] -= v[k];
		if (best < 0 || r < best)
			best = r;
		if (sum[p] == 0)
			break; // the other empty parts are the same
	}
	return best;
}
template<class T>
struct Exact { // exactly n elements on the heap
	std::unique_ptr<T[]> p;
	size_t n;
	Exact(const std::vector<long> &v)
		: p{new T[v.size()]}
		, n{v.size()} {
		for (size_t i = 0; i < n; i++)
			p[i] = T(v[i]);
	}
	std::span<T> span() {
		return {p.get(), n};
	}
	std::span<const T> cspan() {
		return {p.get(), n};
	}
};
template<unsigned NP, unsigned Max, class T>
static void verify(const Partition<NP, Max, T> &p, const std::vector<long> &v, const std::vector<long> &init, bool opt, long scale = 1) {
	size_t used = std::min(v.size(), size_t(Max));
	std::vector<int> seen(used, 0);
	std::vector<long> sums(NP, 0), least(NP, -1);
	for (size_t i = 0; i < init.size(); i++)
		sums[i] = init[i];
	for (unsigned i = 0; i < NP; i++)
		for (size_t k = 0; k < p.parts[i].size(); k++) {
			unsigned id = p.parts[i][k];
			MC_CHECK(id < used, "part %u contains index %u of %zu", i, id, used);
			seen[id]++;
			sums[i] += v[id];
			least[i] = least[i] < 0 ? v[id] : std::min(least[i], v[id]);
		}
	for (size_t i = 0; i < used; i++)
		MC_CHECK(seen[i] == 1, "element %zu is in %d parts", i, seen[i]);
	long mn = *std::min_element(sums.begin(), sums.end()), mx = *std::max_element(sums.begin(), sums.end());
	for (unsigned i = 0; i < NP; i++)
		if (least[i] >= 0)
			MC_CHECK(sums[i] - least[i] <= mn, "part %u (sum %ld) would still not be below another (sum %ld) without its smallest element %ld", i, sums[i], mn, least[i]);
	if (opt) {
		std::vector<long> w(v.begin(), v.begin() + long(used)), s(NP, 0);
		long best = optimum(w, 0, s, NP);
		MC_CHECK(3 * NP * mx <= (4 * long(NP) - 1) * best, "largest sum %ld, optimum %ld for %u parts", mx, best, NP);
	}
}
template<unsigned NP, unsigned Max, class T, long Scale = 1>
static bool one(uint64_t code, int vals, int len, bool opt) {
	std::vector<long> v;
	__int128 tot = 0;
	const __int128 limit = std::is_integral_v<T> && sizeof(T) < 8 ? __int128((1ull << (8 * (sizeof(T) & 7) - std::is_signed_v<T>)) - 1) : __int128(std::numeric_limits<long>::max());
	for (int i = 0; i < len; i++) {
		v.push_back(long(code % vals) * Scale);
		tot += v.back();
		code /= vals;
	}
	if (Scale > 1 && tot > limit)
		return false; // the sums need not fit
	Exact<T> e(v);
	mc::Arena<Partition<NP, Max, T>> a, b;
	auto &p = a.make(0xA5);
	for (auto &x : p.parts)
		MC_CHECK(x.size() == 0, "a new partition is not empty");
	p.calc_partitions(e.span());
	verify<NP, Max, T>(p, v, {}, opt);
	for (size_t i = 0; i < v.size(); i++)
		MC_CHECK(e.p[i] == T(v[i]), "the values were changed");
	// used again, after other values with initial sums
	std::vector<long> w(v.rbegin(), v.rend()), init;
	for (unsigned k = 0; k < NP && k < v.size(); k++)
		init.push_back(v[k] * (Scale > 1 ? 1 : 2));
	if (Scale > 1 && init.size()) // so that initial sums and values together fit as well
		init.assign(init.size(), (NP + 1) * tot <= limit ? init[0] : 0);
	if (!w.empty())
		w.pop_back();
	Exact<T> f(w), in(init);
	p.calc_partitions(f.span(), in.cspan());
	verify<NP, Max, T>(p, w, init, false);
	if (!init.empty()) {
		init.pop_back();
		Exact<T> in2(init);
		p.calc_partitions(f.span(), in2.cspan());
		verify<NP, Max, T>(p, w, init, false);
	}
	// and it is the same as a fresh one
	auto &q = b.make(0x5A, f.span());
	verify<NP, Max, T>(q, w, {}, opt);
	p.calc_partitions(f.span());
	for (unsigned i = 0; i < NP; i++) {
		MC_CHECK(p.parts[i].size() == q.parts[i].size(), "a reused partition differs from a fresh one");
		for (size_t k = 0; k < p.parts[i].size(); k++)
			MC_CHECK(p.parts[i][k] == q.parts[i][k], "a reused partition differs from a fresh one");
	}
	return len > 1;
}
template<unsigned NP, unsigned Max, class T, long Scale = 1>
static void reg(const char *n) {
	mc::shards(n, 2, [n](mc::Job &j, int s, int k) {
		int vals = j.tier(5, 6), maxlen = j.tier(6, 7);
		j.note(mc::fmt("%s: %u parts, up to %u elements: every list of up to %d values 0..%d (3 more with two values), plain, with initial sums, and reused", n, NP, Max, maxlen, vals - 1));
		std::vector<std::pair<int, uint64_t>> lens; // (len, count)
		uint64_t tot = 0;
		auto add = [&](int len, int va) {
			uint64_t c = 1;
			for (int i = 0; i < len; i++)
				c *= uint64_t(va);
			lens.push_back({len * 16 + va, c});
			tot += c;
		};
		for (int l = 0; l <= maxlen; l++)
			add(l, vals);
		for (int l = maxlen + 1; l <= maxlen + 3; l++)
			add(l, 2);
		j.sweep(tot * s / k, tot * (s + 1) / k, [&](uint64_t i) {
			for (auto [c, cnt] : lens) {
				if (i < cnt)
					return one<NP, Max, T, Scale>(i, c % 16, c / 16, Scale < 1l << 40);
				i -= cnt;
			}
			return false;
		});
	});
}
static int init = [] {
	reg<1, 10, unsigned>("one");
	reg<2, 10, unsigned>("two");
	reg<3, 10, unsigned>("three");
	reg<4, 10, unsigned>("four");
	reg<2, 3, unsigned>("two-full");
	reg<3, 10, float>("three-float");
	reg<3, 10, int>("three-int");
	reg<2, 10, uint16_t>("two-u16");
	reg<2, 6, unsigned, 1l << 29>("two-unsigned-large");
	reg<3, 6, unsigned, (1l << 31) / 3>("three-unsigned-large");
	reg<2, 6, uint16_t, 1l << 13>("two-u16-large");
	reg<3, 6, uint64_t, (1l << 60) - 1>("three-u64-large");
	reg<3, 6, int64_t, 1l << 40>("three-i64-large");
	return 0;
}();
