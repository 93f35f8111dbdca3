// C39: zip, countzip and enumerate over every combination of container sizes and kinds.
#include "mc.hh"
#include <array>
#include <deque>
#include <vector>
#include <string>
#include "util/zip.hh"
#include "util/countzip.hh"

struct Rec {
	int a;
	double b;
	bool operator==(const Rec &) const = default;
};
using A = std::vector<int>; // exact-size heap blocks: AddressSanitizer sees any access beyond them
using B = std::vector<Rec>;
using C = std::vector<std::string>;
static A mka(size_t n) {
	A v;
	v.reserve(n);
	for (size_t i = 0; i < n; i++)
		v.push_back(int(100 + i));
	return v;
}
static B mkb(size_t n) {
	B v;
	v.reserve(n);
	for (size_t i = 0; i < n; i++)
		v.push_back({int(200 + i), i / 2.0});
	return v;
}
static C mkc(size_t n) {
	C v;
	v.reserve(n);
	for (size_t i = 0; i < n; i++)
		v.push_back(std::string(i + 1, char('a' + i)));
	return v;
}
static bool triple(size_t na, size_t nb, size_t nc) {
	auto a = mka(na);
	auto b = mkb(nb);
	auto c = mkc(nc);
	const auto a0 = a;
	const auto b0 = b;
	const auto c0 = c;
	size_t n3 = std::min(na, std::min(nb, nc)), n2 = std::min(na, nb), i = 0;
	// identity and order of the elements, one pass over each form
	for (auto [x, y, z] : zip(a, b, c)) {
		MC_CHECK(i < n3 && &x == &a[i] && &y == &b[i] && &z == &c[i], "zip of %zu, %zu and %zu elements: step %zu is wrong", na, nb, nc, i);
		i++;
	}
	MC_CHECK(i == n3, "zip of %zu, %zu and %zu elements made %zu steps", na, nb, nc, i);
	i = 0;
	for (auto [n, x, y, z] : countzip(a, b, c)) {
		MC_CHECK(i < n3 && n == i && &x == &a[i] && &y == &b[i] && &z == &c[i], "countzip of %zu, %zu and %zu elements: step %zu is wrong (count %zu)", na, nb, nc, i, size_t(n));
		i++;
	}
	MC_CHECK(i == n3, "countzip of %zu, %zu and %zu elements made %zu steps", na, nb, nc, i);
	i = 0;
	for (auto [n, x] : enumerate(c)) {
		MC_CHECK(i < nc && n == i && &x == &c[i], "enumerate of %zu elements: step %zu is wrong", nc, i);
		i++;
	}
	MC_CHECK(i == nc, "enumerate of %zu elements made %zu steps", nc, i);
	// constant containers
	i = 0;
	for (const auto &[x, y] : zip(a0, b0)) {
		static_assert(std::is_const_v<std::remove_reference_t<decltype(x)>>);
		MC_CHECK(i < n2 && &x == &a0[i] && &y == &b0[i], "zip of constant containers is wrong");
		i++;
	}
	MC_CHECK(i == n2, "zip of constant containers of %zu and %zu elements made %zu steps", na, nb, i);
	i = 0;
	for (const auto &[n, x, y] : countzip(a0, b)) {
		MC_CHECK(i < n2 && n == i && &x == &a0[i] && &y == &b[i], "countzip of a constant container is wrong");
		i++;
	}
	MC_CHECK(i == n2, "countzip of %zu and %zu elements made %zu steps", na, nb, i);
	// temporaries live as long as the loop
	i = 0;
	for (auto [x, y] : zip(mka(na), mkc(nc))) {
		MC_CHECK(i < std::min(na, nc) && x == a[i] && y == c[i], "zip of temporaries is wrong at step %zu", i);
		i++;
	}
	MC_CHECK(i == std::min(na, nc), "zip of temporaries of %zu and %zu elements made %zu steps", na, nc, i);
	i = 0;
	for (auto [n, x, y] : countzip(mka(na), b)) {
		MC_CHECK(i < n2 && n == i && x == a[i] && &y == &b[i], "countzip with a temporary is wrong at step %zu", i);
		i++;
	}
	MC_CHECK(i == n2, "countzip with a temporary made %zu steps", i);
	i = 0;
	for (auto [n, y] : enumerate(mkc(nc))) {
		MC_CHECK(i < nc && n == i && y == c[i], "enumerate of a temporary is wrong at step %zu", i);
		i++;
	}
	MC_CHECK(i == nc, "enumerate of a temporary made %zu steps", i);
	// writing through the references changes the containers, and nothing else
	for (auto [n, x, y, z] : countzip(a, b, c)) {
		x += int(1000 * (n + 1));
		y.a = x;
		z += "!";
	}
	for (auto [x, y] : zip(b, a))
		x.b += y;
	for (size_t k = 0; k < na; k++)
		MC_CHECK(a[k] == a0[k] + (k < n3 ? int(1000 * (k + 1)) : 0), "element %zu of the first container is %d", k, a[k]);
	for (size_t k = 0; k < nb; k++)
		MC_CHECK(b[k].a == (k < n3 ? a[k] : b0[k].a) && b[k].b == b0[k].b + (k < n2 ? a[k] : 0), "element %zu of the second container is wrong", k);
	for (size_t k = 0; k < nc; k++)
		MC_CHECK(c[k] == c0[k] + (k < n3 ? "!" : ""), "element %zu of the third container is wrong", k);
	MC_CHECK(a.size() == na && b.size() == nb && c.size() == nc, "a container changed its size");
	return n3 > 0;
}
// iterators by hand: both increments, comparison
template<class MkZ>
static void iters(size_t na, size_t nb, MkZ mk, bool counts) {
	auto a = mka(na);
	auto b = mkb(nb);
	size_t n = std::min(na, nb);
	auto z = mk(a, b);
	for (unsigned w = 0; w < (1u << n); w++) { // every mixture of the two increments
		auto it = z.begin();
		auto end = z.end();
		for (size_t i = 0; i < n; i++) {
			MC_CHECK(it != end && !(it == end), "at step %zu of %zu the iterator compares equal to the end", i, n);
			auto chk = [&](auto &j, const char *what) {
				auto v = *j;
				if constexpr (std::tuple_size_v<decltype(v)> == 3)
					MC_CHECK(std::get<0>(v) == i && &std::get<1>(v) == &a[i] && &std::get<2>(v) == &b[i], "%s at step %zu is wrong", what, i);
				else
					MC_CHECK(&std::get<0>(v) == &a[i] && &std::get<1>(v) == &b[i], "%s at step %zu is wrong", what, i);
			};
			chk(it, "the iterator");
			if ((w >> i) & 1) {
				auto old = it++;
				chk(old, "the result of it++");
			} else {
				auto &r = ++it;
				MC_CHECK(&r == &it, "++it does not return the iterator");
			}
		}
		MC_CHECK(it == end && !(it != end), "after %zu steps the iterator is not at the end", n);
	}
}
template<size_t N, size_t M>
static void arrays() {
	std::array<uint8_t, N> a{};
	std::array<float, M> b{};
	size_t i = 0;
	for (auto [n, x, y] : countzip(a, b)) {
		x = uint8_t(n + 1);
		y = float(n) / 2;
		i++;
	}
	MC_CHECK(i == std::min(N, M), "countzip of arrays of %zu and %zu elements made %zu steps", N, M, i);
	i = 0;
	for (auto [x, y] : zip(a, b)) {
		MC_CHECK(x == uint8_t(i + 1) && y == float(i) / 2, "array element %zu was not written", i);
		i++;
	}
	MC_CHECK(i == std::min(N, M), "zip of arrays of %zu and %zu elements made %zu steps", N, M, i);
	for (; i < std::max(N, M); i++)
		MC_CHECK((i >= N || a[i] == 0) && (i >= M || b[i] == 0), "element %zu beyond the shorter array was written", i);
}
// any number of containers, of several kinds, constant or not
template<size_t K>
static auto &&pick(std::array<A, 6> &a, const std::array<A, 6> &c, std::array<std::deque<int>, 6> &d) {
	if constexpr (K % 3 == 0)
		return (a[K]);
	else if constexpr (K % 3 == 1)
		return (c[K]);
	else
		return (d[K]);
}
template<size_t... K>
static bool many(uint64_t code, uint64_t base, std::index_sequence<K...>) {
	std::array<A, 6> a, c;
	std::array<std::deque<int>, 6> d;
	size_t n[sizeof...(K)], shortest = size_t(-1);
	for (size_t k = 0; k < sizeof...(K); k++, code /= base) {
		n[k] = code % base;
		shortest = std::min(shortest, n[k]);
		a[k] = mka(n[k]);
		c[k] = mka(n[k]);
		d[k].assign(a[k].begin(), a[k].end());
	}
	const auto &cc = c;
	size_t i = 0;
	for (auto t : zip(pick<K>(a, cc, d)...)) {
		bool ok = i < shortest && (... && (&std::get<K>(t) == &pick<K>(a, cc, d)[i]));
		MC_CHECK(ok, "zip of %zu containers (sizes %zu %zu ..): step %zu of %zu is wrong", sizeof...(K), n[0], n[sizeof...(K) - 1], i, shortest);
		i++;
	}
	MC_CHECK(i == shortest, "zip of %zu containers made %zu steps, the shortest has %zu", sizeof...(K), i, shortest);
	i = 0;
	for (auto t : countzip(pick<K>(a, cc, d)...)) {
		bool ok = i < shortest && std::get<0>(t) == i && (... && (&std::get<K + 1>(t) == &pick<K>(a, cc, d)[i]));
		MC_CHECK(ok, "countzip of %zu containers (sizes %zu %zu ..): step %zu of %zu is wrong", sizeof...(K), n[0], n[sizeof...(K) - 1], i, shortest);
		i++;
	}
	MC_CHECK(i == shortest, "countzip of %zu containers made %zu steps, the shortest has %zu", sizeof...(K), i, shortest);
	i = 0;
	for (auto t : enumerate(pick<K>(a, cc, d)...)) {
		bool ok = i < shortest && std::get<0>(t) == i && (... && (&std::get<K + 1>(t) == &pick<K>(a, cc, d)[i]));
		MC_CHECK(ok, "enumerate of %zu containers: step %zu of %zu is wrong", sizeof...(K), i, shortest);
		i++;
	}
	MC_CHECK(i == shortest, "enumerate of %zu containers made %zu steps, the shortest has %zu", sizeof...(K), i, shortest);
	return shortest > 0;
}
template<size_t N>
static void reg_many(uint64_t base) {
	mc::Reg(mc::fmt("many%zu", N), [=](mc::Job &j) {
		j.note(mc::fmt("many%zu: every combination of sizes 0..%llu of %zu containers (vectors, constant vectors, deques)", N, (unsigned long long)base - 1, N));
		uint64_t n = 1;
		for (size_t k = 0; k < N; k++)
			n *= base;
		j.sweep(0, n, [&](uint64_t i) { return many(i, base, std::make_index_sequence<N>{}); });
	});
}
static int init = [] {
	reg_many<1>(40);
	reg_many<2>(12);
	reg_many<4>(6);
	reg_many<5>(5);
	reg_many<6>(4);
	mc::Reg("sizes", [](mc::Job &j) {
		uint64_t n = uint64_t(j.tier(8, 13));
		j.note(mc::fmt("sizes: every triple of container sizes 0..%llu, in every form", (unsigned long long)n - 1));
		j.sweep(0, n * n * n, [&](uint64_t i) { return triple(i % n, i / n % n, i / n / n); });
	});
	mc::Reg("flags", [](mc::Job &j) {
		j.note("flags: every vector<bool> of 0..6 flags, constant and not, beside a vector of 0..6 elements, reading and (by reference) writing");
		j.sweep(0, 127 * 7, [&](uint64_t i) {
			uint64_t bits = i / 7 + 1; // a leading one, then the flags
			size_t n = 63 - size_t(__builtin_clzll(bits)), na = i % 7, k = 0;
			std::vector<bool> f;
			for (size_t b = 0; b < n; b++)
				f.push_back(bits >> b & 1);
			auto a = mka(na);
			for (auto [x, y] : zip(a, f)) {
				MC_CHECK(k < std::min(n, na) && &x == &a[k] && bool(y) == f[k], "zip of %zu elements and %zu flags: step %zu is wrong", na, n, k);
				k++;
			}
			MC_CHECK(k == std::min(n, na), "zip of %zu elements and %zu flags made %zu steps", na, n, k);
			k = 0;
			const auto cf = f;
			for (auto [c, y, x] : countzip(cf, a)) {
				MC_CHECK(k < std::min(n, na) && c == k && &x == &a[k] && bool(y) == f[k], "countzip of %zu flags and %zu elements: step %zu is wrong", n, na, k);
				k++;
			}
			MC_CHECK(k == std::min(n, na), "countzip of %zu flags and %zu elements made %zu steps", n, na, k);
			k = 0;
			for (auto [c, y] : enumerate(f)) {
				MC_CHECK(c == k && k < n && bool(y) == cf[k], "enumerate of %zu flags: step %zu is wrong", n, k);
#ifndef COUNTZIP_SUPPORT_VECTORBOOL
				y = !y; // the flag itself
				MC_CHECK(f[k] != cf[k], "writing a flag through enumerate does not write it");
#endif
				k++;
			}
			MC_CHECK(k == n, "enumerate of %zu flags made %zu steps", n, k);
			return n && na;
		});
	});
	mc::Reg("iterators", [](mc::Job &j) {
		uint64_t n = uint64_t(j.tier(8, 11));
		j.note(mc::fmt("iterators: every pair of sizes 0..%llu, every mixture of ++it and it++", (unsigned long long)n - 1));
		j.sweep(0, n * n, [&](uint64_t i) {
			iters(i % n, i / n, [](auto &a, auto &b) { return zip(a, b); }, false);
			iters(i % n, i / n, [](auto &a, auto &b) { return countzip(a, b); }, true);
			iters(i % n, i / n, [](auto &a, auto &b) { return enumerate(a, b); }, true);
			return i % n && i / n;
		});
	});
	mc::Reg("arrays", [](mc::Job &j) {
		j.note("arrays: std::array of 0..4 and 0..4 elements");
		j.sweep(0, 25, [](uint64_t i) {
			auto row = [&]<size_t N>() {
				switch (i % 5) {
					case 0: return arrays<N, 0>();
					case 1: return arrays<N, 1>();
					case 2: return arrays<N, 2>();
					case 3: return arrays<N, 3>();
					default: return arrays<N, 4>();
				}
			};
			switch (i / 5) {
				case 0: row.template operator()<0>(); break;
				case 1: row.template operator()<1>(); break;
				case 2: row.template operator()<2>(); break;
				case 3: row.template operator()<3>(); break;
				default: row.template operator()<4>();
			}
			return true;
		});
	});
	return 0;
}();
