// C18: reading any bytes whatsoever: in bounds, terminating, and exactly the first entry with the key.
#include "mc.hh"
#include <algorithm>
#include <optional>
#include <span>
#include "util/compact_binary_parser.hh"

using Bytes = std::vector<uint8_t>;
struct Found {
	bool hit = false, flush = false; // flush: the header is the last thing in the blob
	unsigned __int128 size = 0;
	bool negative = false;
	size_t off = 0;
};
template<class S>
Found reference(const Bytes &b, const Bytes &key, bool text) {
	Found f;
	size_t p = 0, H = key.size() + sizeof(S);
	while (p <= b.size() && b.size() - p >= H) {
		bool eq = true;
		for (size_t i = 0; i < key.size() && eq; i++) {
			if (text && key[i] == 0 && b[p + i] == 0)
				break;
			eq = key[i] == b[p + i];
		}
		uint64_t sz = 0;
		for (size_t i = 0; i < sizeof(S); i++)
			sz |= uint64_t(b[p + key.size() + i]) << (8 * i);
		bool neg = std::is_signed_v<S> && (b[p + H - 1] & 0x80);
		p += H;
		if (eq) {
			f = {true, p == b.size(), sz, neg, p};
			return f;
		}
		if (neg || sz > b.size() - p)
			return f;
		p += sz;
	}
	return f;
}

template<class K, class S>
void check(const uint8_t *data, const Bytes &b, const Bytes &keybytes, auto key, bool text) {
	std::span<const uint8_t> blob{data, b.size()};
	CompactBinaryParser<K, S> p{blob};
	auto f = reference<S>(b, keybytes, text);
	bool fits = f.hit && !f.negative && f.size <= b.size() - f.off;
	auto node = p.get_node(key);
	if (fits)
		MC_CHECK(node.size() == f.size && (node.empty() || node.data() == data + f.off), "node is %zu bytes at %td, stored %zu bytes at %zu", node.size(),
				 node.empty() ? 0 : node.data() - data, size_t(f.size), f.off);
	else
		MC_CHECK(node.empty(), "node of %zu bytes although %s", node.size(), f.hit ? "the stored size exceeds the data" : "the key is absent");
	auto get = [&]<class T>(T) {
		auto v = p.template get<T>(key);
		bool want = fits && f.size == sizeof(T);
		MC_CHECK(v.has_value() == want, "%zu-byte value %s", sizeof(T), want ? "not found" : "found although none is stored");
		if (want)
			MC_CHECK(!memcmp(&*v, data + f.off, sizeof(T)), "%zu-byte value is not the stored one", sizeof(T));
	};
	get(uint8_t{});
	get(uint16_t{});
	get(uint32_t{});
	get(std::array<uint8_t, 3>{});
	if (!f.negative) {
		auto sz = p.get_size(key);
		MC_CHECK(f.hit ? (sz == f.size || (f.flush && sz == 0)) : sz == 0, "get_size %zu, stored %zu", sz, size_t(f.size));
	}
	// the node of an object can itself be parsed
	if (!node.empty()) {
		CompactBinaryParser<K, S> sub{node};
		auto inner = sub.get_node(key);
		Bytes nb{node.begin(), node.end()};
		auto g = reference<S>(nb, keybytes, text);
		bool gfits = g.hit && !g.negative && g.size <= nb.size() - g.off;
		MC_CHECK(inner.size() == (gfits ? size_t(g.size) : 0) && (inner.empty() || inner.data() == node.data() + g.off), "nested node");
	}
}

// every blob of every length up to L over an alphabet
template<class K, class S>
void blobs(const char *name, std::vector<uint8_t> alpha, int lq, int lt, std::vector<Bytes> keys, auto mk, bool text) {
	mc::shards(name, 4, [=](mc::Job &j, uint64_t shard, uint64_t n) {
		int L = j.tier(lq, lt);
		std::vector<uint64_t> start{0};
		uint64_t tot = 0, a = alpha.size(), p = 1;
		for (int l = 0; l <= L; l++, p *= a)
			start.push_back(tot += p);
		j.note(mc::fmt("%s: all %llu blobs of up to %d bytes over an alphabet of %zu byte values, %zu keys", name, (unsigned long long)tot, L, alpha.size(), keys.size()));
		j.sweep(tot * shard / n, tot * (shard + 1) / n, [&](uint64_t i) {
			int l = 0;
			while (start[l + 1] <= i)
				l++;
			uint64_t x = i - start[l];
			Bytes b(l);
			for (auto &v : b) {
				v = alpha[x % a];
				x /= a;
			}
			mc::Exact<uint8_t> heap{size_t(l)};
			if (l)
				memcpy(heap.get(), b.data(), l);
			bool hit = false;
			for (auto &k : keys) {
				check<K, S>(heap.get(), b, k, mk(k), text);
				hit |= reference<S>(b, k, text).hit;
			}
			return hit;
		});
	});
}
using C3 = const char[3];
// structured: entries whose size field takes boundary values, cut at every length
template<class S>
void entries(const char *name, std::vector<uint64_t> sizes) {
	mc::Reg(name, [=](mc::Job &j) {
		j.explore({}, [&](mc::Ctx &c) {
			Bytes b;
			int n = 1 + int(c.choose(j.tier(2, 3)));
			for (int e = 0; e < n; e++) {
				b.push_back(uint8_t(1 + c.choose(2)));
				uint64_t s = sizes[c.choose(sizes.size())];
				for (size_t i = 0; i < sizeof(S); i++)
					b.push_back(uint8_t(s >> (8 * i)));
				int d = int(c.choose(5));
				for (int i = 0; i < d; i++)
					b.push_back(uint8_t(i + 1));
			}
			c.nontrivial();
			for (size_t cut = 0; cut <= b.size(); cut++) {
				Bytes x{b.begin(), b.begin() + long(cut)};
				mc::Exact<uint8_t> heap{size_t(cut)};
				memcpy(heap.get(), x.data(), cut);
				for (uint8_t k = 1; k <= 3; k++)
					check<uint8_t, S>(heap.get(), x, {k}, k, false);
			}
		});
	});
}
// entries that lie further into the data than one or two bytes can count
template<class S>
void deep(const char *name, std::vector<size_t> lens, int q, int t) {
	mc::Reg(name, [=](mc::Job &j) {
		int n = j.tier(q, t);
		uint64_t tot = 1;
		for (int i = 0; i < n; i++)
			tot *= lens.size();
		j.note(mc::fmt("%s: %d entries of %zu lengths each, then one more; every one looked up, whole and cut", name, n, lens.size()));
		j.sweep(0, tot, [&](uint64_t x) {
			Bytes b;
			for (int i = 0; i <= n; i++, x /= lens.size()) {
				size_t l = i < n ? lens[x % lens.size()] : 4;
				b.push_back(uint8_t(i + 1));
				for (size_t k = 0; k < sizeof(S); k++)
					b.push_back(uint8_t(uint64_t(l) >> (8 * k)));
				for (size_t k = 0; k < l; k++)
					b.push_back(uint8_t(k % 7 + 1));
			}
			for (size_t cut : {size_t(0), size_t(1), size_t(4), size_t(6)}) {
				Bytes y{b.begin(), b.end() - long(cut)};
				mc::Exact<uint8_t> heap{y.size()};
				memcpy(heap.get(), y.data(), y.size());
				for (int k = 0; k <= n + 1; k++)
					check<uint8_t, S>(heap.get(), y, {uint8_t(k)}, uint8_t(k), false);
				auto big = [&]<size_t N>(std::array<uint8_t, N>) {
					CompactBinaryParser<uint8_t, S> p{std::span<const uint8_t>{heap.get(), y.size()}};
					for (int k = 1; k <= n + 1; k++) {
						auto f = reference<S>(y, {uint8_t(k)}, false);
						bool want = f.hit && f.size == N && N <= y.size() - f.off;
						auto v = p.template get<std::array<uint8_t, N>>(uint8_t(k));
						MC_CHECK(v.has_value() == want && (!want || std::equal(v->begin(), v->end(), y.begin() + long(f.off))), "value of %zu bytes with key %d: %s", N, k, want ? "not found" : "found although none is stored");
					}
				};
				big(std::array<uint8_t, 127>{});
				big(std::array<uint8_t, 255>{});
				big(std::array<uint8_t, 256>{});
				big(std::array<uint8_t, 260>{});
			}
			return true;
		});
	});
}
// longer text keys: stored and wanted key of every length, differing in every place, whatever follows their ends
template<size_t N>
void longkeys(mc::Job &j, uint64_t base) {
	j.sweep(base, base + (N + 1) * (N + 1) * (N + 1) * 2, [&](uint64_t x) {
		x -= base;
		size_t sl = x % (N + 1), wl = x / (N + 1) % (N + 1), d = x / (N + 1) / (N + 1) % (N + 1);
		bool junk = x / ((N + 1) * (N + 1) * (N + 1));
		auto mk = [&](size_t len, char fill) {
			Bytes k(N);
			for (size_t i = 0; i < N; i++)
				k[i] = i < len ? uint8_t('a' + i % 20) : i == len || !junk ? 0 : uint8_t(fill);
			return k;
		};
		Bytes stored = mk(sl, 'x'), wanted = mk(wl, 'y'), other = stored;
		if (d < N)
			other[d] ^= 0x20;
		Bytes b = other;
		b.insert(b.end(), {1, 0, 11});
		b.insert(b.end(), stored.begin(), stored.end());
		b.insert(b.end(), {1, 0, 22});
		mc::Exact<uint8_t> heap{b.size()}, key{N};
		memcpy(heap.get(), b.data(), b.size());
		memcpy(key.get(), wanted.data(), N);
		check<const char[N], uint16_t>(heap.get(), b, wanted, reinterpret_cast<const char *>(key.get()), true);
		return sl == wl;
	});
}
static int init = [] {
	auto k1 = [](const Bytes &k) { return k[0]; };
	auto k2 = [](const Bytes &k) { return uint16_t(k[0] | k[1] << 8); };
	auto kt = [](const Bytes &k) { return reinterpret_cast<const char *>(k.data()); };
	blobs<uint8_t, uint8_t>("u8.u8", {0, 1, 2, 3, 255}, 7, 9, {{0}, {1}, {2}, {255}}, k1, false);
	blobs<uint8_t, int8_t>("u8.i8", {0, 1, 2, 127, 128, 254, 255}, 6, 8, {{0}, {1}, {255}}, k1, false);
	blobs<uint8_t, uint16_t>("u8.u16", {0, 1, 2, 255}, 8, 10, {{0}, {1}, {2}}, k1, false);
	blobs<uint16_t, uint16_t>("u16.u16", {0, 1, 2}, 10, 13, {{0, 0}, {1, 0}, {1, 1}, {2, 0}}, k2, false);
	blobs<C3, uint8_t>("text.u8", {0, 1, 'a', 'b'}, 8, 10, {{'a', 'b', 'a'}, {'a', 'b', 0}, {'a', 0, 0}, {'a', 0, 'b'}, {0, 0, 0}, {'b', 'b', 'b'}}, kt, true);
	deep<uint8_t>("deep.u8", {0, 1, 4, 127, 200, 255}, 4, 5);
	deep<int8_t>("deep.i8", {0, 1, 4, 100, 127}, 4, 5);
	deep<uint16_t>("deep.u16", {0, 4, 255, 256, 260, 40000, 65535}, 3, 4);
	deep<int16_t>("deep.i16", {0, 4, 127, 260, 20000, 32767}, 3, 4);
	deep<uint32_t>("deep.u32", {0, 4, 255, 260, 65535, 65536, 70000}, 2, 3);
	deep<uint64_t>("deep.u64", {0, 4, 256, 65535, 65540}, 2, 3);
	mc::Reg("long-keys", [](mc::Job &j) {
		j.note("long-keys: text keys of 1, 2, 4, 8, 9, 12, 16, 17 and 24 characters: stored and wanted key of every length, another that differs in every place in front");
		longkeys<1>(j, 0), longkeys<2>(j, 100000), longkeys<4>(j, 200000), longkeys<8>(j, 300000), longkeys<9>(j, 400000), longkeys<12>(j, 500000), longkeys<16>(j, 600000), longkeys<17>(j, 700000), longkeys<24>(j, 800000);
	});
	entries<uint8_t>("sizes.u8", {0, 1, 2, 3, 4, 5, 127, 128, 254, 255});
	entries<int8_t>("sizes.i8", {0, 1, 2, 3, 4, 5, 127, 128, 254, 255});
	entries<uint16_t>("sizes.u16", {0, 1, 2, 3, 4, 5, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff});
	entries<int16_t>("sizes.i16", {0, 1, 2, 3, 4, 5, 256, 257, 0x7fff, 0x8000, 0xfffc, 0xfffe, 0xffff});
	entries<uint32_t>("sizes.u32", {0, 1, 2, 3, 4, 5, 256, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffbu, 0xfffffffe, 0xffffffff});
	entries<int32_t>("sizes.i32", {0, 1, 2, 3, 4, 5, 256, 0x7fffffff, 0x80000000, 0xfffffffb, 0xfffffffe, 0xffffffff});
	entries<uint64_t>("sizes.u64", {0, 1, 2, 3, 4, 5, 1ull << 32, (1ull << 32) + 1, ~0ull >> 1, 1ull << 63, ~0ull - 12, ~0ull - 9, ~0ull - 8, ~0ull - 7, ~0ull - 1, ~0ull});
	entries<int64_t>("sizes.i64", {0, 1, 2, 3, 4, 5, 1ull << 32, ~0ull >> 1, 1ull << 63, ~0ull - 12, ~0ull - 9, ~0ull - 8, ~0ull - 7, ~0ull - 1, ~0ull});
	return 0;
}();
