// Shared by C17 and C19: descriptions of compact-binary documents and an independent reference encoding.
#pragma once
#include "mc.hh"
#include <array>
#include <span>
#include "util/compact_binary_parser.hh"
#include "util/compact_binary_serializer.hh"
#include "util/compact_binary_writer.hh"

namespace cbf
{
enum class EK : uint16_t { A = 0x0102, B = 0x0300 };
using C4 = const char[4];
template<class K>
struct KeyOf;
template<>
struct KeyOf<uint8_t> {
	static uint8_t at(int i) {
		return i == 2 ? 0x77 : i ? 2 : 1;
	}
	static std::vector<uint8_t> bytes(int i) {
		return {at(i)};
	}
};
template<>
struct KeyOf<EK> {
	static EK at(int i) {
		return i == 2 ? EK(0x0202) : i ? EK::B : EK::A;
	}
	static std::vector<uint8_t> bytes(int i) {
		uint16_t v = uint16_t(at(i));
		return {uint8_t(v), uint8_t(v >> 8)};
	}
};
template<>
struct KeyOf<uint32_t> {
	static uint32_t at(int i) {
		return i == 2 ? 0x01000002 : i ? 0x80000001 : 1;
	}
	static std::vector<uint8_t> bytes(int i) {
		uint32_t v = at(i);
		return {uint8_t(v), uint8_t(v >> 8), uint8_t(v >> 16), uint8_t(v >> 24)};
	}
};
template<>
struct KeyOf<C4> {
	static const char *at(int i) {
		static const char a[] = "ab\0", b[] = "abc", z[] = "a\0z";
		return i == 2 ? z : i ? b : a;
	}
	static std::vector<uint8_t> bytes(int i) {
		if (i == 2)
			return {'a', 0, 0, 0};
		if (i == 1)
			return {'a', 'b', 'c', 0};
		return {'a', 'b', 0, 0};
	}
};

struct Trip {
	uint16_t a;
	uint16_t b;
	float f;
	bool operator==(const Trip &) const = default;
};

enum Kind { U8, U16, U32, TRIP, RAW0, RAW1, RAW3, RAWBIG, OBJ };
struct Node {
	int key;
	Kind kind;
	uint32_t v;
	std::vector<Node> kids;
	std::vector<uint8_t> raw() const {
		size_t n = kind == RAW0 ? 0 : kind == RAW1 ? 1 : kind == RAW3 ? 3 : 300;
		std::vector<uint8_t> r(n);
		for (size_t i = 0; i < n; i++)
			r[i] = uint8_t(v + i * 3);
		return r;
	}
	Trip trip() const {
		return {uint16_t(v), uint16_t(v >> 8), float(v) * 0.5f};
	}
};

// what is allowed in a document
struct Shape {
	int budget, depth, nkeys;
	std::vector<Kind> kinds;
};

inline void gen(mc::Ctx &c, const Shape &s, int &left, int depth, std::vector<Node> &out, uint32_t &serial) {
	while (left > 0) {
		int nk = int(s.kinds.size()) + (depth < s.depth ? 1 : 0);
		int k = int(c.choose(nk + 1));
		if (k == 0)
			return;
		Node n;
		n.kind = k - 1 < int(s.kinds.size()) ? s.kinds[k - 1] : OBJ;
		n.key = int(c.choose(s.nkeys));
		// bytes that look like keys and sizes, so that a reader that loses its place notices
		n.v = 0x02010102u + (serial++) * 0x01010101u;
		left--;
		if (n.kind == OBJ)
			gen(c, s, left, depth + 1, n.kids, serial);
		out.push_back(n);
	}
}

inline std::string show(const std::vector<Node> &v) {
	std::string r;
	static const char *nm[] = {"u8", "u16", "u32", "struct", "raw0", "raw1", "raw3", "raw300", ""};
	for (auto &n : v) {
		if (!r.empty())
			r += ", ";
		r += mc::fmt("k%d:%s", n.key, nm[n.kind]);
		if (n.kind == OBJ)
			r += "{" + show(n.kids) + "}";
	}
	return r;
}

inline std::vector<uint8_t> le(uint64_t v, size_t n) {
	std::vector<uint8_t> r(n);
	for (size_t i = 0; i < n; i++)
		r[i] = uint8_t(v >> (8 * i));
	return r;
}
inline void cat(std::vector<uint8_t> &a, const std::vector<uint8_t> &b) {
	a.insert(a.end(), b.begin(), b.end());
}

// reference encoding; too_deep: byte positions of the size fields of objects nested deeper than maxdepth
template<class K, class S>
std::vector<uint8_t> payload(const Node &n, int depth, int maxdepth, std::vector<size_t> *too_deep, size_t base);
template<class K, class S>
std::vector<uint8_t> encode(const std::vector<Node> &v, int depth = 0, int maxdepth = 99, std::vector<size_t> *too_deep = nullptr, size_t base = 0) {
	std::vector<uint8_t> r;
	for (auto &n : v) {
		cat(r, KeyOf<K>::bytes(n.key));
		if (n.kind == OBJ && depth >= maxdepth && too_deep)
			for (size_t i = 0; i < sizeof(S); i++)
				too_deep->push_back(base + r.size() + i);
		auto p = payload<K, S>(n, depth, maxdepth, too_deep, base + r.size() + sizeof(S));
		cat(r, le(p.size(), sizeof(S)));
		cat(r, p);
	}
	return r;
}
template<class K, class S>
std::vector<uint8_t> payload(const Node &n, int depth, int maxdepth, std::vector<size_t> *too_deep, size_t base) {
	switch (n.kind) {
		case U8: return le(uint8_t(n.v), 1);
		case U16: return le(uint16_t(n.v), 2);
		case U32: return le(n.v, 4);
		case TRIP: {
			auto t = n.trip();
			uint32_t f;
			memcpy(&f, &t.f, 4);
			std::vector<uint8_t> r = le(t.a, 2);
			cat(r, le(t.b, 2));
			cat(r, le(f, 4));
			return r;
		}
		case OBJ: return encode<K, S>(n.kids, depth + 1, maxdepth, too_deep, base);
		default: return n.raw();
	}
}

// drive a describing interface (serializer)
template<class K, class W>
void describe(W &s, const std::vector<Node> &v) {
	for (auto &n : v) {
		auto key = KeyOf<K>::at(n.key);
		switch (n.kind) {
			case U8: s.field(key, uint8_t(n.v)); break;
			case U16: s.field(key, uint16_t(n.v)); break;
			case U32: s.field(key, uint32_t(n.v)); break;
			case TRIP: s.field(key, n.trip()); break;
			case OBJ: s.object(key, [&](auto &sub) { describe<K>(sub, n.kids); }); break;
			default: {
				auto r = n.raw();
				s.raw(key, std::span<const uint8_t>{r});
			}
		}
	}
}
// drive the imperative writer
template<class K, class W>
void write(W &s, const std::vector<Node> &v) {
	for (auto &n : v) {
		auto key = KeyOf<K>::at(n.key);
		switch (n.kind) {
			case U8: s.field(key, uint8_t(n.v)); break;
			case U16: s.field(key, uint16_t(n.v)); break;
			case U32: s.field(key, uint32_t(n.v)); break;
			case TRIP: s.field(key, n.trip()); break;
			case OBJ:
				s.begin_object(key);
				write<K>(s, n.kids);
				s.end_object();
				break;
			default: {
				auto r = n.raw();
				s.raw(key, std::span<const uint8_t>{r});
			}
		}
	}
}
// exact-size heap block
struct Block {
	mc::Exact<uint8_t> p;
	size_t n;
	Block(size_t n, uint8_t fill = 0xC3)
		: p{n}
		, n{n} {
		memset(p.get(), fill, n);
	}
	std::span<uint8_t> span() {
		return {p.get(), n};
	}
};
inline std::string hex(std::span<const uint8_t> b) {
	std::string r;
	for (auto x : b.subspan(0, std::min<size_t>(b.size(), 60)))
		r += mc::fmt("%02x ", x);
	return r;
}
} // namespace cbf
