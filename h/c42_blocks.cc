// C42: byte blocks, bit fields, padded storage, smallest integers, big buffers and the vector stand-ins.
#include "mc.hh"
#include <array>
#include <concepts>
#include <limits>
#include "util/byte_block.hh"
#include "util/bitfield.hh"
#include "util/padded_aligned.hh"
#include "util/smallest_integer.hh"
#include "util/big_buffer.hh"
#include "util/soft_neon.hh"

static void bytes(mc::Ctx &c, int depth) {
	static const uint32_t V[] = {0, 0x80, 0xFF, 0x1234, 0xFF00FE, 0x12345678, 0x89ABCDEF};
	ByteBlock b;
	std::vector<unsigned char> ref;
	MC_CHECK(b.data.empty(), "a new block is not empty");
	for (int d = 0; d < depth; d++) {
		int o = int(c.choose(7));
		if (o < 6) {
			uint32_t v = V[c.choose(7)];
			int n = 1 << (o % 3);
			c.log("%s of %#x in %d bytes", o < 3 ? "print" : "named print", v, n);
			switch (o) {
				case 0: b.print(uint8_t(v)); break;
				case 1: b.print(uint16_t(v)); break;
				case 2: b.print(uint32_t(v)); break;
				case 3: b.printU8(uint8_t(v)); break;
				case 4: b.printU16LE(uint16_t(v)); break;
				case 5: b.printU32LE(v); break;
			}
			for (int k = 0; k < n; k++)
				ref.push_back((v >> (8 * k)) & 0xFF);
		} else {
			int n = int(c.choose(4));
			c.log("printRaw of %d bytes", n);
			auto raw = std::make_unique<unsigned char[]>(n);
			for (int k = 0; k < n; k++) {
				raw[k] = (unsigned char)(d * 16 + k + 200);
				ref.push_back(raw[k]);
			}
			b.printRaw(raw.get(), size_t(n));
		}
		MC_CHECK(b.data == ref, "after call %d the block has %zu bytes, expected %zu, or other bytes", d, b.data.size(), ref.size());
		c.nontrivial();
	}
}
// every raw string of up to `len` bytes over `alpha` values, printed in one piece after a prefix
static void raw(mc::Ctx &c, int len, const std::vector<unsigned char> &alpha) {
	ByteBlock b;
	b.printU8(7);
	std::vector<unsigned char> ref{7};
	int n = int(c.choose(len + 1));
	auto src = std::make_unique<unsigned char[]>(size_t(n));
	for (int k = 0; k < n; k++)
		ref.push_back(src[k] = alpha[size_t(c.choose(int64_t(alpha.size())))]);
	b.printRaw(src.get(), size_t(n));
	MC_CHECK(b.data == ref, "printRaw of %d bytes appended %zu bytes, or other bytes", n, b.data.size() - 1);
	c.nontrivial();
}
template<class T>
static bool byte_value(uint64_t v) {
	ByteBlock b;
	std::vector<unsigned char> ref;
	auto add = [&](uint64_t x) {
		for (unsigned k = 0; k < sizeof(T); k++)
			ref.push_back((unsigned char)(x >> (8 * k)));
	};
	b.print(T(v));
	add(v);
	if constexpr (sizeof(T) == 1)
		b.printU8(T(v));
	else if constexpr (sizeof(T) == 2)
		b.printU16LE(T(v));
	else
		b.printU32LE(T(v));
	add(v);
	MC_CHECK(b.data == ref, "printing %#llx in %zu bytes gave other bytes", (unsigned long long)v, sizeof(T));
	return true;
}
enum class E8 : uint8_t {};
enum class E16 : uint16_t {};
enum class E32 : uint32_t {};
__attribute__((noinline)) static void dirty() {
	volatile unsigned char a[512];
	for (auto &x : a)
		x = 0xFF;
}
template<class E, class U>
static void bits(U a, U b, U c) {
	auto is = [&](U got, U want, const char *what) { MC_CHECK(got == want, "%s of %#llx, %#llx, %#llx is %#llx", what, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)got); };
	is(U(bitfield(E(a))), a, "bitfield of one");
	is(U(bitfield(E(a), E(b))), a | b, "bitfield of two");
	is(U(bitfield(E(a), E(b), E(c))), a | b | c, "bitfield of three");
	is(U(bitfield(a, b, c)), a | b | c, "integer bitfield of three");
	U d = U(U(1) << (sizeof(U) * 8 - 1)), e = U(U(1) << (unsigned(a) % (sizeof(U) * 8)));
	is(U(bitfield(E(a), E(b), E(c), E(d))), a | b | c | d, "bitfield of four");
	is(U(bitfield(E(d), E(a), E(e), E(b), E(c))), a | b | c | d | e, "bitfield of five");
	is(U(bitfield(E(0), E(0), E(0), E(0), E(0), E(e))), e, "bitfield of six");
	is(U(bitfield(d, a, e, b)), a | b | d | e, "integer bitfield of four");
	is(U(bitfield(d)), d, "integer bitfield of one");
	is(val(E(a)), a, "val");
	static U (*volatile f1)(std::initializer_list<E>) = [](std::initializer_list<E> l) -> U { return OR<E>(l); };
	dirty();
	is(f1({}), 0, "OR of none");
	dirty();
	is(f1({E(a)}), a, "OR of one");
	dirty();
	is(f1({E(a), E(b), E(c)}), a | b | c, "OR of three");
	dirty();
	is(f1({E(d), E(a), E(b), E(e), E(c)}), a | b | c | d | e, "OR of five");
}
static bool neon(uint64_t i) {
	static const float V[] = {0.f, 1.f, -2.f, 0.5f, 1024.f, -0.75f, 3e20f};
	float32x4_t a{}, b{}, c{};
	for (unsigned k = 0; k < 4; k++) { // each lane sees every triple of values, lanes differ
		a[k] = V[(i + k) % 7];
		b[k] = V[(i / 7 + 2 * k) % 7];
		c[k] = V[(i / 49 + 3 * k) % 7];
	}
	const float32x4_t a0 = a, b0 = b, c0 = c;
	float mem[4] = {a[0], a[1], a[2], a[3]};
	auto lanes = [&](float32x4_t r, const char *what, auto want) {
		for (unsigned k = 0; k < 4; k++)
			MC_CHECK(r[k] == want(a0[k], b0[k], c0[k]), "%s: lane %u is %g from %g, %g, %g", what, k, double(r[k]), double(a0[k]), double(b0[k]), double(c0[k]));
	};
	lanes(vld1q_f32(mem), "load", [](float x, float, float) { return x; });
	lanes(vmulq_f32(a, b), "multiply", [](float x, float y, float) { return x * y; });
	lanes(vsubq_f32(a, b), "subtract", [](float x, float y, float) { return x - y; });
	lanes(vmaxq_f32(a, b), "maximum", [](float x, float y, float) { return x > y ? x : y; });
	lanes(vmlaq_f32(a, b, c), "multiply and add", [](float x, float y, float z) { volatile float p = y * z; return x + p; });
	auto d = vdupq_n_f32(a0[1]);
	MC_CHECK(d[0] == a0[1] && d[1] == a0[1] && d[2] == a0[1] && d[3] == a0[1], "duplicated lanes differ");
	auto lo = vget_low_f32(b), hi = vget_high_f32(b);
	MC_CHECK(vget_lane_f32(lo, 0) == b0[0] && vget_lane_f32(lo, 1) == b0[1] && vget_lane_f32(hi, 0) == b0[2] && vget_lane_f32(hi, 1) == b0[3], "halves are wrong");
	auto s = vpadd_f32(lo, hi);
	MC_CHECK(s[0] == b0[0] + b0[1] && s[1] == b0[2] + b0[3], "pairwise sums are wrong");
	for (unsigned k = 0; k < 4; k++)
		MC_CHECK(a[k] == a0[k] && b[k] == b0[k] && c[k] == c0[k] && mem[k] == a0[k], "an operand was changed");
	return true;
}
// ---- compile-time enumeration
template<uint64_t V>
static void sui() {
	using T = typename SmallestUnsignedInt<V>::type;
	int need = V <= 0xFF ? 1 : V <= 0xFFFF ? 2 : V <= 0xFFFFFFFF ? 4 : 8;
	MC_CHECK(std::is_unsigned_v<T> && sizeof(T) == need, "smallest unsigned type for %llu has %zu bytes", (unsigned long long)V, sizeof(T));
}
template<int64_t Lo, int64_t Hi>
static void ssi() {
	if constexpr (Lo <= Hi) {
		using T = typename SmallestSignedInt<Lo, Hi>::type;
		auto fits = [](int b) { return Lo >= -(int64_t(1) << (b - 1)) && Hi <= (int64_t(1) << (b - 1)) - 1; };
		size_t need = fits(8) ? 1 : fits(16) ? 2 : fits(32) ? 4 : 8;
		MC_CHECK(std::is_signed_v<T> && sizeof(T) == need, "smallest signed type for %lld..%lld has %zu bytes", (long long)Lo, (long long)Hi, sizeof(T));
	}
}
template<size_t S, size_t A>
static void padded() {
	using T = std::array<uint8_t, S>;
	using P = PaddedAligned<T, A>;
	static P p[2];
	size_t want = (S + A - 1) / A * A;
	auto *base = reinterpret_cast<unsigned char *>(p);
	auto *d0 = reinterpret_cast<unsigned char *>(&p[0]()), *d1 = reinterpret_cast<unsigned char *>(&p[1]());
	MC_CHECK(sizeof(P) == want && alignof(P) == A && uintptr_t(d0) % A == 0 && uintptr_t(d1) % A == 0, "%zu bytes padded to %zu take %zu, aligned to %zu", S, A, sizeof(P), alignof(P));
	MC_CHECK(d0 == base && d1 == base + want, "data is not at the start of its padded block");
	T &r = p[0];
	for (auto &x : p[0]()) {
		MC_CHECK(x == 0, "padded data is not zero at first");
		x = 0x5A;
	}
	MC_CHECK(&r == &p[0]() && r[S - 1] == 0x5A && p[1]()[0] == 0, "writing one padded object changed another");
	p[0] = P{};
}
struct Elem {
	int v = 7;
	Elem() {
		alive++;
	}
	~Elem() {
		alive--;
	}
	static inline int alive = 0;
};
static int init = [] {
	mc::Reg("bytes", [](mc::Job &j) {
		int depth = j.tier(3, 4);
		j.note(mc::fmt("bytes: every sequence of %d prints of 7 values in 1, 2 and 4 bytes and raw blocks", depth));
		j.explore({}, [=](mc::Ctx &c) { bytes(c, depth); });
	});
	mc::Reg("raw", [](mc::Job &j) {
		int len = j.tier(6, 8);
		j.note(mc::fmt("raw: every raw string of up to %d bytes over 0, 1, 0x0A, 0x7F, 0x80, 0xFF, and of up to %d bytes over 0, 0xFF", len, 2 * len + 2));
		j.explore({}, [=](mc::Ctx &c) {
			if (c.flip())
				raw(c, len, {0, 1, 0x0A, 0x7F, 0x80, 0xFF});
			else
				raw(c, 2 * len + 2, {0, 0xFF});
		});
	});
	mc::Reg("byte-values", [](mc::Job &j) {
		j.note("byte-values: every 8- and 16-bit value, the 32-bit values with one or two free bytes, raw blocks of lengths around 2^8, 2^16 and 2^17");
		j.sweep(0, 65536 * 7 + 12, [](uint64_t i) {
			if (i < 65536)
				return byte_value<uint8_t>(i & 255), byte_value<uint16_t>(i);
			if (i < 65536 * 7) {
				static const int S[6][2] = {{0, 8}, {0, 16}, {0, 24}, {8, 16}, {8, 24}, {16, 24}};
				auto &p = S[i / 65536 - 1];
				uint32_t v = uint32_t((i & 255) << p[0] | (i >> 8 & 255) << p[1]);
				return byte_value<uint32_t>(v), byte_value<uint32_t>(~v & 0xFFFFFFFF);
			}
			i -= 65536 * 7;
			size_t n = (i < 4 ? 256 : i < 8 ? 65536 : 131072) + i % 4 - 1;
			std::vector<unsigned char> src(n), ref{1, 2};
			for (size_t k = 0; k < n; k++)
				src[k] = (unsigned char)(k * 2654435761u >> 13);
			ByteBlock b;
			b.print(uint16_t(0x0201));
			b.printRaw(src.data(), n);
			ref.insert(ref.end(), src.begin(), src.end());
			MC_CHECK(b.data == ref, "printRaw of %zu bytes appended %zu, or other bytes", n, b.data.size() - 2);
			return true;
		});
	});
	mc::Reg("bits", [](mc::Job &j) {
		j.note("bits: every pair of 8-bit values (third value mixed), and their spread to 16 and 32 bits");
		j.sweep(0, 65536, [](uint64_t i) {
			uint32_t a = i & 255, b = i >> 8, c = (a * 5 + b * 3) & 255;
			bits<E8, uint8_t>(uint8_t(a), uint8_t(b), uint8_t(c));
			bits<E16, uint16_t>(uint16_t(a << 8 | b), uint16_t(b << 8), uint16_t(c << 4));
			bits<E32, uint32_t>(a << 24 | b, b << 16 | a, c << 24 | c);
			return a && b;
		});
	});
	mc::Reg("neon", [](mc::Job &j) {
		j.note("neon: every triple of 7 values in every lane");
		j.sweep(0, 343, neon);
	});
	mc::Reg("types", [](mc::Job &j) {
		j.note("types: smallest types around every power of two (signed up to 2^61, all pairs of every fourth); padded storage of 1..40 bytes for seven alignments");
		j.sweep(0, 1, [](uint64_t) {
			[]<size_t... K>(std::index_sequence<K...>) {
				((sui<(1ull << K) - 1>(), sui<(1ull << K)>(), sui<(1ull << K) + 1>()), ...);
			}(std::make_index_sequence<64>{});
			sui<~0ull>();
			[]<size_t... K>(std::index_sequence<K...>) {
				((ssi<0, (int64_t(1) << K) - 1>(), ssi<0, (int64_t(1) << K)>(), ssi<-(int64_t(1) << K), 0>(), ssi<-(int64_t(1) << K) - 1, 0>(), ssi<-(int64_t(1) << K), (int64_t(1) << K) - 1>(),
				  ssi<-(int64_t(1) << K) - 1, (int64_t(1) << K) - 1>(), ssi<-(int64_t(1) << K), (int64_t(1) << K)>(), ssi<-(int64_t(1) << K) - 1, -(int64_t(1) << K)>(), ssi<(int64_t(1) << K) - 1, (int64_t(1) << K)>()),
				 ...);
			}(std::make_index_sequence<62>{});
			[]<size_t... K>(std::index_sequence<K...>) {
				((ssi<-(int64_t(1) << (K / 16 * 4)), (int64_t(1) << (K % 16 * 4 - (K % 16 == 15))) - 1>()), ...);
			}(std::make_index_sequence<15 * 16>{});
			[]<size_t... K>(std::index_sequence<K...>) {
				((padded<K % 40 + 1, (size_t(1) << (K / 40))>()), ...);
			}(std::make_index_sequence<280>{});
			return true;
		});
	});
	mc::Reg("big", [](mc::Job &j) {
		j.note("big: two buffers of 1..8 elements, all written, read and destroyed");
		j.sweep(0, 1, [](uint64_t) {
			[]<size_t... K>(std::index_sequence<K...>) {
				([] {
					constexpr size_t N = K + 1;
					auto b = std::make_unique<BigBuffer<std::array<Elem, N>>>();
					BigBuffer<std::array<uint16_t, N>> u;
					MC_CHECK(Elem::alive == int(N), "%d elements are alive of %zu", Elem::alive, N);
					for (size_t i = 0; i < N; i++) {
						MC_CHECK((*b)[i].v == 7, "element %zu was not constructed", i);
						(*b)[i].v = int(i) * 3;
						u[i] = uint16_t(i + 1);
					}
					const auto &k = u;
					for (size_t i = 0; i < N; i++)
						MC_CHECK(b->get()[i].v == int(i) * 3 && k[i] == i + 1 && &u[i] == &u.get()[i], "element %zu is wrong", i);
					b.reset();
					MC_CHECK(Elem::alive == 0, "%d elements are alive after destruction", Elem::alive);
				}(),
				 ...);
			}(std::make_index_sequence<8>{});
			return true;
		});
	});
	return 0;
}();
