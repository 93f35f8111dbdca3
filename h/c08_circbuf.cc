// C08: overwriting ring buffers, every operation history.
#include "mc.hh"
#include "vals.hh"
#include <array>
#include <cstring>
#include <optional>
#include "util/circular_buffer.hh"
#include "util/circular_buffer_opt.hh"

template<class T>
T val(uint64_t s) {
	return T(s * 37 + 5);
}
struct Pt {
	uint16_t x = 0;
	uint32_t y = 0;
	Pt() = default;
	explicit Pt(uint64_t s)
		: x(s)
		, y(s * 0x01010101u) {
	}
	bool operator==(const Pt &o) const {
		return x == o.x && y == o.y;
	}
};

enum { PUT, GET, DROP, RESET, FILLV, FILLA, HEAD0, HEAD1, HEAD2, NOPS };
static const char *opn[] = {"put", "get", "remove_first", "reset", "fill_buffer(value)", "fill_buffer(array)", "set_head(+1)", "set_head(+cap/2)", "set_head(tail)"};

template<class Buf, class T, size_t N, int K = 0> // K: values from an alphabet of that many, in turn (0: all different)
struct Sys {
	static T mk(uint64_t s) {
		if constexpr (K > 0)
			return alpha<T>(s % K);
		else
			return val<T>(s);
	}
	mc::Arena<Buf> a;
	std::array<T, N> slot{};
	size_t h = 0, t = 0, n = 0;
	uint64_t serial = 0;
	Sys() {
		a.make(0xA5);
		check();
	}
	int nops() {
		return NOPS;
	}
	std::string opname(int o) {
		return opn[o];
	}
	void check() {
		auto &b = a.get();
		MC_CHECK(b.count() == n && b.num_filled() == n, "count %zu, expected %zu", b.count(), n);
		MC_CHECK(b.empty() == (n == 0), "empty() is %d with %zu elements", b.empty(), n);
		MC_CHECK(b.full() == (n == N), "full() is %d with %zu elements", b.full(), n);
		MC_CHECK(b.max_size() == N && b.max_capacity() == N, "capacity");
		MC_CHECK((b.get_head_idx() + N - b.get_tail_idx()) % N == n % N, "head/tail distance does not match the element count");
		MC_CHECK(b.get_head_idx() == h && b.get_tail_idx() == t, "head/tail at %zu/%zu, expected %zu/%zu", b.get_head_idx(), b.get_tail_idx(), h, t);
		if constexpr (requires { b.peek(0); }) {
			for (size_t i = 0; i < N; i++)
				MC_CHECK(b.peek(i) == slot[(t + i) % N], "peek(%zu) is not the element %zu after the first", i, i);
		}
		if constexpr (requires { b.peek(0); })
			if (n)
				MC_CHECK(b.first() == slot[t], "first() is not the oldest element");
	}
	bool apply(int op) {
		auto &b = a.get();
		switch (op) {
			case PUT: {
				serial = K ? (serial + 1) % K : serial + 1;
				T v = mk(serial);
				b.put(v);
				slot[h] = v;
				h = (h + 1) % N;
				if (n == N)
					t = (t + 1) % N; // the oldest is overwritten
				else
					n++;
				break;
			}
			case GET: {
				auto r = b.get();
				if constexpr (requires { r.has_value(); }) {
					MC_CHECK(r.has_value() == (n > 0), "get on %zu elements: has_value %d", n, r.has_value());
					if (n)
						MC_CHECK(*r == slot[t], "get returned the wrong element");
				} else {
					if (n)
						MC_CHECK(r == slot[t], "get returned the wrong element");
					else
						MC_CHECK(r == T(), "get of an empty buffer is not the default value");
				}
				if (n) {
					t = (t + 1) % N;
					n--;
				}
				break;
			}
			case DROP:
				b.remove_first();
				if (n) {
					t = (t + 1) % N;
					n--;
				}
				break;
			case RESET:
				b.reset();
				h = t;
				n = 0;
				break;
			case FILLV: {
				T v = mk(200 + serial % 3);
				b.fill_buffer(v);
				slot.fill(v);
				break;
			}
			case FILLA: {
				std::array<T, N> src;
				for (size_t i = 0; i < N; i++)
					src[i] = mk(300 + i);
				b.fill_buffer(src);
				slot = src;
				break;
			}
			default: {
				if (n == N)
					return false; // repositioning a full buffer is left open
				size_t nh = op == HEAD0 ? (t + 1) % N : op == HEAD1 ? (t + N / 2) % N : t;
				b.set_head(nh);
				h = nh;
				n = (h + N - t) % N;
			}
		}
		check();
		return true;
	}
	void key(mc::Hash &k) {
		if constexpr (!std::is_trivially_copyable_v<T> && !std::is_same_v<T, Mv>) { // heap contents are not visible here: no state matching
			static uint64_t unique = 0;
			k.u64(++unique);
			return;
		}
		k.bytes(a.mem, sizeof a.mem);
		k.bytes(slot.data(), sizeof slot);
		k.u64(h * 10000 + t * 100 + n);
		k.u64(K ? serial : serial % 3);
	}
};
template<class Buf, class T, size_t N>
void reg(const char *name, int dq, int dt) {
	mc::Reg(name, [=](mc::Job &j) {
		j.bfs<Sys<Buf, T, N>>({.depth = j.tier(dq, dt), .max_states = j.quick ? 300'000u : 2'000'000u}, [] { return std::make_unique<Sys<Buf, T, N>>(); });
	});
}
template<class Buf, class T, size_t N, int K>
void closed(const char *name, int dq) {
	mc::Reg(name, [=](mc::Job &j) {
		j.note("closed: every reachable state over an alphabet of element values that includes the default value and the type's extremes");
		j.bfs<Sys<Buf, T, N, K>>({.depth = j.tier(dq, 200), .max_states = 3'000'000u}, [] { return std::make_unique<Sys<Buf, T, N, K>>(); });
	});
}
template<class Buf, size_t N>
void reg_owning(const char *name) { // elements that own memory
	mc::Reg(name, [=](mc::Job &j) {
		j.bfs<Sys<Buf, std::string, N, 4>>({.depth = j.tier(5, 6), .max_states = 3'000'000u}, [] { return std::make_unique<Sys<Buf, std::string, N, 4>>(); });
	});
}
template<class T>
void wide(const char *name) { // every fill level at every ring position, larger rings
	mc::Reg(name, [](mc::Job &j) {
		j.sweep(0, 64 * 65, [](uint64_t x) {
			size_t pos = x / 65, fill = x % 65;
			auto run = [&](auto &b) {
				for (size_t i = 0; i < pos; i++) {
					b.put(val<T>(i));
					b.remove_first();
				}
				for (size_t i = 0; i < fill + 3; i++)
					b.put(val<T>(1000 + i));
				size_t n = std::min<size_t>(fill + 3, 64);
				MC_CHECK(b.count() == n, "count %zu expected %zu", b.count(), n);
				for (size_t i = 0; i < n; i++) {
					auto r = b.get();
					T got;
					if constexpr (requires { r.value(); })
						got = r.value();
					else
						got = r;
					MC_CHECK(got == val<T>(1000 + fill + 3 - n + i), "element %zu wrong", i);
				}
				MC_CHECK(b.empty(), "not empty after draining");
			};
			CircularBuffer<T, 64> b;
			run(b);
			CircularBufferOpt<T, 64> o;
			run(o);
			return true;
		});
	});
}
static int init = [] {
	reg<CircularBuffer<uint8_t, 1>, uint8_t, 1>("plain.u8.1", 8, 12);
	reg<CircularBuffer<uint32_t, 2>, uint32_t, 2>("plain.u32.2", 8, 10);
	reg<CircularBuffer<Pt, 4>, Pt, 4>("plain.struct.4", 7, 9);
	reg<CircularBuffer<int16_t, 8>, int16_t, 8>("plain.i16.8", 7, 9);
	reg<CircularBufferOpt<uint8_t, 1>, uint8_t, 1>("opt.u8.1", 8, 12);
	reg<CircularBufferOpt<uint32_t, 2>, uint32_t, 2>("opt.u32.2", 8, 10);
	reg<CircularBufferOpt<Pt, 4>, Pt, 4>("opt.struct.4", 7, 9);
	reg<CircularBufferOpt<int16_t, 8>, int16_t, 8>("opt.i16.8", 7, 9);
	closed<CircularBuffer<uint8_t, 1>, uint8_t, 1, 3>("closed.plain.u8.1", 200);
	closed<CircularBuffer<float, 2>, float, 2, 3>("closed.plain.float.2", 200);
	closed<CircularBuffer<Wide24, 2>, Wide24, 2, 4>("closed.plain.wide.2", 200);
	closed<CircularBuffer<Mv, 4>, Mv, 4, 2>("closed.plain.mv.4", 200);
	closed<CircularBufferOpt<Mv, 4>, Mv, 4, 2>("closed.opt.mv.4", 200);
	closed<CircularBuffer<bool, 4>, bool, 4, 2>("closed.plain.bool.4", 200);
	closed<CircularBuffer<Odd3, 4>, Odd3, 4, 3>("closed.plain.odd.4", 12);
	closed<CircularBuffer<int64_t, 4>, int64_t, 4, 2>("closed.plain.i64.4", 200);
	closed<CircularBufferOpt<uint8_t, 1>, uint8_t, 1, 3>("closed.opt.u8.1", 200);
	closed<CircularBufferOpt<float, 2>, float, 2, 3>("closed.opt.float.2", 200);
	closed<CircularBufferOpt<Wide24, 2>, Wide24, 2, 4>("closed.opt.wide.2", 200);
	closed<CircularBufferOpt<bool, 4>, bool, 4, 2>("closed.opt.bool.4", 200);
	closed<CircularBufferOpt<Odd3, 4>, Odd3, 4, 3>("closed.opt.odd.4", 12);
	closed<CircularBufferOpt<int64_t, 4>, int64_t, 4, 2>("closed.opt.i64.4", 200);
	closed<CircularBuffer<uint16_t, 8>, uint16_t, 8, 2>("closed.plain.u16.8", 200);
	closed<CircularBufferOpt<double, 8>, double, 8, 2>("closed.opt.double.8", 200);
	reg_owning<CircularBuffer<std::string, 2>, 2>("owning.plain.string.2");
	reg_owning<CircularBuffer<std::string, 4>, 4>("owning.plain.string.4");
	reg_owning<CircularBufferOpt<std::string, 2>, 2>("owning.opt.string.2");
	reg_owning<CircularBufferOpt<std::string, 4>, 4>("owning.opt.string.4");
	wide<uint32_t>("laps.u32.64");
	wide<Pt>("laps.struct.64");
	return 0;
}();
