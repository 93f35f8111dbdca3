// C16: one-shot sample buffers (fill-then-use, use-then-refill), every operation history.
#include "mc.hh"
#include "vals.hh"
#include <array>
#include "util/input_output_buffer.hh"
template<size_t N, class T = int16_t, int K = 0> // K: samples from an alphabet of that many, in turn (0: all different)
struct In {
	T next() {
		serial = K ? (serial + 1) % K : serial + 1;
		if constexpr (K > 0)
			return alpha<T>(serial);
		else
			return T(serial);
	}
	mc::Arena<InputBuffer<T, N>> a;
	std::array<T, N> m{};
	size_t h = 0;
	int serial = 0;
	In() {
		a.make(0xA5);
	}
	int nops() {
		return 2;
	}
	std::string opname(int o) {
		return o ? "reset" : "put";
	}
	bool apply(int o) {
		auto &b = a.get();
		if (o == 0) {
			T v = next();
			b.put(v);
			if (h < N)
				m[h++] = v;
		} else {
			b.reset();
			h = 0;
		}
		MC_CHECK(b.full() == (h == N) && b.size() == N, "full() is %d with %zu of %zu", b.full(), h, N);
		for (size_t i = 0; i < N; i++)
			MC_CHECK(b.data()[i] == m[i] && b.begin()[i] == m[i], "element %zu is %g, expected %g", i, double(b.data()[i]), double(m[i]));
		MC_CHECK(b.end() - b.begin() == ptrdiff_t(N), "range");
		return true;
	}
	void key(mc::Hash &k) {
		k.bytes(a.mem, sizeof a.mem);
		k.u64(serial);
		k.u64(h);
	}
};
template<size_t N, class T = int16_t, int K = 0>
struct Out {
	T next() {
		serial = K ? (serial + 1) % K : serial + 1;
		if constexpr (K > 0)
			return alpha<T>(serial);
		else
			return T(serial);
	}
	mc::Arena<OutputBuffer<T, N>> a;
	std::array<T, N> m{};
	size_t h = 0;
	int serial = 0;
	Out() {
		a.make(0xA5);
	}
	int nops() {
		return 3;
	}
	std::string opname(int o) {
		return std::array{"get", "reset", "refill"}[o];
	}
	bool apply(int o) {
		auto &b = a.get();
		if (o == 0) {
			T v = b.get();
			MC_CHECK(v == (h < N ? m[h] : T(0)), "get returned %g at position %zu of %zu", double(v), h, N);
			if (h < N)
				h++;
		} else if (o == 1) {
			b.reset();
			h = 0;
		} else {
			size_t i = 0;
			for (auto &x : b)
				x = m[i++] = next();
			MC_CHECK(i == N, "range");
		}
		MC_CHECK(b.full() == (h == N) && b.size() == N, "depleted flag is %d at position %zu of %zu", b.full(), h, N);
		for (size_t i = 0; i < N; i++)
			MC_CHECK(b.data()[i] == m[i], "contents changed");
		return true;
	}
	void key(mc::Hash &k) {
		k.bytes(a.mem, sizeof a.mem);
		k.u64(serial);
		k.u64(h);
	}
};
template<class S>
void reg(const char *n) {
	mc::Reg(n, [](mc::Job &j) { j.bfs<S>({.depth = j.tier(11, 14), .max_states = 400'000}, [] { return std::make_unique<S>(); }); });
}
template<class S>
void closed(const char *n) {
	mc::Reg(n, [](mc::Job &j) {
		j.note("closed: every reachable state over alphabets of samples that include zero and the type's extremes");
		j.bfs<S>({.depth = 200, .max_states = 1'000'000}, [] { return std::make_unique<S>(); });
	});
}
static int init = [] {
	closed<In<1, uint8_t, 3>>("closed.in.u8.1");
	closed<In<2, float, 4>>("closed.in.float.2");
	closed<In<3, int32_t, 4>>("closed.in.i32.3");
	closed<In<4, int16_t, 3>>("closed.in.i16.4");
	closed<In<8, int16_t, 3>>("closed.in.i16.8");
	closed<Out<1, uint8_t, 3>>("closed.out.u8.1");
	closed<Out<2, float, 3>>("closed.out.float.2");
	closed<Out<3, int32_t, 4>>("closed.out.i32.3");
	closed<Out<4, int16_t, 3>>("closed.out.i16.4");
	closed<Out<8, int16_t, 3>>("closed.out.i16.8");
	closed<In<1, Mv, 3>>("closed.in.mv.1");
	closed<In<3, Mv, 4>>("closed.in.mv.3");
	closed<Out<1, Mv, 3>>("closed.out.mv.1");
	closed<Out<3, Mv, 4>>("closed.out.mv.3");
	reg<In<1>>("in.1");
	reg<In<2>>("in.2");
	reg<In<5>>("in.5");
	reg<Out<1>>("out.1");
	reg<Out<2>>("out.2");
	reg<Out<5>>("out.5");
	return 0;
}();
