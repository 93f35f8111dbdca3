// C10: bounded stack that overwrites its bottom, every operation history.
#include "mc.hh"
#include <deque>
#include "vals.hh"
#include "util/circular_stack.hh"
enum { PUSH, POP, POPZ, BACK, CLEAR, NOPS };
static const char *opn[] = {"push_back", "pop_back", "pop_back_or_zero", "back", "clear"};
template<int N>
struct Sys {
	mc::Arena<CircularStack<int, N>> a;
	std::deque<int> m;
	int serial = 0;
	Sys() {
		a.make(0xA5);
	}
	int nops() {
		return NOPS;
	}
	std::string opname(int o) {
		return opn[o];
	}
	bool apply(int op) {
		auto &s = a.get();
		switch (op) {
			case PUSH:
				s.push_back(++serial);
				m.push_back(serial);
				if (m.size() > N)
					m.pop_front();
				break;
			case POP: {
				auto r = s.pop_back();
				MC_CHECK(r.has_value() == !m.empty(), "pop_back on %zu elements returned %d", m.size(), r.has_value());
				if (r) {
					MC_CHECK(*r == m.back(), "pop_back returned %d, the most recent element is %d", *r, m.back());
					m.pop_back();
				}
				break;
			}
			case POPZ: {
				int r = s.pop_back_or_zero();
				MC_CHECK(r == (m.empty() ? 0 : m.back()), "pop_back_or_zero returned %d, expected %d", r, m.empty() ? 0 : m.back());
				if (!m.empty())
					m.pop_back();
				break;
			}
			case BACK: {
				auto r = s.back();
				MC_CHECK(r.has_value() == !m.empty() && (!r || *r == m.back()), "back() wrong with %zu elements", m.size());
				break;
			}
			case CLEAR:
				s.clear();
				m.clear();
				break;
		}
		MC_CHECK(s.size() == m.size(), "size %zu, expected %zu", s.size(), m.size());
		MC_CHECK(s.empty() == m.empty(), "empty() wrong with %zu elements", m.size());
		MC_CHECK(s.max_size() == N, "max_size");
		auto r = s.back();
		MC_CHECK(r.has_value() == !m.empty() && (!r || *r == m.back()), "back() wrong with %zu elements", m.size());
		// the whole content, by popping a copy
		auto copy = s;
		for (size_t i = m.size(); i-- > 0;) {
			auto p = copy.pop_back();
			MC_CHECK(p && *p == m[i], "content: element %zu from the bottom is wrong", i);
		}
		MC_CHECK(!copy.pop_back(), "more elements than expected");
		return true;
	}
	void key(mc::Hash &h) {
		h.bytes(a.mem, sizeof a.mem);
		for (int x : m)
			h.u64(x);
		h.u64(serial);
	}
};
template<int N>
void reg() {
	mc::Reg(mc::fmt("stack%d", N), [](mc::Job &j) {
		j.bfs<Sys<N>>({.depth = j.tier(N <= 4 ? 10 : 9, 13), .max_states = j.quick ? 400'000u : 2'000'000u}, [] { return std::make_unique<Sys<N>>(); });
	});
}
// every reachable state of a stack over an alphabet of K values
template<class T, int N, int K>
struct Alpha {
	static constexpr bool raw = std::is_trivially_copyable_v<T>;
	mc::Arena<CircularStack<T, N>> a;
	std::deque<int> m;
	std::vector<int> hist;
	Alpha() {
		a.make(0xA5);
	}
	int nops() {
		return K + 4;
	}
	std::string opname(int o) {
		return o < K ? mc::fmt("push_back(value %d)", o) : opn[o - K + 1];
	}
	bool apply(int op) {
		auto &s = a.get();
		if (!raw)
			hist.push_back(op);
		if (op < K) {
			s.push_back(alpha<T>(op));
			m.push_back(op);
			if (m.size() > N)
				m.pop_front();
		} else if (op == K + POP - 1) {
			auto r = s.pop_back();
			MC_CHECK(r.has_value() == !m.empty() && (!r || *r == alpha<T>(m.back())), "pop_back on %zu elements is wrong", m.size());
			if (r)
				m.pop_back();
		} else if (op == K + POPZ - 1) {
			T r = s.pop_back_or_zero();
			MC_CHECK(r == (m.empty() ? T{} : alpha<T>(m.back())), "pop_back_or_zero on %zu elements is wrong", m.size());
			if (!m.empty())
				m.pop_back();
		} else if (op == K + CLEAR - 1) {
			s.clear();
			m.clear();
		}
		MC_CHECK(s.size() == m.size() && s.empty() == m.empty() && s.max_size() == N, "size %zu, empty %d, expected %zu elements", s.size(), s.empty(), m.size());
		auto r = s.back();
		MC_CHECK(r.has_value() == !m.empty() && (!r || *r == alpha<T>(m.back())), "back() wrong with %zu elements", m.size());
		const auto &cs = s;
		CircularStack<T, N> copy{cs};
		for (size_t i = m.size(); i-- > 0;) {
			auto p = copy.pop_back();
			MC_CHECK(p && *p == alpha<T>(m[i]), "content: element %zu from the bottom is wrong", i);
		}
		MC_CHECK(!copy.pop_back() && copy.pop_back_or_zero() == T{}, "more elements than expected");
		return true;
	}
	void key(mc::Hash &h) {
		if (raw)
			h.bytes(a.mem, sizeof a.mem);
		for (int x : hist)
			h.u64(x + 1);
		h.u64(99);
		for (int x : m)
			h.u64(x);
	}
};
template<class T, int N, int K>
void alph(const char *n, int dq, int dt) {
	mc::Reg(mc::fmt("values-%s-%d", n, N), [=](mc::Job &j) {
		j.note(mc::fmt("values: every reachable state of stacks of up to 4 elements over alphabets of 2 or 3 values of seven types (texts: every history up to a depth)"));
		j.bfs<Alpha<T, N, K>>({.depth = j.tier(dq, dt), .max_states = 3'000'000u}, [] { return std::make_unique<Alpha<T, N, K>>(); });
	});
}
static int init = [] {
	alph<uint8_t, 1, 3>("u8", 60, 60);
	alph<int, 2, 3>("int", 60, 60);
	alph<float, 3, 3>("float", 60, 60);
	alph<int64_t, 4, 2>("i64", 60, 60);
	alph<Wide24, 2, 3>("wide", 60, 60);
	alph<Odd3, 3, 2>("odd", 60, 60);
	alph<bool, 4, 2>("bool", 60, 60);
	alph<uint16_t, 5, 2>("u16", 12, 60);
	alph<std::string, 2, 3>("text", 6, 8);
	alph<std::string, 3, 2>("text", 7, 9);
	reg<1>();
	reg<2>();
	reg<3>();
	reg<4>();
	reg<5>();
	mc::Reg("construct", [](mc::Job &j) {
		j.sweep(0, 4, [](uint64_t n) {
			auto chk = [](auto s, int n) {
				MC_CHECK(int(s.size()) == n, "constructed with %d elements, size %zu", n, s.size());
				s.push_back(50);
				MC_CHECK(int(s.size()) == std::min(n + 1, 3), "size after push");
				MC_CHECK(*s.pop_back() == 50, "top");
				for (int i = n; i > (n == 3 ? 1 : 0); i--) {
					auto r = s.pop_back();
					MC_CHECK(r && *r == i, "constructed element %d lost", i);
				}
				MC_CHECK(s.empty(), "more elements than constructed with");
			};
			if (n == 0)
				chk(CircularStack<int, 3>{}, 0);
			if (n == 1)
				chk(CircularStack<int, 3>{1}, 1);
			if (n == 2)
				chk(CircularStack<int, 3>{1, 2}, 2);
			if (n == 3)
				chk(CircularStack<int, 3>{1, 2, 3}, 3);
			return true;
		});
	});
	// deep: every (wrap position, fill, pops, pushes)
	mc::Reg("laps", [](mc::Job &j) {
		j.sweep(0, 20 * 20 * 20, [](uint64_t x) {
			int a = x % 20, b = (x / 20) % 20, c = x / 400;
			CircularStack<int, 7> s;
			std::deque<int> m;
			int ser = 0;
			auto push = [&] {
				s.push_back(++ser);
				m.push_back(ser);
				if (m.size() > 7)
					m.pop_front();
			};
			auto pop = [&] {
				auto r = s.pop_back();
				MC_CHECK(r.has_value() == !m.empty() && (!r || *r == m.back()), "pop_back wrong");
				if (r)
					m.pop_back();
				MC_CHECK(s.size() == m.size() && s.empty() == m.empty(), "size wrong");
			};
			for (int i = 0; i < a; i++)
				push();
			for (int i = 0; i < b; i++)
				pop();
			for (int i = 0; i < c; i++)
				push();
			for (int i = 0; i < 9; i++)
				pop();
			return true;
		});
	});
	return 0;
}();
