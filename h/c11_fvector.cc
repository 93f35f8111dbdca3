// C11: fixed-capacity vector, every operation history against std::vector.
#include "mc.hh"
#include "vals.hh"
#include <vector>
#include <string>
#include "util/fixed_vector.hh"
template<class T>
T val(uint64_t s) {
	if constexpr (std::is_same_v<T, std::string>)
		return "heap allocated string number " + std::to_string(s);
	else
		return T(s);
}
template<class T, size_t N, int K = 0> // K: values from an alphabet of that many, in turn (0: all different)
struct Impl {
	static T mk(uint64_t s) {
		if constexpr (K > 0)
			return alpha<T>(s % K);
		else
			return val<T>(s);
	}
	T next() {
		serial = K ? (serial + 1) % K : serial + 1;
		return mk(serial);
	}
	FixedVector<T, N> v;
	std::vector<T> m;
	uint64_t serial = 0;
	static constexpr int NI = int(N) + 2; // index arguments 0..N+1
	// op list: push, pop, clear, ovw, resize(0..N+1), resize_ow(0..N+1), insert(i), erase(i), erase range(i,j), write(i)
	static int nops() {
		return 4 + NI + NI + NI + NI + (int(N) + 1) * (int(N) + 1) + 4;
	}
	static std::string name(int op) {
		if (op < 4)
			return std::array{"push_back", "pop_back", "clear", "push_back_for_overwrite"}[op];
		op -= 4;
		if (op < NI)
			return mc::fmt("resize(%d)", op);
		op -= NI;
		if (op < NI)
			return mc::fmt("resize_for_overwrite(%d)", op);
		op -= NI;
		if (op < NI)
			return mc::fmt("insert(%d)", op);
		op -= NI;
		if (op < NI)
			return mc::fmt("erase(%d)", op);
		op -= NI;
		if (op >= int(N + 1) * int(N + 1))
			return std::array{"insert(0, own last element)", "insert(0, own first element)", "push_back(own first element)", "resize(max, own first element)"}[op - int(N + 1) * int(N + 1)];
		return mc::fmt("erase(range %d..%d)", op / int(N + 1), op % int(N + 1));
	}
	bool apply(int op) {
		if (op == 0) {
			T x = next();
			bool ok = v.push_back(x);
			MC_CHECK(ok == (m.size() < N), "push_back returned %d at size %zu of %zu", ok, m.size(), N);
			if (ok)
				m.push_back(x);
		} else if (op == 1) {
			T x = v.pop_back();
			if (m.empty())
				MC_CHECK(x == T{}, "pop_back of an empty vector is not the default");
			else {
				MC_CHECK(x == m.back(), "pop_back returned the wrong element");
				m.pop_back();
			}
		} else if (op == 2) {
			v.clear();
			m.clear();
		} else if (op == 3) {
			size_t i = v.push_back_for_overwrite();
			MC_CHECK(i == (m.size() < N ? m.size() : N), "push_back_for_overwrite returned %zu at size %zu", i, m.size());
			if (m.size() < N) {
				T x = next();
				v[i] = x;
				m.push_back(x);
			}
		} else if ((op -= 4) < NI) {
			size_t n = op, k = std::min<size_t>(n, N);
			T fill = mk(900 + n);
			bool dflt = serial % 2 == 1;
			bool ok = dflt ? v.resize(n) : v.resize(n, fill);
			MC_CHECK(ok == (n <= N), "resize(%zu) returned %d", n, ok);
			m.resize(k, dflt ? T{} : fill);
		} else if ((op -= NI) < NI) {
			size_t n = op, k = std::min<size_t>(n, N);
			bool ok = v.resize_for_overwrite(n);
			MC_CHECK(ok == (n <= N), "resize_for_overwrite(%zu) returned %d", n, ok);
			size_t old = m.size();
			m.resize(k);
			for (size_t i = old; i < k; i++) {
				T x = next();
				v[i] = x;
				m[i] = x;
			}
		} else if ((op -= NI) < NI) {
			T x = next();
			v.insert(unsigned(op), x);
			if (m.size() < N && size_t(op) <= m.size())
				m.insert(m.begin() + op, x);
		} else if ((op -= NI) < NI) {
			v.erase(unsigned(op));
			if (size_t(op) < m.size())
				m.erase(m.begin() + op);
		} else if ((op -= NI) >= int(N + 1) * int(N + 1)) { // the value passed is one the vector itself holds
			op -= int(N + 1) * int(N + 1);
			if (m.empty())
				return false;
			T x = op ? m.front() : m.back();
			if (op < 2) {
				v.insert(0u, v[op ? 0 : m.size() - 1]);
				if (m.size() < N)
					m.insert(m.begin(), x);
			} else if (op == 2) {
				MC_CHECK(v.push_back(v[0]) == (m.size() < N), "push_back of an own element");
				if (m.size() < N)
					m.push_back(x);
			} else {
				MC_CHECK(v.resize(N, v[0]), "resize with an own element");
				m.resize(N, x);
			}
		} else {
			size_t i = op / (N + 1), k = op % (N + 1);
			if (i > m.size() || k > m.size() || i > k)
				return false;
			v.erase(v.begin() + i, v.begin() + k);
			m.erase(m.begin() + i, m.begin() + k);
		}
		check();
		return true;
	}
	void check() {
		MC_CHECK(v.size() == m.size(), "size %zu, expected %zu", v.size(), m.size());
		MC_CHECK(v.max_size() == N && v.available() == N - m.size(), "available %zu, size %zu of %zu", v.available(), m.size(), N);
		const auto &cv = v;
		for (size_t i = 0; i < m.size(); i++) {
			MC_CHECK(v[i] == m[i], "element %zu of %zu differs", i, m.size());
			MC_CHECK(cv[i] == m[i], "element %zu (const) differs", i);
		}
		if (m.empty())
			MC_CHECK(cv.back() == T{}, "back() of an empty vector is not the default");
		else
			MC_CHECK(cv.back() == m.back(), "back() is not the last element");
		size_t n = 0;
		for (auto &x : v)
			MC_CHECK(n < m.size() && x == m[n++], "iteration differs");
		MC_CHECK(n == m.size(), "iteration visits %zu of %zu", n, m.size());
		n = 0;
		for (auto &x : cv)
			MC_CHECK(n < m.size() && x == m[n++], "const iteration differs");
		MC_CHECK(n == m.size(), "const iteration visits %zu of %zu", n, m.size());
		MC_CHECK(v.span().size() == m.size() && cv.span().size() == m.size(), "span size");
		for (size_t i = 0; i < m.size(); i++)
			MC_CHECK(v.span()[i] == m[i] && cv.span()[i] == m[i], "span element %zu", i);
	}
};
template<class T, size_t N, int K = 0>
struct Sys {
	Impl<T, N, K> *p = new Impl<T, N, K>; // heap block: an overrun past it is caught
	~Sys() {
		delete p;
	}
	int nops() {
		return p->nops();
	}
	std::string opname(int o) {
		return Impl<T, N, K>::name(o);
	}
	bool apply(int o) {
		return p->apply(o);
	}
	void key(mc::Hash &h) {
		if constexpr (!std::is_same_v<T, std::string>) {
			h.bytes(&p->v, sizeof p->v);
			for (T x : p->m)
				h.bytes(&x, sizeof x);
		} else {
			static uint64_t unique = 0; // heap contents are not visible here: no state matching
			h.u64(++unique);
		}
		h.u64(p->m.size());
		h.u64(p->serial);
	}
};
template<class T, size_t N>
void reg(const char *n, int dq, int dt) {
	mc::Reg(n, [=](mc::Job &j) {
		j.bfs<Sys<T, N>>({.depth = j.tier(dq, dt), .max_states = j.quick ? 200'000u : 1'500'000u}, [] { return std::make_unique<Sys<T, N>>(); });
	});
}
template<class T, size_t N, int K>
void closed(const char *n, int dq) {
	mc::Reg(n, [=](mc::Job &j) {
		j.note("closed: every reachable state over an alphabet of element values that includes the default value and the type's extremes");
		j.bfs<Sys<T, N, K>>({.depth = j.tier(dq, 200), .max_states = 3'000'000u}, [] { return std::make_unique<Sys<T, N, K>>(); });
	});
}
#ifdef BOUNDS_ONLY // built with the array's own bounds checks: not even the address of an element past the storage may be taken
static int init = [] {
	closed<int, 1, 2>("bounds.int.1", 200);
	closed<uint8_t, 2, 2>("bounds.u8.2", 200);
	closed<int, 3, 2>("bounds.int.3", 200);
	reg<std::string, 3>("bounds.string.3", 3, 3);
	return 0;
}();
#else
static int init = [] {
	closed<int, 1, 3>("closed.int.1", 200);
	closed<uint8_t, 2, 3>("closed.u8.2", 200);
	closed<double, 3, 2>("closed.double.3", 200);
	closed<int64_t, 3, 3>("closed.i64.3", 200);
	closed<Wide24, 2, 4>("closed.wide.2", 200);
	closed<Odd3, 4, 2>("closed.odd.4", 200);
	closed<float, 4, 3>("closed.float.4", 200);
	closed<uint16_t, 8, 2>("closed.u16.8", 200);
	closed<bool, 5, 2>("closed.bool.5", 200);
	reg<int, 1>("int.1", 6, 8);
	reg<int, 2>("int.2", 6, 7);
	reg<int, 3>("int.3", 5, 6);
	reg<int, 4>("int.4", 4, 5);
	reg<uint8_t, 5>("u8.5", 4, 4);
	reg<std::string, 3>("string.3", 3, 4);
	// every prefix size x every insert/erase/range position, larger capacity
	mc::Reg("positions.int.12", [](mc::Job &j) {
		j.explore({}, [](mc::Ctx &c) {
			using I = Impl<int, 12>;
			auto p = std::make_unique<I>();
			int fill = int(c.choose(13));
			for (int i = 0; i < fill; i++)
				p->apply(0);
			int op = int(c.choose(I::nops()));
			c.log("fill %d; %s", fill, I::name(op).c_str());
			if (p->apply(op))
				c.nontrivial();
			int op2 = int(c.choose(4));
			p->apply(op2);
		});
	});
	mc::Reg("positions.string.8", [](mc::Job &j) {
		j.explore({}, [](mc::Ctx &c) {
			using I = Impl<std::string, 8>;
			auto p = std::make_unique<I>();
			int fill = int(c.choose(9));
			for (int i = 0; i < fill; i++)
				p->apply(0);
			int op = int(c.choose(I::nops()));
			c.log("fill %d; %s", fill, I::name(op).c_str());
			if (p->apply(op))
				c.nontrivial();
			p->apply(int(c.choose(4)));
		});
	});
	mc::Reg("construct", [](mc::Job &j) {
		j.sweep(0, 5, [](uint64_t n) {
			auto chk = [](auto v, size_t n) {
				MC_CHECK(v.size() == n, "constructed size %zu, expected %zu", v.size(), n);
				for (size_t i = 0; i < n; i++)
					MC_CHECK(v[i] == int(i + 1), "constructed element %zu wrong", i);
				auto w = v;
				w.push_back(99);
				MC_CHECK(v.size() == n, "copies share state");
			};
			if (n == 0)
				chk(FixedVector<int, 4>{}, 0);
			if (n == 1)
				chk(FixedVector<int, 4>{1}, 1);
			if (n == 2)
				chk(FixedVector<int, 4>{1, 2}, 2);
			if (n == 3)
				chk(FixedVector<int, 4>{1, 2, 3}, 3);
			if (n == 4)
				chk(FixedVector<int, 4>{1, 2, 3, 4}, 4);
			return true;
		});
	});
	return 0;
}();
#endif
