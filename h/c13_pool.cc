// C13: object pools used from one context, every operation history.
#include "mc.hh"
#include "vals.hh"
#include <array>
#include <set>
#include <string>
#include "util/pool.hh"
#include "util/thread_safe_pool.hh"

struct Obj {
	std::string s;
	int n = 7;
};
template<size_t N>
struct PS {
	cpputil::Pool<Obj, N> *p = new cpputil::Pool<Obj, N>;
	std::vector<std::pair<Obj *, int>> own; // in creation order
	int serial = 0;
	~PS() {
		delete p;
	}
	int nops() {
		return 2 + int(N) + 3;
	}
	std::string opname(int o) {
		if (o == 0)
			return "create";
		if (o == 1)
			return "create_for_overwrite";
		if (o < 2 + int(N))
			return mc::fmt("destroy(owned %d)", o - 2);
		return std::array{"destroy(null)", "destroy(foreign)", "destroy(stale)"}[o - 2 - N];
	}
	Obj *stale = nullptr;
	bool apply(int o) {
		static Obj foreign;
		if (o < 2) {
			Obj *x = o == 0 ? p->create() : p->create_for_overwrite();
			MC_CHECK((x != nullptr) == (own.size() < N), "create with %zu of %zu in use returned %p", own.size(), N, (void *)x);
			if (x) {
				for (auto &[q, v] : own)
					MC_CHECK(q != x, "create handed out an object that is in use");
				if (o == 0)
					MC_CHECK(x->s.empty() && x->n == 7, "a created object is not default-constructed");
				x->s = "contents on the heap, object " + std::to_string(++serial);
				x->n = serial;
				own.push_back({x, serial});
				if (stale == x)
					stale = nullptr;
			}
		} else if (o < 2 + int(N)) {
			size_t i = o - 2;
			if (i >= own.size())
				return false;
			MC_CHECK(p->destroy(own[i].first), "destroy of an object in use failed");
			stale = own[i].first;
			own.erase(own.begin() + i);
		} else if (o == 2 + int(N)) {
			MC_CHECK(!p->destroy(nullptr), "destroy(null) succeeded");
		} else if (o == 3 + int(N)) {
			MC_CHECK(!p->destroy(&foreign), "destroy of a foreign object succeeded");
		} else {
			if (!stale)
				return false;
			MC_CHECK(!p->destroy(stale), "destroy of an already destroyed object succeeded");
		}
		for (auto &[q, v] : own)
			MC_CHECK(q->n == v && q->s == "contents on the heap, object " + std::to_string(v), "object %d changed while in use", v);
		return true;
	}
	void key(mc::Hash &h) {
		static uint64_t unique = 0; // the pool's heap contents are not visible here: no state matching
		h.u64(++unique);
		for (auto &[q, v] : own)
			h.u64(v);
		h.u64(serial);
		h.u64(stale ? stale->n : 0);
	}
};
// every reachable state of a pool of trivial objects (and, beside it, of the thread-safe pool) over two contents
template<class P, class T, size_t N>
struct CL {
	static constexpr bool ptr = requires(P &p) { p.create_for_overwrite(); };
	mc::Arena<P> a;
	std::array<int, N> used{}; // 0: free; 1 + contents
	std::array<T *, N> where{}; // objects seen so far, in order of address as they appear
	int seen = 0;
	CL() {
		a.make(0xA5);
	}
	int nops() {
		return 3 * 2 + int(N) + 1 + 1;
	}
	std::string opname(int o) {
		return o < 2 ? mc::fmt("create, write %d", o) : o < 4 ? mc::fmt("create_for_overwrite, write %d", o - 2) : o < 6 ? mc::fmt("rewrite all with %d", o - 4) : o < 6 + int(N) ? mc::fmt("destroy(%d)", o - 6) : o == 6 + int(N) ? "destroy(nothing)" : "clear";
	}
	T &at(int i) {
		if constexpr (ptr)
			return *where[i];
		else
			return a.get()[i];
	}
	bool apply(int o) {
		auto &p = a.get();
		size_t n = 0;
		for (int u : used)
			n += u > 0;
		if (o < 4) {
			int i = -1;
			if constexpr (ptr) {
				T *x = o < 2 ? p.create() : p.create_for_overwrite();
				MC_CHECK((x != nullptr) == (n < N), "create with %zu of %zu in use returned %p", n, N, (void *)x);
				if (!x)
					return true;
				MC_CHECK((char *)x >= (char *)&p && (char *)(x + 1) <= (char *)(&p + 1), "create handed out an object outside the pool");
				if (o < 2)
					MC_CHECK(*x == T{}, "a created object is not default-constructed");
				for (int k = 0; k < seen; k++)
					if (where[k] == x)
						i = k;
				if (i < 0) {
					MC_CHECK(seen < int(N), "more objects than places");
					for (int k = 0; k < seen; k++)
						MC_CHECK(x + 1 <= where[k] || where[k] + 1 <= x, "objects overlap");
					where[i = seen++] = x;
				}
			} else {
				if (o >= 2)
					return false;
				auto r = p.create();
				MC_CHECK(r.has_value() == (n < N), "create with %zu of %zu in use: %d", n, N, r.has_value());
				if (!r)
					return true;
				MC_CHECK(*r < N, "index %zu of a pool of %zu", size_t(*r), N);
				i = int(*r);
			}
			MC_CHECK(used[i] == 0, "create handed out an object in use");
			used[i] = 1 + o % 2;
			at(i) = alpha<T>(o % 2 + 1);
		} else if (o < 6) {
			for (size_t i = 0; i < N; i++)
				if (used[i]) {
					used[i] = o - 3;
					at(int(i)) = alpha<T>(o - 3);
				}
		} else if (o < 6 + int(N)) {
			int i = o - 6;
			if constexpr (ptr) {
				if (i >= seen)
					return false;
				MC_CHECK(p.destroy(where[i]) == (used[i] > 0), "destroy of object %d, in use %d", i, used[i] > 0);
			} else
				MC_CHECK(p.destroy(size_t(i)) == (used[i] > 0), "destroy of %d, in use %d", i, used[i] > 0);
			used[i] = 0;
		} else if (o == 6 + int(N)) {
			if constexpr (ptr) {
				T other{};
				MC_CHECK(!p.destroy(nullptr) && !p.destroy(&other), "destroy of null or a foreign object succeeded");
			} else
				MC_CHECK(!p.destroy(N) && !p.destroy(N + 255) && !p.destroy(size_t(-1)) && !p.is_used(N) && !p.is_used(size_t(-1)), "an index outside the pool is taken for one inside");
		} else {
			if constexpr (ptr)
				return false;
			else {
				p.clear();
				used = {};
				for (size_t i = 0; i < N; i++)
					MC_CHECK(p[i] == T{}, "clear left contents in slot %zu", i);
			}
		}
		for (size_t i = 0; i < N; i++) {
			if (used[i])
				MC_CHECK(at(int(i)) == alpha<T>(unsigned(used[i])), "object %zu changed while in use", i);
			if constexpr (!ptr)
				MC_CHECK(p.is_used(i) == (used[i] > 0), "is_used(%zu)", i);
		}
		return true;
	}
	void key(mc::Hash &h) {
		h.bytes(a.mem, sizeof a.mem);
		for (int u : used)
			h.u64(u);
		for (int i = 0; i < seen; i++)
			h.u64((char *)where[i] - (char *)&a.get());
		h.u64(seen);
	}
};
template<size_t N>
struct TS {
	mc::Arena<cpputil::ThreadSafePool<uint32_t, N>> a;
	std::vector<std::pair<size_t, uint32_t>> own;
	uint32_t serial = 0;
	TS() {
		a.make(0xA5);
		check();
	}
	int nops() {
		return 1 + int(N) + 3;
	}
	std::string opname(int o) {
		if (o == 0)
			return "create";
		if (o < 1 + int(N))
			return mc::fmt("destroy(index %d)", o - 1);
		return std::array{"destroy(size)", "destroy(max)", "clear"}[o - 1 - N];
	}
	bool apply(int o) {
		auto &p = a.get();
		if (o == 0) {
			auto r = p.create();
			MC_CHECK(r.has_value() == (own.size() < N), "create with %zu of %zu in use: %d", own.size(), N, r.has_value());
			if (r) {
				MC_CHECK(*r < N, "index %zu of a pool of %zu", *r, N);
				for (auto &[i, v] : own)
					MC_CHECK(i != *r, "create handed out index %zu twice", i);
				p[*r] = ++serial;
				own.push_back({*r, serial});
			}
		} else if (o < 1 + int(N)) {
			size_t i = o - 1;
			bool is = false;
			for (size_t k = 0; k < own.size(); k++)
				if (own[k].first == i) {
					is = true;
					own.erase(own.begin() + k);
					break;
				}
			bool r = p.destroy(i);
			MC_CHECK(r == is, "destroy(%zu) returned %d, in use %d", i, r, is);
		} else if (o == 1 + int(N))
			MC_CHECK(!p.destroy(N), "destroy of a non-existent index succeeded");
		else if (o == 2 + int(N))
			MC_CHECK(!p.destroy(size_t(-1)), "destroy of a non-existent index succeeded");
		else {
			p.clear();
			own.clear();
			for (size_t i = 0; i < N; i++)
				MC_CHECK(p[i] == 0, "clear left contents in slot %zu", i);
		}
		check();
		return true;
	}
	void check() {
		auto &p = a.get();
		MC_CHECK(p.size() == N, "size");
		for (size_t i = 0; i < N; i++) {
			bool is = false;
			for (auto &[k, v] : own)
				if (k == i) {
					is = true;
					MC_CHECK(p[i] == v, "slot %zu changed while in use", i);
				}
			MC_CHECK(p.is_used(i) == is, "is_used(%zu) is %d", i, p.is_used(i));
		}
		MC_CHECK(!p.is_used(N) && !p.is_used(size_t(-1)), "a non-existent index reads as used");
	}
	void key(mc::Hash &h) {
		h.bytes(a.mem, sizeof a.mem);
		for (auto &[k, v] : own)
			h.u64(k * 1000 + v);
		h.u64(serial);
	}
};
template<class S>
void reg(const char *n, int dq, int dt) {
	mc::Reg(n, [=](mc::Job &j) {
		j.bfs<S>({.depth = j.tier(dq, dt), .max_states = j.quick ? 200'000u : 1'500'000u}, [] { return std::make_unique<S>(); });
	});
}
template<class P, class T, size_t N>
void closed(const char *n) {
	mc::Reg(n, [=](mc::Job &j) {
		j.note("closed: every reachable state of pools of up to 4 (thread-safe) or 3 objects with two contents");
		j.bfs<CL<P, T, N>>({.depth = 200, .max_states = j.quick ? 500'000u : 4'000'000u}, [] { return std::make_unique<CL<P, T, N>>(); });
	});
}
static int init = [] {
	closed<cpputil::ThreadSafePool<uint8_t, 3>, uint8_t, 3>("closed.tspool.u8.3");
	closed<cpputil::ThreadSafePool<Wide24, 4>, Wide24, 4>("closed.tspool.wide.4");
	closed<cpputil::ThreadSafePool<float, 2>, float, 2>("closed.tspool.float.2");
#ifndef ONLY_TS
	closed<cpputil::ThreadSafePool<Mv, 3>, Mv, 3>("closed.tspool.mv.3");
	closed<cpputil::Pool<Mv, 3>, Mv, 3>("closed.pool.mv.3");
	closed<cpputil::Pool<uint8_t, 3>, uint8_t, 3>("closed.pool.u8.3");
	closed<cpputil::Pool<Wide24, 2>, Wide24, 2>("closed.pool.wide.2");
	closed<cpputil::Pool<float, 3>, float, 3>("closed.pool.float.3");
	closed<cpputil::Pool<Odd3, 4>, Odd3, 4>("closed.pool.odd.4");
#endif
#ifndef ONLY_TS
	reg<PS<1>>("pool.1", 7, 9);
	reg<PS<2>>("pool.2", 6, 8);
	reg<PS<3>>("pool.3", 6, 7);
#endif
	reg<TS<1>>("tspool.1", 8, 11);
	reg<TS<2>>("tspool.2", 7, 10);
	reg<TS<4>>("tspool.4", 6, 8);
	return 0;
}();
