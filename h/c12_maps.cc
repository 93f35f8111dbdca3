// C12: small sequential maps, every operation history against a plain list of pairs.
#include "mc.hh"
#include "vals.hh"
#include <array>
#include <string>
#include <vector>
#include <utility>
#include "util/sequential_map.hh"
#include "util/seq_map.hh"
#include "util/static_string.hh"

static std::string big(int x) {
	return x == 0 ? std::string() : "value on the heap number " + std::to_string(x);
}
template<class V, int C = 0>
V mkv(int x) {
	if constexpr (C > 0)
		return alpha<V>(unsigned(x) % C);
	else if constexpr (std::is_same_v<V, std::string>)
		return big(x);
	else
		return V(x);
}
template<class K>
K mkk(int x) {
	if constexpr (std::is_same_v<K, int>)
		return x;
	else if constexpr (std::is_same_v<K, char>)
		return char(x ? 'a' + x : 0);
	else if constexpr (!std::is_class_v<K>)
		return alpha<K>(x); // 0, the extremes and 1 (up to four keys)
	else
		return x ? K(std::string_view(std::string(1, char('a' + x)) + "k")) : K{};
}

// ---- SequentialMap --------------------------------------------------------------------------------------------
template<class K, class V, size_t N, int C = 0> // C: values from an alphabet of that many, in turn (0: all different)
struct SM {
	V next() {
		serial = C ? (serial + 1) % C : serial + 1;
		return mkv<V, C>(serial);
	}
	mc::Arena<SequentialMap<K, V, N>> arena;
	SequentialMap<K, V, N> *p = &arena.make(0xA5);
	std::vector<std::pair<int, V>> m;
	int serial = 0;
	static constexpr int KEYS = int(N) + 1;
	int nops() {
		return KEYS * 4 + 1;
	}
	std::string opname(int o) {
		if (o == KEYS * 4)
			return "clear";
		static const char *n[] = {"[%d]=", "insert(%d)", "erase(%d)", "[%d]"};
		return mc::fmt(n[o / KEYS], o % KEYS);
	}
	int find(int k) {
		for (size_t i = 0; i < m.size(); i++)
			if (m[i].first == k)
				return int(i);
		return -1;
	}
	bool apply(int o) {
		auto &x = *p;
		if (o == KEYS * 4) {
			x.clear();
			m.clear();
			check();
			return true;
		}
		int k = o % KEYS;
		int at = find(k);
		switch (o / KEYS) {
			case 0: {
				if (at < 0 && m.size() == N)
					return false; // documented overflow behaviour: the last element is reused (checked below)
				V v = next();
				x[mkk<K>(k)] = v;
				if (at >= 0)
					m[at].second = v;
				else
					m.push_back({k, v});
				break;
			}
			case 1: {
				V v = next();
				auto [it, ok] = x.insert({mkk<K>(k), v});
				MC_CHECK(ok == (at < 0 && m.size() < N), "insert returned %d (present %d, %zu of %zu)", ok, at >= 0, m.size(), N);
				if (ok) {
					MC_CHECK(it->first == mkk<K>(k) && it->second == v, "insert returned an iterator to another entry");
					m.push_back({k, v});
				} else if (at >= 0)
					MC_CHECK(it != x.end() && it->first == mkk<K>(k) && it->second == m[at].second, "insert of a present key does not point at it");
				else
					MC_CHECK(it == x.end(), "failed insert does not return end()");
				break;
			}
			case 2: {
				size_t r = x.erase(mkk<K>(k));
				MC_CHECK(r == (at >= 0 ? 1u : 0u), "erase returned %zu", r);
				if (at >= 0)
					m.erase(m.begin() + at);
				break;
			}
			case 3: {
				if (at < 0 && m.size() == N)
					return false;
				V &r = x[mkk<K>(k)];
				if (at < 0) { // a new entry
					MC_CHECK(r == V{}, "the lookup of an absent key found a value");
					m.push_back({k, V{}});
					break;
				}
				MC_CHECK(r == m[at].second, "lookup returned a wrong value");
				break;
			}
		}
		check();
		return true;
	}
	void check() {
		auto &x = *p;
		const auto &cx = x;
		MC_CHECK(x.size() == m.size() && x.max_size() == N, "size %zu, expected %zu", x.size(), m.size());
		MC_CHECK(x.empty() == m.empty() && x.is_full() == (m.size() == N), "empty/full flags");
		for (int k = 0; k < KEYS; k++) {
			int at = find(k);
			K key = mkk<K>(k);
			MC_CHECK(x.contains(key) == (at >= 0), "contains(%d) is %d", k, x.contains(key));
			auto it = x.find(key);
			MC_CHECK((it != x.end()) == (at >= 0), "find(%d)", k);
			auto cit = cx.find(key);
			MC_CHECK((cit != cx.end()) == (at >= 0), "const find(%d)", k);
			if (at >= 0) {
				MC_CHECK(it->first == key && it->second == m[at].second, "find(%d) value", k);
				MC_CHECK(cit->first == key && cit->second == m[at].second, "const find(%d) value", k);
				MC_CHECK(cx[key] == m[at].second, "const lookup of %d", k);
			} else
				MC_CHECK(cx[key] == V{}, "const lookup of a missing key is not the default");
		}
		size_t n = 0;
		for (auto &pr : cx) {
			int at = -1;
			for (int k = 0; k < KEYS; k++)
				if (mkk<K>(k) == pr.first)
					at = find(k);
			MC_CHECK(at >= 0 && pr.second == m[at].second, "iteration yields an entry that is not in the map");
			n++;
		}
		MC_CHECK(n == m.size(), "iteration yields %zu entries of %zu", n, m.size());
		n = 0;
		for (auto &pr : x)
			(void)pr, n++;
		MC_CHECK(n == m.size(), "iteration yields %zu entries of %zu", n, m.size());
	}
	void key(mc::Hash &h) {
		if constexpr (std::is_trivially_copyable_v<V> && std::is_trivially_copyable_v<K>)
			h.bytes(p, sizeof *p);
		else { // heap contents are not visible here: no state matching
			static uint64_t unique = 0;
			h.u64(++unique);
		}
		for (auto &[k, v] : m) {
			h.u64(k);
			if constexpr (C > 0)
				for (int i = 0; i < C; i++)
					h.u64(v == mkv<V, C>(i));
		}
		h.u64(serial);
	}
};

// ---- SeqMap ---------------------------------------------------------------------------------------------------
template<class K, class V, size_t N, int C = 0>
struct QM {
	V next() {
		serial = C ? (serial + 1) % C : serial + 1;
		return mkv<V, C>(serial);
	}
	mc::Arena<SeqMap<K, V, N>> arena;
	SeqMap<K, V, N> *p = &arena.make(0xA5);
	std::vector<std::pair<int, V>> m; // in order of insertion
	int serial = 0;
	static constexpr int KEYS = int(N) + 2;
	int nops() {
		return KEYS * 4 + 1;
	}
	std::string opname(int o) {
		if (o > KEYS * 3)
			return mc::fmt("overwrite(%d) with the value of another entry", o - KEYS * 3 - 1);
		if (o == KEYS * 3)
			return "remove_last";
		static const char *n[] = {"insert(%d)", "overwrite(%d)", "remove(%d)"};
		return mc::fmt(n[o / KEYS], o % KEYS);
	}
	int find(int k) {
		for (size_t i = 0; i < m.size(); i++)
			if (m[i].first == k)
				return int(i);
		return -1;
	}
	bool apply(int o) {
		auto &x = *p;
		if (o == KEYS * 3) {
			x.remove_last(); // the one stored last, also after an eviction
			if (!m.empty())
				m.pop_back();
			check();
			return true;
		}
		if (o > KEYS * 3) { // the value passed is one held by the map itself
			int k = o - KEYS * 3 - 1, at = find(k);
			if (m.empty())
				return false;
			size_t from = at == 0 && m.size() > 1 ? 1 : 0;
			V v = m[from].second;
			V *r = x.overwrite(mkk<K>(k), *x.get(mkk<K>(m[from].first)));
			if (at >= 0)
				m[at].second = v;
			else {
				if (m.size() == N)
					m.erase(m.begin());
				m.push_back({k, v});
			}
			MC_CHECK(r && *r == v, "overwrite with a value out of the map does not store that value");
			check();
			return true;
		}
		int k = o % KEYS, at = find(k);
		switch (o / KEYS) {
			case 0: {
				if (at >= 0 && m.size() < N)
					return false; // adding a second entry for one key is left open
				V v = next();
				bool ok = x.insert(mkk<K>(k), v);
				MC_CHECK(ok == (m.size() < N), "insert returned %d with %zu of %zu", ok, m.size(), N);
				if (ok)
					m.push_back({k, v});
				break;
			}
			case 1: {
				V v = next();
				V *r = x.overwrite(mkk<K>(k), v);
				MC_CHECK(r && *r == v, "overwrite does not return the stored value");
				if (at >= 0)
					m[at].second = v;
				else {
					if (m.size() == N)
						m.erase(m.begin());
					m.push_back({k, v});
				}
				MC_CHECK(x.get(mkk<K>(k)) == r, "overwrite returned another entry than get");
				break;
			}
			case 2: {
				bool ok = x.remove(mkk<K>(k));
				MC_CHECK(ok == (at >= 0), "remove returned %d", ok);
				if (at >= 0)
					m.erase(m.begin() + at);
				break;
			}
		}
		check();
		return true;
	}
	void check() {
		auto &x = *p;
		MC_CHECK(x.size() == m.size(), "size %zu, expected %zu", x.size(), m.size());
		for (int k = 0; k < KEYS; k++) {
			int at = find(k);
			MC_CHECK(x.key_exists(mkk<K>(k)) == (at >= 0), "key_exists(%d) is %d", k, x.key_exists(mkk<K>(k)));
			V *v = x.get(mkk<K>(k));
			MC_CHECK((v != nullptr) == (at >= 0), "get(%d) %s", k, v ? "finds a missing key" : "does not find a present key");
			if (v)
				MC_CHECK(*v == m[at].second, "get(%d) returns a wrong value", k);
		}
	}
	void key(mc::Hash &h) {
		if constexpr (std::is_trivially_copyable_v<V> && std::is_trivially_copyable_v<K>)
			h.bytes(p, sizeof *p);
		else { // heap contents are not visible here: no state matching
			static uint64_t unique = 0;
			h.u64(++unique);
		}
		for (auto &[k, v] : m) {
			h.u64(k);
			if constexpr (C > 0)
				for (int i = 0; i < C; i++)
					h.u64(v == mkv<V, C>(i));
		}
		h.u64(serial);
	}
};
template<class S>
void reg(const char *n, int dq, int dt) {
	mc::Reg(n, [=](mc::Job &j) {
		j.bfs<S>({.depth = j.tier(dq, dt), .max_states = j.quick ? 250'000u : 2'000'000u}, [] { return std::make_unique<S>(); });
	});
}
template<class S>
void closed(const char *n) {
	mc::Reg(n, [=](mc::Job &j) {
		j.note("closed: every reachable state over alphabets of keys and values that include the default value and the type's extremes");
		j.bfs<S>({.depth = 200, .max_states = j.quick ? 1'000'000u : 4'000'000u}, [] { return std::make_unique<S>(); });
	});
}
static int init = [] {
	closed<SM<uint8_t, uint8_t, 1, 3>>("closed.sequential.1");
	closed<SM<int64_t, double, 2, 3>>("closed.sequential.2");
	closed<SM<Col, int16_t, 2, 2>>("closed.sequential.enum.2");
	closed<SM<char, uint8_t, 3, 2>>("closed.sequential.3");
	closed<SM<int, float, 4, 2>>("closed.sequential.4");
	closed<QM<uint8_t, uint8_t, 1, 3>>("closed.seqmap.1");
	closed<QM<int64_t, float, 2, 3>>("closed.seqmap.2");
	closed<QM<Col, Wide24, 2, 2>>("closed.seqmap.enum.2");
	closed<QM<char, uint16_t, 3, 2>>("closed.seqmap.3");
	reg<SM<int, uint32_t, 1>>("sequential.int.1", 6, 8);
	reg<SM<int, uint32_t, 2>>("sequential.int.2", 5, 6);
	reg<SM<int, uint32_t, 3>>("sequential.int.3", 5, 5);
	reg<SM<StaticString<3>, std::string, 2>>("sequential.str.2", 4, 5);
	reg<QM<int, uint32_t, 1>>("seqmap.int.1", 6, 8);
	reg<QM<int, uint32_t, 2>>("seqmap.int.2", 5, 7);
	reg<QM<int, uint32_t, 3>>("seqmap.int.3", 5, 6);
	reg<QM<StaticString<3>, std::string, 2>>("seqmap.str.2", 4, 5);
	// eviction order over several laps
	mc::Reg("seqmap.laps", [](mc::Job &j) {
		j.sweep(0, 6 * 30, [](uint64_t x) {
			size_t n = x / 30;
			SeqMap<int, int, 6> q;
			std::vector<int> order;
			for (size_t i = 0; i < n; i++) {
				q.insert(int(i) + 500, 1);
				order.push_back(int(i) + 500);
			}
			for (int i = 0; i < int(x % 30); i++) {
				q.overwrite(i, i);
				if (order.size() == 6)
					order.erase(order.begin());
				order.push_back(i);
				if (i % 3 == 0)
					q.overwrite(order[order.size() / 2], -1); // rewriting does not change the age
			}
			MC_CHECK(q.size() == order.size(), "size");
			for (int k = 0; k < 600; k++) {
				bool in = false;
				for (int o : order)
					in |= o == k;
				MC_CHECK(q.key_exists(k) == in, "key %d %s after %d overwrites", k, in ? "was evicted too early" : "was not evicted", int(x % 30));
			}
			return n > 0;
		});
	});
	// full SequentialMap: a new key takes over the last entry and leaves the others alone
	mc::Reg("sequential.overflow", [](mc::Job &j) {
		j.sweep(1, 9, [](uint64_t extra) {
			SequentialMap<int, int, 4> q;
			for (int i = 0; i < 4; i++)
				q[i] = 10 * i;
			for (int e = 0; e < int(extra); e++)
				q[100 + e] = e;
			MC_CHECK(q.size() == 4, "size grew past the capacity");
			for (int i = 0; i < 3; i++)
				MC_CHECK(q.contains(i) && q[i] == 10 * i, "entry %d disturbed by an overflowing lookup", i);
			MC_CHECK(q.contains(100 + int(extra) - 1) && q[100 + int(extra) - 1] == int(extra) - 1, "newest key is not stored");
			return true;
		});
	});
	return 0;
}();
