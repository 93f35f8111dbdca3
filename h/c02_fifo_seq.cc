// C02: queue accounting over every operation history (single context), fixed-size and run-time-sized variants.
#include "mc.hh"
#include <array>
#include <cstring>
#include <string>
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

struct Tracked { // counts live instances and detects use of dead ones
	static inline long live = 0;
	uint64_t v = 0;
	uint64_t tag;
	Tracked()
		: tag{reinterpret_cast<uint64_t>(this)} {
		live++;
	}
	Tracked(uint64_t x)
		: v{x}
		, tag{reinterpret_cast<uint64_t>(this)} {
		live++;
	}
	Tracked(const Tracked &o)
		: v{o.v}
		, tag{reinterpret_cast<uint64_t>(this)} {
		live++;
	}
	Tracked &operator=(const Tracked &o) {
		MC_CHECK(tag == reinterpret_cast<uint64_t>(this), "element storage was copied bytewise");
		v = o.v;
		return *this;
	}
	~Tracked() {
		live--;
	}
	bool operator==(const Tracked &o) const {
		return v == o.v;
	}
};
struct Wide {
	uint32_t a = 0;
	uint16_t b = 0;
	uint8_t c[5] = {};
	Wide() = default;
	Wide(uint64_t x)
		: a(x)
		, b(x * 7)
		, c{uint8_t(x), uint8_t(x * 3), 0, 0, uint8_t(x * 5)} {
	}
	bool operator==(const Wide &o) const {
		return a == o.a && b == o.b && !memcmp(c, o.c, 5);
	}
};
template<class T>
T mk(uint64_t i) {
	if constexpr (std::is_same_v<T, std::string>)
		return "a rather long string that needs the heap " + std::to_string(i);
	else
		return T(i);
}

template<class T>
struct Model { // log of all elements ever written; R, W indices into it
	std::vector<T> log;
	uint64_t R = 0, W = 0, floor = 0; // elements before `floor` are gone
	size_t cap;
	void write(const T &t) {
		log.push_back(t);
		W++;
	}
	std::conditional_t<std::is_same_v<T, bool>, T, const T &> at(uint64_t i) const {
		return log[i];
	}
	uint64_t n() const {
		return W - R;
	}
};

enum { PUT, GET, GETMOVE, GETDEF, DROP, RESET, OFF1, OFFC, OFFBIG, PUT0, PUTMAX, RESIZE_A, RESIZE_B, NOPS };
static const char *opn[] = {"put", "get", "get_move", "get_or_default", "remove_first", "reset", "set_read_offset(1)", "set_read_offset(cap)", "set_read_offset(too many)", "put(default value)", "put(largest value)", "resize(smaller)", "resize(larger)"};

template<class T, class F>
void check_counts(F &f, Model<T> &m) {
	size_t n = m.n();
	MC_CHECK(f.num_filled() == n, "num_filled %zu, %zu elements are waiting", f.num_filled(), n);
	MC_CHECK(f.num_free() == m.cap - n, "num_free %zu, capacity %zu, %zu waiting", f.num_free(), m.cap, n);
	MC_CHECK(f.empty() == (n == 0), "empty() wrong with %zu waiting", n);
	MC_CHECK(f.full() == (n == m.cap), "full() wrong with %zu of %zu waiting", n, m.cap);
	MC_CHECK(f.max_size() == m.cap, "max_size %zu, expected %zu", f.max_size(), m.cap);
}
// one operation; false if it does not apply
template<class T, class F>
bool apply(F &f, Model<T> &m, int op, uint64_t &serial, bool moved_ok) {
	switch (op) {
		case PUT:
		case PUT0:
		case PUTMAX: {
			T v = op == PUT ? mk<T>(++serial) : op == PUT0 ? T{} : mk<T>(~0ull);
			bool ok = f.put(v);
			MC_CHECK(ok == (m.n() < m.cap), "put %s with %llu of %zu waiting", ok ? "succeeded" : "failed", (unsigned long long)m.n(), m.cap);
			if (ok)
				m.write(v);
			break;
		}
		case GET: {
			auto r = f.get();
			MC_CHECK(r.has_value() == (m.n() > 0), "get %s", r ? "returned an element of an empty queue" : "returned nothing although an element is waiting");
			if (r) {
				MC_CHECK(*r == m.at(m.R), "get returned the wrong element");
				m.R++;
			}
			break;
		}
		case GETMOVE: {
			T t = mk<T>(999);
			bool ok = f.get_move(t);
			MC_CHECK(ok == (m.n() > 0), "get_move returned %d with %llu waiting", ok, (unsigned long long)m.n());
			if (ok) {
				MC_CHECK(t == m.at(m.R), "get_move delivered the wrong element");
				if (!moved_ok)
					m.floor = m.R + 1;
				m.R++;
			} else
				MC_CHECK(t == mk<T>(999), "a failed get_move changed its destination");
			break;
		}
		case GETDEF: {
			T t = f.get_or_default();
			if (m.n()) {
				MC_CHECK(t == m.at(m.R), "get_or_default returned the wrong element");
				m.R++;
			} else
				MC_CHECK(t == T{}, "get_or_default of an empty queue is not the default");
			break;
		}
		case DROP:
			f.remove_first();
			if (m.n())
				m.R++;
			break;
		case RESET:
			f.reset();
			m.R = m.W;
			break;
		case OFF1:
		case OFFC: {
			uint64_t k = op == OFF1 ? 1 : m.cap;
			if (k > m.cap)
				return false;
			if (k > m.W) {
				f.set_read_offset(k); // not possible: nothing changes
			} else {
				if (m.W - k < m.floor)
					return false;
				f.set_read_offset(k);
				m.R = m.W - k;
			}
			break;
		}
		case OFFBIG:
			f.set_read_offset(m.W + 1 + serial);
			break;
		default: return false;
	}
	return true;
}

template<class T, size_t N>
struct Sys {
	mc::Arena<LockFreeFifoSpsc<T, N>> a;
	Model<T> m;
	uint64_t serial = 0, base = 0;
	size_t offset;
	Sys(size_t offset, uint64_t startpos)
		: offset(offset) {
		if (offset)
			a.make(0xA5, offset);
		else
			a.make(0xA5);
		m.cap = N;
		for (size_t i = 0; i < offset; i++)
			m.write(T{});
		if (startpos) {
			a.get().set_read_pos(startpos);
			a.get().set_write_pos(startpos);
			base = startpos;
		}
		check_counts(a.get(), m);
	}
	int nops() {
		return RESIZE_A;
	}
	std::string opname(int op) {
		return opn[op];
	}
	bool apply(int op) {
		if (N > 4 && op >= PUT0)
			return false;
		if (base && (op == OFF1 || op == OFFC || op == OFFBIG))
			return false;
		bool ok = ::apply<T>(a.get(), m, op, serial, true);
		check_counts(a.get(), m);
		return ok;
	}
	void key(mc::Hash &h) {
		// element values are serial numbers; histories that differ only in how often the queue was cycled stay distinct
		h.bytes(a.mem, sizeof a.mem);
		h.u64(m.W);
		h.u64(m.R);
		h.u64(serial);
	}
};

template<class T, size_t N>
void reg(const char *tn, size_t offset, uint64_t start) {
	mc::Reg(mc::fmt("static.%s.%zu.off%zu.%s", tn, N, offset, start ? "wrap" : "zero"), [=](mc::Job &j) {
		j.bfs<Sys<T, N>>({.depth = j.tier(int(N) + 6, int(N) + 9), .max_states = j.quick ? 400'000u : 3'000'000u}, [=] { return std::make_unique<Sys<T, N>>(offset, start); });
	});
}

template<class T>
void reg_dyn(const char *tn, size_t n, size_t offset, bool moved_ok, size_t start = 0) {
	mc::Reg(mc::fmt("dyn.%s.%zu.off%zu%s", tn, n, offset, start ? ".wrap" : ""), [=](mc::Job &j) {
		int L = j.tier(n == 3 && !offset && std::is_same_v<T, uint32_t> ? 6 : 5, 7);
		j.explore({}, [=](mc::Ctx &c) {
			auto f = offset ? std::make_unique<LockFreeFifoSpscDyn<T>>(n, offset) : std::make_unique<LockFreeFifoSpscDyn<T>>(n);
			Model<T> m;
			m.cap = n;
			for (size_t i = 0; i < offset; i++)
				m.write(T{});
			uint64_t serial = 0;
			check_counts(*f, m);
			if (start) {
				f->set_read_pos(start);
				f->set_write_pos(start);
				check_counts(*f, m);
			}
			// start from a non-initial position: cycle a few elements through first
			int pre = int(c.choose(2)) * int(n + 1);
			for (int i = 0; i < pre; i++) {
				::apply<T>(*f, m, PUT, serial, moved_ok);
				::apply<T>(*f, m, GET, serial, moved_ok);
			}
			for (int k = 0; k < L; k++) {
				int op = int(c.choose(NOPS - 1));
				if (op >= PUTMAX)
					op++;
				if (start && (op == OFF1 || op == OFFC || op == OFFBIG))
					throw mc::Prune{};
				c.log("%s", opn[op]);
				if (op == RESIZE_A || op == RESIZE_B) {
					size_t nn = op == RESIZE_B ? m.cap + 2 : (m.cap > 1 ? m.cap - 1 : m.cap);
					bool same = nn == m.cap;
					f->resize(nn);
					if (!same) {
						m.cap = nn;
						m.R = m.W;
						m.floor = m.W;
					}
				} else if (!::apply<T>(*f, m, op, serial, moved_ok))
					throw mc::Prune{};
				check_counts(*f, m);
				if (m.n())
					c.nontrivial();
			}
			while (m.n())
				::apply<T>(*f, m, GET, serial, moved_ok);
			check_counts(*f, m);
			f.reset();
			if constexpr (std::is_same_v<T, Tracked>) {
				m.log.clear();
				MC_CHECK(Tracked::live == 0, "%ld elements not destroyed", Tracked::live);
			}
		});
	});
}

static int init = [] {
	reg<uint32_t, 1>("u32", 0, 0);
	reg<uint32_t, 2>("u32", 0, 0);
	reg<uint32_t, 2>("u32", 2, 0);
	reg<uint32_t, 4>("u32", 0, 0);
	reg<uint32_t, 4>("u32", 3, 0);
	reg<Wide, 4>("wide", 1, 0);
	reg<uint8_t, 8>("u8", 0, 0);
	reg<uint32_t, 1>("u32", 0, SIZE_MAX - 1);
	reg<uint32_t, 2>("u32", 0, SIZE_MAX - 2);
	reg<uint32_t, 4>("u32", 0, SIZE_MAX - 3);
	reg<Wide, 4>("wide", 0, SIZE_MAX);
	reg<uint32_t, 4>("u32", 0, 0xFFFFFFFFull - 2);
	reg_dyn<uint32_t>("u32", 1, 0, true);
	reg_dyn<uint32_t>("u32", 2, 1, true);
	reg_dyn<uint32_t>("u32", 3, 0, true);
	reg_dyn<uint32_t>("u32", 3, 2, true);
	reg_dyn<uint32_t>("u32", 4, 0, true);
	reg_dyn<Wide>("wide", 5, 0, true);
	reg_dyn<bool>("bool", 3, 0, true);
	reg_dyn<uint32_t>("u32", 3, 0, true, SIZE_MAX);
	reg_dyn<bool>("bool", 5, 0, true, SIZE_MAX - 1);
	reg_dyn<Wide>("wide", 1, 0, true, SIZE_MAX - 1);
	// positions of every size across their overflow
	mc::Reg("dyn.overflow", [](mc::Job &j) {
		int B = j.tier(12, 40);
		j.note(mc::fmt("dyn.overflow: queues of 1 to %d elements, every start of the positions up to %d before their overflow, every fill level", B, 2 * B));
		j.sweep(0, uint64_t(B) * (2 * B), [B](uint64_t x) {
			size_t cap = x / (2 * B) + 1;
			for (size_t fill = 1; fill <= cap; fill++) {
				LockFreeFifoSpscDyn<uint32_t> f(cap);
				Model<uint32_t> m;
				m.cap = cap;
				size_t start = SIZE_MAX - x % (2 * B);
				f.set_read_pos(start);
				f.set_write_pos(start);
				uint64_t s = 0;
				for (size_t i = 0; i < fill; i++)
					::apply<uint32_t>(f, m, PUT, s, true);
				for (size_t i = 0; i < 6 * cap + 4 * B; i++) {
					::apply<uint32_t>(f, m, i % 3 == 2 ? GETMOVE : i % 3 ? GETDEF : GET, s, true);
					check_counts(f, m);
					::apply<uint32_t>(f, m, PUT, s, true);
					if (i % 7 == 6)
						::apply<uint32_t>(f, m, DROP, s, true), ::apply<uint32_t>(f, m, PUT, s, true);
					check_counts(f, m);
				}
				::apply<uint32_t>(f, m, PUT, s, true);
				check_counts(f, m);
				while (m.n())
					::apply<uint32_t>(f, m, GET, s, true);
				check_counts(f, m);
				f.reset();
				m.R = m.W;
				::apply<uint32_t>(f, m, PUT, s, true);
				check_counts(f, m);
			}
			return true;
		});
	});
	reg_dyn<Tracked>("tracked", 3, 0, true);
	reg_dyn<std::string>("string", 3, 0, false);
	// long runs: every capacity, several laps, every fill level
	mc::Reg("dyn.laps", [](mc::Job &j) {
		j.sweep(1, j.tier(40, 120), [](uint64_t cap) {
			LockFreeFifoSpscDyn<uint32_t> f(cap);
			Model<uint32_t> m;
			m.cap = cap;
			uint64_t s = 0;
			for (uint64_t fill = 1; fill <= cap + 1; fill++) {
				for (uint64_t i = 0; i < fill; i++)
					::apply<uint32_t>(f, m, PUT, s, true);
				check_counts(f, m);
				for (uint64_t i = 0; i < (fill * 2 + 1) / 3; i++)
					::apply<uint32_t>(f, m, i & 1 ? GET : GETMOVE, s, true);
				check_counts(f, m);
				if (fill % 3 == 0)
					while (m.n())
						::apply<uint32_t>(f, m, GET, s, true);
			}
			return true;
		});
	});
	// resize chains over every pair of sizes
	mc::Reg("dyn.resize", [](mc::Job &j) {
		j.sweep(0, 20 * 20, [](uint64_t x) {
			size_t a = x / 20 + 1, b = x % 20 + 1;
			LockFreeFifoSpscDyn<std::string> f(a);
			Model<std::string> m;
			m.cap = a;
			uint64_t s = 0;
			for (size_t i = 0; i < a; i++)
				::apply<std::string>(f, m, PUT, s, false);
			f.resize(b);
			if (a != b) {
				m.cap = b;
				m.R = m.W;
				m.floor = m.W;
			}
			check_counts(f, m);
			for (size_t i = 0; i < 2 * b + 1; i++) {
				::apply<std::string>(f, m, PUT, s, false);
				check_counts(f, m);
				if (i % 2)
					::apply<std::string>(f, m, GET, s, false);
			}
			while (m.n())
				::apply<std::string>(f, m, GETMOVE, s, false);
			check_counts(f, m);
			return a != b;
		});
	});
	// initial contents handed to the constructor
	mc::Reg("static.contents", [](mc::Job &j) {
		j.sweep(0, 9, [](uint64_t k) {
			std::array<Wide, 8> src;
			for (int i = 0; i < 8; i++)
				src[i] = Wide(100 + i);
			LockFreeFifoSpsc<Wide, 8> f{std::span<Wide, 8>(src)};
			f.set_write_pos(f.num_filled() + k - f.num_filled());
			for (uint64_t i = 0; i < k; i++) {
				auto r = f.get();
				MC_CHECK(r && *r == src[i], "element %d of the initial contents is lost", int(i));
			}
			MC_CHECK(f.empty(), "more elements than positioned");
			return k > 0;
		});
	});
	return 0;
}();
