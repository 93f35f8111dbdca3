// C01: single-producer single-consumer FIFO under every interleaving and every permitted memory-model reordering.
#include "conc.hh"
#include <array>
#include <cstring>
#include <atomic>
#include <optional>
#include <span>
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

struct Item {
	uint64_t a = 0, b = 0;
	Item() = default;
	Item(uint64_t x)
		: a{x}
		, b{~x * 3} {
	}
	bool whole() const {
		return b == ~a * 3 || (a == 0 && b == 0);
	}
};

enum COp { GET, GETMOVE, GETDEF, DROP, DROPRAW, FILLED, EMPTY, RESET, KEEP, SEEK };
enum POp { PUT, FREE, FULL, PRESET };

template<class Fifo>
struct Prog : conc::Program {
	Fifo fifo;
	size_t cap;
	std::vector<POp> pops;
	std::vector<COp> cops;
	int prefill;
	// results (written by exactly one thread each)
	uint64_t accepted[16];
	int nacc = 0;
	uint64_t got[16]; // value or 0 for a dropped element
	int ngot = 0;
	bool preset = false;
	size_t pos = 0; // read position, as long as it is known

	template<class... A>
	Prog(size_t cap, std::vector<POp> p, std::vector<COp> c, int offset, int prefill, A &&...a)
		: fifo(std::forward<A>(a)...)
		, cap(cap)
		, pops(std::move(p))
		, cops(std::move(c))
		, prefill(prefill)
		, pos(offset) {
		// start the counters at `offset`
		for (int i = 0; i < offset; i++) {
			fifo.put(Item{1000});
			fifo.get();
		}
		for (int i = 0; i < prefill; i++)
			if (fifo.put(Item{uint64_t(500 + i)}))
				accepted[nacc++] = 500 + i;
	}
	int threads() const override {
		return 2;
	}
	void thread(int t) override {
		if (t == 0)
			producer();
		else
			consumer();
	}
	void producer() {
		uint64_t next = 1;
		size_t known_free = 0;
		for (auto op : pops) {
			if (op == PUT) {
				uint64_t v = next++;
				bool ok = fifo.put(Item{v});
				conc::log("put(%d)=%d", int(v), ok);
				MC_CHECK(ok || known_free == 0, "put refused although room had been reported for it");
				if (ok)
					accepted[nacc++] = v;
				if (known_free)
					known_free--;
			} else if (op == FREE) {
				size_t k = fifo.num_free();
				conc::log("num_free=%d", int(k));
				MC_CHECK(k <= cap, "num_free reports %zu for a capacity of %zu", k, cap);
				known_free = k;
			} else if (op == PRESET) {
				preset = true;
				fifo.reset();
				conc::log("reset by the producer");
			} else {
				bool f = fifo.full();
				conc::log("full=%d", f);
				known_free = f ? 0 : 1;
			}
		}
	}
	void take(const Item &it) {
		MC_CHECK(it.whole(), "element arrived corrupted");
		got[ngot++] = it.a;
	}
	void consumer() {
		size_t known = 0;
		for (auto op : cops) {
			switch (op) {
				case GET: {
					auto r = fifo.get();
					conc::log("get=%d", r ? int(r->a) : -1);
					MC_CHECK(r.has_value() || known == 0, "get returned nothing although an element had been reported");
					if (r)
						take(*r);
					if (known)
						known--;
					break;
				}
				case GETMOVE: {
					Item it{77777};
					bool ok = fifo.get_move(it);
					conc::log("get_move=%d", ok ? int(it.a) : -1);
					MC_CHECK(ok || known == 0, "get_move failed although an element had been reported");
					if (ok)
						take(it);
					else
						MC_CHECK(it.a == 77777, "failed get_move changed the destination");
					if (known)
						known--;
					break;
				}
				case GETDEF: {
					Item it = fifo.get_or_default();
					conc::log("get_or_default=%d", int(it.a));
					MC_CHECK(it.a != 0 || known == 0, "get_or_default returned the default although an element had been reported");
					if (it.a)
						take(it);
					if (known)
						known--;
					break;
				}
				case DROP: {
					// only issued when an element is known to be present
					size_t k = fifo.num_filled();
					if (k) {
						fifo.remove_first();
						got[ngot++] = 0;
					}
					conc::log("drop(%d)", int(k));
					known = k ? k - 1 : 0;
					break;
				}
				case DROPRAW: {
					fifo.remove_first();
					conc::log("remove_first");
					got[ngot++] = known ? 0 : OPT;
					if (known)
						known--;
					break;
				}
				case FILLED: {
					size_t k = fifo.num_filled();
					conc::log("num_filled=%d", int(k));
					MC_CHECK(k <= cap, "num_filled reports %zu for a capacity of %zu", k, cap);
					known = k;
					break;
				}
				case EMPTY: {
					bool e = fifo.empty();
					conc::log("empty=%d", e);
					known = e ? 0 : 1;
					break;
				}
				case RESET: {
					fifo.reset();
					conc::log("reset");
					got[ngot++] = ANY;
					known = 0;
					break;
				}
				case KEEP: { // keep only the newest element; only done when there is one
					size_t k = fifo.num_filled();
					conc::log("num_filled=%d, set_read_offset(1)", int(k));
					if (k) {
						fifo.set_read_offset(1);
						got[ngot++] = ANY;
					}
					known = k ? 1 : 0;
					break;
				}
				case SEEK: { // skip the elements known to be there, but for one
					size_t k = fifo.num_filled();
					conc::log("num_filled=%d, set_read_pos", int(k));
					if (k) {
						fifo.set_read_pos(pos + taken() + k - 1);
						for (size_t i = 1; i < k; i++)
							got[ngot++] = 0;
					}
					known = k ? 1 : 0;
					break;
				}
			}
		}
	}
	size_t taken() const {
		for (int g = 0; g < ngot; g++)
			MC_CHECK(got[g] != ANY && got[g] != OPT, "harness: the read position is not known");
		return size_t(ngot);
	}
	static constexpr uint64_t ANY = ~0ull, OPT = ~1ull;
	bool match(int g, int i) {
		if (preset && i < nacc && match(g, i + 1))
			return true;
		if (g == ngot)
			return i == nacc;
		if (got[g] == ANY) {
			for (int k = i; k <= nacc; k++)
				if (match(g + 1, k))
					return true;
			return false;
		}
		if (got[g] == OPT)
			return match(g + 1, i) || (i < nacc && match(g + 1, i + 1));
		if (i >= nacc || (got[g] != 0 && got[g] != accepted[i]))
			return false;
		return match(g + 1, i + 1);
	}
	void finish() override {
		// drain
		int drained = 0;
		while (auto r = fifo.get()) {
			MC_CHECK(++drained <= int(cap), "more elements than the capacity");
			take(*r);
		}
		for (int g = 0; g < ngot; g++)
			conc::observe(got[g]);
		if (!match(0, 0)) {
			std::string t;
			for (int i = 0; i < nacc; i++)
				t += mc::fmt("%lld ", (long long)accepted[i]);
			t += "| delivered:";
			for (int g = 0; g < ngot; g++)
				t += got[g] == ANY ? " (reset)" : got[g] == OPT ? " (maybe one dropped)" : got[g] == 0 ? " (one dropped)" : mc::fmt(" %lld", (long long)got[g]);
			mc::fail("delivered sequence does not match the accepted sequence; accepted: %s", t.c_str());
		}
		MC_CHECK(fifo.num_filled() == 0 && fifo.empty() && fifo.num_free() == cap, "drained queue is not empty");
	}
};

// Elements smaller than a word: neighbouring elements must be independent memory
template<class Fifo, class T>
struct Small : conc::Program {
	Fifo fifo;
	size_t cap;
	int nput, nget, form;
	std::vector<T> acc, got;
	static T val(int i) {
		if constexpr (std::is_same_v<T, bool>)
			return (0b1011001 >> i) & 1;
		else if constexpr (std::is_class_v<T>)
			return T{{uint8_t(i + 1), uint8_t(~i), 7}};
		else
			return T(i * 37 + 1);
	}
	template<class... A>
	Small(size_t cap, int nput, int nget, int form, size_t start, int prefill, A &&...a)
		: fifo(std::forward<A>(a)...)
		, cap(cap)
		, nput(nput)
		, nget(nget)
		, form(form) {
		if (start) {
			fifo.set_read_pos(start);
			fifo.set_write_pos(start);
		}
		acc.reserve(16);
		got.reserve(16);
		for (int i = 0; i < prefill; i++)
			put();
	}
	void put() {
		T v = val(int(acc.size()));
		if (fifo.put(v))
			acc.push_back(v);
	}
	int threads() const override {
		return 2;
	}
	void thread(int t) override {
		if (t == 0)
			for (int i = 0; i < nput; i++)
				put();
		else
			for (int i = 0; i < nget; i++) {
				if ((form >> i) & 1) {
					T v = val(int(got.size()) + 1);
					if (fifo.get_move(v))
						got.push_back(v);
				} else if (auto r = fifo.get())
					got.push_back(*r);
			}
	}
	void finish() override {
		conc::observe(got.size());
		while (auto r = fifo.get()) {
			got.push_back(*r);
			MC_CHECK(got.size() <= acc.size(), "more elements delivered than accepted");
		}
		MC_CHECK(got == acc, "the elements delivered are not the elements accepted (%zu, %zu)", got.size(), acc.size());
		MC_CHECK(fifo.num_filled() == 0 && fifo.empty() && fifo.num_free() == cap, "drained queue is not empty");
	}
};
struct Three {
	uint8_t v[3] = {};
	bool operator==(const Three &) const = default;
};
template<class T>
static void reg_small(const char *tn) {
	struct S {
		int nput, nget, form, prefill;
		size_t start;
	};
	static const S s[] = {{2, 2, 0, 0, 0}, {3, 3, 0, 0, 0}, {3, 3, 7, 1, 0}, {3, 3, 5, 2, 0}, {2, 3, 2, 1, SIZE_MAX}, {3, 3, 0, 1, SIZE_MAX - 1}, {3, 3, 7, 2, SIZE_MAX - 2}, {3, 2, 1, 2, 0xFFFFFFFF}};
	for (auto &x : s) {
		auto nm = [&](const char *k, size_t n) { return mc::fmt("small.%s.%s%zu.put%d-get%d.form%d.fill%d.%s", tn, k, n, x.nput, x.nget, x.form, x.prefill, x.start == 0 ? "zero" : x.start == 0xFFFFFFFF ? "wrap32" : mc::fmt("wrap%zu", size_t(SIZE_MAX - x.start)).c_str()); };
		mc::Reg(nm("static", 2), [x](mc::Job &j) { conc::explore(j, {}, [x] { return std::make_unique<Small<LockFreeFifoSpsc<T, 2>, T>>(2, x.nput, x.nget, x.form, x.start, x.prefill); }); });
		mc::Reg(nm("static", 4), [x](mc::Job &j) { conc::explore(j, {}, [x] { return std::make_unique<Small<LockFreeFifoSpsc<T, 4>, T>>(4, x.nput, x.nget, x.form, x.start, x.prefill); }); });
		for (size_t n : {2, 3, 5})
			mc::Reg(nm("dyn", n), [x, n](mc::Job &j) { conc::explore(j, {}, [x, n] { return std::make_unique<Small<LockFreeFifoSpscDyn<T>, T>>(n, x.nput, x.nget, x.form, x.start, x.prefill, n); }); });
	}
}

struct Scenario {
	const char *name;
	std::vector<POp> p;
	std::vector<COp> c;
	int tiers;
};
static const std::vector<Scenario> scen = {
	{"put2-get2", {PUT, PUT}, {GET, GET}, 3},
	{"put3-get3", {PUT, PUT, PUT}, {GET, GET, GET}, 3},
	{"put3-getmove3", {PUT, PUT, PUT}, {GETMOVE, GETMOVE, GETMOVE}, 3},
	{"put3-getdef2-drop", {PUT, PUT, PUT}, {GETDEF, DROP, GETDEF}, 3},
	{"drop-get", {PUT, PUT}, {DROP, GET, GET}, 3},
	{"free-put", {FREE, PUT, PUT, FULL, PUT}, {GET, GET, GET}, 3},
	{"full-put", {PUT, FULL, PUT, FULL, PUT}, {GET, GETMOVE}, 3},
	{"filled-get", {PUT, PUT, PUT}, {FILLED, GET, GET, EMPTY, GET}, 3},
	{"empty-getmove", {PUT, PUT, PUT}, {EMPTY, GETMOVE, EMPTY, GETMOVE}, 3},
	{"reset", {PUT, PUT, PUT}, {GET, RESET, GET}, 3},
	{"reset2", {PUT, PUT, PUT}, {RESET, GET, GET}, 3},
	{"dropraw", {PUT, PUT, PUT}, {DROPRAW, GET, DROPRAW, GET}, 3},
	{"reset3", {PUT, PUT, PUT, PUT}, {GET, RESET, GETMOVE, DROPRAW}, 3},
	{"keep", {PUT, PUT, PUT}, {GET, KEEP, GET}, 3},
	{"keep2", {PUT, PUT, PUT, PUT}, {KEEP, GETMOVE, KEEP}, 3},
	{"seek", {PUT, PUT, PUT}, {GET, SEEK, GET}, 3},
	{"seek2", {PUT, PUT, PUT, PUT}, {SEEK, GETMOVE, SEEK}, 3},
	{"put4-get4", {PUT, PUT, PUT, PUT}, {GET, GET, GET, GET}, 3},
	{"put4-mixed", {PUT, PUT, PUT, PUT}, {GET, GETMOVE, GET, GETMOVE}, 3},
	{"put5-get5", {PUT, PUT, PUT, PUT, PUT}, {GET, GET, GET, GET, GET}, 2},
	{"put5-mixed", {FREE, PUT, PUT, FULL, PUT, PUT}, {FILLED, GET, GETMOVE, DROP, GET}, 2},
	{"put6-get5", {PUT, PUT, PUT, PUT, PUT, PUT}, {GET, GETMOVE, GET, GETMOVE, GET}, 2},
};

template<size_t N>
static void reg_static(int offset, int prefill) {
	for (auto &s : scen)
		mc::Reg(mc::fmt("static%zu.off%d.fill%d.%s", N, offset, prefill, s.name), [=](mc::Job &j) {
			conc::explore(j, {}, [=] {
				return std::make_unique<Prog<LockFreeFifoSpsc<Item, N>>>(N, s.p, s.c, offset, prefill);
			});
		}, s.tiers);
}
static void reg_dyn(size_t n, int offset, int prefill) {
	for (auto &s : scen)
		mc::Reg(mc::fmt("dyn%zu.off%d.fill%d.%s", n, offset, prefill, s.name), [=](mc::Job &j) {
			conc::explore(j, {}, [=] {
				return std::make_unique<Prog<LockFreeFifoSpscDyn<Item>>>(n, s.p, s.c, offset, prefill, n);
			});
		}, s.tiers);
}
static int init = [] {
	reg_static<1>(0, 0);
	reg_static<2>(0, 0);
	reg_static<2>(1, 1);
	reg_static<4>(2, 3);
	reg_dyn(1, 0, 1);
	reg_dyn(2, 1, 0);
	reg_dyn(3, 2, 2);
	reg_small<bool>("bool");
	reg_small<uint8_t>("u8");
	reg_small<Three>("three");
	// A reset by the producer while the consumer is inside an operation (recorded finding)
	mc::Reg("producer-reset", [](mc::Job &j) {
		conc::explore(j, {}, [] {
			return std::make_unique<Prog<LockFreeFifoSpsc<Item, 2>>>(2, std::vector<POp>{PRESET, PUT, PUT}, std::vector<COp>{GET}, 0, 2);
		});
	});
	return 0;
}();
