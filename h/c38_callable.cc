// C38: stored callables: every history of construction, copy, assignment, call and destruction of three slots.
#include "mc.hh"
#include "util/callable.hh"
#include "util/overloaded.hh"
#include <set>
#include <memory>
#include <vector>

static std::set<const void *> live; // captures alive, by address
struct Tracked {
	uint32_t n;
	const Tracked *self;
	explicit Tracked(uint32_t n)
		: n{n}
		, self{this} {
		MC_CHECK(live.insert(this).second, "capture constructed over a living one");
	}
	Tracked(const Tracked &o)
		: n{o.n}
		, self{this} {
		o.check("copied");
		MC_CHECK(live.insert(this).second, "capture constructed over a living one");
	}
	Tracked &operator=(const Tracked &o) {
		o.check("assigned");
		check("assigned to");
		n = o.n;
		return *this;
	}
	~Tracked() {
		// (no throwing from a destructor: the next check reports a missing entry)
		if (self != this || !live.erase(this))
			bad++;
	}
	void check(const char *what) const {
		MC_CHECK(self == this && live.count(this), "a capture that does not exist (moved by its bytes or already destroyed) was %s", what);
	}
	static inline int bad = 0;
};
static int side; // what void callables write
static int freefun(int a, int b) {
	return a * 3 + b;
}
template<class F, bool IsCallback>
static void history(mc::Ctx &c, int depth) {
	live.clear();
	Tracked::bad = 0;
	constexpr int NS = 3;
	enum Kind { NONE, EMPTY, PLAIN, TRACK, FUNPTR };
	struct Slot {
		F *p = nullptr;
		Kind k = NONE;
		uint32_t n = 0; // state of the callable
	} s[NS];
	struct Guard {
		Slot *s;
		~Guard() {
			for (int i = 0; i < NS; i++)
				delete s[i].p;
		}
	} guard{s};
	uint32_t serial = 10;
	int used = 0;
	// a temporary holding a fresh callable of kind k
	auto with = [&](Kind k, auto &&use) {
		serial += 10;
		if (k == EMPTY)
			return use(F{});
		if constexpr (IsCallback) {
			if (k == PLAIN)
				return use(F{[n = serial]() mutable { side = int(++n); }});
			if (k == TRACK)
				return use(F{[t = Tracked{serial}]() mutable { t.check("called"); side = int(++t.n); }});
			return use(F{+[] { side = 77; }});
		} else {
			if (k == PLAIN)
				return use(F{[n = serial](int a, int b) mutable { return int(++n) + a - b; }});
			if (k == TRACK)
				return use(F{[t = Tracked{serial}](int a, int b) mutable { t.check("called"); return int(++t.n) + a - b; }});
			return use(F{&freefun});
		}
	};
	static const char *KN[] = {"none", "empty", "plain", "tracked", "function"};
	for (int d = 0; d < depth; d++) {
		int op = int(c.choose(4));
		int i = int(c.choose(std::min(NS, used + 1))); // unused slots are the same
		used = std::max(used, i + 1);
		auto &x = s[i];
		switch (op) {
			case 0: { // make, replacing whatever is there by destruction or assignment
				Kind k = Kind(1 + c.choose(4));
				bool assign = x.p && c.flip();
				c.log("slot %d %s a new %s callable", i, assign ? "is assigned" : "is made with", KN[k]);
				if (!assign) {
					delete x.p;
					x.p = nullptr;
					x.k = NONE;
				}
				with(k, [&](F &&f) {
					if (assign)
						*x.p = static_cast<F &&>(f);
					else
						x.p = new F(static_cast<F &&>(f));
				});
				x.k = k;
				x.n = serial;
				break;
			}
			case 1: { // copy from another (or the same) slot
				int o = int(c.choose(NS));
				if (!s[o].p || (o == i && !x.p))
					throw mc::Prune{};
				c.log("slot %d = slot %d%s", i, o, x.p ? " (assigned)" : " (constructed)");
				if (x.p) {
					F &from = *s[o].p;
					*x.p = from;
				} else
					x.p = new F(*static_cast<const F *>(s[o].p));
				if (s[o].k == TRACK)
					c.nontrivial();
				x.k = s[o].k;
				x.n = s[o].n;
				break;
			}
			case 2: { // call
				if (!x.p || x.k == EMPTY)
					throw mc::Prune{};
				int a = 1000 * (d + 1), b = d;
				int got;
				side = 0;
				if constexpr (IsCallback) {
					if (d & 1)
						(*x.p)();
					else
						x.p->call();
					got = side;
					a = b = 0;
				} else
					got = d & 1 ? (*x.p)(a, b) : x.p->call(a, b);
				int want = x.k == FUNPTR ? (IsCallback ? 77 : a * 3 + b) : int(++x.n) + a - b;
				c.log("slot %d called -> %d", i, got);
				MC_CHECK(got == want, "calling slot %d (%s) gave %d, expected %d", i, KN[x.k], got, want);
				break;
			}
			case 3:
				if (!x.p)
					throw mc::Prune{};
				c.log("slot %d destroyed", i);
				delete x.p;
				x.p = nullptr;
				x.k = NONE;
				break;
		}
		size_t want = 0;
		for (auto &y : s) {
			want += y.k == TRACK;
			if (y.p) {
				const F &k = *y.p;
				MC_CHECK(bool(k) == (y.k != EMPTY), "operator bool of a %s callable is %d", KN[y.k], bool(k));
			}
		}
		MC_CHECK(Tracked::bad == 0, "a capture was destroyed twice, or one that never existed");
		MC_CHECK(live.size() == want, "%zu captures are alive, expected %zu", live.size(), want);
	}
	for (auto &y : s) {
		delete y.p;
		y.p = nullptr;
	}
	MC_CHECK(Tracked::bad == 0 && live.empty(), "after destroying everything %zu captures are alive, %d were destroyed wrongly", live.size(), Tracked::bad);
}
// arguments and results pass through unchanged: values, references, moved objects
struct Arg {
	int v;
	const Arg *self = this;
	explicit Arg(int v)
		: v{v} {
	}
	Arg(const Arg &o)
		: v{o.v} {
		MC_CHECK(o.self == &o, "copied a broken argument");
	}
	~Arg() {
		self = nullptr;
	}
};
static void args(mc::Job &j) {
	j.note("args: integers of every width, references, pointers, objects and results pass through a call unchanged");
	j.sweep(0, 4 * 65536, [](uint64_t i) {
		int v = int(i % 65536) - 32768;
		int hits = 0, target = v;
		switch (i / 65536) {
			case 0: {
				FunctionSized<16, int &(int &, int)> f{[&hits](int &r, int a) -> int & {
					hits++;
					r += a;
					return r;
				}};
				int &r = f(target, 5);
				MC_CHECK(&r == &target && target == v + 5 && hits == 1, "reference argument or result lost");
				break;
			}
			case 1: {
				Arg a{v};
				FunctionSized<64, int(const Arg &, Arg, const int *, bool)> f{[&](const Arg &x, Arg y, const int *p, bool b) {
					hits++;
					MC_CHECK(&x == &a && &y != &a && y.self == &y && x.v == v && y.v == v && p == &target && b == (v & 1), "arguments arrived changed");
					return y.v;
				}};
				MC_CHECK(f.call(a, a, &target, v & 1) == v && hits == 1, "result lost");
				break;
			}
			case 2: {
				FunctionSized<8, void(int8_t, uint16_t, int64_t, float)> f{[&hits](int8_t a, uint16_t b, int64_t c, float d) {
					hits += a == int8_t(b) && c == int64_t(b) << 40 && d == float(b);
				}};
				f(int8_t(v), uint16_t(v), int64_t(uint16_t(v)) << 40, float(uint16_t(v)));
				MC_CHECK(hits == 1, "arguments arrived changed");
				break;
			}
			case 3: {
				struct Pair {
					int a, b;
				};
				auto o = overloaded{[](int x) { return x + 1; }, [](Pair p) { return p.a * 2 + p.b; }, [](const char *) { return -1; }};
				FunctionSized<16, int(int)> f{o};
				FunctionSized<16, int(Pair)> g{o};
				FunctionSized<16, int(const char *)> h{o};
				MC_CHECK(f(v) == v + 1 && g(Pair{v, 3}) == v * 2 + 3 && h("x") == -1, "wrong overload called");
			}
		}
		return v != 0;
	});
}
// captures of every alignment up to that of the largest scalar type, wherever the function object itself lies
template<class V>
struct Al {
	V v;
	void check(const char *what) const {
		MC_CHECK(uintptr_t(this) % alignof(Al) == 0, "a capture aligned to %zu was %s at an address that is a multiple of %zu only", alignof(Al), what, size_t(uintptr_t(this) & -uintptr_t(this)));
	}
	explicit Al(int x)
		: v(V(x)) {
		check("constructed");
	}
	Al(const Al &o)
		: v(o.v) {
		o.check("copied");
		check("constructed");
	}
	~Al() {
		bad += uintptr_t(this) % alignof(Al) != 0;
	}
	int operator()(int a) {
		check("called");
		return int(v) + a;
	}
	void operator()() {
		check("called");
		v = V(int(v) + 1);
		side = int(v);
	}
	static inline int bad = 0;
};
template<class V, unsigned Size>
static void place(int before) {
	using F = FunctionSized<Size, int(int)>;
	using C = CallbackSized<Size>;
	struct Chunk { // several in a row, behind other members
		char c;
		void *p;
		F f[3];
		C g[3];
	};
	Al<V>::bad = 0;
	{
		auto ch = std::make_unique<Chunk[]>(2);
		int i = before % 6, k = i % 3;
		auto &c = ch[i / 3];
		c.f[k] = F{Al<V>{before}};
		MC_CHECK(c.f[k](5) == before + 5, "a capture of size %zu has lost its value", sizeof(V));
		c.f[(k + 1) % 3] = c.f[k];
		F copy{c.f[(k + 1) % 3]}, *heap = new F(copy);
		MC_CHECK(copy(7) == before + 7 && (*heap)(9) == before + 9 && c.f[(k + 1) % 3](1) == before + 1, "a copied capture of size %zu has lost its value", sizeof(V));
		delete heap;
		c.g[k] = C{Al<V>{before}};
		c.g[k].call();
		MC_CHECK(side == before + 1, "a callback's capture of size %zu has lost its value", sizeof(V));
		C d{c.g[k]};
		d();
		MC_CHECK(side == before + 2, "a copied callback's capture of size %zu has lost its value", sizeof(V));
	}
	MC_CHECK(!Al<V>::bad, "a capture was destroyed at a misaligned address");
}
static void aligned(mc::Job &j) {
	j.note("aligned: captures of char to long double and 16-byte aligned structures in functions and callbacks of 16, 24, 32 and 40 bytes, at every place of arrays inside a structure");
	struct alignas(16) Quad {
		float f[4];
		explicit Quad(int x)
			: f{float(x)} {
		}
		operator int() const {
			return int(f[0]);
		}
	};
	j.sweep(0, 12, [](uint64_t i) {
		auto all = [&]<class V>(V *) {
			place<V, 16>(int(i)), place<V, 24>(int(i)), place<V, 32>(int(i)), place<V, 40>(int(i));
		};
		all((char *)0), all((short *)0), all((int *)0), all((double *)0), all((int64_t *)0), all((long double *)0), all((Quad *)0);
		return true;
	});
}
// callables of every kind: each has exactly one living copy per holder, and a call reaches the copy the holder owns
template<class Tag>
struct Counted { // empty
	static inline int live = 0, calls = 0;
	Counted() {
		live++;
	}
	Counted(const Counted &) {
		live++;
	}
	~Counted() {
		live--;
	}
	int operator()() {
		calls++;
		return 7;
	}
};
struct Tagged : Counted<int> { // empty as well, but what is called differs
	int operator()() const {
		calls++;
		return 8;
	}
};
struct Byte { // one byte of state that counts its calls, copies trivially, is destroyed by code
	static inline int dtor = 0;
	uint8_t n;
	~Byte() {
		dtor++;
	}
	int operator()() {
		return n++;
	}
};
struct Virt { // a polymorphic object in a base class
	virtual int get() = 0;
	virtual ~Virt() = default;
};
struct VirtA : Virt {
	static inline int live = 0;
	int n;
	explicit VirtA(int n)
		: n{n} {
		live++;
	}
	VirtA(const VirtA &o)
		: Virt{}
		, n{o.n} {
		live++;
	}
	~VirtA() override {
		live--;
	}
	int get() override {
		return 100 + n++;
	}
	int operator()() {
		return static_cast<Virt &>(*this).get();
	}
};
template<class F>
static void kinds(mc::Ctx &c, int depth) {
	enum { NONE, CNT, TAG, BYTE, VIRT, SHARED, FUN, LAMBDA, NK };
	struct Slot {
		int k = NONE, n = 0;
	} m[2];
	int live = Counted<int>::live, vlive = VirtA::live;
	auto sp = std::make_shared<int>(40);
	int reached = 0;
	{
		std::vector<F> s(2);
		for (int st = 0; st < depth; st++) {
			int op = c.choose(1 + 2 * (NK - 1) + 2 * 3 + 2);
			if (op == 0)
				break;
			op--;
			if (op < 2 * (NK - 1)) {
				int i = op % 2, k = op / 2 + 1;
				c.log("slot %d = a callable of kind %d", i, k);
				m[i] = {k, 0};
				switch (k) {
					case CNT: s[i] = F{Counted<int>{}}; break;
					case TAG: s[i] = F{Tagged{}}; break;
					case BYTE: s[i] = F{Byte{0}}; break;
					case VIRT: s[i] = F{VirtA{0}}; break;
					case SHARED: s[i] = F{[sp]() mutable { return *sp; }}; break;
					case FUN: s[i] = F{+[] { return 5; }}; break;
					case LAMBDA: s[i] = F{[&reached, n = 0]() mutable { reached++; return 200 + n++; }}; break;
				}
			} else if ((op -= 2 * (NK - 1)) < 6) {
				int i = op % 2;
				c.log("slot %d: %s", i, op / 2 == 0 ? "= other" : op / 2 == 1 ? "= itself" : "emptied");
				if (op / 2 == 0)
					s[i] = s[!i], m[i] = m[!i];
				else if (op / 2 == 1) {
					auto &self = s[i];
					s[i] = self;
				} else
					s[i] = F{}, m[i] = {};
			} else if ((op -= 6) == 0) {
				c.log("exchanged");
				std::swap(s[0], s[1]);
				std::swap(m[0], m[1]);
			} else {
				c.log("moved to a larger vector, called from there");
				s.reserve(s.capacity() + 1);
			}
			int n[NK] = {};
			for (int i = 0; i < 2; i++) {
				n[m[i].k]++;
				MC_CHECK(bool(s[i]) == (m[i].k != NONE), "slot %d says %sempty", i, m[i].k ? "" : "not ");
				int calls = Counted<int>::calls, was = reached;
				int r = m[i].k == NONE ? 0 : s[i](), w = 0;
				switch (m[i].k) {
					case CNT: w = 7; break;
					case TAG: w = 8; break;
					case BYTE: w = m[i].n++; break;
					case VIRT: w = 100 + m[i].n++; break;
					case SHARED: w = 40; break;
					case FUN: w = 5; break;
					case LAMBDA: w = 200 + m[i].n++; break;
				}
				MC_CHECK(r == w, "slot %d (kind %d) returned %d, expected %d", i, m[i].k, r, w);
				MC_CHECK(Counted<int>::calls - calls == (m[i].k == CNT || m[i].k == TAG) && reached - was == (m[i].k == LAMBDA), "the callable was not called exactly once");
			}
			MC_CHECK(Counted<int>::live - live == n[CNT] + n[TAG], "%d empty callables are alive, expected %d", Counted<int>::live - live, n[CNT] + n[TAG]);
			MC_CHECK(VirtA::live - vlive == n[VIRT], "%d polymorphic callables are alive, expected %d", VirtA::live - vlive, n[VIRT]);
			MC_CHECK(sp.use_count() == 1 + n[SHARED], "%ld owners of the shared capture, expected %d", sp.use_count(), 1 + n[SHARED]);
			c.nontrivial();
		}
	}
	MC_CHECK(Counted<int>::live == live && VirtA::live == vlive && sp.use_count() == 1, "callables left alive after their holders are gone");
}
template<class F>
static void regk(const char *n) {
	mc::Reg(n, [n](mc::Job &j) {
		int depth = j.tier(4, 5);
		j.note(mc::fmt("%s: every history of %d assignments, exchanges and relocations of two holders over seven kinds of callables (without members, one byte, polymorphic, shared owner, function pointer, stateful)", n, depth));
		j.explore({}, [=](mc::Ctx &c) { kinds<F>(c, depth); });
	});
}
template<class F, bool CB>
static void reg(const char *n) {
	mc::Reg(n, [n](mc::Job &j) {
		int depth = j.tier(5, 6);
		j.note(mc::fmt("%s: every history of %d constructions, assignments, copies, calls and destructions of three slots", n, depth));
		j.explore({}, [=](mc::Ctx &c) { history<F, CB>(c, depth); });
	});
}
static int init = [] {
	reg<Function<int(int, int)>, false>("function");
	reg<FunctionSized<40, int(int, int)>, false>("function-40");
	reg<Callback, true>("callback");
	reg<CallbackSized<24>, true>("callback-24");
	reg<CallbackSized<>, true>("callback-default");
	regk<Function<int()>>("kinds");
	regk<FunctionSized<48, int()>>("kinds-48");
	mc::Reg("args", args);
	mc::Reg("aligned", aligned);
	return 0;
}();
