#include "conc.hh"
#include <array>
#include <malloc.h>
#include <new>
#include <sys/mman.h>

namespace conc
{
using namespace mc;
static constexpr int MAXT = 4;
static constexpr int MAXLOC = 64;

using VC = std::array<uint32_t, MAXT>;
static void join(VC &a, const VC &b) {
	for (int i = 0; i < MAXT; i++)
		if (b[i] > a[i])
			a[i] = b[i];
}
using View = std::array<uint16_t, MAXLOC>; // per location: minimum index in modification order that may be read
static void join(View &a, const View &b) {
	for (int i = 0; i < MAXLOC; i++)
		if (b[i] > a[i])
			a[i] = b[i];
}
struct State {
	VC vc{};
	View view{};
};
static void join(State &a, const State &b) {
	join(a.vc, b.vc);
	join(a.view, b.view);
}
struct Msg {
	unsigned __int128 val;
	bool has_rel = false;
	State rel; // what an acquiring reader learns
};
struct Loc {
	uintptr_t addr;
	std::vector<Msg> hist;
};

enum Kind { K_NONE, K_LOAD, K_STORE, K_RMW, K_FENCE, K_GHOST };
struct Op {
	Kind kind = K_NONE;
	int loc = -1;
	bool sc = false;
	bool write() const {
		return kind == K_STORE || kind == K_RMW || kind == K_GHOST;
	}
};
static bool dependent(const Op &a, const Op &b) {
	if (a.sc && b.sc) {
		if (a.kind == K_FENCE || b.kind == K_FENCE)
			return true;
		if (a.write() || b.write())
			return true;
	}
	if (a.loc >= 0 && a.loc == b.loc)
		return a.write() || b.write();
	return false;
}

struct Fiber {
	char *stack = nullptr;
	void *sp = nullptr;
	bool done = false;
	Op pending;
	State cur;	   // what the thread has synchronised with / may read
	State acq;	   // pending for acquire fences
	State relf;	   // view published by relaxed stores after a release fence
	bool has_relf = false;
	uint64_t hash = 0;
};

struct ShadowCell {
	uintptr_t addr;
	uint32_t gen;
	int8_t wtid;
	uint32_t wclk;
	std::array<uint32_t, MAXT> r;
};

struct Engine {
	Job *job;
	Ctx *ctx;
	Opts opts;
	Program *prog;
	int n = 0;
	Fiber f[MAXT];
	int cur = -1; // running fiber
	void *main_sp = nullptr;
	std::vector<Loc> locs;
	State sc;
	bool violated = false;
	std::string vmsg;
	uint64_t steps = 0;
	uint64_t obs = 0;
};
static Engine E;
static constexpr size_t STACK = 128 * 1024;
static constexpr size_t SHN = 1 << 15;
static ShadowCell g_shadow[SHN];
static uint32_t g_gen = 1;
static bool g_live = false; // not before the first execution: the engine's own state is not initialised during static initialisation

extern "C" void conc_switch(void **save, void *to);
asm(R"(
.text
.globl conc_switch
.type conc_switch,@function
conc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size conc_switch,.-conc_switch
.section .note.GNU-stack,"",@progbits
.text
)");

static int g_in = 0; // >0 while engine code runs on a fiber (its own accesses are not checked)
struct InEngine {
	InEngine() {
		g_in++;
	}
	~InEngine() {
		g_in--;
	}
};
static void to_main() {
	int me = E.cur;
	int saved = g_in;
	E.cur = -1;
	g_in = 0;
	conc_switch(&E.f[me].sp, E.main_sp);
	g_in = saved;
}
static void set_violation(const std::string &m) {
	if (!E.violated) {
		E.violated = true;
		E.vmsg = m;
	}
}
static int g_starting = -1;
static void fiber_entry() {
	int me = g_starting;
	try {
		E.prog->thread(me);
	} catch (Violation &v) {
		InEngine guard;
		set_violation(v.msg);
	} catch (...) {
		set_violation("unexpected exception in a thread body");
	}
	E.f[me].done = true;
	E.f[me].pending = Op{};
	for (;;)
		to_main();
}
static void resume(int t) {
	g_in = 0;
	E.cur = t;
	g_starting = t;
	conc_switch(&E.main_sp, E.f[t].sp);
	E.cur = -1;
}

static int find_loc(uintptr_t a, unsigned __int128 initial) {
	for (size_t i = 0; i < E.locs.size(); i++)
		if (E.locs[i].addr == a)
			return int(i);
	if (E.locs.size() >= MAXLOC) {
		fprintf(stderr, "conc: too many atomic locations\n");
		_Exit(4);
	}
	E.locs.push_back({a, {}});
	E.locs.back().hist.push_back({initial, false, {}});
	return int(E.locs.size() - 1);
}

// ---- plain accesses -------------------------------------------------------------------------------------------
static bool on_fiber_stack(uintptr_t a) {
	auto lo = uintptr_t(E.f[E.cur].stack);
	return a >= lo && a < lo + STACK;
}
static void plain(uintptr_t a, size_t n, bool w) {
	if (!g_live || E.cur < 0 || g_in || E.violated)
		return;
	InEngine guard;
	if (on_fiber_stack(a))
		return;
	int t = E.cur;
	auto &vc = E.f[t].cur.vc;
	for (size_t i = 0; i < n; i++) {
		uintptr_t x = a + i;
		size_t h = (x * 0x9E3779B97F4A7C15ull) >> 49; // 15 bits
		ShadowCell *c;
		size_t probes = 0;
		for (;;) {
			c = &g_shadow[h & (SHN - 1)];
			if (c->gen != g_gen) {
				*c = ShadowCell{x, g_gen, -1, 0, {}};
				break;
			}
			if (c->addr == x)
				break;
			h++;
			if (++probes > SHN - 2) {
				fprintf(stderr, "conc: shadow table full\n");
				_Exit(4);
			}
		}
		bool race = false;
		if (c->wtid >= 0 && c->wtid != t && c->wclk > vc[c->wtid])
			race = true;
		if (w)
			for (int u = 0; u < E.n; u++)
				if (u != t && c->r[u] > vc[u])
					race = true;
		if (race) {
			set_violation(fmt("data race: thread %d %s a byte of shared memory unordered with a conflicting access of another thread",
							  t, w ? "writes" : "reads"));
			return;
		}
		if (w) {
			c->wtid = int8_t(t);
			c->wclk = vc[t];
		} else
			c->r[t] = vc[t];
	}
}
static void clear_range(uintptr_t a, size_t n) {
	if (!g_live || E.cur < 0 || g_in)
		return;
	InEngine guard;
	for (size_t i = 0; i < SHN; i++)
		if (g_shadow[i].gen == g_gen && g_shadow[i].addr >= a && g_shadow[i].addr < a + n) {
			g_shadow[i].wtid = -1;
			g_shadow[i].r = {};
		}
}

// ---- atomics --------------------------------------------------------------------------------------------------
static bool is_acq(int mo) {
	return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
static bool is_rel(int mo) {
	return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
static void point(Kind k, int loc, bool sc) {
	E.f[E.cur].pending = Op{k, loc, sc};
	to_main(); // the scheduler decides when this operation executes
}
static void mixhash(Fiber &f, uint64_t x) {
	f.hash = (f.hash ^ x) * 0x9E3779B97F4A7C15ull;
	f.hash ^= f.hash >> 31;
}
static const char *moname(int mo) {
	switch (mo) {
		case __ATOMIC_RELAXED: return "rlx";
		case __ATOMIC_CONSUME: return "con";
		case __ATOMIC_ACQUIRE: return "acq";
		case __ATOMIC_RELEASE: return "rel";
		case __ATOMIC_ACQ_REL: return "acq_rel";
		default: return "sc";
	}
}

static Msg &do_load(int l, int mo, bool latest_only, const std::function<bool(const Msg &)> *only = nullptr) {
	auto &f = E.f[E.cur];
	auto &L = E.locs[l];
	int hi = int(L.hist.size()) - 1;
	int lo = f.cur.view[l];
	if (mo == __ATOMIC_SEQ_CST)
		lo = std::max<int>(lo, E.sc.view[l]);
	if (latest_only || !E.opts.stale)
		lo = hi;
	int idx = hi;
	if (lo < hi) {
		// choice 0 = newest
		std::vector<int> cand;
		for (int i = hi; i >= lo; i--)
			if (!only || i == hi || (*only)(L.hist[i]))
				cand.push_back(i);
		idx = cand[E.ctx->choose(int64_t(cand.size()))];
	}
	auto &m = L.hist[idx];
	f.cur.view[l] = std::max<uint16_t>(f.cur.view[l], uint16_t(idx));
	if (m.has_rel) {
		if (is_acq(mo))
			join(f.cur, m.rel);
		join(f.acq, m.rel);
	}
	mixhash(f, uint64_t(idx) * 64 + l + 1);
	return m;
}
static void do_store(int l, unsigned __int128 v, int mo, const Msg *rmw_from) {
	auto &f = E.f[E.cur];
	auto &L = E.locs[l];
	if (L.hist.size() >= 60000) {
		fprintf(stderr, "conc: history overflow\n");
		_Exit(4);
	}
	Msg m;
	m.val = v;
	uint16_t idx = uint16_t(L.hist.size());
	f.cur.view[l] = idx;
	if (is_rel(mo)) {
		m.has_rel = true;
		m.rel = f.cur;
	} else if (f.has_relf) {
		m.has_rel = true;
		m.rel = f.relf;
		m.rel.view[l] = idx;
	}
	if (rmw_from && rmw_from->has_rel) { // release sequence
		if (!m.has_rel) {
			m.has_rel = true;
			m.rel = State{};
		}
		join(m.rel, rmw_from->rel);
	}
	if (mo == __ATOMIC_SEQ_CST)
		E.sc.view[l] = idx;
	L.hist.push_back(m);
	f.cur.vc[E.cur]++; // later accesses are not covered by this release
	mixhash(f, 0x1000 + uint64_t(v) * 64 + l);
}

template<class T>
static unsigned __int128 rd(volatile const T *a) {
	return (unsigned __int128)*a;
}

template<class T>
static T a_load(const volatile T *a, int mo) {
	if (E.cur < 0)
		return *a;
	InEngine guard;
	int l = find_loc(uintptr_t(a), rd(a));
	point(K_LOAD, l, mo == __ATOMIC_SEQ_CST);
	T v = T(do_load(l, mo, false).val);
	if (E.ctx->tracing)
		E.ctx->log("T%d L%d.load(%s)=%llu", E.cur, l, moname(mo), (unsigned long long)v);
	return v;
}
template<class T>
static void a_store(volatile T *a, T v, int mo) {
	if (E.cur < 0) {
		*a = v;
		return;
	}
	InEngine guard;
	int l = find_loc(uintptr_t(a), rd(a));
	point(K_STORE, l, mo == __ATOMIC_SEQ_CST);
	do_store(l, (unsigned __int128)v, mo, nullptr);
	*a = v;
	if (E.ctx->tracing)
		E.ctx->log("T%d L%d.store(%s,%llu)", E.cur, l, moname(mo), (unsigned long long)v);
}
template<class T, class F>
static T a_rmw(volatile T *a, int mo, F fn) {
	if (E.cur < 0) {
		T old = *a;
		*a = fn(old);
		return old;
	}
	InEngine guard;
	int l = find_loc(uintptr_t(a), rd(a));
	point(K_RMW, l, mo == __ATOMIC_SEQ_CST);
	Msg from = do_load(l, mo, true);
	T old = T(from.val);
	T nv = fn(old);
	do_store(l, (unsigned __int128)nv, mo, &from);
	*a = nv;
	if (E.ctx->tracing)
		E.ctx->log("T%d L%d.rmw(%s)%llu->%llu", E.cur, l, moname(mo), (unsigned long long)old, (unsigned long long)nv);
	return old;
}
template<class T>
static bool a_cas(volatile T *a, T *expected, T desired, int mo, int fmo, bool weak) {
	if (E.cur < 0) {
		if (*a == *expected) {
			*a = desired;
			return true;
		}
		*expected = *a;
		return false;
	}
	InEngine guard;
	int l = find_loc(uintptr_t(a), rd(a));
	point(K_RMW, l, mo == __ATOMIC_SEQ_CST || fmo == __ATOMIC_SEQ_CST);
	T exp = *expected;
	// success requires the newest value; failure is a load that returned something else
	auto &L = E.locs[l];
	bool newest_matches = T(L.hist.back().val) == exp;
	if (newest_matches && weak && E.ctx->dev(2)) {
		if (E.ctx->tracing)
			E.ctx->log("T%d L%d.cas_weak spurious failure", E.cur, l);
		return false;
	}
	std::function<bool(const Msg &)> differs = [&](const Msg &m) { return T(m.val) != exp; };
	// candidates: newest (success or failure), or any older readable message that differs from expected
	int before_view = E.f[E.cur].cur.view[l];
	(void)before_view;
	// peek the choice with failure ordering first: an older message can only mean failure
	auto &f = E.f[E.cur];
	int hi = int(L.hist.size()) - 1;
	int lo = f.cur.view[l];
	if (fmo == __ATOMIC_SEQ_CST || mo == __ATOMIC_SEQ_CST)
		lo = std::max<int>(lo, E.sc.view[l]);
	if (!E.opts.stale)
		lo = hi;
	std::vector<int> cand{hi};
	for (int i = hi - 1; i >= lo; i--)
		if (differs(L.hist[i]))
			cand.push_back(i);
	int idx = cand[E.ctx->choose(int64_t(cand.size()))];
	bool success = idx == hi && newest_matches;
	Msg m = L.hist[idx];
	int lmo = success ? mo : fmo;
	f.cur.view[l] = std::max<uint16_t>(f.cur.view[l], uint16_t(idx));
	if (m.has_rel) {
		if (is_acq(lmo))
			join(f.cur, m.rel);
		join(f.acq, m.rel);
	}
	mixhash(f, uint64_t(idx) * 64 + l + 1);
	if (success) {
		do_store(l, (unsigned __int128)desired, mo, &m);
		*a = desired;
	} else
		*expected = T(m.val);
	if (E.ctx->tracing)
		E.ctx->log("T%d L%d.cas(%llu->%llu)%s", E.cur, l, (unsigned long long)exp, (unsigned long long)desired,
				   success ? "ok" : fmt("fail(saw %llu)", (unsigned long long)T(m.val)).c_str());
	return success;
}
static void a_fence(int mo) {
	if (E.cur < 0)
		return;
	InEngine guard;
	point(K_FENCE, -1, mo == __ATOMIC_SEQ_CST);
	auto &f = E.f[E.cur];
	if (is_acq(mo))
		join(f.cur, f.acq);
	if (mo == __ATOMIC_SEQ_CST) {
		join(f.cur.view, E.sc.view);
		join(E.sc.view, f.cur.view);
	}
	if (is_rel(mo)) {
		f.relf = f.cur;
		f.has_relf = true;
		f.cur.vc[E.cur]++;
	}
	if (E.ctx->tracing)
		E.ctx->log("T%d fence(%s)", E.cur, moname(mo));
}

void observe(uint64_t v) {
	E.obs = (E.obs ^ (v + 0x51ed27)) * 0x9E3779B97F4A7C15ull;
	E.obs ^= E.obs >> 29;
}
void ghost(int id) {
	if (E.cur < 0)
		return;
	InEngine guard;
	int l = find_loc(uintptr_t(id) + 1, 0);
	point(K_GHOST, l, false);
}
unsigned stamp() {
	return E.cur < 0 ? 0 : unsigned(E.f[E.cur].cur.vc[E.cur]);
}
bool knows(int t, unsigned stamp) {
	return E.cur < 0 || E.f[E.cur].cur.vc[t] >= stamp;
}
void log(const char *f, ...) {
	if (!E.ctx || !E.ctx->tracing)
		return;
	InEngine guard;
	char buf[512];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	if (E.cur >= 0)
		E.ctx->log("T%d: %s", E.cur, buf);
	else
		E.ctx->log("main: %s", buf);
}

static void run_one(Ctx &c, const std::function<std::unique_ptr<Program>()> &make) {
	E.ctx = &c;
	E.cur = -1;
	E.locs.clear();
	E.sc = State{};
	E.violated = false;
	E.vmsg.clear();
	E.obs = 0;
	g_live = true;
	g_gen++;
	if (g_gen == 0) {
		memset((void *)g_shadow, 0, sizeof g_shadow);
		g_gen = 1;
	}
	auto p = make();
	E.prog = p.get();
	E.n = p->threads();
	for (int t = 0; t < E.n; t++) {
		auto &f = E.f[t];
		if (!f.stack) {
			f.stack = static_cast<char *>(mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE,
											   MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
			mprotect(f.stack, 4096, PROT_NONE);
			f.stack += 4096;
		}
		char *st = f.stack;
		f.done = false;
		f.pending = Op{};
		f.cur = State{};
		f.cur.vc[t] = 1;
		f.acq = State{};
		f.relf = State{};
		f.has_relf = false;
		f.hash = uint64_t(t) + 1;
		auto *sp = reinterpret_cast<void **>(st + STACK - 64);
		*--sp = nullptr; // alignment / return address of entry
		*--sp = reinterpret_cast<void *>(&fiber_entry);
		for (int i = 0; i < 6; i++)
			*--sp = nullptr;
		f.sp = sp;
	}
	// run every thread up to its first atomic operation
	for (int t = 0; t < E.n && !E.violated; t++)
		resume(t);
	unsigned sleep = 0;
	int last = -1, preempts = 0;
	uint64_t nsteps = 0;
	while (!E.violated) {
		std::vector<int> en;
		for (int t = 0; t < E.n; t++)
			if (!E.f[t].done)
				en.push_back(t);
		if (en.empty())
			break;
		if (E.opts.preemptions >= 0) {
			if (last >= 0 && !E.f[last].done) {
				if (preempts >= E.opts.preemptions)
					en = {last};
				else {
					std::vector<int> o{last};
					for (int t : en)
						if (t != last)
							o.push_back(t);
					en = o;
				}
			}
		}
		std::vector<int> cand;
		for (int t : en)
			if (!(sleep >> t & 1))
				cand.push_back(t);
		if (cand.empty())
			throw Prune{};
		int k = int(c.choose(int64_t(cand.size())));
		int t = cand[k];
		if (E.opts.preemptions >= 0) {
			if (last >= 0 && t != last && !E.f[last].done)
				preempts++;
			last = t;
		} else if (E.opts.sleep_sets) {
			for (int i = 0; i < k; i++)
				sleep |= 1u << cand[i];
			unsigned ns = 0;
			for (int u = 0; u < E.n; u++)
				if ((sleep >> u & 1) && !dependent(E.f[u].pending, E.f[t].pending))
					ns |= 1u << u;
			sleep = ns & ~(1u << t);
		}
		E.steps++;
		resume(t);
		// distinct global states (control + observed values of each thread)
		Hash h;
		for (int u = 0; u < E.n; u++) {
			h.u64(E.f[u].hash);
			h.u64(E.f[u].pending.kind * 100 + E.f[u].pending.loc + (E.f[u].done ? 7777 : 0));
		}
		if (!(c.prefix && c.taken.size() < c.prefix->size()) && c.job->visited.size() < 4'000'000) {
			if (c.job->visited.emplace(Key{h.a, h.b}, 0).second)
				c.job->states++;
		}
		if (int(++nsteps) > E.opts.horizon) {
			c.job->extra["horizon_reached"]++;
			throw Prune{};
		}
	}
	if (!E.violated) {
		c.nontrivial();
		try {
			p->finish();
		} catch (Violation &v) {
			set_violation(v.msg);
		}
		c.job->outcome(E.obs);
		if (c.tracing)
			c.log("end");
	}
	if (E.violated)
		throw Violation{E.vmsg};
}

void explore(Job &job, const Opts &o, const std::function<std::unique_ptr<Program>()> &make) {
	E.job = &job;
	E.opts = o;
	Options mo;
	mo.max_dev = o.max_dev;
	job.explore(mo, [&](Ctx &c) { run_one(c, make); });
	if (job.exhaustive)
		job.note(job.name + (o.preemptions >= 0 ? fmt(": all schedules with at most %d preemptions", o.preemptions) :
												  ": all schedules and all reads-from choices (sleep-set reduced)"));
}
} // namespace conc

// ---- the interface gcc's -fsanitize=thread instrumentation calls ------------------------------------------------
using namespace conc;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { plain(uintptr_t(p), 8, true); }
void __tsan_vptr_read(void **p) { plain(uintptr_t(p), 8, false); }
#define RW(n)                                                                                                          \
	void __tsan_read##n(void *p) { plain(uintptr_t(p), n, false); }                                                    \
	void __tsan_write##n(void *p) { plain(uintptr_t(p), n, true); }                                                    \
	void __tsan_unaligned_read##n(void *p) { plain(uintptr_t(p), n, false); }                                          \
	void __tsan_unaligned_write##n(void *p) { plain(uintptr_t(p), n, true); }                                          \
	void __tsan_volatile_read##n(void *p) { plain(uintptr_t(p), n, false); }                                           \
	void __tsan_volatile_write##n(void *p) { plain(uintptr_t(p), n, true); }                                           \
	void __tsan_unaligned_volatile_read##n(void *p) { plain(uintptr_t(p), n, false); }                                 \
	void __tsan_unaligned_volatile_write##n(void *p) { plain(uintptr_t(p), n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { plain(uintptr_t(p), n, false); }
void __tsan_write_range(void *p, size_t n) { plain(uintptr_t(p), n, true); }

#define AT(bits, T)                                                                                                    \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { return a_load<T>(a, mo); }                             \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { a_store<T>(a, v, mo); }                             \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                                     \
		return a_rmw<T>(a, mo, [v](T) { return v; });                                                                  \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) {                                                    \
		return a_rmw<T>(a, mo, [v](T o) { return T(o + v); });                                                         \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) {                                                    \
		return a_rmw<T>(a, mo, [v](T o) { return T(o - v); });                                                         \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) {                                                    \
		return a_rmw<T>(a, mo, [v](T o) { return T(o & v); });                                                         \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) {                                                     \
		return a_rmw<T>(a, mo, [v](T o) { return T(o | v); });                                                         \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) {                                                    \
		return a_rmw<T>(a, mo, [v](T o) { return T(o ^ v); });                                                         \
	}                                                                                                                  \
	T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) {                                                   \
		return a_rmw<T>(a, mo, [v](T o) { return T(~(o & v)); });                                                      \
	}                                                                                                                  \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T d, int mo, int fmo) {                     \
		return a_cas<T>(a, e, d, mo, fmo, false);                                                                      \
	}                                                                                                                  \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T d, int mo, int fmo) {                       \
		return a_cas<T>(a, e, d, mo, fmo, true);                                                                       \
	}                                                                                                                  \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T d, int mo, int fmo) {                           \
		a_cas<T>(a, &e, d, mo, fmo, false);                                                                            \
		return e;                                                                                                      \
	}
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
	if (E.cur >= 0) {
		plain(uintptr_t(s), n, false);
		plain(uintptr_t(d), n, true);
	}
	return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
	if (E.cur >= 0) {
		plain(uintptr_t(s), n, false);
		plain(uintptr_t(d), n, true);
	}
	return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int v, size_t n) {
	if (E.cur >= 0)
		plain(uintptr_t(d), n, true);
	return __real_memset(d, v, n);
}
}
void operator delete(void *p) noexcept {
	if (p && E.cur >= 0)
		clear_range(uintptr_t(p), malloc_usable_size(p));
	free(p);
}
void operator delete(void *p, size_t) noexcept {
	operator delete(p);
}
