// Bounded exhaustive exploration library used by every harness in /verif/h.
//
//   explore()  stateless depth-first enumeration of every choice sequence
//   bfs()      explicit-state breadth-first search over operation sequences (rebuild by replay)
//   sweep()    complete enumeration of an index range (pure functions)
//
// Every execution is described by a trace (a list of integers); the current trace is mirrored into a
// shared mapping so that the driver can replay an execution that crashed or hung the process.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define MC_POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define MC_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define MC_POISON(p, n) ((void)(p), (void)(n))
#define MC_UNPOISON(p, n) ((void)(p), (void)(n))
#endif

namespace mc
{
using Trace = std::vector<int64_t>;

struct Violation {
	std::string msg;
};
struct Prune {};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));

#define MC_CHECK(cond, ...)                                                                                            \
	do {                                                                                                               \
		if (!(cond)) [[unlikely]]                                                                                      \
			::mc::fail(__VA_ARGS__);                                                                                   \
	} while (0)

// 128-bit FNV/mix style hasher
struct Hash {
	uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
	void u64(uint64_t x) {
		a ^= x;
		a *= 0xff51afd7ed558ccdull;
		a ^= a >> 32;
		b += x * 0x9FB21C651E98DF25ull;
		b ^= b >> 29;
		b *= 0xBF58476D1CE4E5B9ull;
		b ^= a << 7;
	}
	void bytes(const void *p, size_t n) {
		auto *c = static_cast<const unsigned char *>(p);
		while (n >= 8) {
			uint64_t v;
			memcpy(&v, c, 8);
			u64(v);
			c += 8;
			n -= 8;
		}
		uint64_t v = n + 1;
		for (size_t i = 0; i < n; i++)
			v = (v << 8) | c[i];
		u64(v);
	}
	template<class T>
	void obj(const T &t) {
		bytes(&t, sizeof t);
	}
	void str(const std::string &s) {
		u64(s.size());
		bytes(s.data(), s.size());
	}
};
struct Key {
	uint64_t a, b;
	bool operator==(const Key &) const = default;
};
struct KeyHash {
	size_t operator()(const Key &k) const {
		return k.a ^ (k.b >> 1);
	}
};

struct Options {
	int depth = 0;			  // bfs: maximum number of operations
	uint64_t max_states = 3'000'000; // bfs: cap (reported)
	double time_s = 0;		  // cap (reported); 0: job default
	int max_dev = -1;		  // explore: maximum number of deviations (choices != 0 made through dev())
};

struct Job;

// Passed to the body of explore()
struct Ctx {
	Job *job = nullptr;
	const Trace *prefix = nullptr;
	Trace taken;
	std::vector<int> widths;
	std::vector<bool> isdev;
	int devs = 0;
	int max_dev = -1;
	bool nontriv = false;
	bool tracing = false;
	std::string text;
	int64_t choose(int64_t n);		// any of 0..n-1
	int64_t dev(int64_t n);			// as choose, but a non-zero answer counts as a deviation
	bool flip() {
		return choose(2);
	}
	void nontrivial() {
		nontriv = true;
	}
	void log(const char *f, ...) __attribute__((format(printf, 2, 3)));
	// explicit-state pruning: remaining = bound on further behaviour from here
	void visit(const Hash &h, int remaining);
};

struct Job {
	std::string name;
	bool quick = true;		 // VERIF_TIER
	bool replaying = false;
	Trace replay;
	double time_cap = 200;

	uint64_t evaluations = 0, distinct = 0, states = 0, transitions = 0, traces = 0;
	bool exhaustive = true;
	std::vector<std::string> notes, samples;
	std::map<std::string, uint64_t> extra;
	std::unordered_set<uint64_t> outcomes;
	std::unordered_map<Key, int, KeyHash> visited;

	template<class T>
	T tier(T q, T t) const {
		return quick ? q : t;
	}
	void note(const std::string &s) {
		notes.push_back(s);
	}
	void outcome(uint64_t h) {
		if (outcomes.size() < 1'000'000)
			outcomes.insert(h);
	}
	void sample(const std::string &s) {
		if (samples.size() < 3)
			samples.push_back(s);
	}

	void explore(const Options &o, const std::function<void(Ctx &)> &body);

	// body(i) -> bool nontrivial; trace = {i}
	template<class F>
	void sweep(uint64_t lo, uint64_t hi, F &&body);

	template<class Sys>
	void bfs(const Options &o, const std::function<std::unique_ptr<Sys>()> &make);

	// internals
	void begin_exec();
	void set_trace(const int64_t *v, size_t n);
	void push_trace(int64_t v);
	void record_violation(const Trace &t, const std::string &msg, const std::string &text);
	bool out_of_time(double cap);
	std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
	bool violated = false;
	Trace vtrace;
	std::string vmsg, vtext;
};

struct Shared {
	uint64_t progress;
	uint64_t n;
	int64_t v[8192];
};
extern Shared *g_shared;
inline void tick() { // inside one long execution: still making progress
	g_shared->progress++;
}

template<class F>
void Job::sweep(uint64_t lo, uint64_t hi, F &&body) {
	if (replaying) {
		for (auto v : replay)
			if (uint64_t(v) >= lo && uint64_t(v) < hi) {
				try {
					body(uint64_t(v));
				} catch (Violation &e) {
					record_violation({v}, e.msg, "");
				}
			}
		return;
	}
	g_shared->n = 1;
	uint64_t i = lo;
	try {
		uint64_t nt = 0;
		for (; i < hi; i++) {
			g_shared->v[0] = int64_t(i);
			g_shared->progress++;
			nt += body(i) ? 1 : 0;
		}
		distinct += nt;
		evaluations += hi - lo;
		if (samples.empty())
			sample(fmt("cases %llu to %llu, %llu of them non-trivial", (unsigned long long)lo, (unsigned long long)(hi - 1), (unsigned long long)nt));
		traces += hi - lo;
	} catch (Violation &e) {
		evaluations += i - lo + 1;
		record_violation({int64_t(i)}, e.msg, "");
	}
}

template<class Sys>
void Job::bfs(const Options &o, const std::function<std::unique_ptr<Sys>()> &make) {
	if (replaying) {
		std::string text;
		auto s = make();
		try {
			for (auto op : replay) {
				text += s->opname(int(op)) + "; ";
				if (!s->apply(int(op))) {
					text += "(disabled) ";
				}
			}
		} catch (Violation &e) {
			record_violation(replay, e.msg, text);
		}
		return;
	}
	struct Node {
		int32_t parent;
		int32_t op;
	};
	std::vector<Node> nodes;
	std::unordered_set<Key, KeyHash> seen;
	std::vector<int32_t> frontier, next;
	auto path_of = [&](int32_t n) {
		std::vector<int64_t> p;
		while (n > 0) {
			p.push_back(nodes[n].op);
			n = nodes[n].parent;
		}
		return std::vector<int64_t>(p.rbegin(), p.rend());
	};
	auto keyof = [&](Sys &s) {
		Hash h;
		s.key(h);
		return Key{h.a, h.b};
	};
	int nops;
	{
		auto s = make();
		nops = s->nops();
		nodes.push_back({-1, -1});
		seen.insert(keyof(*s));
		frontier.push_back(0);
	}
	states += 1;
	int done_depth = 0;
	bool stop = false;
	for (int d = 0; d < o.depth && !frontier.empty() && !stop; d++) {
		next.clear();
		for (auto n : frontier) {
			auto path = path_of(n);
			for (int op = 0; op < nops; op++) {
				set_trace(path.data(), path.size());
				begin_exec();
				auto s = make();
				for (auto p : path)
					s->apply(int(p));
				push_trace(op);
				bool ok;
				try {
					ok = s->apply(op);
				} catch (Violation &e) {
					auto t = path;
					t.push_back(op);
					std::string text;
					for (auto x : t)
						text += s->opname(int(x)) + "; ";
					record_violation(t, e.msg, text);
					return;
				}
				if (!ok)
					continue;
				transitions++;
				traces++;
				Key k = keyof(*s);
				if (seen.insert(k).second) {
					states++;
					nodes.push_back({n, op});
					next.push_back(int32_t(nodes.size() - 1));
					if (samples.size() < 3 && d >= o.depth / 2) {
						std::string text;
						for (auto x : path)
							text += s->opname(int(x)) + "; ";
						sample(text + s->opname(op));
					}
				}
			}
			if (states > o.max_states || out_of_time(o.time_s)) {
				stop = true;
				break;
			}
		}
		if (!stop)
			done_depth = d + 1;
		frontier.swap(next);
	}
	if (stop) {
		exhaustive = false;
		note(fmt("%s: capped (states/time); every sequence of up to %d operations fully covered", name.c_str(), done_depth));
	} else if (frontier.empty())
		note(fmt("%s: reachable state space closed after %d operations (complete)", name.c_str(), done_depth));
	else
		note(fmt("%s: every operation sequence up to depth %d", name.c_str(), done_depth));
	evaluations = transitions;
	distinct = states;
}

// registration -------------------------------------------------------------------------------------------------
struct Reg {
	Reg(const char *name, std::function<void(Job &)> f, int tiers = 3 /*1 quick, 2 thorough*/);
	Reg(const std::string &name, std::function<void(Job &)> f, int tiers = 3)
		: Reg(name.c_str(), std::move(f), tiers) {
	}
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_JOB(name, ...) static ::mc::Reg MC_CAT(mc_reg_, __COUNTER__)(name, __VA_ARGS__)

// run independent shards 0..n-1 of one job as separate processes
inline void shards(const std::string &name, int n, std::function<void(Job &, int, int)> f, int tiers = 3) {
	for (int i = 0; i < n; i++)
		Reg(fmt("%s.%d", name.c_str(), i), [=](Job &j) { f(j, i, n); }, tiers);
}

// A default-initialised object of type T living at a fixed place whose bytes were first filled with `pat`
// n elements ending exactly where their allocation ends, so an access past the end is seen even if n is 0
template<class T>
struct Exact {
	std::unique_ptr<T[]> mem;
	T *p;
	size_t n;
	explicit Exact(size_t n)
		: mem{new T[n + 16]()}
		, p{&mem[15] + 1}
		, n{n} {
	}
	T *get() const {
		return p;
	}
	T &operator[](size_t i) const {
		return p[i];
	}
	T *begin() const {
		return p;
	}
	T *end() const {
		return p + n;
	}
};
template<class T>
struct Arena {
	// the object sits between two unaddressable zones (under AddressSanitizer), so an access outside it is seen
	alignas(alignof(T) > 16 ? alignof(T) : 16) unsigned char before[alignof(T) > 32 ? alignof(T) : 32];
	alignas(alignof(T) > 16 ? alignof(T) : 16) unsigned char mem[sizeof(T)];
	unsigned char after[32];
	bool live = false;
	Arena() {
		MC_POISON(before, sizeof before);
		MC_POISON(after, sizeof after);
	}
	Arena(const Arena &) = delete;
	Arena &operator=(const Arena &) = delete;
	template<class... A>
	T &make(int pat, A &&...args) {
		reset();
		memset(mem, pat, sizeof mem);
		T *p;
		if constexpr (sizeof...(A) == 0)
			p = new (mem) T;
		else
			p = new (mem) T(std::forward<A>(args)...);
		live = true;
		return *p;
	}
	T &get() {
		return *reinterpret_cast<T *>(mem);
	}
	void reset() {
		if (live) {
			get().~T();
			live = false;
		}
	}
	~Arena() {
		MC_UNPOISON(before, sizeof before);
		MC_UNPOISON(after, sizeof after);
		reset();
	}
};
} // namespace mc
