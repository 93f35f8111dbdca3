// C44: the memory test on simulated faulty memory.  Compiled with -fsanitize=thread but linked to the callbacks
// below, which see every access the real code makes and replace what it reads by what the faulty memory holds.
#include "mc.hh"
#include <algorithm>
#include <sys/mman.h>
#include "util/mem_test.hh"

#define RAW __attribute__((no_sanitize("thread"), noinline))

struct Sim {
	uint32_t *lo = nullptr, *hi = nullptr;			 // watched words, guards included
	uint32_t *start = nullptr, *stop = nullptr;		 // range under test
	uint32_t *phys = nullptr, *written = nullptr;	 // real contents; last value written to each address
	unsigned char *st = nullptr;					 // per word: 1 written, 2 read since
	bool on = false;
	long pending = -1;
	int mismatch = 0, outside = 0, odd = 0, unwritten = 0;
	// faults
	int kind = 0;
	uint32_t w = 0, w2 = 0, bit = 0, v = 0;
};
static Sim S;
RAW static uint32_t where(uint32_t i) { // address decoding
	switch (S.kind) {
		case 2: return S.v ? i | (1u << S.bit) : i & ~(1u << S.bit); // address line stuck
		case 3: return i == S.w ? S.w2 : i;							// two addresses, one word
		case 4: {													// two address lines joined
			uint32_t a = (i >> S.w) & 1, b = (i >> S.w2) & 1, x = S.v ? a | b : a & b;
			return (i & ~(1u << S.w) & ~(1u << S.w2)) | x << S.w | x << S.w2;
		}
	}
	return i;
}
RAW static void flush() {
	if (S.pending < 0)
		return;
	uint32_t i = uint32_t(S.pending);
	S.pending = -1;
	uint32_t val = S.start[i];
	S.written[i] = val;
	S.st[i] = 1;
	if (S.kind == 6 && i == S.w) // write lost
		return;
	S.phys[where(i)] = val;
	if (S.kind == 5 && i == S.w) { // disturbs another word
		uint32_t m = 1u << S.bit;
		S.phys[S.w2] = S.v == 0 ? S.phys[S.w2] & ~m : S.v == 1 ? S.phys[S.w2] | m : S.phys[S.w2] ^ m;
	}
}
RAW static void on_access(void *p, int size, bool write) {
	if (!S.on || p < S.lo || p >= S.hi)
		return;
	flush();
	if (p < S.start || p >= S.stop) {
		S.outside++;
		return;
	}
	if (size != 4 || (uintptr_t(p) & 3)) {
		S.odd++;
		return;
	}
	uint32_t i = uint32_t(static_cast<uint32_t *>(p) - S.start);
	if (write) {
		S.pending = i;
		return;
	}
	uint32_t val = S.phys[where(i)];
	if (S.kind == 1 && where(i) == S.w)
		val = S.v ? val | (1u << S.bit) : val & ~(1u << S.bit);
	S.start[i] = val;
	if (!(S.st[i] & 1)) {
		S.unwritten++;
		return;
	}
	S.st[i] |= 2;
	if (val != S.written[i])
		S.mismatch++;
}
extern "C" {
#define CB(n)                                                                                                          \
	RAW void __tsan_read##n(void *p) {                                                                                 \
		on_access(p, n, false);                                                                                        \
	}                                                                                                                  \
	RAW void __tsan_write##n(void *p) {                                                                                \
		on_access(p, n, true);                                                                                         \
	}                                                                                                                  \
	RAW void __tsan_unaligned_read##n(void *p) {                                                                       \
		on_access(p, n, false);                                                                                        \
	}                                                                                                                  \
	RAW void __tsan_unaligned_write##n(void *p) {                                                                      \
		on_access(p, n, true);                                                                                         \
	}                                                                                                                  \
	RAW void __tsan_volatile_read##n(void *p) {                                                                        \
		on_access(p, n, false);                                                                                        \
	}                                                                                                                  \
	RAW void __tsan_volatile_write##n(void *p) {                                                                       \
		on_access(p, n, true);                                                                                         \
	}
CB(1)
CB(2)
CB(4)
CB(8)
CB(16)
RAW void __tsan_init() {
}
RAW void __tsan_func_entry(void *) {
}
RAW void __tsan_func_exit() {
}
RAW void __tsan_vptr_update(void **, void *) {
}
RAW void __tsan_vptr_read(void **) {
}
RAW void __tsan_read_range(void *, unsigned long) {
}
RAW void __tsan_write_range(void *, unsigned long) {
}
RAW uint8_t __tsan_atomic8_load(const volatile uint8_t *a, int) {
	return *a;
}
RAW int __tsan_atomic32_fetch_add(volatile int *a, int v, int) {
	return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);
}
RAW void __tsan_atomic_thread_fence(int) {
}
}

static constexpr uint32_t GUARD = 4, SHIFT = 5, MAXW = 1u << 22;
static uint32_t *mem; // low addresses: the 32-bit interface can name them
static std::unique_ptr<uint32_t[]> phys, written;
static std::unique_ptr<unsigned char[]> st;
static void setup(uint32_t n, uint32_t fill, uint32_t at = 0) {
	if (!mem) {
		mem = static_cast<uint32_t *>(mmap(nullptr, (MAXW + 2 * GUARD + SHIFT) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0));
		if (mem == MAP_FAILED)
			mc::fail("no low memory");
		phys = std::make_unique<uint32_t[]>(MAXW);
		written = std::make_unique<uint32_t[]>(MAXW);
		st = std::make_unique<unsigned char[]>(MAXW);
	}
	S = Sim{};
	S.lo = mem + at;
	S.start = S.lo + GUARD;
	S.stop = S.start + n;
	S.hi = S.stop + GUARD;
	S.phys = phys.get();
	S.written = written.get();
	S.st = st.get();
	for (uint32_t i = 0; i < n; i++)
		phys[i] = fill, st[i] = 0;
}
// must: the fault has to be found whatever values are used
static bool run(uint32_t n, bool by_address, bool must, const char *what, bool (*chk)(uint32_t *) = nullptr, bool reads = true) {
	S.on = true;
	bool ok = chk		  ? chk(S.start)
			  : by_address ? MemTest::check(uint32_t(uintptr_t(S.start)), uint32_t(uintptr_t(S.stop))) : MemTest::check(S.start, S.stop);
	flush();
	S.on = false;
	MC_CHECK(S.outside == 0, "memory outside the range was touched %d times", S.outside);
	MC_CHECK(S.unwritten == 0 && S.odd == 0, "a word was read before it was written, or not as a word");
	if (S.mismatch)
		MC_CHECK(!ok, "%s in %u words: %d words read back wrong, yet the memory was called good", what, n, S.mismatch);
	else {
		MC_CHECK(ok || (S.kind != 0 && must), "%s in %u words: every word read back right, yet the memory was called bad", what, n);
		if (ok && reads)
			for (uint32_t i = 0; i < n; i++)
				MC_CHECK(S.st[i] == 3, "%s in %u words: called good, but word %u was not %s", what, n, i, S.st[i] ? "read back" : "written");
	}
	if (must && reads)
		MC_CHECK(!ok, "%s in %u words was not found", what, n);
	return !ok;
}
static const uint32_t FILL[] = {0, 0xFFFFFFFFu, 0x55AA1234u};
#ifdef FIXED_ONLY // compiled with all optimizations
template<uint32_t N>
bool fixed_range(uint32_t *p); // c44_fixed.cc: compiled apart, so that nothing is known here about what it calls
// reads: false leaves out that every word has to be read back, which the compiler may have removed (known-findings.txt)
static void fixed(mc::Job &j, bool reads) {
	[&]<uint32_t... I>(std::integer_sequence<uint32_t, I...>) {
		(
			[&] {
				constexpr uint32_t n = I < 16 ? I + 1 : 32u << (I - 16);
				j.sweep(I * 100000, I * 100000 + 1 + n * 66 + n * n, [=](uint64_t x) {
					uint32_t i = uint32_t(x - I * 100000);
					if (i == 0) {
						setup(n, FILL[I % 3]);
						run(n, false, false, "no fault", fixed_range<n>, reads);
					} else if (i < 1 + n * 66) {
						uint32_t k = (i - 1) % 66;
						setup(n, FILL[i % 3]);
						S.w = (i - 1) / 66;
						if (k < 64) {
							S.kind = 1;
							S.bit = k / 2;
							S.v = k % 2;
						} else {
							S.kind = 6;
							phys[S.w] = k == 64 ? 0 : 0xFFFFFFFFu;
						}
						run(n, false, false, "stuck bit or lost write", fixed_range<n>, reads);
					} else {
						setup(n, 0);
						S.kind = 3;
						S.w = (i - 1 - n * 66) % n;
						S.w2 = (i - 1 - n * 66) / n;
						if (S.w == S.w2)
							return false;
						run(n, false, true, "two addresses of one word", fixed_range<n>, reads);
					}
					return true;
				});
			}(),
			...);
	}(std::make_integer_sequence<uint32_t, 18>());
}
static int init = [] {
	mc::Reg("mem-fixed-good", [](mc::Job &j) {
		j.note("mem-fixed-good (fully optimized): ranges whose length 1..16, 32 and 64 is a constant: good and faulty memory; what is read is judged rightly, nothing outside is touched");
		fixed(j, false);
	});
	mc::Reg("mem-fixed", [](mc::Job &j) {
		j.note("mem-fixed (fully optimized): the same ranges: every word is read back, every two words at one place are found");
		fixed(j, true);
	});
	return 0;
}();
#else
static int init = [] {
	mc::Reg("mem-good", [](mc::Job &j) {
		uint32_t n = uint32_t(j.tier(300, 2000));
		j.note(mc::fmt("mem-good: good memory of 0..%u words, by pointers and by addresses; reversed addresses", n - 1));
		j.sweep(0, n, [](uint64_t i) {
			for (bool a : {false, true})
				for (uint32_t at : {0u, SHIFT}) { // one memory, then another
					setup(uint32_t(i), FILL[i % 3], at);
					run(uint32_t(i), a, false, "no fault");
				}
			setup(4, 0);
			S.on = true;
			uint32_t s = uint32_t(uintptr_t(S.start));
			bool ok = MemTest::check(s + 4 * uint32_t(i) + 4, s);
			S.on = false;
			MC_CHECK(!ok && !S.outside, "a reversed range was called good or touched");
			return i > 0;
		});
	});
	mc::Reg("mem-stuck", [](mc::Job &j) {
		uint32_t n = uint32_t(j.tier(24, 64));
		j.note(mc::fmt("mem-stuck: every bit of 1..%u words stuck at 0 and 1; every lost write", n));
		j.sweep(0, uint64_t(n) * n * 66, [n](uint64_t i) {
			uint32_t k = uint32_t(i % 66), w = uint32_t(i / 66 % n), len = uint32_t(i / 66 / n) + 1;
			if (w >= len)
				return false;
			setup(len, FILL[i % 3]);
			S.w = w;
			if (k < 64) {
				S.kind = 1;
				S.bit = k / 2;
				S.v = k % 2;
			} else {
				S.kind = 6;
				phys[w] = k == 64 ? 0 : 0xFFFFFFFFu;
			}
			// one of the two values a bit can be stuck at is wrong, but which one is open
			return run(len, i & 1, false, "stuck bit or lost write");
		});
	});
	mc::Reg("mem-alias", [](mc::Job &j) {
		uint32_t n = uint32_t(j.tier(40, 100));
		j.note(mc::fmt("mem-alias: every two of 2..%u words at one place", n));
		j.sweep(0, uint64_t(n) * n * n, [n](uint64_t i) {
			uint32_t a = uint32_t(i % n), b = uint32_t(i / n % n), len = uint32_t(i / n / n) + 1;
			if (a == b || a >= len || b >= len)
				return false;
			setup(len, 0);
			S.kind = 3;
			S.w = a;
			S.w2 = b;
			return run(len, i & 1, true, "two addresses of one word");
		});
	});
	mc::Reg("mem-lines", [](mc::Job &j) {
		int lines = j.tier(14, 22);
		j.note(mc::fmt("mem-lines: every address line stuck, every two joined, of memories of 2^1..2^%d words", lines));
		struct C {
			int n;
			uint32_t kind, w, w2, bit, v;
		};
		std::vector<C> cs;
		for (int n = 1; n <= lines; n++)
			for (uint32_t v = 0; v < 2; v++) {
				for (uint32_t b = 0; b < uint32_t(n); b++) {
					cs.push_back({n, 2, 0, 0, b, v});
					if (n <= 16)
						for (uint32_t c = 0; c < b; c++)
							cs.push_back({n, 4, b, c, 0, v});
				}
			}
		j.sweep(0, cs.size(), [cs](uint64_t i) {
			auto &c = cs[i];
			setup(1u << c.n, 0);
			S.kind = c.kind;
			S.w = c.w;
			S.w2 = c.w2;
			S.bit = c.bit;
			S.v = c.v;
			return run(1u << c.n, i & 1, true, "a faulty address line");
		});
	});
	mc::Reg("mem-pattern", [](mc::Job &j) {
		int lg = j.tier(23, 26);
		j.note(mc::fmt("mem-pattern: all pairs of 2^%d words at one place: no value is written twice, or else the pair it is written to is aliased", lg));
		uint32_t n = 1u << lg;
		auto big = std::make_unique<uint32_t[]>(n + 2 * GUARD), ph = std::make_unique<uint32_t[]>(n), wr = std::make_unique<uint32_t[]>(n);
		auto sb = std::make_unique<unsigned char[]>(n);
		auto prep = [&] {
			S = Sim{};
			S.lo = big.get();
			S.start = S.lo + GUARD;
			S.stop = S.start + n;
			S.hi = S.stop + GUARD;
			S.phys = ph.get();
			S.written = wr.get();
			S.st = sb.get();
			std::fill(ph.get(), ph.get() + n, 0);
			std::fill(sb.get(), sb.get() + n, 0);
		};
		j.sweep(0, 1, [&](uint64_t) {
			prep();
			run(n, false, false, "no fault");
			std::vector<uint32_t> v(wr.get(), wr.get() + n);
			std::sort(v.begin(), v.end());
			auto dup = std::adjacent_find(v.begin(), v.end());
			if (dup != v.end()) {
				uint32_t *a = std::find(wr.get(), wr.get() + n, *dup), *b = std::find(a + 1, wr.get() + n, *dup);
				uint32_t ia = uint32_t(a - wr.get()), ib = uint32_t(b - wr.get());
				prep();
				S.kind = 3;
				S.w = ib;
				S.w2 = ia;
				run(n, false, true, mc::fmt("words %u and %u at one place", ia, ib).c_str());
			}
			return true;
		});
	});
	mc::Reg("mem-couple", [](mc::Job &j) {
		uint32_t n = uint32_t(j.tier(12, 32));
		j.note(mc::fmt("mem-couple: writing any of %u words clears, sets or flips any bit of any other", n));
		j.sweep(0, uint64_t(n) * n * 96, [n](uint64_t i) {
			setup(n, FILL[i % 3]);
			S.kind = 5;
			S.bit = uint32_t(i % 32);
			S.v = uint32_t(i / 32 % 3);
			S.w = uint32_t(i / 96 % n);
			S.w2 = uint32_t(i / 96 / n);
			if (S.w == S.w2)
				return false;
			return run(n, i & 1, false, "a disturbing word");
		});
	});
	return 0;
}();
#endif
