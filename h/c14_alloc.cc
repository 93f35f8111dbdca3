// C14: allocators and padding: blocks lie inside the arena, are disjoint and aligned.
#include "mc.hh"
#include <cstdint>
#include <span>
#include <vector>
#include "util/monotonic_allocator.hh"
#include "util/aligned_allocator.hh"
#include "util/padded_aligned.hh"

MC_JOB("monotonic", [](mc::Job &j) {
	j.explore({}, [&](mc::Ctx &c) {
		size_t N = c.choose(9);
		mc::Exact<uint8_t> mem{N};
		MonotonicAllocator a(std::span<uint8_t>(mem.get(), N));
		size_t used = 0;
		std::vector<std::pair<uint8_t *, size_t>> blocks;
		MC_CHECK(a.total_size() == N && a.free_space() == N, "fresh allocator sizes");
		int L = j.tier(5, 6);
		for (int k = 0; k < L; k++) {
			int64_t op = c.choose(int64_t(N) + 5);
			if (op == int64_t(N) + 4) {
				a.reset();
				used = 0;
				blocks.clear();
				c.log("reset");
			} else {
				size_t sz = op <= int64_t(N) + 1 ? size_t(op) : op == int64_t(N) + 2 ? SIZE_MAX : SIZE_MAX - used + 1;
				uint8_t *p = a.allocate(sz);
				c.log("allocate(%zu)=%s", sz, p ? "ok" : "null");
				if (sz == 0) {
					if (p)
						MC_CHECK(p >= mem.get() && p <= mem.get() + N, "empty block outside the arena");
				} else if (sz <= N - used) {
					MC_CHECK(p != nullptr, "allocate(%zu) failed with %zu bytes free", sz, N - used);
					MC_CHECK(p >= mem.get() && p + sz <= mem.get() + N, "block outside the arena");
					for (auto &[q, n] : blocks)
						MC_CHECK(p + sz <= q || q + n <= p, "blocks overlap");
					memset(p, k, sz);
					blocks.push_back({p, sz});
					used += sz;
					c.nontrivial();
				} else
					MC_CHECK(p == nullptr, "allocate(%zu) succeeded with %zu bytes free", sz, N - used);
			}
			MC_CHECK(a.free_space() == N - used && a.total_size() == N, "free_space %zu, expected %zu", a.free_space(), N - used);
		}
	});
});
MC_JOB("monotonic-large", [](mc::Job &j) {
	j.note("monotonic-large: arenas of 255 to 131072 bytes, taken in two or three blocks of every boundary size");
	static const size_t A[] = {255, 256, 257, 65535, 65536, 65537, 131072};
	j.sweep(0, 7 * 7 * 2, [](uint64_t x) {
		size_t n = A[x % 7], first = A[x / 7 % 7];
		mc::Exact<uint8_t> mem{n};
		MonotonicAllocator a(std::span<uint8_t>(mem.get(), n));
		for (int round = 0; round < 2; round++) {
			MC_CHECK(a.total_size() == n && a.free_space() == n, "fresh arena of %zu: %zu, free %zu", n, a.total_size(), a.free_space());
			uint8_t *p = a.allocate(first);
			MC_CHECK((p != nullptr) == (first <= n), "%zu of %zu bytes", first, n);
			size_t used = p ? first : 0;
			if (p)
				memset(p, 1, first);
			MC_CHECK(a.total_size() == n && a.free_space() == n - used, "%zu of %zu taken, free %zu", used, n, a.free_space());
			if (x / 49 && used < n) {
				uint8_t *r = a.allocate(1);
				MC_CHECK(r && (!p || r >= p + used) && r >= mem.get() && r < mem.get() + n, "one more byte of %zu after %zu", n, used);
				used++;
			}
			MC_CHECK(!a.allocate(n - used + 1), "more than the rest");
			for (unsigned b = 1; b < 64; b++) // sizes that would fit if only the lower bits counted
				for (size_t extra : {size_t(0), size_t(1), n - used})
					if ((size_t(1) << b) + extra > n - used)
						MC_CHECK(!a.allocate((size_t(1) << b) + extra), "2^%u+%zu bytes with %zu free", b, extra, n - used);
			if (used < n) {
				uint8_t *q = a.allocate(n - used);
				MC_CHECK(q && q >= mem.get() && q + (n - used) <= mem.get() + n, "the rest of %zu after %zu", n, used);
				memset(q, 2, n - used);
				for (size_t i = 0; p && i < first; i++)
					MC_CHECK(p[i] == 1, "blocks overlap");
			}
			MC_CHECK(a.free_space() == 0 && !a.allocate(1), "full arena");
			a.reset();
		}
		return true;
	});
});
struct S3 {
	char c[3];
};
struct S24 {
	double d[3];
};
template<class T, size_t A>
void al(const char *name) {
	mc::Reg(name, [](mc::Job &j) {
		j.sweep(0, j.tier(3000, 20000), [](uint64_t n) {
			AlignedAllocator<T, A> a;
			T *p = a.allocate(n);
			if (n == 0)
				return false;
			MC_CHECK(p, "allocate(%d) failed", int(n));
			MC_CHECK(reinterpret_cast<uintptr_t>(p) % A == 0, "block of %d not aligned to %zu", int(n), A);
			memset((void *)p, 0x5a, n * sizeof(T)); // address sanitizer checks the size
			T *q = a.allocate(n);
			MC_CHECK(q >= p + n || p >= q + n, "blocks overlap");
			a.deallocate(p, n);
			a.deallocate(q, n);
			return true;
		});
	});
	mc::Reg(std::string(name) + ".huge", [](mc::Job &j) {
		j.sweep(0, 64 * 33, [](uint64_t x) {
			// element counts whose byte size does not fit in size_t, or is absurd
			unsigned __int128 base = x / 33 == 0 ? (unsigned __int128)(SIZE_MAX / sizeof(T)) : (unsigned __int128)1 << (x / 33);
			unsigned __int128 big = base + x % 33;
			if (big < 16)
				return false;
			big -= 16;
			if (big > SIZE_MAX || big * sizeof(T) < ((unsigned __int128)1 << 46))
				return false;
			uint64_t n = uint64_t(big);
			AlignedAllocator<T, A> a;
			T *p = a.allocate(n);
			MC_CHECK(p == nullptr, "allocate(%llu) of %zu-byte elements returned a block that cannot hold them", (unsigned long long)n, sizeof(T));
			return true;
		});
	});
	mc::Reg(std::string(name) + ".vector", [](mc::Job &j) {
		j.sweep(1, 300, [](uint64_t n) {
			std::vector<T, AlignedAllocator<T, A>> v;
			for (uint64_t i = 0; i < n; i++) {
				v.push_back(T{});
				MC_CHECK(reinterpret_cast<uintptr_t>(v.data()) % A == 0, "vector storage not aligned");
			}
			AlignedAllocator<T, A> a1, a2;
			MC_CHECK(a1 == a2 && !(a1 != a2), "allocators that can free each other's blocks compare different");
			std::vector<T, AlignedAllocator<T, A>> w(a2), u;
			w = std::move(v);
			MC_CHECK(w.size() == n, "moved vector has %zu elements", w.size());
			u = w;
			MC_CHECK(u.size() == n && u.data() != w.data() && reinterpret_cast<uintptr_t>(u.data()) % A == 0, "copied vector shares or misaligns its storage");
			v = std::move(w);
			v.resize(1);
			v.shrink_to_fit();
			MC_CHECK(reinterpret_cast<uintptr_t>(v.data()) % A == 0, "vector storage not aligned");
			return true;
		});
	});
}
template<class T, size_t A>
void padded() {
	using P = PaddedAligned<T, A>;
	MC_CHECK(sizeof(P) % A == 0, "size %zu is not a multiple of %zu", sizeof(P), A);
	MC_CHECK(alignof(P) >= A, "alignment %zu, requested %zu", alignof(P), A);
	MC_CHECK(sizeof(P) >= sizeof(T) && sizeof(P) < sizeof(T) + A + A, "size %zu for %zu bytes of data", sizeof(P), sizeof(T));
	auto v = std::make_unique<P[]>(3);
	for (int i = 0; i < 3; i++) {
		auto b = reinterpret_cast<uintptr_t>(&v[i].data);
		MC_CHECK(b % A == 0, "data not aligned");
		MC_CHECK(reinterpret_cast<uintptr_t>(&v[i]) + sizeof(P) >= b + sizeof(T), "data outside");
		T &r = v[i];
		MC_CHECK(&r == &v[i].data && &v[i]() == &v[i].data, "accessors refer to something else");
	}
	// no other object shares the last aligned chunk of this one
	auto e0 = reinterpret_cast<uintptr_t>(&v[0].data) + sizeof(T) - 1;
	MC_CHECK(e0 / A < reinterpret_cast<uintptr_t>(&v[1].data) / A, "neighbouring objects share an aligned chunk");
}
template<size_t... I>
void padall(std::index_sequence<I...>) {
	(padded<std::array<char, I + 1>, 1>(), ...);
	(padded<std::array<char, I + 1>, 2>(), ...);
	(padded<std::array<char, I + 1>, 8>(), ...);
	(padded<std::array<char, I + 1>, 32>(), ...);
	(padded<std::array<char, I + 1>, 64>(), ...);
}
MC_JOB("padded", [](mc::Job &j) {
	j.sweep(0, 4, [](uint64_t i) {
		if (i == 0)
			padall(std::make_index_sequence<70>{});
		if (i == 1)
			padded<double, 8>(), padded<double, 64>(), padded<S24, 16>(), padded<S24, 64>();
		if (i == 2)
			padded<int, 4>(), padded<int, 32>();
		return true;
	});
});
static int init = [] {
	al<uint8_t, 64>("aligned.u8.64");
	al<S3, 64>("aligned.s3.64");
	al<S24, 32>("aligned.s24.32");
	al<uint32_t, 4096>("aligned.u32.4096");
	al<double, 16>("aligned.double.16");
	return 0;
}();
