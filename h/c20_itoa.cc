// C20: integer to text, every value against a division-by-ten reference, every buffer size.
#include "mc.hh"
#include <span>
#include "util/int_to_str.hh"

static int ref(int32_t v, char *out) { // digits without terminator; returns length
	char tmp[12];
	int n = 0, len = 0;
	uint32_t u = v < 0 ? 0u - uint32_t(v) : uint32_t(v);
	do {
		tmp[n++] = char('0' + u % 10);
		u /= 10;
	} while (u);
	if (v < 0)
		out[len++] = '-';
	while (n)
		out[len++] = tmp[--n];
	out[len] = 0;
	return len;
}
struct Bufs {
	std::unique_ptr<char[]> mem[14];
	char *b[14]; // ends where the allocation ends, also when empty
	Bufs() {
		for (int i = 0; i < 14; i++) {
			mem[i].reset(new char[16 + i]);
			b[i] = &mem[i][15] + 1;
		}
	}
};
static void one(int32_t v, Bufs &bufs, int lo, int hi) {
	char want[16];
	int len = ref(v, want);
	int digits = len - (v < 0);
	uint32_t u = v < 0 ? 0u - uint32_t(v) : uint32_t(v);
	MC_CHECK(int(num_digits(u)) == digits, "num_digits(%u) is %u", u, num_digits(u));
	for (int n = lo; n <= hi; n++) {
		char *b = bufs.b[n];
		memset(b, 0x7F, size_t(n));
		bool ok = int_to_str(v, {b, size_t(n)});
		MC_CHECK(ok == (n > len), "int_to_str(%d) into %d characters returned %d", v, n, ok);
		if (ok) {
			MC_CHECK(!memcmp(b, want, size_t(len) + 1), "int_to_str(%d) gives '%.*s'", v, n, b);
			for (int i = len + 1; i < n; i++)
				MC_CHECK(b[i] == 0x7F, "int_to_str(%d) into %d characters writes after the terminator", v, n);
		}
		memset(b, 0x7F, size_t(n));
		int_to_str_chop(v, {b, size_t(n)});
		if (n == 0)
			continue;
		// sign and terminator are kept, leading digits dropped
		char w[16];
		int wl = 0, room = n - 1;
		if (v < 0 && room > 0) {
			w[wl++] = '-';
			room--;
		}
		int show = digits < room ? digits : room;
		memcpy(w + wl, want + len - show, size_t(show));
		wl += show;
		w[wl] = 0;
		MC_CHECK(!memcmp(b, w, size_t(wl) + 1), "int_to_str_chop(%d) into %d characters gives '%.*s', expected '%s'", v, n, n, b, w);
		for (int i = wl + 1; i < n; i++)
			MC_CHECK(b[i] == 0x7F, "int_to_str_chop(%d) into %d characters writes after the terminator", v, n);
	}
}
static int init = [] {
	// every number made of a few digits, with sign, in every buffer size
	mc::shards("patterns", 4, [](mc::Job &j, int s, int n) {
		static const int d[] = {0, 1, 9, 5};
		int base = 4;
		uint64_t tot = 1;
		for (int i = 0; i < 10; i++)
			tot *= base;
		Bufs b;
		j.note("patterns: all numbers whose 10 digits come from a small set, both signs, all buffer sizes 0..13");
		j.sweep(2 * tot * s / n, 2 * tot * (s + 1) / n, [&](uint64_t i) {
			bool neg = i & 1;
			uint64_t x = i / 2, v = 0;
			for (int k = 0; k < 10; k++) {
				v = v * 10 + uint64_t(d[x % base]);
				x /= base;
			}
			int64_t sv = neg ? -int64_t(v) : int64_t(v);
			if (sv > INT32_MAX || sv < INT32_MIN)
				return false;
			one(int32_t(sv), b, 0, 13);
			return true;
		});
	});
	mc::shards("small", 2, [](mc::Job &j, int s, int n) {
		int64_t lim = j.tier(300'000, 1 << 22);
		Bufs b;
		j.note("small: every value up to the limit, both signs, all buffer sizes 0..13");
		j.sweep(2 * uint64_t(lim) * s / n, 2 * uint64_t(lim) * (s + 1) / n, [&](uint64_t i) {
			one(int32_t(int64_t(i) - lim), b, 0, 13);
			return true;
		});
	});
	mc::Reg("limits", [](mc::Job &j) {
		Bufs b;
		j.sweep(0, 33 * 2001, [&](uint64_t i) {
			uint32_t v = uint32_t((1ull << (i / 2001)) + i % 2001 - 1000);
			one(int32_t(v), b, 0, 13);
			one(int32_t(0u - v), b, 0, 13);
			return true;
		});
	});
	mc::shards("digits", 8, [](mc::Job &j, int s, int n) {
		j.note("digits: the digit count of all 2^32 unsigned values (one execution = 65536 of them)");
		j.sweep((1ull << 16) * s / n, (1ull << 16) * (s + 1) / n, [&](uint64_t i) {
			uint32_t v = uint32_t(i << 16), limit = 10;
			unsigned want = 1;
			auto fit = [&] {
				while (want < 10 && v >= limit) {
					want++;
					limit = want < 10 ? limit * 10 : 0;
				}
			};
			for (int k = 0; k < 65536; k++, v++) {
				fit();
				MC_CHECK(num_digits(v) == want, "num_digits(%u) is %u", v, num_digits(v));
			}
			return true;
		});
	});
	mc::shards("powers", 1, [](mc::Job &j, int, int) {
		Bufs b;
		j.sweep(0, 10 * 2001, [&](uint64_t i) {
			uint64_t p = 1;
			for (uint64_t k = 0; k < i / 2001; k++)
				p *= 10;
			for (uint64_t m = 1; m <= 9; m++) {
				uint32_t v = uint32_t(p * m + i % 2001 - 1000);
				one(int32_t(v), b, 0, 13);
				one(int32_t(0u - v), b, 0, 13);
			}
			return true;
		});
	});
	mc::shards("all", 16, [](mc::Job &j, int s, int n) {
		Bufs b;
		j.note("all: all 2^32 values with buffers of 11 to 12 characters");
		j.sweep((1ull << 32) * s / n, (1ull << 32) * (s + 1) / n, [&](uint64_t i) {
			one(int32_t(uint32_t(i)), b, 11, 12);
			return true;
		});
	}, 2);
	return 0;
}();
