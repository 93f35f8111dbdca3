// C21: formatted printing through a character sink.
#include "mc.hh"
#include <string>
#include <string_view>
#include "util/print.hh"
static std::string out;
static void sink(const char c) {
	out += c;
}
static int init = [] {
	auto num = [](int32_t v) {
		out.clear();
		print<sink>(v);
		std::string want = std::to_string(v);
		MC_CHECK(out == want, "print(%d) gives '%s'", v, out.c_str());
		char h[16];
		snprintf(h, sizeof h, "%X", unsigned(v));
		out.clear();
		print<sink>(Hex{uint32_t(v)});
		MC_CHECK(out == h, "print(Hex{0x%X}) gives '%s'", unsigned(v), out.c_str());
	};
	mc::shards("numbers", 8, [=](mc::Job &j, int s, int n) {
		// quick: every 32-bit pattern with 3 free bytes set to boundary values; thorough: all
		if (j.quick) {
			static const uint8_t b[] = {0, 1, 9, 10, 15, 16, 99, 100, 127, 128, 160, 170, 200, 240, 254, 255, 0x0A, 0xA0, 0x90, 0x09};
			uint64_t tot = 256ull * 20 * 20 * 20;
			j.sweep(tot * s / n, tot * (s + 1) / n, [&](uint64_t i) {
				uint32_t v = uint32_t(i & 255);
				i >>= 8;
				for (int k = 0; k < 3; k++) {
					v = v << 8 | b[i % 20];
					i /= 20;
				}
				num(int32_t(v));
				num(int32_t(v << 8 | v >> 24));
				return true;
			});
		} else
			j.sweep((1ull << 32) * s / n, (1ull << 32) * (s + 1) / n, [&](uint64_t i) {
				num(int32_t(uint32_t(i)));
				return true;
			});
	});
	mc::Reg("decimal", [=](mc::Job &j) {
		int base = 3;
		static const int d[] = {0, 1, 9};
		uint64_t tot = 59049 * 2;
		j.sweep(0, tot, [&](uint64_t i) {
			uint64_t x = i / 2, v = 0;
			for (int k = 0; k < 10; k++) {
				v = v * 10 + uint64_t(d[x % base]);
				x /= base;
			}
			if (v > INT32_MAX)
				return false;
			num(int32_t(i & 1 ? -int64_t(v) : int64_t(v)));
			return true;
		});
	});
	mc::Reg("text", [](mc::Job &j) {
		// every view into a text, in an exact-size block, and argument lists of up to four parts
		static const char src[] = "ab0-9\0 c\xff\x80z";
		const size_t L = sizeof src - 1;
		j.sweep(0, (L + 1) * (L + 1), [&](uint64_t i) {
			size_t at = i / (L + 1), len = i % (L + 1);
			if (at + len > L)
				return false;
			mc::Exact<char> heap{size_t(len)};
			memcpy(heap.get(), src + at, len);
			out.clear();
			print<sink>(std::string_view{heap.get(), len});
			MC_CHECK(out == std::string(src + at, len), "a view of %zu characters prints %zu characters", len, out.size());
			return true;
		});
	});
	mc::Reg("bytes", [](mc::Job &j) {
		j.note("bytes: every pair of the 255 characters in a C string of either signedness and in a view, alone and between other arguments");
		j.sweep(0, 255 * 255, [&](uint64_t i) {
			char a = char(i % 255 + 1), b = char(i / 255 + 1);
			mc::Exact<char> heap{size_t(4)};
			heap[0] = a;
			heap[1] = b;
			heap[2] = a;
			heap[3] = 0;
			std::string w(heap.get(), 3);
			const char *s = heap.get();
			auto *u = reinterpret_cast<const unsigned char *>(s);
			out.clear();
			print<sink>(s, u, std::string_view{s, 3}, 7, u, s);
			MC_CHECK(out == w + w + w + "7" + w + w, "texts of characters %u and %u are printed as '%s'", (unsigned char)a, (unsigned char)b, out.c_str());
			return true;
		});
	});
	mc::Reg("long", [](mc::Job &j) {
		j.note("long: texts of every length up to 1100 as C string of either signedness and as view");
		j.sweep(0, 1101, [&](uint64_t n) {
			std::string w;
			for (uint64_t i = 0; i < n; i++)
				w += char(1 + (i * 7 + n) % 255);
			mc::Exact<char> z{size_t(n + 1)}, v{size_t(n)};
			memcpy(z.get(), w.c_str(), n + 1);
			memcpy(v.get(), w.data(), n);
			out.clear();
			print<sink>((const char *)z.get());
			MC_CHECK(out == w, "a C string of %d characters is printed as %zu", int(n), out.size());
			out.clear();
			print<sink>(reinterpret_cast<const unsigned char *>(z.get()));
			MC_CHECK(out == w, "an unsigned C string of %d characters is printed as %zu", int(n), out.size());
			out.clear();
			print<sink>(std::string_view{v.get(), n});
			MC_CHECK(out == w, "a view of %d characters is printed as %zu", int(n), out.size());
			return n > 0;
		});
	});
	mc::Reg("mixed", [](mc::Job &j) {
		static const int32_t v[] = {0, -1, 10, INT32_MIN, INT32_MAX, 305};
		static const char *t[] = {"", "x", "a b", "-0"};
		j.sweep(0, 6 * 4 * 6 * 4, [&](uint64_t i) {
			int32_t a = v[i % 6];
			const char *s = t[i / 6 % 4];
			int32_t b = v[i / 24 % 6];
			std::string_view w = t[i / 144];
			char h[16];
			snprintf(h, sizeof h, "%X", unsigned(b));
			out.clear();
			print<sink>(s, a, w, Hex{uint32_t(b)}, s);
			MC_CHECK(out == std::string(s) + std::to_string(a) + std::string(w) + h + s, "arguments printed as '%s'", out.c_str());
			out.clear();
			print<sink>(a, b, reinterpret_cast<const unsigned char *>(s), w);
			MC_CHECK(out == std::to_string(a) + std::to_string(b) + s + std::string(w), "arguments printed as '%s'", out.c_str());
			out.clear();
			print<sink>(a, s, b, w, a, Hex{uint32_t(b)}, b, s);
			MC_CHECK(out == std::to_string(a) + s + std::to_string(b) + std::string(w) + std::to_string(a) + h + std::to_string(b) + s, "eight arguments printed as '%s'", out.c_str());
			out.clear();
			print<sink>();
			MC_CHECK(out.empty(), "no arguments printed as '%s'", out.c_str());
			return true;
		});
	});
	return 0;
}();
