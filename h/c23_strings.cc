// C23: text helpers on every short text.
#define __NO_CTYPE // no inline tolower: calls come to the stand-in below
#include "mc.hh"
#include <algorithm>
#include <array>
#include <string_view>
#include "util/string_util.hh"
#include "util/string_compare.hh"
#include "util/contains_word.hh"
// the i-th text over an alphabet, shortest first
static std::string text(uint64_t i, std::string_view a) {
	uint64_t n = 1;
	int l = 0;
	while (i >= n) {
		i -= n;
		n *= a.size();
		l++;
	}
	std::string s;
	for (int k = 0; k < l; k++) {
		s += a[i % a.size()];
		i /= a.size();
	}
	return s;
}
static uint64_t upto(int len, size_t a) {
	uint64_t t = 0, p = 1;
	for (int l = 0; l <= len; l++, p *= a)
		t += p;
	return t;
}
static int lower(unsigned char c) {
	return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
// tolower is only defined for unsigned char values and EOF: a plain char with the top bit set indexes outside its table
static int bad_tolower;
extern "C" int tolower(int c) noexcept {
	if (c < -1 || c > 255)
		bad_tolower = c;
	return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
static std::string lower(std::string s) {
	for (auto &c : s)
		c = char(lower(static_cast<unsigned char>(c)));
	return s;
}
static int init = [] {
	mc::Reg("replace", [](mc::Job &j) {
		uint64_t S = upto(j.tier(6, 8), 2), F = upto(3, 2), R = upto(3, 2);
		j.note("replace: every text, search text and replacement over {a,b}");
		j.sweep(0, S * F * R, [&](uint64_t i) {
			auto s = text(i % S, "ab"), f = text(i / S % F, "ab"), r = text(i / S / F, "ab");
			std::string want;
			if (f.empty())
				want = s;
			else
				for (size_t p = 0; p < s.size();)
					if (s.compare(p, f.size(), f) == 0) {
						want += r;
						p += f.size();
					} else
						want += s[p++];
			ReplaceString x{s};
			auto &ret = x.replace_all(f, r);
			MC_CHECK(x.str == want && &ret == &x, "'%s' with '%s' replaced by '%s' gives '%s', expected '%s'", s.c_str(), f.c_str(), r.c_str(), x.str.c_str(), want.c_str());
			return want != s;
		});
	});
	mc::Reg("tokenize", [](mc::Job &j) {
		static const std::string delims[] = {",", ", ", "a", "", ",;"};
		uint64_t S = upto(j.tier(7, 9), 4);
		j.sweep(0, S * 5, [&](uint64_t i) {
			auto s = text(i % S, "ab, ");
			auto &d = delims[i / S];
			std::vector<std::string> want{"kept"};
			std::string cur;
			for (char c : s) {
				if (d.find(c) != d.npos) {
					if (!cur.empty())
						want.push_back(cur);
					cur.clear();
				} else
					cur += c;
			}
			if (!cur.empty())
				want.push_back(cur);
			mc::Exact<char> heap{size_t(s.size())};
			memcpy(heap.get(), s.data(), s.size());
			std::vector<std::string> got{"kept"};
			if (d == "," && (i & 1))
				tokenize_string({heap.get(), s.size()}, got);
			else
				tokenize_string({heap.get(), s.size()}, got, d);
			MC_CHECK(got == want, "'%s' split at '%s' gives %zu tokens, expected %zu", s.c_str(), d.c_str(), got.size() - 1, want.size() - 1);
			return want.size() > 2;
		});
	});
	mc::Reg("tokenize-nul", [](mc::Job &j) {
		static const std::string delims[] = {std::string("\0", 1), std::string("\0,", 2), std::string(",\0", 2), std::string("\0\xE4", 2), ",", "\xE4"};
		const std::string_view a{"a,\0\xE4", 4};
		uint64_t S = upto(j.tier(6, 8), 4);
		j.note("tokenize-nul: every text over {a , NUL 0xE4} with sets of delimiters with and without these");
		j.sweep(0, S * 6, [&](uint64_t i) {
			auto s = text(i % S, a);
			auto &d = delims[i / S];
			std::vector<std::string> want, got;
			std::string cur;
			for (char c : s) {
				if (d.find(c) != d.npos) {
					if (!cur.empty())
						want.push_back(cur);
					cur.clear();
				} else
					cur += c;
			}
			if (!cur.empty())
				want.push_back(cur);
			tokenize_string(s, got, d);
			MC_CHECK(got == want, "text number %llu split at set %llu gives %zu tokens, expected %zu", (unsigned long long)(i % S), (unsigned long long)(i / S), got.size(), want.size());
			return want.size() > 1;
		});
	});
	mc::Reg("compare", [](mc::Job &j) {
		const std::string_view a{"aAbZ@\0\xE4", 7};
		uint64_t S = upto(j.tier(3, 4), a.size());
		j.note("compare: all pairs of texts over {a,A,b,Z,@,NUL,0xE4}");
		j.sweep(0, S * S, [&](uint64_t i) {
			auto x = text(i % S, a), y = text(i / S, a);
			auto lx = lower(x), ly = lower(y);
			MC_CHECK(equal_ci(x, y) == (lx == ly), "equal_ci");
			MC_CHECK(less_ci(x, y) == (lx < ly), "less_ci"); // std::string compares as unsigned char
			MC_CHECK(!bad_tolower, "a comparison calls tolower(%d), which is undefined", bad_tolower);
			return lx == ly && x != y;
		});
		for (int c = 0; c < 256; c++)
			for (int d = 0; d < 256; d++) {
				char cc = char(c), dd = char(d);
				if (equal_ci({&cc, 1}, {&dd, 1}) != (lower((unsigned char)c) == lower((unsigned char)d)) ||
					less_ci({&cc, 1}, {&dd, 1}) != (lower((unsigned char)c) < lower((unsigned char)d)))
					j.sweep(0, 1, [&](uint64_t) -> bool { mc::fail("characters %d and %d compare wrongly", c, d); });
			}
	});
	mc::Reg("compare-long", [](mc::Job &j) {
		j.note("compare-long: texts of 1 to 70 characters that are equal but for case, one position and the length");
		static const char C[] = {'a', 'A', 'z', 'Z', '@', '[', '`', '{', ' ', '0', char(0xC4), char(0xE4), char(0xFF)};
		const size_t K = sizeof C;
		j.sweep(0, 70 * 70 * K * 3, [&](uint64_t i) {
			size_t n = i % 70 + 1, at = i / 70 % 70;
			if (at >= n)
				return false;
			std::string x, y;
			for (size_t k = 0; k < n; k++) {
				char c = char('a' + (k * 5 + n) % 26);
				x += k % 3 ? c : char(c - 32);
				y += k % 2 ? c : char(c - 32);
			}
			y[at] = C[i / 4900 % K];
			size_t cutoff = i / 4900 / K;
			if (cutoff == 1)
				y.resize(at + 1);
			else if (cutoff == 2)
				x.resize(at + 1);
			auto lx = lower(x), ly = lower(y);
			MC_CHECK(equal_ci(x, y) == (lx == ly) && equal_ci(y, x) == (lx == ly), "equal_ci('%s', '%s')", x.c_str(), y.c_str());
			MC_CHECK(less_ci(x, y) == (lx < ly) && less_ci(y, x) == (ly < lx), "less_ci('%s', '%s')", x.c_str(), y.c_str());
			return true;
		});
	});
	mc::Reg("replace-long", [](mc::Job &j) {
		j.note("replace-long: texts of up to 5 blocks out of 6, search texts of 1 to 33 characters, replacements of 0 to 40");
		static const std::string B[] = {"a", "ab", "abcabcabd", std::string(16, 'x'), std::string(33, 'x'), "yabcabdz\xE4"};
		static const std::string F[] = {"a", "ab", "abcabd", "x", std::string(15, 'x'), std::string(16, 'x'), std::string(33, 'x'), "abcabcabdab", "z\xE4"};
		static const std::string R[] = {"", "a", "ab", "xx", "abcabdab", std::string(40, 'x'), "zz"};
		uint64_t T = 7 * 7 * 7 * 7 * 7;
		j.sweep(0, T * 9 * 7, [&](uint64_t i) {
			std::string s;
			uint64_t x = i % T;
			for (int k = 0; k < 5; k++, x /= 7)
				if (x % 7)
					s += B[x % 7 - 1];
			auto &f = F[i / T % 9], &r = R[i / T / 9];
			std::string want;
			for (size_t p = 0; p < s.size();)
				if (s.compare(p, f.size(), f) == 0) {
					want += r;
					p += f.size();
				} else
					want += s[p++];
			ReplaceString y{s};
			y.replace_all(f, r);
			MC_CHECK(y.str == want, "'%s' with '%s' replaced by '%s' gives '%s', expected '%s'", s.c_str(), f.c_str(), r.c_str(), y.str.c_str(), want.c_str());
			return want != s;
		});
	});
	mc::Reg("tokenize-long", [](mc::Job &j) {
		j.note("tokenize-long: up to 40 tokens of up to 40 characters with runs of one to three delimiters out of one to five");
		j.sweep(0, 41 * 41 * 5 * 3, [&](uint64_t i) {
			unsigned count = i % 41, len = i / 41 % 41, dn = 1 + i / 1681 % 5, run = 1 + unsigned(i / 1681 / 5);
			const std::string d = std::string(", ;\t\xE4").substr(0, dn);
			std::string s;
			std::vector<std::string> want;
			for (unsigned k = 0; k < count; k++) {
				for (unsigned r = 0; r < (k ? run : run - 1); r++)
					s += d[(k + r) % dn];
				std::string t((len + k * 7) % 41, char('a' + k % 26));
				s += t;
				if (t.size())
					want.push_back(t);
			}
			std::vector<std::string> got;
			tokenize_string(s, got, d);
			MC_CHECK(got == want, "'%s' is split into %zu tokens, expected %zu", s.c_str(), got.size(), want.size());
			return want.size() > 1;
		});
	});
	mc::Reg("word-long", [](mc::Job &j) {
		j.note("word-long: names of up to 4 parts out of 9 of 1 to 40 characters and every word that is one or two parts, a part of one, or longer than the name");
		static const std::string P[] = {"In", "out", "Inner", " ", "a", "bcdefghijk", std::string(17, 'Q'), std::string(40, 'q'), "\xC4\xFFx"};
		static const std::string W[] = {"in", "OUT", "inn", "inner", "a", "BCDEFGHIJK", "bcdefghij", "cdefghijk", std::string(17, 'q'), std::string(16, 'q'), std::string(40, 'Q'), std::string(41, 'q'),
										"\xC4\xFFX", "\xFFx", "in out", "out bcdefghijk", "in out inner a", "a  a", std::string(100, 'z')};
		const uint64_t N = 10 * 10 * 10 * 10, NW = sizeof W / sizeof *W;
		j.sweep(0, N * NW * 3, [&](uint64_t i) {
			std::string name;
			uint64_t x = i % N;
			int sep = int(i / N / NW);
			for (int k = 0; k < 4; k++, x /= 10)
				if (x % 10) {
					if (!name.empty())
						name += sep == 0 ? " " : sep == 1 ? "  " : "-";
					name += P[x % 10 - 1];
				}
			auto &word = W[i / N % NW];
			auto ln = lower(name), lw = lower(word);
			bool want = false;
			for (size_t p = 0; p + lw.size() <= ln.size(); p++)
				if (ln.compare(p, lw.size(), lw) == 0 && (p == 0 || ln[p - 1] == ' ') && (p + lw.size() == ln.size() || ln[p + lw.size()] == ' '))
					want = true;
			bad_tolower = 0;
			MC_CHECK(contains_word(name, word) == want, "contains_word('%s', '%s') is %d", name.c_str(), word.c_str(), !want);
			MC_CHECK(!bad_tolower, "contains_word calls tolower(%d), which is undefined", bad_tolower);
			return want;
		});
	});
	mc::shards("word", 2, [](mc::Job &j, int s, int n) {
		const std::string_view a{"iIn x"};
		uint64_t S = upto(j.tier(6, 7), 5), W = upto(2, 5);
		uint64_t T = S * W;
		j.note("word: every name and every word of up to 2 characters over {i,I,n,space,x}");
		j.sweep(T * s / n, T * (s + 1) / n, [&](uint64_t i) {
			auto name = text(i % S, a), word = text(i / S, a);
			auto ln = lower(name), lw = lower(word);
			bool want = false;
			for (size_t p = 0; p + lw.size() <= ln.size(); p++)
				if (ln.compare(p, lw.size(), lw) == 0 && (p == 0 || ln[p - 1] == ' ') && (p + lw.size() == ln.size() || ln[p + lw.size()] == ' '))
					want = true;
			if (word.empty() && !name.empty())
				return false; // an empty word: left open
			MC_CHECK(contains_word(name, word) == want, "contains_word('%s', '%s') is %d", name.c_str(), word.c_str(), !want);
			return want;
		});
	});
	return 0;
}();
