// C15: fixed-capacity string: always terminated, never past its storage, equal to the truncated text.
#include "mc.hh"
#include <array>
#include <string>
#include "util/static_string.hh"
template<size_t N>
void check(StaticString<N> &s, const std::string &m) {
	const auto &c = s;
	MC_CHECK(strlen(c.c_str()) == m.size() && m == c.c_str(), "content is '%s', expected '%s'", c.c_str(), m.c_str());
	MC_CHECK(s.length() == m.size() && s.size() == m.size(), "length %zu, expected %zu", s.length(), m.size());
	MC_CHECK(s.available() == N - m.size(), "available %zu, expected %zu", s.available(), N - m.size());
	MC_CHECK(s.capacity == N, "capacity");
	MC_CHECK(std::string_view(s) == m && std::string_view(c) == m, "string_view conversion");
	MC_CHECK(s.data() == s.c_str() && (const char *)c == c.c_str(), "data");
	MC_CHECK(std::string(s.begin(), s.end()) == m && std::string(c.begin(), c.end()) == m, "iteration");
	MC_CHECK(s.is_equal(m.c_str()), "is_equal with itself");
#ifdef CPPUTIL_STATIC_STRING_USE_STD_STRING
	std::string t1 = s, t2 = c;
	MC_CHECK(t1 == m && t2 == m, "std::string conversion gives '%s' and '%s', expected '%s'", t1.c_str(), t2.c_str(), m.c_str());
#endif
	MC_CHECK(!s.is_equal((m + "x").c_str()), "is_equal with a longer string");
	if (!m.empty()) {
		MC_CHECK(!s.is_equal(m.substr(1).c_str()), "is_equal with a shorter string");
		MC_CHECK(!s.is_equal(m.substr(0, m.size() - 1).c_str()), "is_equal with a prefix");
	}
}
static std::string cut(std::string_view s, size_t n) {
	auto z = s.find('\0');
	if (z != s.npos)
		s = s.substr(0, z);
	return std::string(s.substr(0, n));
}
// a source string in an exact-size heap block (not terminated when used as a view)
struct Src {
	size_t n;
	mc::Exact<char> p;
	Src(mc::Ctx &c, size_t maxlen, const char *alpha, bool term)
		: n(c.choose(maxlen + 1))
		, p(n + term) {
		int A = int(strlen(alpha));
		for (size_t i = 0; i < n; i++)
			p[i] = alpha[c.choose(A)];
		if (term)
			p[n] = 0;
	}
	std::string_view sv() const {
		return {p.get(), n};
	}
};
template<size_t N>
void run(mc::Ctx &c, int depth) {
	auto s = std::make_unique<StaticString<N>>();
	check(*s, "");
	std::string m;
	for (int k = 0; k < depth; k++) {
#ifdef CPPUTIL_STATIC_STRING_USE_STD_STRING
		int op = int(c.choose(13));
#else
		int op = int(c.choose(12));
#endif
		switch (op) {
			case 0: {
				Src a(c, N + 2, "ab", false);
				s->copy(a.sv());
				m = cut(a.sv(), N);
				break;
			}
			case 1: {
				Src a(c, N + 2, "ab", true);
				s->copy((const char *)a.p.get());
				m = cut(a.sv(), N);
				break;
			}
			case 2: {
				Src a(c, N + 2, "a\x80", false);
				s = std::make_unique<StaticString<N>>(a.sv());
				m = cut(a.sv(), N);
				break;
			}
			case 3: {
				Src a(c, N + 2, "b\xFF", true);
				s = std::make_unique<StaticString<N>>((const char *)a.p.get());
				m = cut(a.sv(), N);
				break;
			}
			case 4: {
				Src a(c, N + 2, "b\x01", false);
				auto other = std::make_unique<StaticString<N + 2>>(a.sv());
				s->copy(*other);
				m = cut(a.sv(), N);
				break;
			}
			case 5: {
				Src a(c, N + 1, "b\x01", true);
				auto *v = const_cast<volatile StaticString<N> *>(s.get());
				v->copy((const char *)a.p.get());
				m = cut(a.sv(), N);
				break;
			}
			case 6:
				s->clear();
				m.clear();
				break;
			case 7: {
				std::string_view z("a\0b", 3); // text ends at an embedded terminator
				s->copy(z);
				m = cut(z, N);
				break;
			}
			case 8: {
				Src a(c, N + 2, "mn", false);
				auto other = std::make_unique<StaticString<N + 2>>(a.sv());
				auto *v = const_cast<volatile StaticString<N> *>(s.get());
				v->copy(*other);
				m = cut(a.sv(), N);
				break;
			}
			case 9: {
				Src a(c, N + 1, "mn", false);
				auto other = std::make_unique<StaticString<N + 1>>(a.sv());
				auto *v = const_cast<volatile StaticString<N> *>(s.get());
				v->copy(const_cast<const volatile StaticString<N + 1> &>(*other));
				m = cut(a.sv(), N);
				break;
			}
			case 10: { // from a shorter or equally long one
				Src a(c, N, "mn", false);
				if (c.flip()) {
					auto other = std::make_unique<StaticString<N>>(a.sv());
					s->copy(*other);
				} else
					s = std::make_unique<StaticString<N>>(StaticString<N>(a.sv()));
				m = cut(a.sv(), N);
				break;
			}
			case 11: { // its own text, from some place on, or its own beginning
				size_t from = c.choose(m.size() + 1);
				switch (c.choose(3)) {
					case 0:
						s->copy(s->c_str() + from);
						break;
					case 1:
						s->copy(std::string_view(*s).substr(from));
						break;
					case 2: {
						size_t len = c.choose(m.size() - from + 1);
						s->copy(std::string_view(*s).substr(from, len));
						m = m.substr(from, len);
						from = 0;
						break;
					}
				}
				m = m.substr(from);
				break;
			}
#ifdef CPPUTIL_STATIC_STRING_USE_STD_STRING
			case 12: {
				Src a(c, N + 2, "a\xE1", false);
				std::string t(a.sv());
				s = std::make_unique<StaticString<N>>(t);
				m = cut(a.sv(), N);
				break;
			}
#endif
		}
		c.log("op %d -> '%s'", op, m.c_str());
		check(*s, m);
		auto copy = *s;
		check(copy, m);
		if (!m.empty())
			c.nontrivial();
	}
}
template<size_t N>
void reg(int tiers = 3) {
	mc::Reg(mc::fmt("cap%zu", N), [](mc::Job &j) {
		int depth = j.tier(N ? 2 : 3, N > 1 ? 2 : N ? 3 : 4);
		j.note(mc::fmt("capacity %zu: every sequence of %d operations", N, depth));
		j.explore({}, [=](mc::Ctx &c) { run<N>(c, depth); });
	}, tiers);
}
// comparison between strings of different capacities, all pairs over a small alphabet
MC_JOB("compare", [](mc::Job &j) {
	j.explore({}, [](mc::Ctx &c) {
		const char *al = std::array{"ab", "a\x80", "\x7F\xFF"}[c.choose(3)];
		Src a(c, 4, al, false), b(c, 4, al, false);
		StaticString<4> x(a.sv());
		StaticString<6> y(b.sv());
		StaticString<4> z(b.sv());
		bool eq = a.sv() == b.sv();
		MC_CHECK((x == y) == eq && (y == x) == eq && (x == z) == eq, "'%s' == '%s' is not %d", x.c_str(), y.c_str(), eq);
		if (eq)
			c.nontrivial();
	});
});
// every character, alone and beside every other
MC_JOB("bytes", [](mc::Job &j) {
	j.note("bytes: every pair of the 255 characters as content, replaced content and comparison");
	j.sweep(0, 255 * 255, [](uint64_t i) {
		char a = char(i % 255 + 1), b = char(i / 255 + 1);
		std::string t{a, b, a};
		StaticString<3> s(std::string_view{t});
		check(s, t);
		std::string u{b, a};
		StaticString<5> w(u.c_str());
		MC_CHECK((s == w) == false && (w == s) == false, "texts of different length compare equal");
		w.copy(s);
		check(w, t);
		MC_CHECK(s == w, "equal texts compare different");
		t[1] = a;
		w.copy(t.c_str());
		check(w, t);
		MC_CHECK((s == w) == (a == b), "texts that differ in the middle compare equal");
		return true;
	});
});
MC_JOB("long", [](mc::Job &j) {
	j.sweep(0, 300, [](uint64_t n) {
		std::string t(n, 'q');
		auto s = std::make_unique<StaticString<255>>(std::string_view(t));
		check(*s, t.substr(0, 255));
		s->copy(t.c_str());
		check(*s, t.substr(0, 255));
		return n > 255;
	});
});
static int init = [] {
	reg<0>();
	reg<1>();
	reg<2>();
	reg<3>();
	reg<4>(2);
	return 0;
}();
