// C22: version numbers: parsing any text, total order, host compatibility.
#include "mc.hh"
#include <compare>
#include <tuple>
#include "util/version_tools.hh"
using VersionUtil::Version;
static int init = [] {
	mc::shards("parse", 6, [](mc::Job &j, int s, int n) {
		static const char a[] = {'0', '1', '9', '.', '-', 'r', '2'};
		int L = j.tier(7, 9), A = j.tier(6, 7);
		std::vector<uint64_t> start{0};
		uint64_t tot = 0, p = 1;
		for (int l = 0; l <= L; l++, p *= uint64_t(A))
			start.push_back(tot += p);
		j.note(mc::fmt("parse: every text of up to %d characters over %d characters, as a view that ends where its memory ends", L, A));
		j.sweep(tot * s / n, tot * (s + 1) / n, [&](uint64_t i) {
			int l = 0;
			while (start[l + 1] <= i)
				l++;
			uint64_t x = i - start[l];
			mc::Exact<char> heap{size_t(size_t(l))};
			for (int k = 0; k < l; k++) {
				heap[k] = a[x % A];
				x /= A;
			}
			std::string_view t{heap.get(), size_t(l)};
			// fields between dots; each is the number at its start; what is negative, missing or too large counts as 0
			unsigned want[3] = {0, 0, 0};
			size_t pos = 0;
			bool normal = true, early_dash = false;
			for (int f = 0;; f++) {
				size_t e = t.find('.', pos);
				std::string_view tok = t.substr(pos, e == t.npos ? e : e - pos);
				uint64_t v = 0;
				for (char c : tok) {
					if (c < '0' || c > '9')
						break;
					v = v * 10 + uint64_t(c - '0');
				}
				if (f < 3 && v <= 255)
					want[f] = unsigned(v);
				bool dash = tok.find('-') != tok.npos;
				if (e == t.npos) {
					normal = !dash;
					break;
				}
				early_dash |= dash;
				pos = e + 1;
			}
			Version v{t};
			MC_CHECK(v.major == want[0] && v.minor == want[1] && v.revision == want[2], "'%.*s' parses as %u.%u.%u, expected %u.%u.%u", l, heap.get(), v.major,
					 v.minor, v.revision, want[0], want[1], want[2]);
			if (!early_dash)
				MC_CHECK(v.is_normal == normal, "'%.*s' is%s taken as a pre-release", l, heap.get(), v.is_normal ? " not" : "");
			return l > 0;
		});
	});
	mc::Reg("large", [](mc::Job &j) { // numbers around every limit
		j.sweep(0, 66 * 7, [](uint64_t i) {
			unsigned __int128 big = (i / 7 == 65) ? 255 : (unsigned __int128)1 << (i / 7);
			big += i % 7;
			big -= 3;
			if (i / 7 < 2)
				big = i;
			std::string num;
			auto x = big;
			do
				num.insert(num.begin(), char('0' + int(x % 10)));
			while (x /= 10);
			unsigned w = big <= 255 ? unsigned(big) : 0;
			Version v{num + ".7." + num};
			MC_CHECK(v.major == w && v.minor == 7 && v.revision == w && v.is_normal, "%s parses as %u", num.c_str(), v.major);
			Version z{"3." + num + "-" + num};
			MC_CHECK(z.major == 3 && z.minor == w && z.revision == 0 && !z.is_normal, "3.%s parses as 3.%u", num.c_str(), z.minor);
			return true;
		});
	});
	mc::Reg("many-fields", [](mc::Job &j) { // further fields are ignored, however many
		j.note("many-fields: 0 to 600 and around 65536 further fields, with and without a dash in the last, and fields of up to 600 digits and letters");
		j.sweep(0, 2 * 610 + 2 * 600, [](uint64_t i) {
			if (i < 2 * 610) {
				size_t n = i / 2 < 600 ? i / 2 : 65530 + (i / 2 - 600);
				std::string t = "3.14.15";
				for (size_t k = 0; k < n; k++)
					t += ".9";
				if (i & 1)
					t += "-a";
				Version v{std::string_view(t)};
				MC_CHECK(v.major == 3 && v.minor == 14 && v.revision == 15 && v.is_normal == !(i & 1), "3.14.15 with %zu more fields read as %u.%u.%u %d", n, v.major, v.minor, v.revision, v.is_normal);
			} else {
				i -= 2 * 610;
				size_t n = i / 2;
				std::string z(n, '0'), l(n, 'x');
				std::string t = i & 1 ? z + "12." + z + "34." + z + "56" : "12" + l + ".34" + l + ".56" + l;
				Version v{std::string_view(t)};
				MC_CHECK(v.major == 12 && v.minor == 34 && v.revision == 56 && v.is_normal, "12.34.56 with %zu %s per field read as %u.%u.%u", n, i & 1 ? "leading zeros" : "letters", v.major, v.minor, v.revision);
			}
			return true;
		});
	});
	mc::Reg("fields", [](mc::Job &j) { // every printed version is read back
		j.sweep(0, 256 * 5 * 3, [](uint64_t i) {
			static const unsigned o[] = {0, 1, 9, 100, 255};
			unsigned f[3] = {o[(i / 768) % 5], o[(i / 768 + 1) % 5], o[(i / 768 + 3) % 5]};
			f[i / 256 % 3] = unsigned(i % 256);
			for (int pre = 0; pre < 2; pre++) {
				Version v{std::to_string(f[0]) + "." + std::to_string(f[1]) + "." + std::to_string(f[2]) + (pre ? "-rc2" : "")};
				MC_CHECK(v.major == f[0] && v.minor == f[1] && v.revision == f[2] && v.is_normal == !pre, "%u.%u.%u read as %u.%u.%u", f[0], f[1], f[2], v.major,
						 v.minor, v.revision);
			}
			return true;
		});
	});
	mc::Reg("order", [](mc::Job &j) {
		static const uint8_t d[] = {0, 1, 2, 127, 128, 255};
		auto mk = [](uint64_t i) {
			Version v{d[i % 6], d[i / 6 % 6], d[i / 36 % 6]};
			v.is_normal = i / 216;
			return v;
		};
		j.note("order: all pairs of versions with fields from {0,1,2,127,128,255} and both kinds");
		j.sweep(0, 432 * 432, [&](uint64_t i) {
			auto a = mk(i % 432), b = mk(i / 432);
			auto t = [](Version v) { return std::tuple{int(v.major), int(v.minor), int(v.revision), v.is_normal}; };
			auto want = t(a) <=> t(b);
			MC_CHECK((a <=> b) == want, "%u.%u.%u%s against %u.%u.%u%s", a.major, a.minor, a.revision, a.is_normal ? "" : "-", b.major, b.minor, b.revision,
					 b.is_normal ? "" : "-");
			MC_CHECK((a == b) == (want == 0) && (a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0) && (a != b) == (want != 0),
					 "comparison operators disagree");
			MC_CHECK(a.is_later(b) == (want > 0), "is_later");
			MC_CHECK(a.can_host_version(b) == (a.major == b.major && a.minor >= b.minor), "can_host_version");
			return true;
		});
	});
	mc::Reg("order-fields", [](mc::Job &j) {
		j.note("order-fields: for each field, all 65536 pairs of its values, the other fields equal or differing by one either way");
		j.sweep(0, 3 * 65536 * 9, [&](uint64_t i) {
			unsigned f = unsigned(i / (65536 * 9)), x = unsigned(i % 256), y = unsigned(i / 256 % 256), r = unsigned(i / 65536 % 9);
			uint8_t p[3] = {7, 7, 7}, q[3] = {7, 7, 7};
			p[f] = uint8_t(x);
			q[f] = uint8_t(y);
			q[(f + 1) % 3] = uint8_t(6 + r % 3);
			q[(f + 2) % 3] = uint8_t(6 + r / 3);
			Version a{p[0], p[1], p[2]}, b{q[0], q[1], q[2]};
			auto want = std::tuple{int(p[0]), int(p[1]), int(p[2])} <=> std::tuple{int(q[0]), int(q[1]), int(q[2])};
			MC_CHECK((a <=> b) == want && (a == b) == (want == 0) && a.is_later(b) == (want > 0) && (b <=> a) == (0 <=> want), "%u.%u.%u against %u.%u.%u", p[0], p[1], p[2], q[0], q[1], q[2]);
			MC_CHECK(a.can_host_version(b) == (p[0] == q[0] && p[1] >= q[1]), "can %u.%u.%u host %u.%u.%u", p[0], p[1], p[2], q[0], q[1], q[2]);
			return x != y;
		});
	});
	return 0;
}();
