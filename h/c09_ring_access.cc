// C09: block access to ring memory (external-buffer ring and block-writable ring).
#include "mc.hh"
#include <algorithm>
#include <cmath>
#include <array>
#include <vector>
#include <list>
#include <span>
#include "util/circular_buffer_ext.hh"
#include "util/circular_buffer_block.hh"

// every (size, rd, wr, length, operation, marker), one operation from every position, against a step-by-step oracle
template<class T>
struct Case {
	static constexpr size_t MAXS = 7;
	void operator()(mc::Ctx &c) {
		size_t sz = 1 + c.choose(MAXS);
		std::vector<T> *bp = new std::vector<T>(sz); // heap: exact bounds
		std::unique_ptr<std::vector<T>> hold(bp);
		auto &mem = *bp;
		for (size_t i = 0; i < sz; i++)
			mem[i] = T(10 + i);
		size_t off = c.choose(sz);
		CircularBufferAccess<std::vector<T>> b(mem, off);
		MC_CHECK(b.wr_pos() == off && b.rd_pos() == 0 && b.size() == sz, "initial positions");
		size_t rd = c.choose(sz), wr = off;
		b.rd_pos(rd);
		MC_CHECK(b.rd_pos() == rd, "rd_pos not set");
		std::vector<T> m = mem;
		int nop = 2;
		for (int k = 0; k < nop; k++) {
			int op = int(c.choose(8));
			// lengths: up to one lap for the crossing checks, up to two laps otherwise
			size_t n = op >= 4 && op <= 6 ? c.choose(sz + 1) : k == 0 ? c.choose(2 * sz + 2) : c.choose(3);
			std::unique_ptr<T[]> blk(new T[n + 1]);
			for (size_t i = 0; i < n; i++)
				blk[i] = T(40 + 10 * k + i);
			std::span<T> s(blk.get(), n);
			bool wrapped = false, crossed = false;
			auto step_fwd = [&](size_t &p) {
				if (++p == sz) {
					p = 0;
					wrapped = true;
				}
			};
			auto step_back = [&](size_t &p) {
				if (p == 0) {
					p = sz - 1;
					wrapped = true;
				} else
					p--;
			};
			static const char *names[] = {"read", "read_reverse", "write", "write_reverse", "read_check_crossed", "read_reverse_check_crossed", "write_check_crossed", "clear"};
			size_t marker = 0;
			if (op >= 4 && op <= 6)
				marker = c.choose(sz);
			c.log("size=%d rd=%d wr=%d %s(%d) marker=%d", int(sz), int(rd), int(wr), names[op], int(n), int(marker));
			bool got = false;
			std::vector<T> want;
			switch (op) {
				case 0:
				case 4:
					got = op == 0 ? b.read(s) : b.read_check_crossed(s, marker);
					for (size_t i = 0; i < n; i++) {
						want.push_back(m[rd]);
						if (rd == marker)
							crossed = true;
						step_fwd(rd);
					}
					break;
				case 1:
				case 5:
					got = op == 1 ? b.read_reverse(s) : b.read_reverse_check_crossed(s, marker);
					for (size_t i = 0; i < n; i++) {
						want.push_back(m[rd]);
						if (rd == (marker + 1) % sz)
							crossed = true;
						step_back(rd);
					}
					break;
				case 2:
				case 6:
					got = op == 2 ? b.write(std::span<const T>(s)) : b.write_check_crossed(std::span<const T>(s), marker);
					for (size_t i = 0; i < n; i++) {
						m[wr] = blk[i];
						step_fwd(wr);
						if (wr == marker)
							crossed = true;
					}
					break;
				case 3:
					got = b.write_reverse(std::span<const T>(s));
					for (size_t i = 0; i < n; i++) {
						m[wr] = blk[i];
						step_back(wr);
					}
					break;
				case 7:
					b.clear();
					for (auto &x : m)
						x = 0;
					got = false;
					break;
			}
			for (size_t i = 0; i < want.size(); i++)
				MC_CHECK(blk[i] == want[i], "%s: element %zu read is %g, expected %g", names[op], i, double(blk[i]), double(want[i]));
			for (size_t i = 0; i < sz; i++)
				MC_CHECK(mem[i] == m[i], "%s: buffer slot %zu is %g, expected %g", names[op], i, double(mem[i]), double(m[i]));
			MC_CHECK(b.rd_pos() == rd && b.wr_pos() == wr, "%s: positions %zu/%zu, expected %zu/%zu", names[op], b.rd_pos(), b.wr_pos(), rd, wr);
			bool expect = op >= 4 && op <= 6 ? crossed : wrapped;
			MC_CHECK(got == expect, "%s: reported %d, expected %d", names[op], got, expect);
			if (n > 0)
				c.nontrivial();
		}
	}
};
MC_JOB("access.float", [](mc::Job &j) { j.explore({}, Case<float>{}); });
MC_JOB("access.int", [](mc::Job &j) { j.explore({}, Case<int>{}); });

// cross-fade: written = new*phase + old*(1-phase), for every content drawn from a small set of special values
template<class T>
static void xfade(const char *name, std::vector<double> vals) {
	mc::Reg(name, [=](mc::Job &j) {
		j.note(mc::fmt("%s: blocks of 1 to 6 elements from 5 positions, both directions, 17 phases, every pair of %zu old and new values incl. zero, equal and negative ones", name, vals.size()));
		uint64_t nv = vals.size();
		j.sweep(0, 17 * 5 * 6 * 2 * nv * nv, [&](uint64_t x) {
			float phase = float(x % 17) / 16.f;
			x /= 17;
			size_t start = x % 5;
			x /= 5;
			size_t n = x % 6 + 1;
			x /= 6;
			bool rev = x % 2;
			x /= 2;
			size_t a = x % nv, b = x / nv;
			std::vector<T> mem(5), m(5);
			for (size_t i = 0; i < 5; i++)
				mem[i] = m[i] = T(vals[(a + i * i) % nv]);
			CircularBufferAccess<std::vector<T>> acc(mem, start);
			mc::Exact<T> blk(n);
			for (size_t i = 0; i < n; i++)
				blk[i] = T(vals[(b + i * 3) % nv]);
			std::span<const T> s(blk.get(), n);
			bool wrapped = rev ? acc.write_reverse(s, phase) : acc.write(s, phase);
			size_t p = start;
			bool w = false;
			double tol = std::is_integral_v<T> ? 1.001 : 0; // whole numbers may be rounded either way
			double max[5]{}, want[5];
			for (size_t i = 0; i < 5; i++)
				want[i] = double(m[i]);
			for (size_t i = 0; i < n; i++) {
				max[p] = std::max({max[p], std::fabs(double(blk[i])), std::fabs(want[p])});
				want[p] = double(blk[i]) * phase + want[p] * (1 - double(phase));
				if (rev) {
					w |= p == 0;
					p = (p + 4) % 5;
				} else {
					p = (p + 1) % 5;
					w |= p == 0;
				}
			}
			MC_CHECK(wrapped == w && acc.wr_pos() == p, "%zu elements from %zu: wrapped %d, position %zu", n, start, wrapped, acc.wr_pos());
			for (size_t i = 0; i < 5; i++)
				MC_CHECK(std::fabs(double(mem[i]) - want[i]) <= tol * (n > 5 ? 2 : 1) + max[i] * 1e-6, "slot %zu: %g expected %g (%zu elements%s from %zu, phase %g)", i, double(mem[i]), want[i], n, rev ? " backwards" : "", start, double(phase));
			return n > 1;
		});
	});
}

// a write without cross-fade stores exactly what is given, whatever was there before
template<class T>
static void plain(const char *name, std::vector<T> vals) {
	mc::Reg(name, [=](mc::Job &j) {
		j.note(mc::fmt("%s: writes without cross-fade of %zu extreme values over %zu extreme contents, both directions", name, vals.size(), vals.size()));
		uint64_t nv = vals.size();
		j.sweep(0, nv * nv * 2, [&](uint64_t x) {
			bool rev = x % 2;
			T oldv = vals[x / 2 % nv], newv = vals[x / 2 / nv];
			std::vector<T> mem(4, oldv);
			CircularBufferAccess<std::vector<T>> acc(mem, 1);
			T blk[3] = {newv, vals[0], newv};
			std::span<const T> s(blk, 3);
			rev ? acc.write_reverse(s) : acc.write(s);
			const T want[2][4] = {{oldv, newv, vals[0], newv}, {vals[0], newv, oldv, newv}};
			T got[4];
			acc.rd_pos(0);
			acc.read(std::span<T>(got, 4));
			for (int i = 0; i < 4; i++)
				MC_CHECK(got[i] == want[rev][i] || (want[rev][i] != want[rev][i] && got[i] != got[i]), "slot %d is %.17g after writing %.17g over %.17g, expected %.17g", i, double(got[i]), double(newv), double(oldv), double(want[rev][i]));
			return true;
		});
	});
}

template<class T, size_t N>
void block(const char *name) {
	mc::Reg(name, [](mc::Job &j) {
		j.explore({}, [](mc::Ctx &c) {
			auto b = std::make_unique<CircularBufferBlock<T, N>>();
			std::array<T, N> m{};
			MC_CHECK(b->size() == N, "size");
			for (int k = 0; k < 2; k++) {
				size_t n = c.choose(N + 1);
				unsigned start = unsigned(c.choose(2 * N + 1));
				if (k == 1 && c.flip())
					start += 0xFFFFFFF0u - 2 * N;
				std::unique_ptr<T[]> blk(new T[n]);
				for (size_t i = 0; i < n; i++) {
					blk[i] = T(k * 100 + i + 1);
					m[(size_t(start) + i) % N] = blk[i];
				}
				c.log("write %d elements at %u", int(n), start);
				b->write(std::span<const T>(blk.get(), n), start);
				for (size_t i = 0; i < N; i++)
					MC_CHECK(b->data[i] == m[i], "slot %zu is %g, expected %g", i, double(b->data[i]), double(m[i]));
				if (n)
					c.nontrivial();
			}
		});
	});
}
static int init = [] {
	xfade<float>("xfade.float", {0, 1, -1, 0.5, -2, 300, -400, 1e6, 1e-6});
	xfade<double>("xfade.double", {0, 1, -1, 0.25, -3000, 1e-9});
	plain<int32_t>("plain.int32", {0, 1, -1, 16777217, -16777217, 123456789, INT32_MAX, INT32_MIN, INT32_MAX - 1});
	plain<uint32_t>("plain.uint32", {0, 1, 16777217, 0x7FFFFFFF, 0x80000001, 0xFFFFFFFF});
	plain<uint8_t>("plain.uint8", {0, 1, 127, 128, 255});
	plain<int16_t>("plain.int16", {0, 1, -1, 32767, -32768});
	plain<float>("plain.float", {0, 1, -1, 3.4028235e38f, -3.4028235e38f, 1e-45f, INFINITY, -INFINITY, NAN});
	plain<double>("plain.double", {0, 1, -1, 1e300, -1e300, 5e-324, 0.1, INFINITY, NAN});
	xfade<int>("xfade.int", {0, 1, -1, 100, -100, 4096, -30000});
	block<uint8_t, 1>("block.u8.1");
	block<uint8_t, 8>("block.u8.8");
	block<float, 2>("block.float.2");
	block<int32_t, 4>("block.i32.4");
	block<double, 8>("block.double.8");
	return 0;
}();
