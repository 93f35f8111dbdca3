// C04 (sequential part): every operation sequence against the documented ramp behaviour.
#include "mc.hh"
#include <algorithm>
#include <cmath>
#include "util/filter.hh"
#include "util/filtered_interp_array.hh"

struct HalfFilter { // a filter with memory: must be fed exactly once per picked-up reading, in order
	float s = 0;
	float add_val(float v) {
		s += (v - s) * 0.5f;
		return s;
	}
};

template<class Filter>
struct Sys {
	static constexpr unsigned N = 2;
	mc::Arena<FilteredInterpArray<N, Filter, float>> a;
	// model
	bool mark = false;
	unsigned count = 0, num = 256;
	double from[N] = {}, target[N] = {}, last[N] = {};
	Filter mf[N];
	unsigned ramp_n = 256, ramp_k = 0;
	bool ramping = false;
	bool numset = false;

	static constexpr float vals[4][N] = {{8, -3}, {0, 0}, {1, 100}, {-7.5, 1e-3f}};
	static constexpr unsigned nums[4] = {1, 2, 3, 5};
	Sys() {
		a.make(0xA5);
	}
	int nops() {
		return 2 + 4 + 4;
	}
	std::string opname(int op) {
		if (op == 0)
			return "mark";
		if (op == 1)
			return "get";
		if (op < 6)
			return mc::fmt("add_new_readings(%g,%g)", vals[op - 2][0], vals[op - 2][1]);
		return mc::fmt("set_num_updates(%u)", nums[op - 6]);
	}
	bool apply(int op) {
		auto &x = a.get();
		if (op == 0) {
			if (mark)
				return false; // repeated marks: covered once by the concurrent part
			x.mark_new_data_ready();
			mark = true;
		} else if (op == 1) {
			unsigned seen = 0;
			x.get_interp_values([&](unsigned i, float v) {
				MC_CHECK(i < N && !(seen >> i & 1), "output function called again, or for a channel that does not exist: %u", i);
				seen |= 1u << i;
				got[i] = v;
				calls++;
			});
			MC_CHECK(calls == N, "output function called %u times for %u channels", calls, N);
			calls = 0;
			count++;
			bool settled = count >= num;
			for (unsigned i = 0; i < N; i++) {
				double v = got[i];
				if (settled) {
					MC_CHECK(got[i] == float(target[i]), "channel %u: after %u of %u updates output is %g, target %g", i, count, num, v, target[i]);
				} else {
					double e = from[i] + (target[i] - from[i]) * double(count) / double(ramp_n);
					double tol = 1e-4 * (1 + std::abs(from[i]) + std::abs(target[i]));
					MC_CHECK(std::abs(v - e) <= tol, "channel %u: update %u of %u gives %.9g, linear ramp from %g to %g gives %.9g", i, count, ramp_n, v, from[i], target[i], e);
				}
				last[i] = v;
			}
		} else if (op < 6) {
			unsigned reads = 0;
			x.add_new_readings([&](unsigned i) {
				MC_CHECK(i == reads, "reading %u requested, expected %u", i, reads);
				reads++;
				return vals[op - 2][i];
			});
			MC_CHECK(reads == (mark ? N : 0), "%u readings taken, expected %u", reads, mark ? N : 0);
			if (mark) {
				mark = false;
				if (count > 0)
					num = count;
				for (unsigned i = 0; i < N; i++) {
					from[i] = last[i];
					target[i] = mf[i].add_val(vals[op - 2][i]);
				}
				ramp_n = num;
				count = 0;
			}
		} else {
			// only between ramps (changing the period in the middle of a ramp is left open)
			if (!(count >= num) && (count > 0 || touched))
				return false;
			x.set_num_updates(nums[op - 6]);
			num = nums[op - 6];
			if (count < num) {
				// the ramp already settled: the slope belongs to it; only allow when nothing moves
				for (unsigned i = 0; i < N; i++)
					from[i] = target[i];
			}
			if (touched && count < num)
				open = true;
		}
		if (op >= 2 && op < 6)
			touched = true, open = false;
		if (open && op >= 6) {
			// a settled ramp followed by a longer period would move again: outside the stated behaviour
			return false;
		}
		return true;
	}
	bool touched = false, open = false;
	float got[N] = {};
	unsigned calls = 0;
	void key(mc::Hash &h) {
		h.bytes(a.mem, sizeof a.mem);
		h.obj(mark);
		h.obj(count);
		h.obj(num);
		h.obj(from);
		h.obj(target);
		h.obj(last);
		h.obj(ramp_n);
		h.obj(mf);
		h.obj(touched);
	}
};

MC_JOB("nofilter", [](mc::Job &j) {
	j.bfs<Sys<NoFilter<float>>>({.depth = j.tier(8, 11), .max_states = 4'000'000}, [] { return std::make_unique<Sys<NoFilter<float>>>(); });
});
MC_JOB("memoryfilter", [](mc::Job &j) {
	j.bfs<Sys<HalfFilter>>({.depth = j.tier(8, 11), .max_states = 4'000'000}, [] { return std::make_unique<Sys<HalfFilter>>(); });
});
// long ramps: default 256 updates and every period 1..64, single target change, then hold
MC_JOB("ramps", [](mc::Job &j) {
	j.sweep(1, j.tier(400, 3000), [&](uint64_t n) {
		FilteredInterpArray<1, NoFilter<float>> a;
		if (n != 256)
			a.set_num_updates(unsigned(n));
		static const float targets[] = {8.f, -1.f / 3.f, 1e6f, 0.1f};
		float prev = 0;
		for (float t : targets) {
			a.mark_new_data_ready();
			a.add_new_readings([&](unsigned) { return t; });
			for (unsigned k = 1; k <= n; k++) {
				float v = 1234;
				a.get_interp_values([&](unsigned, float x) { v = x; });
				double e = double(prev) + (double(t) - prev) * k / double(n);
				double tol = 1e-3 * (std::abs(t) + std::abs(prev) + 1e-3);
				if (k == n)
					MC_CHECK(v == t, "period %d: last update gives %.9g, target %.9g", int(n), v, t);
				else
					MC_CHECK(std::abs(v - e) <= tol, "period %d: update %u gives %.9g, expected %.9g", int(n), k, v, e);
			}
			prev = t;
		}
		for (int k = 0; k < 5; k++)
			a.get_interp_values([&](unsigned, float x) { MC_CHECK(x == prev, "output leaves its target"); });
		return true;
	});
});
// more channels than any 8-bit index
template<unsigned N>
static void many(mc::Job &j, uint64_t base) {
	j.sweep(base, base + 3, [=](uint64_t x) {
		auto p = std::make_unique<FilteredInterpArray<N, NoFilter<float>>>();
		auto &a = *p;
		static_assert(FilteredInterpArray<N, NoFilter<float>>::size() == N);
		unsigned n = unsigned(x - base) * 3 + 1;
		a.set_num_updates(n);
		for (int round = 0; round < 2; round++) {
			a.mark_new_data_ready();
			unsigned reads = 0;
			a.add_new_readings([&](unsigned i) {
				MC_CHECK(i == reads, "reading %u requested, expected %u", i, reads);
				reads++;
				return float(round ? 7 * i : 64 + i);
			});
			MC_CHECK(reads == N, "%u readings for %u channels", reads, N);
			for (unsigned k = 1; k <= n + 1; k++) {
				unsigned calls = 0;
				std::vector<bool> seen(N);
				a.get_interp_values([&](unsigned i, float v) {
					MC_CHECK(i < N && !seen[i], "output for channel %u, which has had one or does not exist", i);
					seen[i] = true;
					calls++;
					double f = round ? 64 + i : 0, t = round ? 7 * i : 64 + i, e = k >= n ? t : f + (t - f) * k / n;
					MC_CHECK(std::abs(v - e) <= 0.01 + 2e-6 * (std::abs(f) + t), "update %u of %u: channel %u of %u is %g, expected %g", k, n, i, N, double(v), e);
				});
				MC_CHECK(calls == N, "%u outputs for %u channels", calls, N);
			}
			n++; // the next ramp takes as many updates as there were since the last reading
		}
		return true;
	});
}
MC_JOB("many-channels", [](mc::Job &j) {
	j.note("many-channels: 255, 256, 257, 300, 65535, 65536 and 65537 channels, two readings, ramps of 1, 4 and 7 updates");
	many<255>(j, 0), many<256>(j, 10), many<257>(j, 20), many<300>(j, 30), many<65535>(j, 40), many<65536>(j, 50), many<65537>(j, 60);
});
// ramps longer than any 16-bit count, set and learned
MC_JOB("long-ramps", [](mc::Job &j) {
	static const unsigned len[] = {255, 256, 257, 32768, 65535, 65536, 65537, 70000, 131072};
	j.note("long-ramps: set and learned ramp lengths of 255 to 131072 updates");
	j.sweep(0, 9 * 2, [](uint64_t x) {
		unsigned n = len[x / 2];
		FilteredInterpArray<1, NoFilter<float>> a;
		auto announce = [&](float t) {
			a.mark_new_data_ready();
			a.add_new_readings([&](unsigned) { return t; });
		};
		float v = 0, from = 0, to = 1024;
		if (x & 1) { // learn the length from a first, settled period
			announce(-512);
			for (unsigned k = 0; k < n; k++)
				a.get_interp_values([&](unsigned, float o) { v = o; });
			MC_CHECK(n < 256 || v == -512, "%u updates after a reading of -512 the output is %g", n, double(v));
			from = v;
		} else
			a.set_num_updates(n);
		announce(to);
		for (unsigned k = 1; k <= n + 2; k++) {
			a.get_interp_values([&](unsigned, float o) { v = o; });
			double e = k >= n ? double(to) : from + (double(to) - from) * k / n;
			MC_CHECK(k >= n ? v == to : std::abs(v - e) <= 8, "update %u of %u gives %g, expected %g", k, n, double(v), e);
		}
		return true;
	});
});
// no new data for longer than any 32-bit count of updates
MC_JOB("hold", [](mc::Job &j) {
	j.note("hold: 2^32 + 1000 updates without new data, for two ramp lengths");
	j.sweep(0, 2, [](uint64_t x) {
		FilteredInterpArray<1, NoFilter<float>> a;
		unsigned n = x ? 300 : 3;
		a.set_num_updates(n);
		a.mark_new_data_ready();
		a.add_new_readings([](unsigned) { return 64.f; });
		auto upd = [&] {
			float v = 0;
			a.get_interp_values([&](unsigned, float o) { v = o; });
			return v;
		};
		for (unsigned k = 0; k < n; k++)
			upd();
		uint64_t bad = 0, first = 0;
		for (uint64_t k = 0; k < (1ull << 32) + 1000; k++) {
			if (upd() != 64.f && !bad++)
				first = k;
			if (k % (1u << 22) == 0)
				mc::tick();
		}
		MC_CHECK(!bad, "%llu updates after it settled, the output left its target", (unsigned long long)first);
		a.mark_new_data_ready();
		a.add_new_readings([](unsigned) { return 0.f; });
		float v = upd();
		MC_CHECK(v > 63 && v <= 64, "the first update of the next ramp, from 64 to 0 over more than 2^31 updates, gives %g", double(v));
		return true;
	});
});
