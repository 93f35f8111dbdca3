// C35: edge and change detectors to closure; polling across clock overflow.
#include "mc.hh"
#include "util/edge_detector.hh"
#include "util/change_detector.hh"
#include "util/poll_change.hh"
#include "util/poll_event.hh"

static void edges(mc::Ctx &c, int depth) {
	mc::Arena<EdgeStateDetector> ea;
	mc::Arena<RisingEdgeDetector> ra;
	mc::Arena<FallingEdgeDetector> fa;
	mc::Arena<ChangeDetector> ca;
	auto &e = ea.make(0xA5);
	auto &r = ra.make(0xA5);
	auto &f = fa.make(0xA5);
	auto &ch = ca.make(0xA5);
	bool prev = false, cur = false, seen = false, pending = false;
	for (int d = 0; d < depth; d++) {
		int o = int(c.choose(4));
		if (o < 2) {
			bool v = o;
			c.log("update %d", v);
			e.update(v);
			bool rg = r.update(v), fg = f.update(v);
			MC_CHECK(rg == (v && !seen), "rising edge reported %d", rg);
			MC_CHECK(fg == (!v && seen), "falling edge reported %d", fg);
			ch.update(v);
			if (v != seen)
				pending = true;
			seen = v;
			prev = cur;
			cur = v;
			if (v)
				c.nontrivial();
		} else if (o == 2) {
			bool g = ch.changed();
			c.log("changed -> %d", g);
			MC_CHECK(g == pending, "change reported %d, expected %d", g, pending);
			pending = false;
		} else {
			c.log("reset");
			e.reset();
			prev = cur = false;
		}
		const auto &k = e;
		MC_CHECK(k.is_high() == cur && k.changed() == (prev != cur) && k.went_high() == (!prev && cur) && k.went_low() == (prev && !cur) && k.staying_high() == (prev && cur) && k.staying_low() == (!prev && !cur),
				 "edge state after %d,%d is wrong", prev, cur);
	}
}
static void pollchange(mc::Ctx &c, int depth) {
	static const unsigned TK[] = {0, 1, 4, 1000};
	unsigned ticks = TK[c.choose(4)];
	static const unsigned ST[] = {0, 3, 1000, 0xFFFFFFFFu - 3, 0x80000000u};
	unsigned now = ST[c.choose(5)];
	mc::Arena<PollChange> a;
	auto &p = a.make(0xA5, ticks);
	c.log("every %u ticks from time %u", ticks, now);
	unsigned last = 0;
	bool cur = false, pending = false, force = false;
	int calls = 0;
	for (int d = 0; d < depth; d++) {
		int o = int(c.choose(5));
		switch (o) {
			case 0:
			case 1:
			case 2: { // poll; 2: by function, state 1
				const unsigned DT[] = {0, 1, ticks ? ticks - 1 : 7, ticks, ticks + 5, 0x70000000u};
				now += DT[c.choose(6)];
				bool v = o != 0;
				bool due = force || now - last >= ticks;
				int before = calls;
				bool byfun = o == 2 || (o == 0 && (d & 1));
				c.log("poll at %u with %d%s", now, v, byfun ? " by function" : "");
				if (byfun)
					p.poll(now, [&] { calls++; return v; });
				else
					p.poll(now, v);
				if (byfun)
					MC_CHECK(calls - before == (due ? 1 : 0), "the state function was called %d times, due %d", calls - before, due);
				if (due) {
					force = false;
					last = now;
					if (v != cur) {
						cur = v;
						pending = true;
						c.nontrivial();
					}
				}
				break;
			}
			case 3: {
				bool g = p.take_change();
				c.log("take_change -> %d", g);
				MC_CHECK(g == pending, "take_change returned %d, expected %d", g, pending);
				pending = false;
				break;
			}
			case 4:
				if (c.flip()) {
					c.log("reset");
					p.reset();
					pending = true;
				} else {
					c.log("force_next_poll");
					p.force_next_poll();
					force = true;
				}
				break;
		}
	}
	MC_CHECK(p.take_change() == pending, "pending change lost");
	MC_CHECK(!p.take_change(), "change reported twice");
}
// model: fires iff at least `period` ticks passed since the last firing (or since time 0)
template<class T>
static bool step(PollEvent<T> &p, T now, uint64_t &elapsed, uint64_t dt, uint64_t period) {
	int fired = 0;
	p.poll(now, [&] { fired++; });
	elapsed += dt;
	bool want = elapsed >= period;
	MC_CHECK(fired == (want ? 1 : 0), "PollEvent of %llu ticks polled %llu ticks after the last firing: fired %d times (time %lld)", (unsigned long long)period, (unsigned long long)elapsed, fired,
			 (long long)now);
	if (want)
		elapsed = 0;
	return want;
}
template<class T>
static void wide(mc::Ctx &c, int depth) {
	using U = std::make_unsigned_t<T>;
	static const U PR[] = {1, 2, 4, 100};
	U period = PR[c.choose(4)];
	const U top = U(~U(0));
	const U ST[] = {0, 1, 3, U(top - 2), U(top), U(top / 2 - 1), U(top / 2 + 1)};
	U now = ST[c.choose(7)];
	mc::Arena<PollEvent<T>> a;
	auto &p = a.make(0xA5, T(period));
	uint64_t elapsed = 0;
	uint64_t dt = now;
	c.log("period %llu", (unsigned long long)period);
	for (int d = 0; d < depth; d++) {
		c.log("poll at %lld", (long long)T(now));
		if (step<T>(p, T(now), elapsed, dt, period))
			c.nontrivial();
		const U DT[] = {0, 1, 2, U(period - 1), period, U(period + 3), 120};
		dt = DT[c.choose(7)];
		now = U(now + dt);
	}
}
static int init = [] {
	mc::Reg("edges", [](mc::Job &j) {
		int depth = j.tier(9, 12);
		j.note(mc::fmt("edges: every history of %d updates, reads and resets of the four detectors", depth));
		j.explore({}, [=](mc::Ctx &c) { edges(c, depth); });
	});
	mc::Reg("pollchange", [](mc::Job &j) {
		int depth = j.tier(4, 5);
		j.note(mc::fmt("pollchange: every history of %d calls; 4 periods, 5 starting times around 0 and the overflow, 6 delays", depth));
		j.explore({}, [=](mc::Ctx &c) { pollchange(c, depth); });
	});
	mc::shards("event8", 4, [](mc::Job &j, int s, int n) {
		j.note("event8: 8-bit time: every starting time, every period 1..127 (quick: nine), every second poll time, eleven third poll times");
		uint64_t np = uint64_t(j.tier(9, 127)), tot = 256 * np;
		j.sweep(tot * s / n, tot * (s + 1) / n, [&](uint64_t i) {
			static const unsigned Q[] = {1, 2, 3, 4, 10, 63, 100, 126, 127};
			unsigned start = unsigned(i % 256), period = j.quick ? Q[i / 256] : unsigned(i / 256 + 1);
			bool any = false;
			for (unsigned d1 = 0; d1 < 256; d1++)
				for (unsigned k = 0; k < 11; k++) {
					const unsigned D[] = {0, 1, period - 1, period, period + 1, 50, 120, 128, 129, 200, 255};
					auto go = [&]<class T>() {
						PollEvent<T> p{T(period)};
						uint64_t el = 0;
						any |= step<T>(p, T(start), el, start, period);
						if (el + d1 >= 256) // a whole turn of the clock cannot be seen
							return;
						any |= step<T>(p, T(start + d1), el, d1, period);
						unsigned d2 = D[k];
						if (el + d2 < 256)
							any |= step<T>(p, T(start + d1 + d2), el, d2, period);
					};
					go.template operator()<uint8_t>();
					go.template operator()<int8_t>();
				}
			return any;
		});
	});
	auto w = [](const char *n, auto f) {
		mc::Reg(n, [=](mc::Job &j) {
			int depth = j.tier(6, 7);
			j.note(mc::fmt("%s: %d polls, 4 periods, 7 starting times at 0, the overflow and the sign change, 7 delays", n, depth));
			j.explore({}, [=](mc::Ctx &c) { f(c, depth); });
		});
	};
	w("event-u16", [](mc::Ctx &c, int d) { wide<uint16_t>(c, d); });
	w("event-u32", [](mc::Ctx &c, int d) { wide<uint32_t>(c, d); });
	w("event-i32", [](mc::Ctx &c, int d) { wide<int32_t>(c, d); });
	w("event-u64", [](mc::Ctx &c, int d) { wide<uint64_t>(c, d); });
	w("event-long", [](mc::Ctx &c, int d) { wide<long>(c, d); });
	return 0;
}();
