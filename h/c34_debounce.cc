// C34: togglers and debouncers, to closure of their reachable states.
#include "mc.hh"
#include "util/debouncer.hh"
#include "util/debouncer_compact.hh"

struct M {
	bool high = false, rise = false, fall = false;
	unsigned hist = 0, ctr = 0;
	void edge(bool up) {
		high = up;
		rise = up;
		fall = !up;
	}
	void level(bool n) {
		if (n != high)
			(n ? rise : fall) = true;
		high = n;
	}
	uint64_t bits() const {
		return high | rise << 1 | fall << 2 | uint64_t(hist) << 3 | uint64_t(ctr) << 36;
	}
};
enum Cls { PLAIN, COUNTER, DEB, DEBCTR };
template<class T, Cls C, unsigned R = 0, unsigned F = 0, unsigned Mask = 0, bool Deb = false, bool Two = true>
struct Sys {
	mc::Arena<T> a, b;
	M ma, mb;
	Sys() {
		a.make(0xA5);
		b.make(0x5A);
	}
	static constexpr int one = 16; // operations on a single object
	int nops() {
		return Two ? 2 * one + 8 : one;
	}
	std::string opname(int o) {
		static const char *n[] = {"reading 0", "reading 1", "reading 8", "is_just_pressed", "just_went_high", "is_just_released", "just_went_low", "clear_events", "reset", "register_rising_edge", "register_falling_edge", "set_state_no_events(0)", "set_state_no_events(1)", "reset_count", "process(1)", "process(0)"};
		static const char *m[] = {"a=b", "b=a", "a.copy_state(b)", "b.copy_state(a)", "a.update_state(b)", "b.update_state(a)", "a.transfer_events(b)", "b.transfer_events(a)"};
		if (o >= 2 * one)
			return m[o - 2 * one];
		return std::string(o < one ? "a." : "b.") + n[o % one];
	}
	static void feed(T &t, M &m, unsigned r) {
		bool v = r != 0;
		t.register_state(r);
		if constexpr (C == PLAIN)
			m.level(v);
		else if constexpr (C == COUNTER) {
			if (v == m.high)
				m.ctr++;
			else
				m.ctr = 0;
			m.level(v);
		} else {
			m.hist = (m.hist << 1 | unsigned(v)) & Mask;
			m.ctr++;
			if (m.hist == (R & Mask))
				m.edge(true), m.ctr = 0;
			else if (m.hist == (F & Mask))
				m.edge(false), m.ctr = 0;
			else if (!Deb)
				m.high = v;
			if (C != DEBCTR)
				m.ctr = 0;
		}
	}
	bool single(T &t, M &m, int o) {
		switch (o) {
			case 0:
			case 1:
				feed(t, m, unsigned(o));
				break;
			case 2:
				feed(t, m, 8);
				break;
			case 3:
			case 4: {
				bool g = o == 3 ? t.is_just_pressed() : t.just_went_high();
				MC_CHECK(g == m.rise, "rising event reported %d, expected %d", g, m.rise);
				m.rise = false;
				break;
			}
			case 5:
			case 6: {
				bool g = o == 5 ? t.is_just_released() : t.just_went_low();
				MC_CHECK(g == m.fall, "falling event reported %d, expected %d", g, m.fall);
				m.fall = false;
				break;
			}
			case 7:
				t.clear_events();
				m.rise = m.fall = false;
				break;
			case 8:
				t.reset();
				m.high = m.rise = m.fall = false;
				break;
			case 9:
			case 10:
				o == 9 ? t.register_rising_edge() : t.register_falling_edge();
				m.edge(o == 9);
				break;
			case 11:
			case 12:
				if constexpr (requires { t.set_state(0u); }) {
					auto u = t;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
					u.set_state(o == 12 ? 4u : 0u);
#pragma GCC diagnostic pop
					MC_CHECK(u.is_high() == (o == 12) && u.just_went_high() == m.rise && u.just_went_low() == m.fall, "set_state(%d) gives another state or touches the events", o == 12);
				}
				t.set_state_no_events(o == 12 ? 4u : 0u);
				m.high = o == 12;
				break;
			case 13:
				if constexpr (C == COUNTER) {
					t.reset_count();
					m.ctr = 0;
					break;
				} else
					return false;
			case 14:
			case 15:
				if constexpr (C == PLAIN || C == COUNTER) {
					bool v = o == 14;
					t.process(v);
					if (C == COUNTER)
						m.ctr = v == m.high ? m.ctr + 1 : 0;
					m.level(v);
					break;
				} else
					return false; // the debouncers' inherited process() is left open
		}
		return true;
	}
	static void check(T &t, M &m, const char *n) {
		const T &c = t;
		const volatile T &v = t;
		MC_CHECK(c.is_high() == m.high && v.is_pressed() == m.high && bool(c) == m.high, "%s: state is %d, expected %d", n, c.is_high(), m.high);
		if constexpr (C == COUNTER)
			MC_CHECK(c.steady_state_count() == m.ctr, "%s: steady count is %u, expected %u", n, c.steady_state_count(), m.ctr);
		if constexpr (C == DEBCTR)
			if constexpr (requires { c.steady_state_ctr; })
				MC_CHECK(c.steady_state_ctr == m.ctr, "%s: steady count is %u, expected %u", n, c.steady_state_ctr, m.ctr);
		T k(c);
		MC_CHECK(k.is_just_pressed() == m.rise, "%s: pending rising event is %d, expected %d", n, !m.rise, m.rise);
		T k2(c);
		MC_CHECK(k2.is_just_released() == m.fall, "%s: pending falling event is %d, expected %d", n, !m.fall, m.fall);
	}
	bool apply(int o) {
		if (o < one) {
			if (!single(a.get(), ma, o))
				return false;
		} else if (o < 2 * one) {
			if (!single(b.get(), mb, o - one))
				return false;
		} else {
			T &x = o & 1 ? b.get() : a.get(), &y = o & 1 ? a.get() : b.get();
			M &mx = o & 1 ? mb : ma, &my = o & 1 ? ma : mb;
			switch ((o - 2 * one) / 2) {
				case 0:
					x = y;
					mx = my;
					break;
				case 1:
					x.copy_state(y);
					mx.high = my.high, mx.rise = my.rise, mx.fall = my.fall;
					break;
				case 2:
				case 3: {
					bool both = my.rise && my.fall, clear = (o - 2 * one) / 2 == 3;
					clear ? x.transfer_events(y) : x.update_state(y);
					mx.high = my.high;
					if (my.fall)
						mx.fall = true;
					if (my.rise && !both)
						mx.rise = true;
					if (both) { // which of two pending events arrive besides the falling one is left open
						T k(x);
						bool got = k.is_just_pressed();
						MC_CHECK(!mx.rise || got, "a pending rising event is lost");
						mx.rise = got;
					}
					if (clear)
						my.rise = my.fall = false;
					break;
				}
			}
		}
		check(a.get(), ma, "a");
		check(b.get(), mb, "b");
		return true;
	}
	void key(mc::Hash &h) {
		h.bytes(a.mem, sizeof a.mem);
		h.u64(ma.bits());
		if (Two) {
			h.bytes(b.mem, sizeof b.mem);
			h.u64(mb.bits());
		}
	}
};
template<class S>
static void reg(const char *n, int q, int t) {
	mc::Reg(n, [=](mc::Job &j) { j.bfs<S>({.depth = j.tier(q, t), .max_states = 3'000'000}, [] { return std::make_unique<S>(); }); });
}
// plain sequences of readings, with a poll of both events after each, for the default pattern
template<unsigned R, unsigned F, unsigned Mask, bool D>
static void readings(const char *n, int q, int t) {
	mc::Reg(n, [=](mc::Job &j) {
		int len = j.tier(q, t);
		j.note(mc::fmt("%s: all sequences of %d readings", n, len));
		j.sweep(0, 1ull << len, [=](uint64_t i) {
			Debouncer<R, F, Mask, D> d;
			uint64_t hist = 0;
			bool high = false, any = false;
			for (int k = 0; k < len; k++) {
				bool v = i >> k & 1;
				d.register_state(v);
				hist = hist << 1 | v;
				bool up = (hist & Mask) == (R & Mask), down = !up && (hist & Mask) == (F & Mask);
				high = up ? true : down ? false : D ? high : v;
				any |= up;
				MC_CHECK(d.is_high() == high, "after %d readings the state is %d", k + 1, d.is_high());
				MC_CHECK(d.is_just_pressed() == up && d.is_just_released() == down, "after %d readings: expected pressed %d released %d", k + 1, up, down);
			}
			return any;
		});
	});
}
// a history of B bits: all positions of one change of level among the readings, with one glitch at every position
template<unsigned B>
static void wide() {
	mc::Reg(mc::fmt("wide%u", B), [](mc::Job &j) {
		j.note("wide: histories of 8 to 32 bits: all positions of one change of level, with one glitch at every position");
		j.sweep(0, 80 * 80 * 2, [](uint64_t i) {
			int at = int(i % 80), glitch = int(i / 80 % 80);
			bool start = i >= 6400;
			constexpr unsigned M = B == 32 ? ~0u : (1u << (B % 32)) - 1, H = B / 2, R = (1u << H) - 1, F = ~R;
			Debouncer<R, F, M, true> d;
			DebouncerCounter<R, F, M, false> e;
			uint64_t hist = 0;
			bool high = false, high2 = false;
			unsigned n = 0;
			for (int k = 0; k < 120; k++) {
				bool v = (k < at ? start : !start) ^ (k == glitch);
				d.register_state(v);
				e.register_state(v);
				hist = (hist << 1 | v) & M;
				bool up = hist == R, down = hist == (F & M);
				high = up ? true : down ? false : high;
				high2 = up ? true : down ? false : v;
				n = up || down ? 0 : n + 1;
				MC_CHECK(d.is_high() == high && d.is_just_pressed() == up && d.is_just_released() == down, "%u bits of history, reading %d", B, k);
				MC_CHECK(e.is_high() == high2 && e.is_just_pressed() == up && e.is_just_released() == down && e.steady_state_ctr == n, "counting, %u bits of history, reading %d", B, k);
			}
			return true;
		});
	});
}
static int init = [] {
	reg<Sys<Toggler, PLAIN>>("toggler", 30, 60);
	reg<Sys<TogglerCompact, PLAIN>>("compact", 30, 60);
	reg<Sys<TogglerCounter, COUNTER>>("counter", 4, 5);
	reg<Sys<TogglerCounter, COUNTER, 0, 0, 0, false, false>>("counter1", 8, 11);
	reg<Sys<Debouncer<1, 6, 7, false>, DEB, 1, 6, 7, false>>("debouncer3", 30, 60);
	reg<Sys<Debouncer<1, 6, 7, true>, DEB, 1, 6, 7, true>>("debouncer3-raw", 30, 60);
	reg<Sys<Debouncer<>, DEB, 1, 0xFFFFFFFE, 0xFFF, false, false>>("debouncer12", 60, 60);
	reg<Sys<Debouncer<1, 0xFFFFFFFE, 0xFFF, true>, DEB, 1, 0xFFFFFFFE, 0xFFF, true, false>>("debouncer12-raw", 60, 60);
	reg<Sys<Debouncer<0x0F, 0xF0, 0xFF, true>, DEB, 0x0F, 0xF0, 0xFF, true, false>>("debouncer8", 60, 60);
	reg<Sys<Debouncer<0x01, 0xFE, 0xFF, false>, DEB, 0x01, 0xFE, 0xFF, false, false>>("debouncer8-early", 60, 60);
	reg<Sys<DebouncerCounter<1, 6, 7, false>, DEBCTR, 1, 6, 7, false, false>>("debcounter3", 9, 11);
	reg<Sys<DebouncerCounter<3, 12, 15, true>, DEBCTR, 3, 12, 15, true, false>>("debcounter4", 9, 11);
	readings<1, 0xFFFFFFFE, 0xFFF, false>("readings-default", 16, 24);
	readings<0x00FF, 0xFF00, 0xFFFF, true>("readings16", 18, 25);
	readings<0x1, 0x7FFFFFFE, 0x7FFFFFFF, false>("readings31", 16, 24);
	// every history width from 8 to 32 bits
	[]<unsigned... B>(std::integer_sequence<unsigned, B...>) { (wide<B + 8>(), ...); }(std::make_integer_sequence<unsigned, 25>());
	mc::Reg("long-counts", [](mc::Job &j) {
		j.note("long-counts: steady counts through 70000 equal readings, at every starting level");
		j.sweep(0, 4, [](uint64_t i) {
			bool lv = i & 1;
			TogglerCounter t;
			DebouncerCounter<0x0F, 0xF0, 0xFF, true> d;
			t.register_state(!lv);
			t.register_state(lv);
			for (int k = 0; k < 8; k++)
				d.register_state(!lv);
			for (int k = 0; k < 4; k++)
				d.register_state(lv);
			for (unsigned k = 0; k < 70000; k++) {
				MC_CHECK(t.steady_state_count() == k && t.is_high() == lv, "steady count %u after %u equal readings", t.steady_state_count(), k);
				MC_CHECK(d.steady_state_ctr == k && d.is_high() == lv, "debounced steady count %u after %u equal readings", d.steady_state_ctr, k);
				i & 2 ? t.process(lv) : t.register_state(lv ? 0x100u << (k % 24) : 0u);
				d.register_state(lv ? 0x100u << (k % 24) : 0u);
			}
			return true;
		});
	});
	return 0;
}();
