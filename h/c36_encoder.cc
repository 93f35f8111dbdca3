// C36: quadrature encoder to closure and over all walks of the shaft; motion is never lost or counted twice.
#include "mc.hh"
#include "util/quadrature_encoder.hh"
#include "util/rotary_motion.hh"

// pins of quarter turn p of the shaft; the detent is p % 4 == 0 (both pins high, or both low when inverted)
template<bool Inv>
static unsigned pins(int p) {
	static const unsigned seq[4] = {0b11, 0b01, 0b00, 0b10}; // b<<1 | a, clockwise
	return seq[((p % 4) + 4) % 4] ^ (Inv ? 0b11 : 0);
}
struct Ref { // the last four different readings; before the first, both pins low
	unsigned last[4] = {0, 0, 0, 0};
	bool inv;
	int read(unsigned v) {
		if (v == last[3])
			return 0;
		for (int i = 0; i < 3; i++)
			last[i] = last[i + 1];
		last[3] = v;
		unsigned x = inv ? 3 : 0;
		static const unsigned CW[] = {0b01, 0b00, 0b10, 0b11}, CCW[] = {0b10, 0b00, 0b01, 0b11};
		bool cw = true, ccw = true;
		for (int i = 0; i < 4; i++) {
			cw &= (last[i] ^ x) == CW[i];
			ccw &= (last[i] ^ x) == CCW[i];
		}
		return cw ? 1 : ccw ? -1 : 0;
	}
};
template<bool Inv>
struct Sys {
	using E = QuadratureEncoder<Inv>;
	mc::Arena<E> a;
	Ref m;
	Sys() {
		a.make(0xA5);
		m.inv = Inv;
	}
	int nops() {
		return 4;
	}
	std::string opname(int o) {
		return mc::fmt("pins a=%d b=%d", o & 1, o >> 1);
	}
	bool apply(int o) {
		int w = m.read(unsigned(o));
		auto g = a.get().get_motion(o & 1, o >> 1);
		int got = g == E::CW ? 1 : g == E::CCW ? -1 : g == E::None ? 0 : 99;
		MC_CHECK(got == w, "pins a=%d b=%d after %u,%u,%u: reported %d, expected %d", o & 1, o >> 1, m.last[0], m.last[1], m.last[2], got, w);
		return true;
	}
	void key(mc::Hash &h) {
		h.bytes(a.mem, sizeof a.mem);
		for (auto v : m.last)
			h.u64(v);
	}
};
// every walk of the shaft by quarter steps (contact bounce included), optionally sampled several times per step:
// a report always answers three quarter steps in that direction, each used once, and ends in a detent
template<bool Inv>
static void walks(mc::Job &j, int s, int n) {
	int len = j.tier(14, 20);
	j.note(mc::fmt("walk: every walk of %d quarter steps from each of the 4 positions, with and without repeated readings", len));
	uint64_t tot = 8ull << len;
	j.sweep(tot * s / n, tot * (s + 1) / n, [&](uint64_t i) {
		int rep = int(i & 1) + 1, pos = int((i >> 1) & 3);
		uint64_t w = i >> 3;
		QuadratureEncoder<Inv> e{};
		for (int k = 0; k < rep; k++)
			e.get_motion(pins<Inv>(pos) & 1, pins<Inv>(pos) >> 1);
		int run = 0; // quarter steps since the last turn-round, signed
		int counted = 0, disp = pos;
		bool any = false;
		for (int k = 0; k < len; k++) {
			int d = (w >> k) & 1 ? 1 : -1;
			disp += d;
			run = (d > 0) == (run > 0) ? run + d : d;
			int got = 0;
			for (int r = 0; r < rep; r++) {
				auto g = e.get_motion(pins<Inv>(disp) & 1, pins<Inv>(disp) >> 1);
				if (g != e.None) {
					MC_CHECK(got == 0, "one step reported twice");
					got = g == e.CW ? 1 : -1;
				}
			}
			if (got) {
				MC_CHECK(((disp % 4) + 4) % 4 == 0, "motion %d reported away from a detent (position %d)", got, disp);
				MC_CHECK(got * run >= 3, "motion %d reported after only %d quarter steps", got, run);
				any = true;
			}
			// four quarter steps in a row ending in a detent are always counted
			if (((disp % 4) + 4) % 4 == 0 && (run >= 4 || run <= -4))
				MC_CHECK(got == (run > 0 ? 1 : -1), "a whole step in direction %d was reported as %d", run > 0 ? 1 : -1, got);
			counted += got;
		}
		return any;
	});
}
static void motion(mc::Ctx &c, int depth) {
	RotaryMotion m[3];
	long mo[3] = {}, ab[3] = {}, out = 0, turned = 0;
	for (int d = 0; d < depth; d++) {
		switch (int o = int(c.choose(4)); o) {
			case 0: { // the knob moves
				static const int MV[] = {1, -1, 5, -70000};
				int k = int(c.choose(2)), v = MV[c.choose(4)];
				c.log("knob %d moves %d", k, v);
				RotaryMotion t;
				t.motion = v;
				m[k].add_motion(t);
				MC_CHECK(t.motion == v, "add_motion changed its source");
				mo[k] += v;
				ab[k] += v;
				turned += v;
				c.nontrivial();
				break;
			}
			case 1: {
				int k = int(c.choose(3));
				int32_t g = m[k].use_motion();
				c.log("use_motion of %d -> %d", k, g);
				MC_CHECK(g == mo[k], "use_motion returned %d, expected %ld", g, mo[k]);
				out += g;
				mo[k] = 0;
				break;
			}
			default: { // o 2, 3: transfer between two
				int from = int(c.choose(3)), to = (from + o - 1) % 3;
				c.log("transfer %d to %d", from, to);
				m[to].transfer_motion(m[from]);
				mo[to] += mo[from];
				ab[to] += mo[from];
				mo[from] = 0;
			}
		}
		for (int k = 0; k < 3; k++)
			MC_CHECK(m[k].motion == mo[k] && m[k].abs_pos == ab[k], "object %d has motion %d, position %d, expected %ld, %ld", k, m[k].motion, m[k].abs_pos, mo[k], ab[k]);
	}
	for (auto &x : m)
		out += x.use_motion();
	MC_CHECK(out == turned, "%ld steps were turned, %ld arrived", turned, out);
}
static int init = [] {
	mc::Reg("encoder", [](mc::Job &j) { j.bfs<Sys<false>>({.depth = 40}, [] { return std::make_unique<Sys<false>>(); }); });
	mc::Reg("encoder-inv", [](mc::Job &j) { j.bfs<Sys<true>>({.depth = 40}, [] { return std::make_unique<Sys<true>>(); }); });
	mc::shards("walk", 4, walks<false>);
	mc::shards("walk-inv", 4, walks<true>);
	mc::Reg("motion", [](mc::Job &j) {
		int depth = j.tier(5, 6);
		j.note(mc::fmt("motion: every history of %d moves, uses and transfers between three objects", depth));
		j.explore({}, [=](mc::Ctx &c) { motion(c, depth); });
	});
	return 0;
}();
