// C05: power loss at every point of every history (torn writes, partial erases), then recovery.
#include "flash.hh"
struct PowerCut {};

template<class D>
void history(mc::Ctx &c, size_t N, int ops, int max_crashes, bool repeats = false) {
	Flash fl{N};
	g_flash = &fl;
	int start = int(c.choose(3)); // 0 blank, 1 garbage everywhere, 2 garbage in the top cell
	if (start == 1)
		for (auto &x : fl.cells)
			x = Garbage;
	if (start == 2)
		fl.cells[N - 1] = Garbage;
	int crashes = max_crashes;
	bool armed = false; // crashes are injected only inside operations, not inside the checks
	bool erasing = false, erased = false;
	fl.on_write = [&](const Data &d, size_t cell) {
		// where the power fails: before, after any part of the cell has been programmed, or after all of it
		int k = armed && crashes ? int(c.choose(7)) : 0;
		if (k == 0) {
			fl.program(cell, d);
			return true;
		}
		crashes--;
		static const uint32_t m[7][2] = {{0, 0}, {0, 0}, {~0u, 0}, {0, ~0u}, {0xFFFF, 0}, {~0u, 0xFF00FF00}, {~0u, ~0u}};
		fl.program(cell, d, m[k][0], m[k][1]);
		c.log("  power fails while writing cell %zu (case %d)", cell, k);
		throw PowerCut{};
	};
	fl.on_erase = [&] {
		erasing = true;
		if (armed && crashes && c.choose(2)) {
			crashes--;
			// any subset of the cells is blank already; any one cell may be half erased
			uint64_t set = uint64_t(c.choose(1 << N));
			int half = int(c.choose(N + 1));
			for (size_t i = 0; i < N; i++)
				if (set >> i & 1)
					fl.cells[i] = Blank;
			if (half)
				fl.cells[half - 1].value = 0xFFFFFFFF;
			c.log("  power fails during erase, leaving %s", fl.show().c_str());
			throw PowerCut{};
		}
		for (auto &x : fl.cells)
			x = Blank;
		erasing = false;
		erased = true;
		return true;
	};
	std::vector<uint32_t> ever; // everything handed to write()
	std::optional<uint32_t> current;
	uint32_t serial = 0;
	std::unique_ptr<Dev> dev = std::make_unique<D>();
	auto readback = [&](std::optional<uint32_t> &out) {
		fl.quiet = true;
		Data d = Data::make(999999); // a valid value that was never written
		bool ok = dev->read(d);
		fl.quiet = false;
		if (ok) {
			MC_CHECK(d.validate(), "read returned data that is not valid");
			out = d.value;
		} else
			out.reset();
	};
	auto expect = [&](const char *when) {
		std::optional<uint32_t> r;
		readback(r);
		MC_CHECK(r == current, "%s: read returns %s%u, the last completed write is %s%u, block %s", when, r ? "" : "nothing/", r.value_or(0),
				 current ? "" : "none/", current.value_or(0), fl.show().c_str());
	};
	expect("at first power-up");
	for (int o = 0; o < ops; o++) {
		int op = int(c.choose(repeats && serial ? 3 : 2));
		if (op != 1) {
			uint32_t v = op == 2 ? 1 : ++serial; // a new value, or the first one again
			ever.push_back(v);
			bool ok = false, cut = false;
			erasing = erased = false;
			armed = true;
			try {
				c.log("write %u into %s", v, fl.show().c_str());
				ok = dev->write(Data::make(v));
			} catch (PowerCut &) {
				cut = true;
			}
			armed = false;
			if (!cut) {
				MC_CHECK(ok, "write failed although nothing went wrong, block %s", fl.show().c_str());
				current = v;
				expect("after a write");
				continue;
			}
			c.nontrivial();
			dev = std::make_unique<D>();
			std::optional<uint32_t> r;
			readback(r);
			c.log("  power returns, block %s, read gives %s%u", fl.show().c_str(), r ? "" : "nothing/", r.value_or(0));
			if (!erasing && !erased)
				MC_CHECK(r == current || r == std::optional<uint32_t>(v), "power failed while writing %u after %s%u was stored; read now returns %s%u", v,
						 current ? "" : "none/", current.value_or(0), r ? "" : "nothing/", r.value_or(0));
			else if (erased)
				MC_CHECK(!r || *r == v, "power failed after the erase; read returns the older value %u", r.value_or(0));
			else
				MC_CHECK(r == fl.newest(), "power failed during the erase; read returns %s%u, the newest intact value is %s%u", r ? "" : "nothing/", r.value_or(0),
						 fl.newest() ? "" : "none/", fl.newest().value_or(0));
			if (r) {
				bool known = false;
				for (auto e : ever)
					known |= e == *r;
				MC_CHECK(known, "read returns %u, which was never written", *r);
			}
			current = r;
		} else {
			c.log("restart with %s", fl.show().c_str());
			fl.quiet = true;
			dev = std::make_unique<D>();
			fl.quiet = false;
			expect("after a restart");
		}
		mc::Hash h;
		for (auto &x : fl.cells)
			h.obj(x);
		h.u64(serial);
		h.u64(current.value_or(~0u));
		h.u64(crashes);
		h.u64(op == 1);
		// a freshly started device is determined by the block; otherwise the position matters and is not observable
		if (op == 1 || crashes < max_crashes)
			(void)0;
	}
}
template<size_t N>
void reg(int oq, int ot, int cq, int ct) {
	mc::Reg(mc::fmt("wearlevel.%zu", N), [=](mc::Job &j) { j.explore({}, [&](mc::Ctx &c) { history<DevStat<N>>(c, N, j.tier(oq, ot), j.tier(cq, ct)); }); });
	mc::Reg(mc::fmt("wearleveler.%zu", N), [=](mc::Job &j) { j.explore({}, [&](mc::Ctx &c) { history<DevObj<N>>(c, N, j.tier(oq, ot), j.tier(cq, ct)); }); });
}
template<size_t N>
void reg_rep(int oq, int ot, int cq, int ct) {
	mc::Reg(mc::fmt("repeats.wearlevel.%zu", N), [=](mc::Job &j) { j.explore({}, [&](mc::Ctx &c) { history<DevStat<N>>(c, N, j.tier(oq, ot), j.tier(cq, ct), true); }); });
	mc::Reg(mc::fmt("repeats.wearleveler.%zu", N), [=](mc::Job &j) { j.explore({}, [&](mc::Ctx &c) { history<DevObj<N>>(c, N, j.tier(oq, ot), j.tier(cq, ct), true); }); });
}
static int init = [] {
	reg_rep<1>(5, 7, 1, 2);
	reg_rep<2>(6, 8, 1, 2);
	reg_rep<3>(7, 9, 1, 1);
	reg<1>(6, 8, 2, 3);
	reg<2>(7, 8, 2, 3);
	reg<3>(7, 9, 2, 2);
	reg<4>(8, 10, 1, 2);
	reg<6>(9, 12, 1, 1);
	return 0;
}();
