// C06: storage primitives that fail, every bounded fault pattern over every history; wear bounds.
#include "flash.hh"

template<class D>
void history(mc::Ctx &c, size_t N, int ops, int budget, bool repeats = false) {
	Flash fl{N};
	g_flash = &fl;
	bool armed = false;		// faults are injected only inside the operation under test
	bool reported = false;	// some primitive reported a failure during this operation
	bool wrote_ok = false, silent = false, readfault = false, other = false;
	int nwrites = 0, nerases = 0;
	std::vector<bool> tried(N);
	auto pick = [&](int n) {
		if (!armed || budget == 0)
			return 0;
		int k = int(c.choose(n));
		if (k)
			budget--;
		return k;
	};
	fl.on_write = [&](const Data &d, size_t cell) {
		nwrites++;
		tried[cell] = true;
		int k = pick(6);
		static const char *nm[] = {"", "fails, nothing stored", "fails, cell torn", "fails, although stored", "reports success, nothing stored",
								   "reports success, cell torn"};
		if (k) {
			c.log("  write of cell %zu %s", cell, nm[k]);
			other = true;
		}
		if (k == 0 || k == 3)
			fl.program(cell, d);
		if (k == 2 || k == 5)
			fl.program(cell, d, ~0u, 0);
		if (k >= 1 && k <= 3)
			reported = true;
		if (k >= 4)
			silent = true;
		wrote_ok = k == 0 || k >= 4;
		return wrote_ok;
	};
	fl.on_erase = [&] {
		nerases++;
		// an erase is only in order when no blank, untried cell is left above the newest data
		size_t top = 0;
		for (size_t i = 0; i < N; i++)
			if (fl.cells[i].validate())
				top = i + 1;
		for (size_t i = top; i < N; i++)
			MC_CHECK(!fl.cells[i].blank() || tried[i], "block erased although cell %zu has not been used, block %s", i, fl.show().c_str());
		int k = pick(6);
		static const char *nm[] = {"", "fails without effect", "fails after erasing the lower cells", "fails after erasing the upper cells", "fails although complete",
								   "reports success but the first cell stays unusable"};
		if (k) {
			c.log("  erase %s", nm[k]);
			other = true;
		}
		for (size_t i = 0; i < N; i++)
			if (k == 0 || k == 4 || k == 5 || (k == 2 && i < (N + 1) / 2) || (k == 3 && i >= N / 2))
				fl.cells[i] = Blank;
		if (k == 5)
			fl.cells[0] = Garbage;
		tried.assign(N, k >= 1 && k <= 4); // after a failed erase it may be tried again at once
		if (k >= 1 && k <= 4) {
			reported = true;
			return false;
		}
		return true;
	};
	fl.on_read = [&](Data &d, size_t cell) {
		int k = pick(3);
		if (k) {
			c.log("  read of cell %zu fails%s", cell, k == 2 ? " with garbage" : "");
			readfault = true;
			if (k == 2)
				d = Garbage;
			return false;
		}
		d = fl.cells[cell];
		return true;
	};
	std::unique_ptr<Dev> dev = std::make_unique<D>();
	uint32_t serial = 0;
	bool weak = false; // the last start could not read everything
	auto readback = [&](bool faults) {
		Data d = Data::make(999999);
		fl.quiet = true;
		readfault = false;
		armed = faults;
		bool ok = dev->read(d);
		armed = false;
		fl.quiet = false;
		auto want = fl.newest();
		if (ok) {
			bool present = false;
			for (auto &x : fl.cells)
				present |= x.validate() && x.value == d.value;
			MC_CHECK(d.validate() && present, "read reports success with %u, which is not in the block %s", d.value, fl.show().c_str());
		}
		if (!readfault && !weak) {
			MC_CHECK(ok == want.has_value(), "read reports %s, block %s", ok ? "success" : "nothing", fl.show().c_str());
			MC_CHECK(!ok || d.value == *want, "read returns %u, the newest intact value is %u, block %s", d.value, *want, fl.show().c_str());
		}
	};
	for (int o = 0; o < ops; o++) {
		int op = int(c.choose(repeats && serial ? 4 : 3));
		if (op == 0 || op == 3) {
			uint32_t v = op == 3 ? 1 : ++serial; // a new value, or the first one again
			bool same = fl.newest() == std::optional<uint32_t>(v);
			reported = wrote_ok = silent = false;
			nwrites = nerases = 0;
			c.log("write %u into %s", v, fl.show().c_str());
			armed = true;
			bool ok = dev->write(Data::make(v));
			armed = false;
			c.log("  -> %d %s", ok, fl.show().c_str());
			MC_CHECK(nwrites <= 1 && nerases <= 1, "one write took %d storage writes and %d erases", nwrites, nerases);
			if (ok)
				MC_CHECK(wrote_ok || (same && !nwrites), "write reports success although the storage %s", nwrites ? "reported a failure" : "was not written");
			bool usable = false;
			for (auto &x : fl.cells)
				usable |= x.blank();
			if (!ok)
				MC_CHECK(reported || !usable, "write fails although nothing reported a failure, block %s", fl.show().c_str());
			if (ok && !silent) {
				weak = false;
				MC_CHECK(fl.newest() == std::optional<uint32_t>(v), "write %u succeeded but is not stored", v);
			}
			if (reported || silent)
				c.nontrivial();
		} else if (op == 1) {
			c.log("restart with %s", fl.show().c_str());
			fl.quiet = true;
			readfault = false;
			armed = !other; // with holes left by failed writes, a start that cannot read everything is left open
			dev = std::make_unique<D>();
			armed = false;
			fl.quiet = false;
			weak = readfault;
			if (readfault)
				other = true;
			tried.assign(N, false);
		} else {
			c.log("read with faults");
			readback(true);
			if (readfault)
				c.nontrivial();
			else
				return; // covered by the plain read below
		}
		readback(false);
	}
	// everything works again: a write is accepted, or the block is worn out and it says so, and it is found after a restart
	fl.on_write = nullptr;
	fl.on_erase = nullptr;
	bool ok = dev->write(Data::make(++serial));
	if (ok) {
		weak = false;
		readback(false);
		dev = std::make_unique<D>();
		readback(false);
		MC_CHECK(fl.newest() == std::optional<uint32_t>(serial), "the last write is not the newest value");
	} else
		MC_CHECK(false, "write fails although the storage works again, block %s", fl.show().c_str());
}

// without faults: wear is spread evenly and the block is erased once per pass, wherever restarts happen
template<class D>
void wear(mc::Ctx &c, size_t N, int restarts) {
	bool same = c.choose(2); // always the same value
	Flash fl{N};
	g_flash = &fl;
	auto dev = std::make_unique<D>();
	std::vector<uint32_t> log;
	size_t total = 3 * N + 2;
	for (size_t i = 0; i < total; i++) {
		if (restarts && c.choose(2)) {
			restarts--;
			dev = std::make_unique<D>();
			c.nontrivial();
		}
		MC_CHECK(dev->write(Data::make(same ? 7 : uint32_t(i + 1))), "write failed");
		MC_CHECK(fl.erases == int(i / N), "%d erases after %zu writes to %zu cells", fl.erases, i + 1, N);
		int lo = 1 << 30, hi = 0;
		for (auto w : fl.writes) {
			lo = std::min(lo, w);
			hi = std::max(hi, w);
		}
		MC_CHECK(hi - lo <= 1, "uneven wear: %d to %d writes per cell", lo, hi);
		Data d = Data::make(999999);
		MC_CHECK(dev->read(d) && d.value == (same ? 7 : i + 1), "read after write %zu", i + 1);
	}
}
template<size_t N>
void reg(int oq, int ot, int bq, int bt) {
	mc::Reg(mc::fmt("wearlevel.%zu", N), [=](mc::Job &j) { j.explore({}, [&](mc::Ctx &c) { history<DevStat<N>>(c, N, j.tier(oq, ot), j.tier(bq, bt)); }); });
	mc::Reg(mc::fmt("wearleveler.%zu", N), [=](mc::Job &j) { j.explore({}, [&](mc::Ctx &c) { history<DevObj<N>>(c, N, j.tier(oq, ot), j.tier(bq, bt)); }); });
	mc::Reg(mc::fmt("wear.wearlevel.%zu", N), [=](mc::Job &j) { j.explore({}, [&](mc::Ctx &c) { wear<DevStat<N>>(c, N, j.tier(3, 6)); }); });
	mc::Reg(mc::fmt("wear.wearleveler.%zu", N), [=](mc::Job &j) { j.explore({}, [&](mc::Ctx &c) { wear<DevObj<N>>(c, N, j.tier(3, 6)); }); });
}
template<size_t N>
void reg_rep(int oq, int ot, int bq, int bt) {
	mc::Reg(mc::fmt("repeats.wearlevel.%zu", N), [=](mc::Job &j) { j.explore({}, [&](mc::Ctx &c) { history<DevStat<N>>(c, N, j.tier(oq, ot), j.tier(bq, bt), true); }); });
	mc::Reg(mc::fmt("repeats.wearleveler.%zu", N), [=](mc::Job &j) { j.explore({}, [&](mc::Ctx &c) { history<DevObj<N>>(c, N, j.tier(oq, ot), j.tier(bq, bt), true); }); });
}
static int init = [] {
	reg_rep<1>(5, 6, 2, 3);
	reg_rep<2>(6, 7, 1, 2);
	reg_rep<3>(7, 8, 1, 2);
	reg<1>(6, 8, 3, 4);
	reg<2>(6, 8, 3, 4);
	reg<3>(7, 8, 2, 3);
	reg<5>(8, 9, 1, 2);
	return 0;
}();
