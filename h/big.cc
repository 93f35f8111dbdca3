// Large instances: the same reference models as the small-scope harnesses, at sizes past 255 and 65535 where a
// narrowed index, size or counter would show.  Every reachable (position, fill) pair of the mid-size instances is
// visited; the largest ones at the boundary fills.  One section per property, selected by -DBIG=<number>.
#include "mc.hh"
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <vector>

static std::vector<size_t> levels(size_t cap) {
	std::vector<size_t> r;
	for (size_t x : {size_t(0), size_t(1), size_t(2), size_t(127), size_t(128), size_t(254), size_t(255), size_t(256), size_t(257), size_t(511), size_t(512), size_t(513), size_t(32767), size_t(32768),
					 size_t(65534), size_t(65535), size_t(65536), size_t(65537), cap / 2, cap > 1 ? cap - 2 : 0, cap - 1, cap})
		if (x <= cap)
			r.push_back(x);
	std::sort(r.begin(), r.end());
	r.erase(std::unique(r.begin(), r.end()), r.end());
	return r;
}
static std::vector<size_t> all_levels(size_t cap) {
	std::vector<size_t> r;
	for (size_t i = 0; i <= cap; i++)
		r.push_back(i);
	return r;
}

#if BIG == 2
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"
// at a given fill level, go once round the ring
template<class F>
void lap(F &f, size_t cap, size_t fill) {
	uint32_t W = 0, R = 0;
	auto chk = [&] {
		size_t n = W - R;
		MC_CHECK(f.num_filled() == n && f.num_free() == cap - n && f.empty() == (n == 0) && f.full() == (n == cap), "capacity %zu, %zu waiting: filled %zu free %zu empty %d full %d", cap, n,
				 f.num_filled(), f.num_free(), f.empty(), f.full());
	};
	auto put = [&] {
		MC_CHECK(f.put(W * 2654435761u) == (W - R < cap), "capacity %zu, %u waiting: put wrong", cap, W - R);
		W++;
	};
	auto get = [&] {
		uint32_t x = 0;
		if (R & 1) {
			MC_CHECK(f.get_move(x), "get_move found nothing, %u waiting", W - R);
		} else {
			auto r = f.get();
			MC_CHECK(r.has_value(), "get found nothing, %u waiting", W - R);
			x = *r;
		}
		MC_CHECK(x == R * 2654435761u, "capacity %zu: element %u came out wrong", cap, R);
		R++;
	};
	chk();
	while (W < fill) {
		put();
		chk();
	}
	for (size_t i = 0; i < cap + 3; i++) {
		if (fill < cap) {
			put();
			get();
		} else {
			MC_CHECK(!f.put(1), "put into a full queue succeeded");
			get();
			chk();
			put();
		}
		chk();
	}
	while (R < W)
		get();
	chk();
	MC_CHECK(!f.get().has_value(), "element from an empty queue");
	MC_CHECK(f.max_size() == cap, "max_size %zu", f.max_size());
}
template<size_t N>
void st(bool every) {
	mc::Reg(mc::fmt("static%zu", N), [=](mc::Job &j) {
		auto lv = every ? all_levels(N) : levels(N);
		j.sweep(0, lv.size(), [&](uint64_t i) {
			auto f = std::make_unique<LockFreeFifoSpsc<uint32_t, N>>();
			lap(*f, N, lv[i]);
			f->reset();
			auto g = std::make_unique<LockFreeFifoSpsc<uint32_t, N>>(lv[i]);
			MC_CHECK(g->num_filled() == lv[i] && g->num_free() == N - lv[i], "initial offset %zu: filled %zu", lv[i], g->num_filled());
			std::vector<uint32_t> src(N);
			for (size_t k = 0; k < N; k++)
				src[k] = uint32_t(k * 2654435761u + 1);
			auto h = std::make_unique<LockFreeFifoSpsc<uint32_t, N>>(std::span<uint32_t, N>(src));
			h->set_write_pos(lv[i]); // the elements it was built with, up to there
			for (size_t k = 0; k < lv[i]; k++) {
				auto e = h->get();
				MC_CHECK(e && *e == src[k], "element %zu of a queue of %zu built from a span", k, N);
			}
			MC_CHECK(h->empty(), "queue built from a span");
			g->set_read_offset(lv[i] / 2);
			MC_CHECK(g->num_filled() == lv[i] / 2, "set_read_offset(%zu): filled %zu", lv[i] / 2, g->num_filled());
			return true;
		});
	});
}
static void dyn(size_t n, bool every) {
	mc::Reg(mc::fmt("dyn%zu", n), [=](mc::Job &j) {
		auto lv = every ? all_levels(n) : levels(n);
		j.sweep(0, lv.size(), [&](uint64_t i) {
			LockFreeFifoSpscDyn<uint32_t> f(n);
			lap(f, n, lv[i]);
			f.resize(lv[i] + 1);
			lap(f, lv[i] + 1, lv[i] / 2);
			// positions far from the start
			for (size_t at : {size_t(255), size_t(65535), size_t(0xFFFFFFF0u), size_t(1) << 40}) {
				LockFreeFifoSpscDyn<uint32_t> g(n);
				g.set_write_pos(at + lv[i]);
				g.set_read_pos(at);
				MC_CHECK(g.num_filled() == lv[i], "positions %zu and %zu: filled %zu", at, at + lv[i], g.num_filled());
				g.set_read_offset(lv[i] / 2);
				MC_CHECK(g.num_filled() == lv[i] / 2, "set_read_offset(%zu): filled %zu", lv[i] / 2, g.num_filled());
				g.set_read_pos(at + lv[i]);
				lap(g, n, lv[i]);
			}
			return true;
		});
	});
}
static int init = [] {
	st<256>(true);
	st<512>(true);
	st<131072>(false);
	dyn(255, true);
	dyn(256, true);
	dyn(300, true);
	dyn(70000, false);
	return 0;
}();

#elif BIG == 5
#include "flash.hh"
template<class W>
void run(size_t cells, size_t writes, uint64_t torn) {
	Flash fl(cells);
	auto w = std::make_unique<W>(fl);
	uint32_t cur = 0;
	Data d;
	for (size_t i = 1; i <= writes; i++) {
		if (torn && i % torn == 0) // power fails in the middle of a write, then returns
			for (size_t c = 0; c < cells; c++)
				if (fl.cells[c].blank() && (c + 1 == cells || fl.cells[c + 1].blank())) {
					fl.cells[c] = Garbage;
					w = std::make_unique<W>(fl);
					break;
				}
		MC_CHECK(w->write(Data::make(uint32_t(i))), "%zu cells: write %zu failed", cells, i);
		cur = uint32_t(i);
		MC_CHECK(w->read(d) && d.value == cur, "%zu cells: after write %zu read returns %u", cells, i, d.value);
		if (i % 7 == 0 || i % cells < 2 || i % cells == cells - 1) {
			w = std::make_unique<W>(fl);
			MC_CHECK(w->read(d) && d.value == cur, "%zu cells: after write %zu and a restart read returns %u", cells, i, d.value);
		}
	}
	if (!torn) {
		MC_CHECK(size_t(fl.erases) == (writes - 1) / cells, "%zu cells, %zu writes: erased %d times", cells, writes, fl.erases);
		for (size_t c = 0; c < cells; c++)
			MC_CHECK(fl.writes[c] == int((writes + cells - 1 - c) / cells), "%zu cells, %zu writes: cell %zu written %d times", cells, writes, c, fl.writes[c]);
	}
}
static Flash *g_fl;
template<size_t N>
struct SObj {
	using data_t = Data;
	static constexpr size_t NumCells = N;
	Flash &f;
	SObj(Flash &f)
		: f{f} {
	}
	bool read(Data *d, size_t c) {
		return f.read(*d, c);
	}
	bool write(const Data *d, size_t c) {
		return f.write(*d, c);
	}
	bool erase() {
		return f.erase();
	}
	bool is_writeable(size_t c) {
		return f.writeable(c);
	}
};
template<size_t N>
struct SStat {
	using data_t = Data;
	static constexpr size_t cell_nr_ = N;
	static bool read(Data &d, size_t c) {
		return g_fl->read(d, c);
	}
	static bool write(const Data &d, size_t c) {
		return g_fl->write(d, c);
	}
	static bool erase() {
		return g_fl->erase();
	}
	static bool is_writeable(size_t c) {
		return g_fl->writeable(c);
	}
};
template<size_t N>
struct WStat {
	WearLevel<SStat<N>> w;
	static WearLevel<SStat<N>> mk(Flash &f) {
		g_fl = &f;
		return {};
	}
	WStat(Flash &f)
		: w{mk(f)} {
	}
	bool read(Data &d) {
		return w.read(d);
	}
	bool write(const Data &d) {
		return w.write(d);
	}
};
template<size_t N>
void reg(std::vector<size_t> ws) {
	mc::Reg(mc::fmt("leveler%zu", N), [=](mc::Job &j) { j.sweep(0, ws.size() * 3, [&](uint64_t x) { run<WearLeveler<SObj<N>>>(N, ws[x / 3], x % 3 ? x % 3 * 37 : 0); return true; }); });
	mc::Reg(mc::fmt("level%zu", N), [=](mc::Job &j) { j.sweep(0, ws.size() * 3, [&](uint64_t x) { run<WStat<N>>(N, ws[x / 3], x % 3 ? x % 3 * 37 : 0); return true; }); });
}
// a long run of writes that fail, each in one way, then the storage works again
template<class W>
void failing_run(size_t cells, size_t good, size_t bad, int kind, bool restart) {
	Flash fl(cells);
	auto w = std::make_unique<W>(fl);
	bool failing = false;
	fl.on_write = [&](const Data &d, size_t c) {
		if (!failing) {
			fl.program(c, d);
			return true;
		}
		if (kind)
			fl.program(c, d, ~0u, 0); // torn
		return kind == 2;
	};
	Data d;
	for (size_t i = 1; i <= good; i++)
		MC_CHECK(w->write(Data::make(uint32_t(i))), "%zu cells: write %zu failed", cells, i);
	auto check = [&](const char *when) {
		auto want = fl.newest();
		d = Data::make(999999);
		bool ok = w->read(d);
		MC_CHECK(ok == want.has_value() && (!ok || d.value == *want), "%zu cells, %zu writes, then %zu that %s, %s: read %s %u, the newest intact value is %d", cells, good, bad,
				 kind == 0 ? "fail" : kind == 1 ? "fail torn" : "are torn unnoticed", when, ok ? "gives" : "finds nothing", d.value, want ? int(*want) : -1);
	};
	for (int round = 0; round < 2; round++) {
		failing = true;
		for (size_t i = 1; i <= bad; i++) {
			bool ok = w->write(Data::make(uint32_t(1000 + i)));
			MC_CHECK(ok == (kind == 2), "%zu cells: a write that failed is reported as done, or the reverse", cells);
			if (i == bad || i % 16 <= 1)
				check("before a restart");
		}
		failing = false;
		if (restart) {
			w = std::make_unique<W>(fl);
			check("after a restart");
		}
		MC_CHECK(w->write(Data::make(uint32_t(5000 + round))), "%zu cells: write after %zu failures is refused", cells, bad);
		MC_CHECK(w->read(d) && d.value == uint32_t(5000 + round), "%zu cells: value written after %zu failures does not read back", cells, bad);
		w = std::make_unique<W>(fl);
		MC_CHECK(w->read(d) && d.value == uint32_t(5000 + round), "%zu cells: value written after %zu failures does not survive a restart", cells, bad);
	}
}
template<size_t N>
void reg_runs() {
	mc::Reg(mc::fmt("failing-runs%zu", N), [](mc::Job &j) {
		j.note(mc::fmt("failing-runs%zu: after 0, 1, half and nearly all of a block, every number of failing writes up to past the block's end (fail, fail torn, torn unnoticed), with and without a restart", N));
		static const size_t G[] = {0, 1, N / 2, N - 2};
		j.sweep(0, (N + 3) * 4 * 6, [](uint64_t x) {
			size_t bad = x / 24, good = G[x % 4];
			int kind = int(x / 4 % 3);
			failing_run<WearLeveler<SObj<N>>>(N, good, bad, kind, x / 12 % 2);
			failing_run<WStat<N>>(N, good, bad, kind, x / 12 % 2);
			return bad > 0;
		});
	});
}
static int init = [] {
	reg_runs<20>();
	reg_runs<40>();
	reg_runs<70>();
	reg_runs<260>();
	reg<255>({254, 255, 256, 511, 600});
	reg<256>({255, 256, 257, 513, 600});
	reg<300>({255, 256, 257, 299, 300, 301, 700});
	return 0;
}();

#elif BIG == 7
#include "util/doublebuf_stream.hh"
template<class T, size_t N>
void stream(size_t chunk, size_t n_done) {
	std::vector<T> sent, acc;
	bool busy = false;
	size_t waiting = 0, active = 0;
	auto s = std::make_unique<DoubleBufferStream<T, N>>([&](std::span<T> d) {
		MC_CHECK(!busy, "start while busy");
		busy = true;
		active = d.size();
		sent.insert(sent.end(), d.begin(), d.end());
		return true;
	});
	uint64_t ser = 0;
	std::vector<T> w(chunk);
	for (int k = 0; k < 40; k++) {
		for (auto &x : w)
			x = T(++ser * 40503u >> 3);
		bool fits = busy ? waiting + chunk <= N : chunk <= N;
		bool was = busy;
		bool r = s->transmit(w);
		MC_CHECK(r == fits, "chunk of %zu with %zu waiting in a buffer of %zu: %s", chunk, waiting, N, r ? "accepted" : "refused");
		if (r) {
			acc.insert(acc.end(), w.begin(), w.end());
			if (was)
				waiting += chunk;
		}
		if (k % n_done == n_done - 1) {
			MC_CHECK(busy || !fits, "nothing in progress");
			bool b = busy;
			busy = false;
			if (b) {
				size_t before = sent.size();
				s->tx_done_callback();
				MC_CHECK(sent.size() - before == waiting, "%zu elements were waiting, %zu sent", waiting, sent.size() - before);
				waiting = 0;
			}
		}
	}
	while (busy) {
		busy = false;
		s->tx_done_callback();
	}
	MC_CHECK(sent == acc, "sent elements differ from accepted ones (%zu / %zu)", sent.size(), acc.size());
}
static int init = [] {
	mc::Reg("u32.300", [](mc::Job &j) { j.sweep(1, 302 * 4, [](uint64_t x) { stream<uint32_t, 300>(x / 4 + (x < 4), x % 4 + 1); return true; }); });
	mc::Reg("u8.256", [](mc::Job &j) { j.sweep(4, 258 * 4, [](uint64_t x) { stream<uint8_t, 256>(x / 4, x % 4 + 1); return true; }); });
	mc::Reg("u16.70000", [](mc::Job &j) {
		static const size_t c[] = {1, 255, 256, 257, 32768, 35000, 65535, 65536, 65537, 69999, 70000, 70001};
		j.sweep(0, 12 * 4, [](uint64_t x) { stream<uint16_t, 70000>(c[x / 4], x % 4 + 1); return true; });
	});
	return 0;
}();

#elif BIG == 8
#include "util/circular_buffer.hh"
#include "util/circular_buffer_opt.hh"
template<class B>
void lap(B &b, size_t cap, size_t fill) {
	uint32_t W = 0, R = 0;
	auto chk = [&] {
		size_t n = W - R;
		MC_CHECK(b.count() == n && b.num_filled() == n && b.empty() == (n == 0) && b.full() == (n == cap), "capacity %zu, %zu held: count %zu empty %d full %d", cap, n, b.count(), b.empty(), b.full());
		MC_CHECK(b.get_head_idx() == W % cap && b.get_tail_idx() == R % cap && b.max_size() == cap && b.max_capacity() == cap, "capacity %zu: head %zu expected %zu, tail %zu expected %zu", cap,
				 size_t(b.get_head_idx()), W % cap, size_t(b.get_tail_idx()), R % cap);
		if constexpr (requires { b.first(); }) {
			if (n) {
				MC_CHECK(b.first() == R * 7919u, "first() is wrong");
				for (size_t i : {size_t(0), n / 2, n - 1})
					MC_CHECK(b.peek(i) == (R + i) * 7919u, "peek(%zu) of %zu is wrong", i, n);
			}
		}
	};
	auto put = [&] {
		b.put(W++ * 7919u);
		if (W - R > cap)
			R++;
	};
	auto get = [&] {
		uint32_t x;
		auto r = b.get();
		if constexpr (requires { r.value(); })
			x = r.value();
		else
			x = r;
		MC_CHECK(x == R * 7919u, "capacity %zu: element %u came out wrong", cap, R);
		R++;
	};
	chk();
	while (W < fill) {
		put();
		chk();
	}
	for (size_t i = 0; i < cap + 3; i++) {
		put(); // overwrites if full
		if (fill < cap) {
			if (i & 1)
				get();
			else {
				b.remove_first();
				R++;
			}
		}
		chk();
	}
	while (R < W) {
		get();
		chk();
	}
}
template<size_t N>
void reg(bool every) {
	mc::Reg(mc::fmt("rings%zu", N), [=](mc::Job &j) {
		auto lv = every ? all_levels(N) : levels(N);
		j.sweep(0, lv.size(), [&](uint64_t i) {
			auto p = std::make_unique<CircularBuffer<uint32_t, N>>();
			lap(*p, N, lv[i]);
			auto o = std::make_unique<CircularBufferOpt<uint32_t, N>>();
			lap(*o, N, lv[i]);
			auto place = [&](auto &b) { // emptied by the lap: announce that many elements at once
				size_t t = b.get_tail_idx(), k = lv[i] % N;
				b.fill_buffer(77u);
				b.set_head((t + k) % N);
				MC_CHECK(b.count() == k && b.empty() == (k == 0) && !b.full() && b.get_head_idx() == (t + k) % N, "capacity %zu: head moved %zu ahead: count %zu", N, k, b.count());
				b.put(5);
				for (size_t x = 0; x <= k; x++) {
					auto r = b.get();
					uint32_t v;
					if constexpr (requires { r.value(); })
						v = r.value();
					else
						v = r;
					MC_CHECK(v == (x < k ? 77u : 5u), "capacity %zu: head moved %zu ahead: element %zu is %u", N, k, x, v);
				}
				MC_CHECK(b.empty(), "capacity %zu: not empty after draining", N);
			};
			place(*p);
			place(*o);
			return true;
		});
	});
}
static int init = [] {
	reg<128>(true);
	reg<256>(true);
	reg<512>(true);
	reg<32768>(false);
	reg<65536>(false);
	reg<131072>(false);
	return 0;
}();

#elif BIG == 9
#include "util/circular_buffer_block.hh"
#include "util/circular_buffer_ext.hh"
static void access_one(size_t sz, size_t wr0, size_t rd0, size_t n) {
	std::vector<int> mem(sz), m;
	for (size_t i = 0; i < sz; i++)
		mem[i] = int(i * 31 + 7);
	m = mem;
	CircularBufferAccess<std::vector<int>> b(mem, wr0);
	b.rd_pos(rd0);
	MC_CHECK(b.size() == sz && b.wr_pos() == wr0 && b.rd_pos() == rd0, "size or positions");
	size_t wr = wr0, rd = rd0;
	for (int op = 0; op < 4; op++) {
		std::vector<int> blk(n), want;
		for (size_t i = 0; i < n; i++)
			blk[i] = int(1000000 + op * 7 + i);
		bool wrapped = false, got;
		auto fwd = [&](size_t &p) {
			if (++p == sz)
				p = 0, wrapped = true;
		};
		auto back = [&](size_t &p) {
			if (p-- == 0)
				p = sz - 1, wrapped = true;
		};
		if (op == 0)
			for (size_t i = 0; i < n; i++) {
				m[wr] = blk[i];
				fwd(wr);
			}
		if (op == 1)
			for (size_t i = 0; i < n; i++) {
				want.push_back(m[rd]);
				fwd(rd);
			}
		if (op == 2)
			for (size_t i = 0; i < n; i++) {
				m[wr] = blk[i];
				back(wr);
			}
		if (op == 3)
			for (size_t i = 0; i < n; i++) {
				want.push_back(m[rd]);
				back(rd);
			}
		got = op == 0 ? b.write(blk) : op == 1 ? b.read(blk) : op == 2 ? b.write_reverse(blk) : b.read_reverse(blk);
		MC_CHECK(got == wrapped && b.wr_pos() == wr && b.rd_pos() == rd && mem == m, "size %zu, block %zu, operation %d: wrapped %d/%d, positions %zu %zu expected %zu %zu, memory %s", sz, n, op, got,
				 wrapped, b.wr_pos(), b.rd_pos(), wr, rd, mem == m ? "right" : "wrong");
		if (op == 1 || op == 3)
			MC_CHECK(blk == want, "size %zu, block %zu: wrong data read", sz, n);
	}
}
template<size_t N>
void block(bool every) {
	mc::Reg(mc::fmt("block%zu", N), [=](mc::Job &j) {
		auto lv = levels(N);
		auto st = every ? all_levels(N) : lv;
		j.sweep(0, lv.size() * st.size(), [&](uint64_t x) {
			size_t n = lv[x % lv.size()], start = st[x / lv.size()];
			auto b = std::make_unique<CircularBufferBlock<int, N>>();
			std::vector<int> m(N), blk(n);
			for (unsigned base : {0u, unsigned(N), unsigned(5 * N), 0x80000000u})
				if (base + start >= base) {
					for (size_t i = 0; i < n; i++) {
						blk[i] = int(base / 3 + i + 1);
						m[(start + i) % N] = blk[i];
					}
					b->write(blk, unsigned(base + start));
					MC_CHECK(std::equal(m.begin(), m.end(), b->data.begin()), "ring of %zu: block of %zu at %zu lands wrong", N, n, base + start);
				}
			return n > 0;
		});
	});
}
static int init = [] {
	for (size_t sz : {size_t(255), size_t(256), size_t(257), size_t(300)})
		mc::Reg(mc::fmt("access%zu", sz), [=](mc::Job &j) {
			auto lv = levels(sz);
			j.sweep(0, lv.size() * lv.size() * (sz + 2), [&](uint64_t x) {
				size_t a = lv[x % lv.size()], b = lv[x / lv.size() % lv.size()];
				access_one(sz, a % sz, b % sz, x / (lv.size() * lv.size()));
				return true;
			});
		});
	mc::Reg("access70000", [](mc::Job &j) {
		auto lv = levels(70000);
		j.sweep(0, lv.size() * lv.size(), [&](uint64_t x) {
			access_one(70000, lv[x % lv.size()] % 70000, lv[lv.size() - 1 - x % lv.size()] % 70000, lv[x / lv.size()]);
			return true;
		});
	});
	block<256>(true);
	block<512>(true);
	block<32768>(false);
	block<65536>(false);
	block<131072>(false);
	return 0;
}();

#elif BIG == 10
#include "util/circular_stack.hh"
template<int N>
void reg(bool every) {
	mc::Reg(mc::fmt("stack%d", N), [=](mc::Job &j) {
		auto lv = every ? all_levels(N) : levels(N);
		j.sweep(0, lv.size() * 3, [&](uint64_t x) {
			size_t pops = lv[x / 3];
			auto s = std::make_unique<CircularStack<int, N>>();
			std::deque<int> m;
			int ser = 0;
			auto chk = [&] {
				auto b = s->back();
				MC_CHECK(s->size() == m.size() && s->empty() == m.empty() && b.has_value() == !m.empty() && (!b || *b == m.back()), "capacity %d: size %zu expected %zu, or wrong top", N, s->size(), m.size());
			};
			auto push = [&] {
				s->push_back(++ser);
				m.push_back(ser);
				if (m.size() > size_t(N))
					m.pop_front();
				chk();
			};
			auto pop = [&] {
				if (ser & 1) {
					auto r = s->pop_back();
					MC_CHECK(r.has_value() == !m.empty() && (!r || *r == m.back()), "pop_back wrong");
				} else
					MC_CHECK(s->pop_back_or_zero() == (m.empty() ? 0 : m.back()), "pop_back_or_zero wrong");
				if (!m.empty())
					m.pop_back();
				chk();
			};
			for (size_t i = 0; i < N + (x % 3) * (N / 3); i++)
				push();
			for (size_t i = 0; i < pops; i++)
				pop();
			for (size_t i = 0; i < pops / 2 + 1; i++)
				push();
			while (!m.empty())
				pop();
			pop();
			return true;
		});
	});
}
static int init = [] {
	reg<128>(true);
	reg<255>(true);
	reg<256>(true);
	reg<300>(true);
	reg<32768>(false);
	reg<65536>(false);
	reg<70000>(false);
	return 0;
}();

#elif BIG == 11
#include "util/fixed_vector.hh"
template<class T, size_t N>
void reg(bool every) {
	mc::Reg(mc::fmt("vector%zu.%zu", sizeof(T), N), [=](mc::Job &j) {
		auto fl = levels(N);
		auto pos = every ? all_levels(N) : levels(N);
		j.sweep(0, fl.size() * pos.size(), [&](uint64_t x) {
			size_t fill = fl[x % fl.size()], p = pos[x / fl.size()];
			auto v = std::make_unique<FixedVector<T, N>>();
			std::vector<T> m;
			auto chk = [&](const char *what) {
				MC_CHECK(v->size() == m.size() && v->available() == N - m.size() && size_t(v->end() - v->begin()) == m.size() && std::equal(m.begin(), m.end(), v->begin()),
						 "capacity %zu, fill %zu, %s at %zu: size %zu expected %zu, or wrong contents", N, fill, what, p, v->size(), m.size());
				MC_CHECK(m.empty() || v->back() == m.back(), "back()");
				const auto &cv = *v;
				MC_CHECK(cv.max_size() == N && cv.span().size() == m.size() && v->span().size() == m.size() && size_t(cv.end() - cv.begin()) == m.size(), "capacity %zu, %s at %zu: span or bounds", N, what, p);
				for (size_t k : {p, m.size() - 1})
					if (k < m.size())
						MC_CHECK(cv[k] == m[k] && (*v)[k] == m[k] && &cv[k] == &(*v)[k] && cv.span().data() + k == &cv[k], "capacity %zu, %s at %zu: element %zu", N, what, p, k);
			};
			for (size_t i = 0; i < fill; i++) {
				MC_CHECK(v->push_back(T(i * 40503u + 1)), "push_back refused");
				m.push_back(T(i * 40503u + 1));
			}
			chk("push_back");
			if (fill == N) {
				MC_CHECK(!v->push_back(T(1)) && v->push_back_for_overwrite() == N, "push_back into a full vector");
				chk("push_back");
			}
			v->insert(unsigned(p), T(77));
			if (m.size() < N && p <= m.size())
				m.insert(m.begin() + p, T(77));
			chk("insert");
			v->erase(unsigned(p));
			if (p < m.size())
				m.erase(m.begin() + p);
			chk("erase");
			if (p <= m.size()) {
				for (size_t cnt : {size_t(1), size_t(255), size_t(256), m.size() - p})
					if (p + cnt <= m.size()) {
						v->erase(v->begin() + p, v->begin() + p + cnt);
						m.erase(m.begin() + p, m.begin() + p + cnt);
						chk("range erase");
					}
			}
			bool r = v->resize(p, T(9));
			MC_CHECK(r, "resize to %zu refused", p);
			m.resize(p, T(9));
			chk("resize");
			MC_CHECK(!v->resize(N + 1 + p, T(5)), "resize past the capacity accepted");
			m.resize(N, T(5));
			chk("resize past the capacity");
			MC_CHECK(v->pop_back() == m.back(), "pop_back");
			m.pop_back();
			chk("pop_back");
			MC_CHECK(v->push_back_for_overwrite() == N - 1, "push_back_for_overwrite"); // the element's value is whatever was there
			v->clear();
			m.clear();
			chk("clear");
			MC_CHECK(v->resize_for_overwrite(N) && v->size() == N && !v->resize_for_overwrite(N + 1) && v->size() == N, "resize_for_overwrite");
			return true;
		});
	});
}
static int init = [] {
	reg<uint8_t, 255>(true);
	reg<uint32_t, 256>(true);
	reg<uint16_t, 300>(true);
	reg<uint16_t, 65536>(false);
	reg<uint8_t, 32768>(false);
	reg<uint16_t, 70000>(false);
	return 0;
}();

#elif BIG == 12
#include "util/seq_map.hh"
#include "util/sequential_map.hh"
template<size_t N>
void reg() {
	mc::Reg(mc::fmt("seqmap%zu", N), [](mc::Job &j) {
		j.sweep(0, N + 20, [](uint64_t x) {
			auto q = std::make_unique<SeqMap<uint32_t, int, N>>();
			for (size_t i = 0; i < N; i++)
				MC_CHECK(q->insert(uint32_t(i * 65536 + 1), int(i)), "insert %zu of %zu refused", i, N);
			MC_CHECK(!q->insert(5, 5) && q->size() == N, "insert into a full map");
			for (size_t i = 0; i < N; i++) {
				auto p = q->get(uint32_t(i * 65536 + 1));
				MC_CHECK(p && *p == int(i), "key %zu of %zu lost", i, N);
			}
			MC_CHECK(!q->get(uint32_t(N * 65536 + 1)) && !q->key_exists(uint32_t(N * 65536 + 1)), "absent key found");
			if (x < N) {
				MC_CHECK(q->remove(uint32_t(x * 65536 + 1)) && !q->remove(uint32_t(x * 65536 + 1)), "remove");
				MC_CHECK(q->size() == N - 1, "size after remove");
				for (size_t i = 0; i < N; i++) {
					auto p = q->get(uint32_t(i * 65536 + 1));
					MC_CHECK((p != nullptr) == (i != x) && (!p || *p == int(i)), "key %zu of %zu wrong after key %zu was removed", i, N, size_t(x));
				}
			} else {
				size_t n = (x - N) * N / 6;
				for (size_t i = 0; i < n; i++)
					q->overwrite(uint32_t(i * 65536 + 2), int(i));
				for (size_t i = 0; i < n; i++)
					MC_CHECK(q->key_exists(uint32_t(i * 65536 + 2)) == (i + N >= n), "key %zu after %zu overwrites in a map of %zu", i, n, N);
				for (size_t i = 0; i < N; i++)
					MC_CHECK(q->key_exists(uint32_t(i * 65536 + 1)) == (i >= n), "original key %zu after %zu overwrites", i, n);
			}
			return true;
		});
	});
	mc::Reg(mc::fmt("sequential%zu", N), [](mc::Job &j) {
		j.sweep(0, N, [](uint64_t x) {
			auto q = std::make_unique<SequentialMap<uint32_t, int, N>>();
			for (size_t i = 0; i < N; i++) {
				if (i & 1)
					(*q)[uint32_t(i * 65536 + 1)] = int(i);
				else {
					auto r = q->insert({uint32_t(i * 65536 + 1), int(i)});
					MC_CHECK(r.second && r.first->second == int(i), "insert %zu", i);
				}
			}
			const auto &cq = *q;
			MC_CHECK(cq[uint32_t(x * 65536 + 1)] == int(x) && cq.max_size() == N && size_t(cq.end() - cq.begin()) == N && cq.find(uint32_t(x * 65536 + 1)) == cq.begin() + x, "const access to key %zu", size_t(x));
			MC_CHECK(q->is_full() && q->size() == N && !q->insert({5, 5}).second, "full map");
			MC_CHECK(q->erase(uint32_t(x * 65536 + 1)) == 1 && q->erase(uint32_t(x * 65536 + 1)) == 0, "erase");
			for (size_t i = 0; i < N; i++) {
				auto it = q->find(uint32_t(i * 65536 + 1));
				MC_CHECK((it != q->end()) == (i != x) && q->contains(uint32_t(i * 65536 + 1)) == (i != x) && (i == x || it->second == int(i)), "key %zu of %zu wrong after key %zu was erased", i, N, size_t(x));
			}
			return true;
		});
	});
}
static int init = [] {
	reg<255>();
	reg<256>();
	reg<300>();
	return 0;
}();

#elif BIG == 13
#include "util/pool.hh"
#include "util/thread_safe_pool.hh"
template<size_t N>
void reg() {
	mc::Reg(mc::fmt("pools%zu", N), [](mc::Job &j) {
		j.sweep(0, N, [](uint64_t x) {
#ifndef ONLY_TS
			{
				auto p = std::make_unique<cpputil::Pool<int, N>>();
				std::vector<int *> own;
				for (size_t i = 0; i < N; i++) {
					auto q = i & 1 ? p->create() : p->create_for_overwrite();
					MC_CHECK(q, "create %zu of %zu failed", i, N);
					*q = int(i + 1);
					own.push_back(q);
				}
				MC_CHECK(!p->create() && !p->create_for_overwrite(), "create from a full pool");
				auto s = own;
				std::sort(s.begin(), s.end());
				MC_CHECK(std::unique(s.begin(), s.end()) == s.end(), "an object was handed out twice");
				for (size_t i = 0; i < N; i++)
					MC_CHECK(*own[i] == int(i + 1), "object %zu changed", i);
				MC_CHECK(p->destroy(own[x]) && !p->destroy(own[x]), "destroy");
				auto q = p->create();
				MC_CHECK(q == own[x] && *q == 0 && !p->create(), "recycled object");
				for (auto o : own)
					MC_CHECK(p->destroy(o), "destroy");
			}
#endif
			{
				auto p = std::make_unique<cpputil::ThreadSafePool<int, N>>();
				p->clear();
				std::vector<bool> seen(N);
				for (size_t i = 0; i < N; i++) {
					auto r = p->create();
					MC_CHECK(r && *r < N && !seen[*r], "create %zu of %zu", i, N);
					seen[*r] = true;
					(*p)[*r] = int(i);
				}
				MC_CHECK(!p->create() && p->is_used(x), "create from a full pool");
				MC_CHECK(p->destroy(x) && !p->destroy(x) && !p->is_used(x), "destroy(%zu)", size_t(x));
				for (size_t i = 0; i < N; i++)
					MC_CHECK(p->is_used(i) == (i != x), "slot %zu", i);
				auto r = p->create();
				MC_CHECK(r && *r == x, "recycled slot");
				MC_CHECK(p->size() == N, "size() is %zu, expected %zu", size_t(p->size()), N);
				MC_CHECK(!p->destroy(N) && !p->destroy(N + 256) && !p->destroy(N + 65536) && !p->is_used(N), "index outside the pool");
				if (x % 16 == 0) {
					p->clear();
					for (size_t i = 0; i < N; i++)
						MC_CHECK(!p->is_used(i) && (*p)[i] == 0, "slot %zu after clear", i);
				}
			}
			return true;
		});
	});
}
static int init = [] {
	reg<255>();
	reg<256>();
	reg<300>();
	mc::Reg("pools66000", [](mc::Job &j) {
		if (!j.quick)
			j.note("pools66000: a thread-safe pool of 66000 slots filled completely once");
		bool full = !j.quick;
		j.sweep(0, 1, [=](uint64_t) {
			constexpr size_t N = 66000;
			auto p = std::make_unique<cpputil::ThreadSafePool<int, N>>();
			p->clear();
			MC_CHECK(p->size() == N, "size() is %zu, expected %zu", size_t(p->size()), N);
			MC_CHECK(!p->is_used(65999) && !p->destroy(65999) && !p->destroy(N), "a slot of the empty pool is used");
			std::vector<bool> seen(N);
			for (size_t i = 0; i < (full ? N : 300); i++) {
				auto r = p->create();
				MC_CHECK(r && *r < N && p->is_used(*r) && !seen[*r], "create %zu", i);
				seen[*r] = true;
				if (i % 100 == 0)
					for (size_t k = 0; k < N; k += 1024)
						MC_CHECK(p->is_used(k) == seen[k], "after %zu creations slot %zu: used %d", i + 1, k, p->is_used(k));
			}
			if (full)
				MC_CHECK(!p->create() && p->destroy(N - 1) && *p->create() == N - 1, "full pool");
			return true;
		});
	});
	return 0;
}();

#elif BIG == 15
#include "util/static_string.hh"
template<size_t N>
void one(size_t len) {
	struct G {
		char a[8];
		StaticString<N> s;
		char b[8];
	};
	auto g = std::make_unique<G>();
	std::string t(len, 'a');
	for (size_t i = 0; i < len; i++)
		t[i] = char('a' + i % 23);
	std::string want = t.substr(0, N);
	auto chk = [&](const StaticString<N> &s, const char *what) {
		MC_CHECK(s.length() == want.size() && s.size() == want.size() && s.available() == N - want.size() && std::string(s.c_str()) == want && std::string_view(s) == want && size_t(s.end() - s.begin()) == want.size(),
				 "capacity %zu: %s of %zu characters gives length %zu", N, what, len, s.length());
		MC_CHECK(s.is_equal(want.c_str()), "not equal to its text");
		std::string other = want + "x";
		MC_CHECK(!s.is_equal(other.c_str()), "equal to a longer text");
		if (!want.empty()) {
			other = want;
			other.back() = '!';
			MC_CHECK(!s.is_equal(other.c_str()) && !(s == StaticString<N>(other.c_str())), "equal to a different text");
		}
		for (auto c : g->a)
			MC_CHECK(c == 0x55, "write in front");
		for (auto c : g->b)
			MC_CHECK(c == 0x55, "write behind");
	};
	memset((void *)g.get(), 0x55, sizeof *g);
	new (&g->s) StaticString<N>(t.c_str());
	chk(g->s, "construction");
	memset((void *)g.get(), 0x55, sizeof *g);
	g->s.copy(std::string_view(t));
	chk(g->s, "copy of a view");
	memset((void *)g.get(), 0x55, sizeof *g);
	g->s.copy(t.c_str());
	chk(g->s, "copy");
	auto big = std::make_unique<StaticString<N + 50>>(t.c_str());
	g->s.copy(*big);
	chk(g->s, "copy of a longer string");
	MC_CHECK((g->s == *big) == (len <= N), "comparison with a string of other capacity");
	g->s.clear();
	MC_CHECK(g->s.length() == 0 && g->s.available() == N, "clear");
}
static int init = [] {
	mc::Reg("cap31", [](mc::Job &j) { j.sweep(0, 100, [](uint64_t n) { one<31>(n); return true; }); });
	mc::Reg("cap127", [](mc::Job &j) { j.sweep(0, 300, [](uint64_t n) { one<127>(n); return true; }); });
	mc::Reg("cap255", [](mc::Job &j) { j.sweep(0, 300, [](uint64_t n) { one<255>(n); return true; }); });
	mc::Reg("cap256", [](mc::Job &j) { j.sweep(0, 600, [](uint64_t n) { one<256>(n); return true; }); });
	mc::Reg("cap300", [](mc::Job &j) { j.sweep(0, 600, [](uint64_t n) { one<300>(n); return true; }); });
	mc::Reg("cap70000", [](mc::Job &j) { j.sweep(65000, 66000, [](uint64_t n) { one<70000>(n + (n >= 65800) * 4100); return true; }); });
	return 0;
}();

#elif BIG == 16
#include "util/input_output_buffer.hh"
template<size_t N>
void reg(bool every) {
	mc::Reg(mc::fmt("buffers%zu", N), [=](mc::Job &j) {
		auto lv = every ? all_levels(N) : levels(N);
		j.sweep(0, lv.size(), [&](uint64_t x) {
			size_t n = lv[x];
			auto in = std::make_unique<InputBuffer<uint32_t, N>>();
			auto out = std::make_unique<OutputBuffer<uint32_t, N>>();
			for (int round = 0; round < 2; round++) {
				MC_CHECK(in->size() == N && out->size() == N && size_t(in->end() - in->begin()) == N && size_t(out->end() - out->begin()) == N, "size");
				for (size_t i = 0; i < n; i++) {
					MC_CHECK(!in->full(), "full after %zu of %zu", i, N);
					in->put(uint32_t(i * 3 + 1 + round));
				}
				for (size_t i = 0; i < n; i++)
					MC_CHECK(in->data()[i] == i * 3 + 1 + round, "sample %zu lost", i);
				MC_CHECK(in->full() == (n == N), "full");
				if (n == N) {
					in->put(9999999);
					MC_CHECK(in->data()[0] == 1u + round && in->data()[N - 1] == (N - 1) * 3 + 1 + round, "put into a full buffer changed it");
				}
				in->reset();
				for (size_t i = 0; i < N; i++)
					out->data()[i] = uint32_t(i * 5 + 2 + round);
				for (size_t i = 0; i < n; i++) {
					MC_CHECK(!out->full(), "depleted after %zu of %zu", i, N);
					MC_CHECK(out->get() == i * 5 + 2 + round, "sample %zu wrong", i);
				}
				MC_CHECK(out->full() == (n == N), "depleted");
				if (n == N)
					MC_CHECK(out->get() == 0 && out->get() == 0, "sample from a depleted buffer");
				out->reset();
			}
			return true;
		});
	});
}
static int init = [] {
	reg<255>(true);
	reg<256>(true);
	reg<257>(true);
	reg<300>(true);
	reg<32768>(false);
	reg<65535>(false);
	reg<65536>(false);
	reg<70000>(false);
	return 0;
}();

#elif BIG == 17 || BIG == 19
#include "cbf.hh"
template<class S>
void one(size_t len, bool nested) {
	using K = uint16_t;
	std::vector<uint8_t> raw(len);
	for (size_t i = 0; i < len; i++)
		raw[i] = uint8_t(i * 7 + 3);
	std::span<const uint8_t> rs{raw};
	auto entry = [&](K k, const std::vector<uint8_t> &p) {
		std::vector<uint8_t> r = cbf::le(k, sizeof(K));
		cbf::cat(r, cbf::le(p.size(), sizeof(S)));
		cbf::cat(r, p);
		return r;
	};
	std::vector<uint8_t> ref;
	cbf::cat(ref, entry(0x101, {1}));
	auto inner = entry(0x202, raw);
	cbf::cat(inner, entry(0x303, {9, 9}));
	if (nested)
		cbf::cat(ref, entry(0x404, inner));
	else
		cbf::cat(ref, inner);
	cbf::cat(ref, entry(0x505, {8, 7, 6, 5}));
	auto d = [&](auto &s) {
		s.field(K(0x101), uint8_t(1));
		if (nested)
			s.object(K(0x404), [&](auto &s) {
				s.raw(K(0x202), rs);
				s.field(K(0x303), uint16_t(0x0909));
			});
		else {
			s.raw(K(0x202), rs);
			s.field(K(0x303), uint16_t(0x0909));
		}
		s.field(K(0x505), uint32_t(0x05060708));
	};
	using Ser = CompactBinarySerializer<K, S>;
	for (size_t n : {ref.size(), ref.size() + 5, ref.size() - 3, ref.size() / 2, size_t(256)}) {
		if (BIG == 17 && n != ref.size())
			continue;
		size_t m = std::min(n, ref.size());
		cbf::Block a{n}, b{n};
		CompactBinaryWriter<K, S> w{a.span()};
		w.field(K(0x101), uint8_t(1));
		if (nested)
			w.begin_object(K(0x404));
		w.raw(K(0x202), rs);
		w.field(K(0x303), uint16_t(0x0909));
		if (nested)
			w.end_object();
		w.field(K(0x505), uint32_t(0x05060708));
		MC_CHECK(w.size() == ref.size() && Ser::serialize(b.span(), d) == ref.size(), "raw data of %zu bytes into a buffer of %zu: reported size wrong", len, n);
		for (size_t i = 0; i < n; i++) {
			uint8_t e = i < m ? ref[i] : 0xC3;
			MC_CHECK(a.p[i] == e && b.p[i] == e, "raw data of %zu bytes into a buffer of %zu: byte %zu is %02x (writer) %02x (serializer), expected %02x", len, n, i, a.p[i], b.p[i], e);
		}
		if (n == ref.size()) {
			CompactBinaryParser<K, S> p{b.span()};
			auto f = p.template get<uint32_t>(0x505);
			MC_CHECK(f && *f == 0x05060708, "the field behind %zu bytes of raw data is not found", len);
			auto q = nested ? CompactBinaryParser<K, S>{p.get_node(0x404)} : p;
			auto node = q.get_node(0x202);
			MC_CHECK(node.size() == len && std::equal(raw.begin(), raw.end(), node.begin()) && q.get_size(0x202) == len, "raw data of %zu bytes read back as %zu", len, node.size());
			auto g = q.template get<uint16_t>(0x303);
			MC_CHECK(g && *g == 0x0909, "the field behind %zu bytes of raw data is not found", len);
		}
	}
	size_t got = 0;
	bool same = true;
	auto r = Ser::stream(d, [&](std::span<const uint8_t> x) {
		for (auto c : x) {
			same &= got < ref.size() && ref[got] == c;
			got++;
		}
	});
	MC_CHECK(r == ref.size() && got == ref.size() && same && Ser::measure(d) == ref.size(), "raw data of %zu bytes streamed: reported %zu, sent %zu, expected %zu", len, r, got, ref.size());
}
// objects positioned behind a lot of data
static void far(size_t len, bool deep) {
	using K = uint16_t;
	std::vector<uint8_t> raw(len, 0x3C);
	std::vector<uint8_t> ref;
	auto put = [&](size_t v, size_t n) { cbf::cat(ref, cbf::le(v, n)); };
	put(0x101, 2), put(len, 4), cbf::cat(ref, raw);
	put(0x202, 2), put(deep ? 2 + 4 + 6 + 8 : 8, 4);
	if (deep)
		put(0x303, 2), put(8, 4), put(0x404, 2), put(2, 4), put(0x0506, 2), put(0x505, 2), put(0, 4);
	else
		put(0x404, 2), put(2, 4), put(0x0506, 2);
	put(0x606, 2), put(1, 4), put(7, 1);
	cbf::Block a{ref.size()}, b{ref.size()};
	CompactBinaryWriter<K, uint32_t> w{a.span()};
	w.raw(0x101, raw);
	w.begin_object(0x202);
	if (deep)
		w.begin_object(0x303);
	w.field(0x404, uint16_t(0x0506));
	if (deep) {
		w.end_object();
		w.raw(0x505, {});
	}
	w.end_object();
	w.field(0x606, uint8_t(7));
	auto d = [&](auto &s) {
		s.raw(K(0x101), raw);
		s.object(K(0x202), [&](auto &s) {
			auto in = [](auto &s) { s.field(K(0x404), uint16_t(0x0506)); };
			if (deep) {
				s.object(K(0x303), in);
				s.raw(K(0x505), {});
			} else
				in(s);
		});
		s.field(K(0x606), uint8_t(7));
	};
	auto n = CompactBinarySerializer<K, uint32_t>::serialize(b.span(), d);
	MC_CHECK(w.size() == ref.size() && n == ref.size(), "an object behind %zu bytes: reported size wrong", len);
	for (size_t i = 0; i < ref.size(); i++)
		MC_CHECK(a.p[i] == ref[i] && b.p[i] == ref[i], "an object behind %zu bytes: byte %zu is %02x (writer) %02x (serializer), expected %02x", len, i, a.p[i], b.p[i], ref[i]);
	CompactBinaryParser<K, uint32_t> p{a.span()};
	CompactBinaryParser<K, uint32_t> q{p.get_node(0x202)};
	CompactBinaryParser<K, uint32_t> r{deep ? q.get_node(0x303) : p.get_node(0x202)};
	auto v = r.template get<uint16_t>(0x404);
	MC_CHECK(v && *v == 0x0506, "an object behind %zu bytes is not read back", len);
}
// the classes as they come, without naming the type of the size
template<class K>
static void defaults(size_t len) {
	std::vector<uint8_t> raw(len);
	for (size_t i = 0; i < len; i++)
		raw[i] = uint8_t(i * 5 + 1);
	cbf::Block a{len + 40}, b{len + 40};
	CompactBinaryWriter<K> w{a.span()};
	w.begin_object(K(1));
	w.raw(K(2), raw);
	w.field(K(3), uint16_t(0x1234));
	w.end_object();
	w.field(K(4), uint8_t(9));
	auto d = [&](auto &s) {
		s.object(K(1), [&](auto &s) {
			s.raw(K(2), raw);
			s.field(K(3), uint16_t(0x1234));
		});
		s.field(K(4), uint8_t(9));
	};
	auto n = CompactBinarySerializer<K>::serialize(b.span(), d);
	MC_CHECK(n == w.size() && n <= len + 40 && !memcmp(a.p.get(), b.p.get(), n), "writer and serializer with their default size type disagree on %zu bytes of raw data", len);
	CompactBinaryParser<K> p{a.span().first(n)};
	CompactBinaryParser<K> q{p.get_node(K(1))};
	auto node = q.get_node(K(2));
	auto f = q.template get<uint16_t>(K(3));
	auto g = p.template get<uint8_t>(K(4));
	MC_CHECK(node.size() == len && std::equal(raw.begin(), raw.end(), node.begin()) && f && *f == 0x1234 && g && *g == 9, "%zu bytes written with the default size type do not read back", len);
}
static int init = [] {
	mc::Reg("raw.u8", [](mc::Job &j) { j.sweep(0, 2 * 256, [](uint64_t x) { if (x / 2 + 9 < 256 || !(x & 1)) one<uint8_t>(x / 2, x & 1); return true; }); });
	mc::Reg("raw.i8", [](mc::Job &j) { j.sweep(0, 2 * 128, [](uint64_t x) { if (x / 2 + 9 < 128 || !(x & 1)) one<int8_t>(x / 2, x & 1); return true; }); });
	mc::Reg("raw.u16", [](mc::Job &j) { j.sweep(0, 2 * 900, [](uint64_t x) { size_t n = x / 2; one<uint16_t>(n < 600 ? n : 65535 - 10 - (n - 600), x & 1); return true; }); });
	mc::Reg("raw.i16", [](mc::Job &j) { j.sweep(0, 2 * 600, [](uint64_t x) { size_t n = x / 2; one<int16_t>(n < 400 ? n : 32767 - 10 - (n - 400), x & 1); return true; }); });
	mc::Reg("raw.u32", [](mc::Job &j) { j.sweep(0, 2 * 900, [](uint64_t x) { size_t n = x / 2; one<uint32_t>(n < 600 ? n : 65000 + (n - 600) * 4, x & 1); return true; }); });
	mc::Reg("raw.u64", [](mc::Job &j) { j.sweep(0, 2 * 700, [](uint64_t x) { size_t n = x / 2; one<uint64_t>(n < 600 ? n : 65500 + (n - 600), x & 1); return true; }); });
	// many entries: every key is found behind all the others
	mc::Reg("far", [](mc::Job &j) { j.sweep(0, 1200, [](uint64_t x) { far(65536 - 300 + x / 2, x & 1); return true; }); });
	mc::Reg("defaults", [](mc::Job &j) {
		j.sweep(0, 8, [](uint64_t x) {
			const size_t len[] = {0, 1, 200, 255, 256, 300, 1000, 65000};
			defaults<uint8_t>(len[x]);
			defaults<uint16_t>(len[x]);
			defaults<uint32_t>(len[x]);
			return true;
		});
	});
	mc::Reg("many", [](mc::Job &j) {
		j.sweep(1, 700, [](uint64_t n) {
			cbf::Block b{n * 6};
			CompactBinaryWriter<uint16_t, uint16_t> w{b.span()};
			auto key = [](size_t i) { return uint16_t(i * 257 + 5); };
			for (size_t i = 0; i < n; i++)
				w.field(key(i), uint16_t(i ^ 0x55AA));
			auto d = [&](auto &s) {
				for (size_t i = 0; i < n; i++)
					s.field(key(i), uint16_t(i ^ 0x55AA));
			};
			cbf::Block c{n * 6};
			using Ser = CompactBinarySerializer<uint16_t, uint16_t>;
			MC_CHECK(w.size() == n * 6 && Ser::serialize(c.span(), d) == n * 6 && !memcmp(b.p.get(), c.p.get(), n * 6), "%zu entries written wrong", size_t(n));
			CompactBinaryParser<uint16_t, uint16_t> p{b.span()};
			for (size_t i = n > 40 ? n - 40 : 0; i < n; i++) {
				size_t first = i % 65536;
				auto v = p.get<uint16_t>(key(first));
				MC_CHECK(v && *v == uint16_t(first ^ 0x55AA), "entry %zu of %zu not found", i, size_t(n));
			}
			MC_CHECK(!p.get<uint16_t>(uint16_t(7)), "absent key found");
			return true;
		});
	});
	return 0;
}();

#elif BIG == 20
#include "util/int_to_str.hh"
static int init = [] {
	// buffers far larger than any number: only the text and its terminator are written
	mc::Reg("large-buffers", [](mc::Job &j) {
		static const size_t sizes[] = {127, 128, 129, 254, 255, 256, 257, 258, 266, 267, 268, 300, 511, 512, 513, 32768, 65535, 65536, 65537, 65540, 65547, 65548, 131072};
		static const int32_t vals[] = {0, 1, -1, 9, 10, -10, 99, 100, 12345, -12345, 65535, 65536, 1000000, INT32_MAX, INT32_MIN, INT32_MIN + 1};
		j.sweep(0, 23 * 16 * 2, [](uint64_t x) {
			size_t n = sizes[x / 32];
			int32_t v = vals[x / 2 % 16];
			std::vector<char> b(n, 0x7F);
			std::string want = std::to_string(v);
			if (x & 1)
				int_to_str_chop(v, b);
			else
				MC_CHECK(int_to_str(v, b), "int_to_str(%d) refused a buffer of %zu", v, n);
			MC_CHECK(!memcmp(b.data(), want.c_str(), want.size() + 1), "%d into %zu characters gives '%.*s'", v, n, 14, b.data());
			for (size_t i = want.size() + 1; i < n; i++)
				MC_CHECK(b[i] == 0x7F, "%d into %zu characters: character %zu written", v, n, i);
			return true;
		});
	});
	return 0;
}();

#elif BIG == 21
#include "util/print.hh"
static std::string out;
static void sink(const char c) {
	out += c;
}
static int init = [] {
	mc::Reg("long-texts", [](mc::Job &j) {
		j.sweep(0, 900, [](uint64_t x) {
			size_t n = x < 700 ? x : 65400 + (x - 700);
			std::string t(n, ' ');
			for (size_t i = 0; i < n; i++)
				t[i] = char(1 + i % 255);
			out.clear();
			print<sink>(t.c_str());
			MC_CHECK(out == t, "text of %zu characters: %zu printed, or different ones", n, out.size());
			out.clear();
			std::string z = t;
			if (n > 3)
				z[n / 2] = 0; // a view may hold zeros
			print<sink>("<", std::string_view(z), int32_t(-7), Hex{0xBEEF}, ">");
			MC_CHECK(out == "<" + z + "-7BEEF>", "view of %zu characters printed wrong", n);
			return n > 0;
		});
	});
	return 0;
}();

#elif BIG == 23
#include "util/contains_word.hh"
#include "util/string_compare.hh"
#include "util/string_util.hh"
static std::string rep(const std::string &s, const std::string &f, const std::string &r) {
	std::string o;
	for (size_t i = 0; i < s.size();) {
		if (s.compare(i, f.size(), f) == 0) {
			o += r;
			i += f.size();
		} else
			o += s[i++];
	}
	return o;
}
static int init = [] {
	mc::Reg("long-texts", [](mc::Job &j) {
		j.sweep(0, 600, [](uint64_t x) {
			size_t n = x < 500 ? x : 65300 + (x - 500) * 5;
			std::string t(n, 'x');
			for (size_t i = 0; i < n; i++)
				t[i] = "ab,aab cA"[i * 7 % 9];
			for (auto [f, r] : {std::pair<std::string, std::string>{"a", "aa"}, {"aa", "a"}, {"ab", ""}, {"b,", ",,b,"}, {" ", "_"}}) {
				ReplaceString s{t};
				MC_CHECK(&s.replace_all(f, r) == &s && s.str == rep(t, f, r), "replacing '%s' with '%s' in %zu characters", f.c_str(), r.c_str(), n);
			}
			std::vector<std::string> tok, want;
			tokenize_string(t, tok, ", ");
			std::string cur;
			for (char c : t + ",") {
				if (c == ',' || c == ' ') {
					if (!cur.empty())
						want.push_back(cur);
					cur.clear();
				} else
					cur += c;
			}
			MC_CHECK(tok == want, "%zu characters split into %zu parts, expected %zu", n, tok.size(), want.size());
			std::string u = t;
			for (auto &c : u)
				c = char(toupper(c));
			MC_CHECK(equal_ci(t, u) && !less_ci(t, u) && !less_ci(u, t) && less_ci(t, u + "a") && !equal_ci(t, u + "a"), "comparison of %zu characters", n);
			for (size_t more : {size_t(255), size_t(256), size_t(257), size_t(512), size_t(65536)}) {
				std::string v = t + std::string(more, 'a');
				MC_CHECK(!equal_ci(t, v) && !equal_ci(v, t) && less_ci(t, v) && !less_ci(v, t), "comparison of %zu characters with %zu more", n, more);
			}
			if (n) {
				u.back() = '~';
				MC_CHECK(!equal_ci(t, u) && less_ci(t, u), "comparison of %zu characters differing in the last", n);
			}
			std::string w = std::string(n, 'q');
			MC_CHECK(contains_word(w + " Zed", "zEd") && contains_word("zed " + w, "Zed") && contains_word(w + " zed " + w, "ZED") && contains_word(w, w), "word next to %zu characters not found", n);
			if (n)
				MC_CHECK(!contains_word(w + "zed " + w, "zed") && !contains_word(w + " zed" + w, "zed") && !contains_word(w, "zed"), "word found inside another next to %zu characters", n);
			return n > 0;
		});
	});
	return 0;
}();

#elif BIG == 26
#include "util/interp_array.hh"
#include "util/lookup_table.hh"
template<unsigned N>
void reg() {
	mc::Reg(mc::fmt("array%u", N), [](mc::Job &j) {
		auto a = std::make_shared<InterpArray<double, N, double>>();
		for (unsigned i = 0; i < N; i++)
			a->data[i] = double(i * 48271u % 10007);
		auto p = std::make_shared<std::array<float, N>>();
		for (unsigned i = 0; i < N; i++)
			(*p)[i] = float(i * 48271u % 1009);
		auto t = std::make_shared<LookupTable<N, float>>(0.f, float(N - 1), *p);
		j.sweep(0, N, [&](uint64_t i) {
			unsigned k = unsigned(i), k1 = (k + 1) % N;
			for (int f = 0; f < 4; f++) {
				double ph = f / 4.0, want = a->data[k1] * ph + a->data[k] * (1 - ph);
				for (int turn = -2; turn <= 2; turn++) {
					double got = a->interp_by_index_wrap(k + ph + turn * double(N));
					MC_CHECK(std::abs(got - want) < 1e-6, "size %u: interp_by_index_wrap(%g) is %g, expected %g", N, k + ph + turn * double(N), got, want);
				}
				if (k + 1 < N || f == 0) {
					MC_CHECK(std::abs(a->interp_by_index(k + ph) - want) < 1e-6, "size %u: interp_by_index(%g)", N, k + ph);
					float w = float((*p)[k1] * ph + (*p)[k] * (1 - ph));
					MC_CHECK(std::abs((*t)(float(k + ph)) - w) <= 4.f + 0 * N, "size %u: lookup(%g) is %g, expected %g", N, k + ph, double((*t)(float(k + ph))), double(w));
					if (N <= 1024)
						MC_CHECK(std::abs((*t)(float(k + ph)) - w) <= .1f, "size %u: lookup(%g) is %g, expected %g", N, k + ph, double((*t)(float(k + ph))), double(w));
				}
			}
			a->set(k, a->get(k));
			MC_CHECK((*a)[k] == a->data[k] && a->get(k) == a->data[k], "element %u", k);
			return true;
		});
		MC_CHECK((*t)(-1.f) == p->front() && (*t)(float(N + 5)) == p->back(), "clamping");
	});
}
static int init = [] {
	reg<255>();
	reg<256>();
	reg<257>();
	reg<300>();
	reg<1024>();
	reg<65536>();
	reg<65537>();
	reg<70000>();
	return 0;
}();

#elif BIG == 28
#include "util/filter.hh"
template<unsigned N, class T, unsigned Bits>
void reg(const char *name) {
	mc::Reg(name, [=](mc::Job &j) {
		const unsigned top = unsigned((1ull << Bits) - 1);
		// pattern x switch-over point
		j.sweep(0, 5 * 8, [&](uint64_t x) {
			auto f = std::make_unique<MovingAverage<N, T, Bits>>();
			auto o = std::make_unique<Oversampler<N, T, Bits>>();
			auto s = std::make_unique<SmoothOversampler<N, T, Bits>>();
			ResizingOversampler rz{N};
			std::deque<uint64_t> win(N, 0);
			uint64_t sum = 0, acc = 0, cnt = 0, ov = 0;
			double sv = 0;
			size_t change = (x / 5) * N / 4 + 1;
			for (size_t i = 0; i < 3 * size_t(N); i++) {
				uint64_t v;
				switch (x % 5) {
					case 0: v = i < change ? top : 0; break;
					case 1: v = i < change ? 0 : top; break;
					case 2: v = i % 2 ? top : 0; break;
					case 3: v = (i * 2654435761u >> 7) & top; break;
					default: v = i == change ? 1 : 0;
				}
				sum += v - win.front();
				win.pop_front();
				win.push_back(v);
				acc += v;
				if (++cnt == N) {
					ov = acc / N;
					sv = double(float(acc) / float(N));
					acc = cnt = 0;
				}
				T a = f->add_val(T(v)), b = o->add_val(T(v));
				float c = s->add_val(T(v)), d = rz.add_val(float(v));
				MC_CHECK(uint64_t(a) == sum / N && f->val() == a, "moving average of %u: after %zu inputs %llu, expected %llu", N, i + 1, (unsigned long long)a, (unsigned long long)(sum / N));
				MC_CHECK(uint64_t(b) == ov && o->val() == b, "oversampler of %u: after %zu inputs %llu, expected %llu", N, i + 1, (unsigned long long)b, (unsigned long long)ov);
				MC_CHECK(std::abs(c - sv) <= sv * 1e-6 && s->val() == c, "smooth oversampler of %u: after %zu inputs %g, expected %g", N, i + 1, double(c), sv);
				MC_CHECK(std::abs(d - sv) <= sv * 1e-3 && rz.val() == d, "resizing oversampler of %u: after %zu inputs %g, expected %g", N, i + 1, double(d), sv);
			}
			return true;
		});
	});
}
static int init = [] {
	reg<128, uint16_t, 16>("128.16bit");
	reg<256, unsigned, 12>("256.12bit");
	reg<512, uint16_t, 12>("512.12bit");
	reg<1024, unsigned, 22>("1024.22bit");
	reg<4096, unsigned, 20>("4096.20bit");
	reg<65536, uint16_t, 16>("65536.16bit");
	return 0;
}();

#elif BIG == 29
#include "util/interp_param.hh"
template<int N>
void fixed() {
	mc::Reg(mc::fmt("fixed%d", N), [](mc::Job &j) {
		j.sweep(0, 9, [](uint64_t x) {
			InterpParam<double, N> p;
			InterpParamVar<double> v;
			InterpParamVariable<double> w{unsigned(N)};
			InterpParam<int64_t, N> ip;
			double cur = 0;
			int64_t icur = 0;
			for (double t : {1.0, -3.0, 1e6, 0.0}) {
				t *= double(x + 1);
				p.set_new_value(t);
				v.set_new_value(t, unsigned(N));
				w.set_new_value(t);
				ip.set_new_value(int64_t(t) * N);
				for (int i = 1; i <= N; i++) {
					double e = cur + (t - cur) * i / N;
					double a = p.next(), b = v.next(), c = w.next();
					int64_t k = ip.next(), ie = icur + (int64_t(t) * N - icur) / N * i;
					if (i < 300 || i > N - 300 || i % 97 == 0)
						MC_CHECK(std::abs(a - e) <= 1e-4 && std::abs(b - e) <= 1e-4 && std::abs(c - e) <= 1e-4 && k == ie, "ramp of %d steps from %g to %g: step %d gives %g %g %g, expected %g (integer %lld, expected %lld)", N, cur, t, i, a, b, c, e,
								 (long long)k, (long long)ie);
				}
				MC_CHECK(v.snap_to_target() == t && w.get_num_updates() == unsigned(N), "snap or count");
				cur = t;
				icur = int64_t(t) * N;
				w.cur_val = t;
				p.cur_val = t;
			}
			return true;
		});
	});
}
static int init = [] {
	fixed<127>();
	fixed<128>();
	fixed<255>();
	fixed<256>();
	fixed<257>();
	fixed<300>();
	fixed<32768>();
	fixed<65536>();
	fixed<70000>();
	return 0;
}();

#elif BIG == 39
#include "util/countzip.hh"
#include "util/zip.hh"
static int init = [] {
	mc::Reg("long", [](mc::Job &j) {
		j.sweep(0, 700, [](uint64_t x) {
			size_t n = x < 600 ? x : 65500 + (x - 600);
			std::vector<int> a(n), b(n + x % 3);
			std::vector<double> c(n + (x + 1) % 2);
			for (size_t i = 0; i < a.size(); i++)
				a[i] = int(i * 3);
			for (size_t i = 0; i < b.size(); i++)
				b[i] = int(i * 5);
			for (size_t i = 0; i < c.size(); i++)
				c[i] = double(i) * 7;
			size_t want = n, k = 0;
			for (auto [u, v, w] : zip(a, b, c)) {
				MC_CHECK(u == int(k * 3) && v == int(k * 5) && w == double(k) * 7 && &u == &a[k], "zip: position %zu of %zu", k, want);
				v = -1;
				k++;
			}
			MC_CHECK(k == want, "zip visited %zu positions of %zu", k, want);
			k = 0;
			for (auto [i, u, v] : countzip(a, c)) {
				MC_CHECK(size_t(i) == k && u == int(k * 3) && v == double(k) * 7, "countzip: position %zu of %zu has number %zu", k, want, size_t(i));
				k++;
			}
			MC_CHECK(k == want, "countzip visited %zu positions of %zu", k, want);
			for (size_t i = 0; i < b.size(); i++)
				MC_CHECK(b[i] == (i < n ? -1 : int(i * 5)), "write through position %zu", i);
			return n > 0;
		});
	});
	return 0;
}();

#elif BIG == 40
#include "util/partition.hh"
template<unsigned P, unsigned M, class T>
void reg() {
	mc::Reg(mc::fmt("parts%u.of%u.%zu", P, M, sizeof(T)), [](mc::Job &j) {
		j.sweep(1, 3 * (M + 3), [](uint64_t x) {
			size_t n = x / 3;
			std::vector<T> v(n);
			for (size_t i = 0; i < n; i++)
				v[i] = x % 3 == 0 ? T(1) : x % 3 == 1 ? T(i * 7 % 41) : T(i % 5 == 0 ? 97 : 1);
			auto p = std::make_unique<Partition<P, M, T>>();
			p->calc_partitions(v);
			size_t used = std::min(n, size_t(M));
			std::vector<int> seen(used);
			long mn = -1, tot[P] = {}, least[P];
			for (unsigned i = 0; i < P; i++) {
				least[i] = -1;
				for (auto id : p->parts[i]) {
					MC_CHECK(id < used, "index %u of %zu", unsigned(id), used);
					seen[id]++;
					tot[i] += long(v[id]);
					least[i] = least[i] < 0 ? long(v[id]) : std::min(least[i], long(v[id]));
				}
				mn = mn < 0 ? tot[i] : std::min(mn, tot[i]);
			}
			for (size_t i = 0; i < used; i++)
				MC_CHECK(seen[i] == 1, "element %zu of %zu is in %d parts", i, used, seen[i]);
			for (unsigned i = 0; i < P; i++)
				MC_CHECK(least[i] < 0 || tot[i] - least[i] <= mn, "%zu elements: part %u has %ld, another only %ld", used, i, tot[i], mn);
			return n > 1;
		});
	});
}
static int init = [] {
	reg<2, 255, unsigned>();
	reg<3, 256, unsigned>();
	reg<5, 300, unsigned>();
	reg<4, 300, float>();
	reg<2, 600, uint16_t>();
	return 0;
}();
#endif
