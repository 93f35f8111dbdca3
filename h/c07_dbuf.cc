// C07: double-buffered stream: every history of transmissions, completions and refusals by the hardware.
#include "mc.hh"
#include "vals.hh"
#include <span>
#include "util/doublebuf_stream.hh"
template<class T, size_t N, int K = 0> // K: elements from an alphabet of that many, in turn (0: all different)
struct Sys {
	T next() {
		serial = K ? (serial + 1) % K : serial + 1;
		if constexpr (K > 0)
			return alpha<T>(serial);
		else
			return T(serial);
	}
	std::vector<T> waiting, flying;
	bool busy = false, accept = true, expecting = false, called = false;
	std::vector<T> expect;
	const T *at = nullptr;
	DoubleBufferStream<T, N> s;
	int serial = 0;
	Sys()
		: s{[this](std::span<T> b) {
			MC_CHECK(expecting, "a transmission of %zu elements is started although %s", b.size(), busy ? "one is in progress" : "there is nothing to send");
			MC_CHECK(!called, "more than one transmission started at once");
			called = true;
			MC_CHECK(b.size() == expect.size() && std::equal(b.begin(), b.end(), expect.begin()), "transmission of %zu elements, expected the %zu elements waiting",
					 b.size(), expect.size());
			at = b.data();
			return accept;
		}} {
	}
	int nops() {
		return 2 * int(N + 1) + 2;
	}
	std::string opname(int o) {
		if (o < 2 * int(N + 1))
			return mc::fmt("transmit %d elements%s", o / 2 + 1, o & 1 ? ", hardware refuses" : "");
		return o == 2 * int(N + 1) ? "done" : "done, hardware refuses the next";
	}
	bool apply(int o) {
		accept = !(o & 1);
		expecting = called = false;
		if (o < 2 * int(N + 1)) {
			size_t len = size_t(o / 2 + 1);
			bool fits = waiting.size() + len <= N;
			if (!accept && (busy || !fits))
				return false; // the hardware is not asked
			std::vector<T> w;
			for (size_t i = 0; i < len; i++)
				w.push_back(next());
			if (!busy && fits) {
				expecting = true;
				expect = waiting;
				expect.insert(expect.end(), w.begin(), w.end());
			}
			auto copy = std::make_unique<T[]>(len);
			std::copy(w.begin(), w.end(), copy.get());
			bool r = s.transmit(std::span<T>{copy.get(), len});
			MC_CHECK(called == expecting, "no transmission started although nothing is in progress");
			MC_CHECK(r == (fits && (busy || accept)), "transmit of %zu elements with %zu of %zu waiting, %s: returned %d", len, waiting.size(), N,
					 busy ? "busy" : accept ? "idle" : "refused", r);
			if (r) {
				if (busy)
					waiting.insert(waiting.end(), w.begin(), w.end());
				else {
					flying = expect;
					waiting.clear();
					busy = true;
				}
			}
		} else {
			if (!accept && (!busy || waiting.empty()))
				return false;
			if (busy) {
				busy = false;
				flying.clear();
				if (waiting.size()) {
					expecting = true;
					expect = waiting;
				}
			}
			s.tx_done_callback();
			MC_CHECK(called == expecting, "waiting data is not sent when the transmission ends");
			if (expecting && accept) {
				busy = true;
				flying = waiting;
				waiting.clear();
			}
		}
		if (busy)
			MC_CHECK(std::equal(flying.begin(), flying.end(), at), "data being transmitted was changed");
		return true;
	}
	void key(mc::Hash &h) {
		h.u64(flying.size() * 100 + waiting.size() * 10 + busy);
		auto internals = [&](auto &x) {
			if constexpr (requires { x.in_progress_idx.value_or(7); x.tx_buffer[0].size(); }) {
				h.u64(x.in_progress_idx.value_or(7));
				for (auto &b : x.tx_buffer)
					h.u64(b.size());
			} else
				h.u64(serial); // no merging
		};
		internals(s);
		if (K) {
			h.u64(serial);
			for (auto &l : {flying, waiting})
				for (auto &x : l)
					if constexpr (std::is_same_v<T, std::string>)
						h.bytes(x.data(), x.size()), h.u64(x.size());
					else
						h.bytes(&x, sizeof x);
		}
		// otherwise element values only matter relative to each other; they are all different
	}
};
template<class T, size_t N>
void reg(const char *n) {
	mc::Reg(n, [](mc::Job &j) { j.bfs<Sys<T, N>>({.depth = j.tier(12, 20)}, [] { return std::make_unique<Sys<T, N>>(); }); });
}
static int init = [] {
	reg<uint8_t, 1>("u8.1");
	reg<uint16_t, 2>("u16.2");
	reg<uint32_t, 3>("u32.3");
	reg<uint8_t, 4>("u8.4");
	reg<uint16_t, 8>("u16.8");
	mc::Reg("values.u8.2", [](mc::Job &j) { j.bfs<Sys<uint8_t, 2, 3>>({.depth = j.tier(30, 60)}, [] { return std::make_unique<Sys<uint8_t, 2, 3>>(); }); });
	mc::Reg("values.float.3", [](mc::Job &j) { j.bfs<Sys<float, 3, 4>>({.depth = j.tier(30, 60)}, [] { return std::make_unique<Sys<float, 3, 4>>(); }); });
	mc::Reg("values.wide.3", [](mc::Job &j) { j.bfs<Sys<Wide24, 3, 2>>({.depth = j.tier(30, 60)}, [] { return std::make_unique<Sys<Wide24, 3, 2>>(); }); });
	mc::Reg("values.i64.4", [](mc::Job &j) { j.bfs<Sys<int64_t, 4, 2>>({.depth = j.tier(30, 60)}, [] { return std::make_unique<Sys<int64_t, 4, 2>>(); }); });
	mc::Reg("values.mv.3", [](mc::Job &j) { j.bfs<Sys<Mv, 3, 3>>({.depth = j.tier(30, 60)}, [] { return std::make_unique<Sys<Mv, 3, 3>>(); }); });
	mc::Reg("values.text.2", [](mc::Job &j) { j.bfs<Sys<std::string, 2, 3>>({.depth = j.tier(30, 60)}, [] { return std::make_unique<Sys<std::string, 2, 3>>(); }); });
	// full histories without merging states
	mc::Reg("histories", [](mc::Job &j) {
		j.explore({}, [&](mc::Ctx &c) {
			Sys<uint16_t, 2> s;
			for (int i = 0; i < j.tier(6, 8); i++) {
				int o = int(c.choose(s.nops() + 1)) - 1;
				if (o < 0)
					return;
				if (c.tracing)
					c.log("%s", s.opname(o).c_str());
				if (!s.apply(o))
					return;
				c.nontrivial();
			}
		});
	});
	return 0;
}();
