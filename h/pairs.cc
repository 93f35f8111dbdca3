// Non-interference: two instances of the same class, every interleaving of their calls (and, where the class can be
// copied, copies from one to the other).  What each instance shows must be what it shows when a fresh instance goes
// through that instance's own history alone: no state is shared between instances, and a copy is complete and
// independent of the original.  No reference model is needed.  One section per property, selected by -DPAIR=<number>.
#include "mc.hh"
#include <array>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <vector>

struct Out {
	std::string s;
	template<class T>
	Out &operator<<(const T &v) {
		if constexpr (std::is_convertible_v<T, std::string>)
			s += std::string(v);
		else if constexpr (std::is_floating_point_v<T>)
			s += mc::fmt("%.9g", double(v));
		else
			s += mc::fmt("%lld", (long long)(v));
		s += ' ';
		return *this;
	}
	template<class T>
	Out &opt(const std::optional<T> &v) {
		return v ? *this << *v : *this << "none";
	}
};

template<class X>
struct Spec {
	const char *name;
	std::function<X *(int which)> make;
	std::vector<std::function<void(X &, unsigned arg, Out &)>> ops;
	bool copies = true;
};

template<class X>
static void pair(Spec<X> sp, int q, int t) {
	mc::Reg(mc::fmt("pair.%s", sp.name), [=](mc::Job &j) {
		const int depth = j.tier(q, t);
		constexpr bool cc = std::is_copy_constructible_v<X>, ca = std::is_copy_assignable_v<X>;
		const int nops = int(sp.ops.size()), ncopy = sp.copies ? int(cc) + int(ca) : 0;
		j.note(mc::fmt("%s: every interleaving of %d calls (%d kinds%s) on two instances, against each instance's history replayed alone", sp.name, depth, nops,
					   ncopy ? " and copies between the instances" : ""));
		j.explore({}, [=](mc::Ctx &c) {
			struct Ev {
				int op;
				unsigned arg;
				std::string seen;
			};
			struct Inst {
				std::unique_ptr<X> x;
				int which;
				std::vector<Ev> h;
			} in[2];
			for (int i = 0; i < 2; i++) {
				in[i].which = i;
				in[i].x.reset(sp.make(i));
			}
			for (int d = 0; d < depth; d++) {
				int k = int(c.choose(d ? 2 * (nops + ncopy) : nops));
				int w = k % (nops + ncopy) == k ? 0 : 1;
				k %= nops + ncopy;
				auto &me = in[w], &other = in[1 - w];
				if (k < nops) {
					Out o;
					unsigned arg = unsigned(d) * 5 + 3;
					sp.ops[size_t(k)](*me.x, arg, o);
					c.log("%c op%d(%u): %s", 'A' + w, k, arg, o.s.c_str());
					me.h.push_back({k, arg, o.s});
				} else if (k == nops && cc) {
					c.log("%c := new copy of %c", 'A' + w, 'B' - w);
					if constexpr (cc)
						me.x = std::make_unique<X>(*other.x);
					me.h = other.h;
					me.which = other.which;
				} else {
					c.log("%c = %c", 'A' + w, 'B' - w);
					if constexpr (ca)
						*me.x = *other.x;
					me.h = other.h;
					me.which = other.which;
				}
				mc::tick();
			}
			if (in[0].h.size() && in[1].h.size())
				c.nontrivial();
			for (int w = 0; w < 2; w++) {
				std::unique_ptr<X> x(sp.make(in[w].which));
				for (auto &e : in[w].h) {
					Out o;
					sp.ops[size_t(e.op)](*x, e.arg, o);
					MC_CHECK(o.s == e.seen, "instance %c: op%d(%u) showed %sbut alone, after the same history, it shows %s", 'A' + w, e.op, e.arg, e.seen.c_str(), o.s.c_str());
				}
			}
		});
	});
}
template<class X>
static X *fresh(int) {
	return new X();
}

#if PAIR == 2
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"
template<class F>
static Spec<F> fifo(const char *n, std::function<F *(int)> mk) {
	return {n, mk,
			{[](F &f, unsigned a, Out &o) { o << f.put(a); },
			 [](F &f, unsigned, Out &o) { o.opt(f.get()); },
			 [](F &f, unsigned, Out &o) {
				 f.reset();
				 o << "reset";
			 },
			 [](F &f, unsigned, Out &o) { o << f.num_filled() << f.num_free() << f.full() << f.empty(); }}};
}
static int init = [] {
	pair(fifo<LockFreeFifoSpsc<uint32_t, 2>>("fifo", [](int w) { return w ? new LockFreeFifoSpsc<uint32_t, 2>(1) : new LockFreeFifoSpsc<uint32_t, 2>; }), 6, 8);
	auto s = fifo<LockFreeFifoSpscDyn<uint32_t>>("fifo-dyn", [](int w) { return new LockFreeFifoSpscDyn<uint32_t>(2 + w); });
	s.ops.push_back([](auto &f, unsigned a, Out &o) {
		f.resize(1 + a % 3);
		o << f.max_size();
	});
	pair(s, 6, 7);
	return 0;
}();
#endif

#if PAIR == 3 || PAIR == 13
#include "util/pool.hh"
#include "util/thread_safe_pool.hh"
using TS = cpputil::ThreadSafePool<int, 2>;
using PL = cpputil::Pool<int, 2>;
static int idx(PL &p, int *x) {
	for (int i = 0; i < 2; i++)
		if (x == &p.entries[size_t(i)].data)
			return i;
	return -1;
}
static int init = [] {
	pair(Spec<TS>{"tspool", fresh<TS>,
				  {[](TS &p, unsigned a, Out &o) {
					   auto r = p.create();
					   o << bool(r);
					   if (r)
						   p[*r] = int(a);
				   },
				   [](TS &p, unsigned, Out &o) { o << p.destroy(0); },
				   [](TS &p, unsigned, Out &o) { o << p.destroy(1); },
				   [](TS &p, unsigned, Out &o) {
					   for (size_t i = 0; i < 2; i++)
						   p.is_used(i) ? o << p[i] : o << "free";
				   },
				   [](TS &p, unsigned, Out &o) {
					   p.clear();
					   o << "clear";
				   }}},
		 6, 7);
#if PAIR == 13
	pair(Spec<PL>{"pool", fresh<PL>,
				  {[](PL &p, unsigned a, Out &o) {
					   auto r = p.create();
					   o << (r ? idx(p, r) : -2);
					   if (r) {
						   o << *r;
						   *r = int(a);
					   }
				   },
				   [](PL &p, unsigned a, Out &o) {
					   auto r = p.create_for_overwrite();
					   o << (r ? idx(p, r) : -2);
					   if (r)
						   *r = int(a);
				   },
				   [](PL &p, unsigned, Out &o) { o << p.destroy(&p.entries[0].data); },
				   [](PL &p, unsigned, Out &o) { o << p.destroy(&p.entries[1].data); },
				   [](PL &p, unsigned, Out &o) {
					   for (auto &e : p.entries)
						   e.used ? o << e.data : o << "free";
				   }}},
		 5, 6);
#endif
	return 0;
}();
#endif

#if PAIR == 4
#include "util/filtered_interp_array.hh"
struct Mem {
	float last = 0;
	float add_val(float v) {
		float r = (v + last) / 2;
		last = v;
		return r;
	}
};
using FA = FilteredInterpArray<2, Mem>;
static int init = [] {
	pair(Spec<FA>{"filtered-array",
				  [](int w) {
					  auto p = new FA();
					  p->set_num_updates(w ? 2 : 4);
					  return p;
				  },
				  {[](FA &f, unsigned, Out &o) {
					   f.mark_new_data_ready();
					   o << "mark";
				   },
				   [](FA &f, unsigned a, Out &o) {
					   f.add_new_readings([&](unsigned i) {
						   o << i;
						   return float(a + 16 * i);
					   });
				   },
				   [](FA &f, unsigned, Out &o) { f.get_interp_values([&](unsigned i, float v) { o << i << v; }); }}},
		 7, 9);
	return 0;
}();
#endif

#if PAIR == 6
#include "util/wear_level.hh"
struct Cells {
	int v[3] = {-1, -1, -1};
	int erases = 0;
};
struct Store {
	struct data_t {
		int v;
		bool validate() const {
			return v >= 0;
		}
	};
	static constexpr size_t NumCells = 3;
	Cells &c;
	Store(Cells &c)
		: c(c) {
	}
	bool read(data_t *d, size_t i) {
		d->v = c.v[i];
		return true;
	}
	bool write(const data_t *d, size_t i) {
		c.v[i] = d->v;
		return true;
	}
	bool erase() {
		for (auto &x : c.v)
			x = -1;
		c.erases++;
		return true;
	}
	bool is_writeable(size_t i) {
		return c.v[i] == -1;
	}
};
struct WL {
	Cells c;
	std::unique_ptr<WearLeveler<Store>> w;
	WL(int full) {
		if (full)
			c.v[0] = 77;
		w = std::make_unique<WearLeveler<Store>>(c);
	}
};
static int init = [] {
	pair(Spec<WL>{"wear-leveler", [](int w) { return new WL(w); },
				  {[](WL &w, unsigned a, Out &o) { o << w.w->write({int(a)}) << w.c.v[0] << w.c.v[1] << w.c.v[2] << w.c.erases; },
				   [](WL &w, unsigned, Out &o) {
					   Store::data_t d{-5};
					   bool ok = w.w->read(d);
					   o << ok;
					   if (ok)
						   o << d.v;
				   },
				   [](WL &w, unsigned, Out &o) {
					   w.w = std::make_unique<WearLeveler<Store>>(w.c);
					   o << "mount";
				   },
				   [](WL &w, unsigned, Out &o) {
					   w.c.v[1] = -2; // damage
					   o << "damage";
				   }}},
		 6, 7);
	return 0;
}();
#endif

#if PAIR == 7
#include "util/doublebuf_stream.hh"
struct DB {
	std::string sent;
	bool ok = true;
	DoubleBufferStream<uint8_t, 2> s{[this](std::span<uint8_t> d) {
		if (!ok)
			return false;
		for (auto x : d)
			sent += mc::fmt("%d,", x);
		sent += ";";
		return true;
	}};
	DB() = default;
	DB(const DB &) = delete;
	DB &operator=(const DB &) = delete;
};
static int init = [] {
	pair(Spec<DB>{"double-buffer", fresh<DB>,
				  {[](DB &d, unsigned a, Out &o) {
					   uint8_t x[1] = {uint8_t(a)};
					   o << d.s.transmit(x) << d.sent;
				   },
				   [](DB &d, unsigned a, Out &o) {
					   uint8_t x[2] = {uint8_t(a), uint8_t(a + 1)};
					   o << d.s.transmit(x) << d.sent;
				   },
				   [](DB &d, unsigned, Out &o) {
					   d.s.tx_done_callback();
					   o << d.sent;
				   },
				   [](DB &d, unsigned, Out &o) {
					   d.ok = !d.ok;
					   o << "driver";
				   }}},
		 6, 7);
	return 0;
}();
#endif

#if PAIR == 8
#include "util/circular_buffer.hh"
#include "util/circular_buffer_opt.hh"
using CB = CircularBuffer<uint32_t, 2>;
using CO = CircularBufferOpt<uint32_t, 2>;
template<class B>
static void seen(B &b, Out &o) {
	o << b.count() << b.num_filled() << b.empty() << b.full() << ((b.get_head_idx() - b.get_tail_idx()) & 1);
}
static int init = [] {
	pair(Spec<CB>{"circular", fresh<CB>,
				  {[](CB &b, unsigned a, Out &o) {
					   b.put(a);
					   seen(b, o);
				   },
				   [](CB &b, unsigned, Out &o) {
					   b.empty() ? o : o << b.first();
					   o << b.get();
					   seen(b, o);
				   },
				   [](CB &b, unsigned, Out &o) {
					   b.remove_first();
					   seen(b, o);
				   },
				   [](CB &b, unsigned, Out &o) {
					   for (size_t i = 0; i < b.count(); i++)
						   o << b.peek(i);
					   seen(b, o);
				   },
				   [](CB &b, unsigned, Out &o) {
					   b.reset();
					   seen(b, o);
				   }}},
		 5, 6);
	pair(Spec<CO>{"circular-opt", fresh<CO>,
				  {[](CO &b, unsigned a, Out &o) {
					   b.put(a);
					   seen(b, o);
				   },
				   [](CO &b, unsigned, Out &o) {
					   o.opt(b.get());
					   seen(b, o);
				   },
				   [](CO &b, unsigned, Out &o) {
					   b.remove_first();
					   seen(b, o);
				   },
				   [](CO &b, unsigned, Out &o) {
					   b.reset();
					   seen(b, o);
				   }}},
		 5, 7);
	return 0;
}();
#endif

#if PAIR == 9
#include "util/circular_buffer_block.hh"
#include "util/circular_buffer_ext.hh"
struct RA {
	std::array<int, 3> mem{};
	CircularBufferAccess<std::array<int, 3>> b;
	RA(int w)
		: b{mem, size_t(w)} {
	}
	RA(const RA &) = delete;
	RA &operator=(const RA &) = delete;
	void seen(Out &o) {
		o << b.rd_pos() << b.wr_pos();
		for (auto x : mem)
			o << x;
	}
};
using BB = CircularBufferBlock<int, 4>;
static int init = [] {
	pair(Spec<RA>{"ring-access", [](int w) { return new RA(w); },
				  {[](RA &b, unsigned a, Out &o) {
					   int x[2] = {int(a), int(a + 1)};
					   o << b.b.write(x);
					   b.seen(o);
				   },
				   [](RA &b, unsigned a, Out &o) {
					   int x[1] = {int(a)};
					   o << b.b.write_reverse(x);
					   b.seen(o);
				   },
				   [](RA &b, unsigned, Out &o) {
					   int x[2];
					   o << b.b.read(x) << x[0] << x[1];
					   b.seen(o);
				   },
				   [](RA &b, unsigned, Out &o) {
					   int x[1];
					   o << b.b.read_reverse_check_crossed(x, 1) << x[0];
					   b.seen(o);
				   },
				   [](RA &b, unsigned, Out &o) {
					   b.b.clear();
					   b.seen(o);
				   }}},
		 5, 6);
	pair(Spec<BB>{"ring-block", fresh<BB>,
				  {[](BB &b, unsigned a, Out &o) {
					   int x[3] = {int(a), int(a + 1), int(a + 2)};
					   b.write(x, a);
					   for (auto v : b.data)
						   o << v;
				   },
				   [](BB &b, unsigned a, Out &o) {
					   int x[2] = {int(a), int(a + 1)};
					   b.write(x, 3);
					   for (auto v : b.data)
						   o << v;
				   }}},
		 6, 7);
	return 0;
}();
#endif

#if PAIR == 10
#include "util/circular_stack.hh"
using CS = CircularStack<int, 2>;
static int init = [] {
	pair(Spec<CS>{"stack", [](int w) { return w ? new CS(41) : new CS(); },
				  {[](CS &s, unsigned a, Out &o) {
					   s.push_back(int(a));
					   o << s.size();
				   },
				   [](CS &s, unsigned, Out &o) { o.opt(s.pop_back()) << s.size(); },
				   [](CS &s, unsigned, Out &o) { o.opt(s.back()) << s.empty(); },
				   [](CS &s, unsigned, Out &o) { o << s.pop_back_or_zero(); },
				   [](CS &s, unsigned, Out &o) {
					   s.clear();
					   o << "clear";
				   }}},
		 5, 6);
	return 0;
}();
#endif

#if PAIR == 11
#include "util/fixed_vector.hh"
using FV = FixedVector<int, 3>;
static void seen(FV &v, Out &o) {
	o << v.size();
	for (auto x : v)
		o << x;
}
static int init = [] {
	pair(Spec<FV>{"fixed-vector", [](int w) { return w ? new FV(41, 42) : new FV(); },
				  {[](FV &v, unsigned a, Out &o) {
					   o << v.push_back(int(a));
					   seen(v, o);
				   },
				   [](FV &v, unsigned, Out &o) {
					   o << v.pop_back();
					   seen(v, o);
				   },
				   [](FV &v, unsigned a, Out &o) {
					   v.insert(0, int(a));
					   seen(v, o);
				   },
				   [](FV &v, unsigned, Out &o) {
					   v.erase(0);
					   seen(v, o);
				   },
				   [](FV &v, unsigned a, Out &o) {
					   o << v.resize(3, int(a));
					   seen(v, o);
				   }}},
		 5, 6);
	return 0;
}();
#endif

#if PAIR == 12
#include "util/seq_map.hh"
#include "util/sequential_map.hh"
using SM = SeqMap<int, int, 2>;
using QM = SequentialMap<int, int, 2>;
static int init = [] {
	auto seen = [](SM &m, Out &o) {
		o << m.size();
		for (int k = 0; k < 3; k++)
			if (auto p = m.get(k))
				o << k << *p;
	};
	pair(Spec<SM>{"seq-map", fresh<SM>,
				  {[=](SM &m, unsigned a, Out &o) {
					   auto p = m.overwrite(int(a % 3), int(a));
					   o << (p ? *p : -1);
					   seen(m, o);
				   },
				   [=](SM &m, unsigned a, Out &o) {
					   auto p = m.overwrite(1, int(a));
					   o << (p ? *p : -1);
					   seen(m, o);
				   },
				   [=](SM &m, unsigned a, Out &o) {
					   o << m.remove(int(a / 2 % 3));
					   seen(m, o);
				   },
				   [=](SM &m, unsigned, Out &o) {
					   m.remove_last();
					   seen(m, o);
				   },
				   [=](SM &m, unsigned, Out &o) { seen(m, o); }}},
		 5, 6);
	auto qseen = [](QM &m, Out &o) {
		o << m.size() << m.is_full();
		for (auto &p : m)
			o << p.first << p.second;
	};
	pair(Spec<QM>{"sequential-map", fresh<QM>,
				  {[=](QM &m, unsigned a, Out &o) {
					   if (!m.is_full())
						   m[int(a % 3)] = int(a);
					   qseen(m, o);
				   },
				   [=](QM &m, unsigned a, Out &o) {
					   o << m.insert({int(a / 2 % 3), int(a)}).second;
					   qseen(m, o);
				   },
				   [=](QM &m, unsigned a, Out &o) {
					   o << m.erase(int(a % 2));
					   qseen(m, o);
				   },
				   [=](QM &m, unsigned, Out &o) {
					   for (int k = 0; k < 3; k++)
						   o << m.contains(k) << static_cast<const QM &>(m)[k];
				   }}},
		 5, 6);
	return 0;
}();
#endif

#if PAIR == 14
#include "util/big_buffer.hh"
#include "util/monotonic_allocator.hh"
struct MA {
	std::vector<uint8_t> mem;
	MonotonicAllocator a;
	MA(int w)
		: mem(size_t(6 + w))
		, a{mem} {
	}
};
struct BB {
	BigBuffer<std::array<int, 2>> b;
	BB() {
		b[0] = b[1] = 0;
	}
};
static int init = [] {
	auto seen = [](MA &m, Out &o) { o << m.a.free_space() << m.a.total_size(); };
	pair(Spec<MA>{"monotonic", [](int w) { return new MA(w); },
				  {[=](MA &m, unsigned a, Out &o) {
					   auto p = m.a.allocate(1 + a % 3);
					   o << (p ? p - m.mem.data() : -1);
					   seen(m, o);
				   },
				   [=](MA &m, unsigned, Out &o) {
					   auto p = m.a.allocate(1);
					   o << (p ? p - m.mem.data() : -1);
					   seen(m, o);
				   },
				   [=](MA &m, unsigned, Out &o) {
					   m.a.reset();
					   seen(m, o);
				   },
				   [=](MA &m, unsigned, Out &o) { seen(m, o); }},
				  false},
		 6, 8);
	pair(Spec<BB>{"big-buffer", fresh<BB>,
				  {[=](BB &m, unsigned a, Out &o) {
					   m.b[a % 2] = int(a);
					   o << m.b[0] << m.b.get()[1];
				   },
				   [=](BB &m, unsigned, Out &o) { o << m.b.get()[0] << m.b[1]; }},
				  false},
		 7, 8);
	return 0;
}();
#endif

#if PAIR == 15
#include "util/static_string.hh"
using SS = StaticString<3>;
static int init = [] {
	auto seen = [](SS &s, Out &o) { o << s.c_str() << s.length() << s.available(); };
	pair(Spec<SS>{"static-string", [](int w) { return w ? new SS("xy") : new SS(); },
				  {[=](SS &s, unsigned a, Out &o) {
					   s.copy(std::string_view(mc::fmt("%u", a * 37)));
					   seen(s, o);
				   },
				   [=](SS &s, unsigned a, Out &o) {
					   s.copy(mc::fmt("%u", a).c_str());
					   seen(s, o);
				   },
				   [=](SS &s, unsigned, Out &o) {
					   s.clear();
					   seen(s, o);
				   },
				   [=](SS &s, unsigned, Out &o) { seen(s, o); }}},
		 5, 6);
	return 0;
}();
#endif

#if PAIR == 16
#include "util/input_output_buffer.hh"
using IB = InputBuffer<int, 2>;
using OB = OutputBuffer<int, 2>;
static int init = [] {
	pair(Spec<IB>{"input-buffer", fresh<IB>,
				  {[](IB &b, unsigned a, Out &o) {
					   b.put(int(a));
					   o << b.full();
				   },
				   [](IB &b, unsigned, Out &o) {
					   for (auto x : b)
						   o << x;
				   },
				   [](IB &b, unsigned, Out &o) {
					   b.reset();
					   o << b.full();
				   }}},
		 6, 7);
	pair(Spec<OB>{"output-buffer", fresh<OB>,
				  {[](OB &b, unsigned a, Out &o) {
					   b.data()[a % 2] = int(a);
					   o << b.full();
				   },
				   [](OB &b, unsigned, Out &o) { o << b.get() << b.full(); },
				   [](OB &b, unsigned, Out &o) {
					   b.reset();
					   o << b.full();
				   }}},
		 6, 7);
	return 0;
}();
#endif

#if PAIR == 17
#include "util/compact_binary_writer.hh"
struct W {
	std::array<uint8_t, 24> mem{};
	CompactBinaryWriter<uint8_t, uint8_t, 3> w{mem};
	W() = default;
	W(const W &) = delete;
	W &operator=(const W &) = delete;
	void seen(Out &o) {
		o << w.size();
		for (auto x : mem)
			o << x;
	}
};
static int init = [] {
	pair(Spec<W>{"writer", fresh<W>,
				 {[](W &w, unsigned a, Out &o) {
					  w.w.field(uint8_t(a), uint8_t(a + 1));
					  w.seen(o);
				  },
				  [](W &w, unsigned a, Out &o) {
					  w.w.begin_object(uint8_t(a));
					  w.seen(o);
				  },
				  [](W &w, unsigned, Out &o) {
					  w.w.end_object();
					  w.seen(o);
				  }}},
		 6, 7);
	return 0;
}();
#endif

#if PAIR == 23
#include "util/string_util.hh"
static int init = [] {
	using R = ReplaceString;
	pair(Spec<R>{"replace-string", [](int w) { return new R(w ? "aab" : "aba"); },
				 {[](R &r, unsigned, Out &o) { o << r.replace_all("a", "bc").str; },
				  [](R &r, unsigned, Out &o) { o << r.replace_all("b", "").str; },
				  [](R &r, unsigned, Out &o) { o << r.replace_all("c", "a").str; }}},
		 5, 6);
	return 0;
}();
#endif

#if PAIR == 26
#include "util/interp_array.hh"
#include "util/lookup_table.hh"
static int init = [] {
	using L = LookupTable<3>;
	auto at = [](float x) { return [x](L &l, unsigned, Out &o) { o << l.lookup(x) << l(x + .25f); }; };
	Spec<L> s{"lookup-table", [](int w) { return w ? new L(0.f, 4.f, {5.f, 1.f, 3.f}) : new L(-1.f, 1.f, {0.f, 2.f, 8.f}); }, {at(-2.f), at(-.5f), at(.25f), at(1.f), at(3.5f), at(9.f)}};
	pair(s, 4, 5);
	using I = InterpArray<float, 3>;
	pair(Spec<I>{"interp-array",
				 [](int w) {
					 auto p = new I();
					 for (unsigned i = 0; i < 3; i++)
						 p->set(i, float(i * 4 + unsigned(w)));
					 return p;
				 },
				 {[](I &l, unsigned a, Out &o) {
					  l.set(a % 3, float(a));
					  o << l.get(a % 3);
				  },
				  [](I &l, unsigned a, Out &o) {
					  l[(a + 1) % 3] = float(a);
					  o << l.closest(.5f);
				  },
				  [](I &l, unsigned, Out &o) { o << l.interp(.25f) << l.interp_wrap(.9f) << l.interp_by_index(1.5f) << l.closest_wrap(1.5f); }}},
		 5, 6);
	return 0;
}();
#endif

#if PAIR == 27
#include "util/oscs.hh"
template<class T>
static void osc(const char *n, std::vector<std::function<void(T &, unsigned, Out &)>> extra = {}) {
	Spec<T> s{n, [](int w) { return w ? new T(7000) : new T(); },
			  {[](T &x, unsigned, Out &o) { o << x.process(); },
			   [](T &x, unsigned a, Out &o) {
				   x.set_frequency(uint32_t(a * 500));
				   o << "freq";
			   },
			   [](T &x, unsigned a, Out &o) {
				   x.set_phase(a * 0x11223344u);
				   o << x.val();
			   }}};
	for (auto &e : extra)
		s.ops.push_back(e);
	pair(s, 5, 6);
}
static int init = [] {
	osc<TriangleOscillator<48000>>("triangle", {[](auto &x, unsigned a, Out &o) {
									   x.set_period_ms(a);
									   o << x.process_float();
								   }});
	osc<PhaseAccum<48000>>("ramp");
	osc<SineOscillator<48000>>("sine");
	using D = DownCounter<1000>;
	pair(Spec<D>{"down-counter", fresh<D>,
				 {[](D &x, unsigned, Out &o) {
					  x.update();
					  o << x.val();
				  },
				  [](D &x, unsigned a, Out &o) {
					  x.set_period_ms(float(a));
					  o << x.val();
				  },
				  [](D &x, unsigned a, Out &o) {
					  x.set_phase(a << 20);
					  o << x.val();
				  },
				  [](D &x, unsigned, Out &o) {
					  x.reset();
					  o << x.val();
				  }}},
		 5, 6);
	using O = OneShot;
	pair(Spec<O>{"one-shot", [](int w) { return w ? new O(100.f) : new O(1000.f); },
				 {[](O &x, unsigned, Out &o) { o << x.update(); },
				  [](O &x, unsigned, Out &o) {
					  x.start(.002f);
					  o << "start";
				  },
				  [](O &x, unsigned, Out &o) {
					  x.start(.02f);
					  o << "start";
				  },
				  [](O &x, unsigned a, Out &o) {
					  x.set_update_rate_hz(a & 1 ? 500.f : 2000.f);
					  o << "rate";
				  },
				  [](O &x, unsigned, Out &o) {
					  x.stop();
					  o << "stop";
				  }}},
		 5, 6);
	return 0;
}();
#endif

#if PAIR == 28
#include <algorithm>
#include <cmath>
#include "util/filter.hh"
template<class F>
static void filt(const char *n, std::vector<std::function<void(F &, unsigned, Out &)>> extra = {}) {
	Spec<F> s{n, fresh<F>,
			  {[](F &f, unsigned a, Out &o) { o << f.add_val(a * 16); },
			   [](F &f, unsigned a, Out &o) { o << f.add_val(1000 - a); },
			   [](F &f, unsigned, Out &o) { o << f.val(); }}};
	for (auto &e : extra)
		s.ops.push_back(e);
	pair(s, extra.size() ? 5 : 6, extra.size() ? 6 : 7);
}
static int init = [] {
	filt<MovingAverage<2>>("moving-average");
	filt<Oversampler<2>>("oversampler");
	filt<SmoothOversampler<3>>("smooth-oversampler");
	using R = ResizingOversampler;
	filt<R>("resizing", {[](R &f, unsigned a, Out &o) {
							 f.set_size(1 + a % 3);
							 o << f.val();
						 },
						 [](R &f, unsigned, Out &o) {
							 f.reset();
							 o << f.val();
						 }});
	filt<HysteresisFilter<30, 1>>("hysteresis");
	filt<QuadraticOnePoleLp<4096>>("quadratic");
	filt<NoFilter<unsigned>>("none");
	filt<CascadingFilter<unsigned, Oversampler<2>, MovingAverage<2>>>("cascade");
	return 0;
}();
#endif

#if PAIR == 29
#include "util/interp_param.hh"
static int init = [] {
	using F = InterpParam<float, 4>;
	pair(Spec<F>{"fixed", fresh<F>,
				 {[](F &p, unsigned a, Out &o) {
					  p.set_new_value(float(a));
					  o << p.get_step_size() << p.cur_val;
				  },
				  [](F &p, unsigned, Out &o) { o << p.next(); },
				  [](F &p, unsigned, Out &o) { o << p.cur_val << p.get_step_size(); }}},
		 6, 7);
	using V = InterpParamVar<float>;
	pair(Spec<V>{"var", fresh<V>,
				 {[](V &p, unsigned a, Out &o) {
					  p.set_new_value(float(a), 1 + a % 4);
					  o << p.get_step_size();
				  },
				  [](V &p, unsigned, Out &o) { o << p.next(); },
				  [](V &p, unsigned, Out &o) { o << p.snap_to_target(); }}},
		 6, 7);
	using L = InterpParamVariable<float>;
	pair(Spec<L>{"variable", [](int w) { return new L(unsigned(w) + 2); },
				 {[](L &p, unsigned a, Out &o) {
					  p.set_new_value(float(a));
					  o << p.get_step_size() << p.target_val;
				  },
				  [](L &p, unsigned, Out &o) { o << p.next(); },
				  [](L &p, unsigned a, Out &o) {
					  p.set_num_updates(1 + a % 4);
					  o << p.get_num_updates();
				  }}},
		 6, 7);
	return 0;
}();
#endif

#if PAIR == 30
#include "util/calibrator.hh"
#include "util/voct_calibrator.hh"
static int init = [] {
	using C = Calibrator;
	pair(Spec<C>{"calibrator", [](int w) { return w ? new C(2.f, .5f) : new C(); },
				 {[](C &c, unsigned a, Out &o) {
					  c.calibrate_chan(0.f, 4.f, float(a) / 8, 3.f + float(a));
					  o << c.slope() << c.offset();
				  },
				  [](C &c, unsigned a, Out &o) {
					  c.set_slope_offset(float(a), 1.f);
					  o << c.slope() << c.offset();
				  },
				  [](C &c, unsigned a, Out &o) { o << c.adjust(float(a)) << c.reverse_calibrate(2.f); }}},
		 5, 6);
	using V = VoctCalibrator<float>;
	pair(Spec<V>{"voct", fresh<V>,
				 {[](V &v, unsigned a, Out &o) {
					  v.record_measurement(V::C2, float(a));
					  o << v.slope() << v.offset();
				  },
				  [](V &v, unsigned a, Out &o) {
					  v.record_measurement(V::C4, 10.f + 2.f * float(a));
					  o << v.slope() << v.offset();
				  },
				  [](V &v, unsigned a, Out &o) {
					  v.record_measurement(V::C0, float(a) / 4);
					  o << v.slope() << v.offset();
				  },
				  [](V &v, unsigned, Out &o) {
					  v.reset();
					  o << v.slope() << v.offset();
				  }}},
		 5, 6);
	return 0;
}();
#endif

#if PAIR == 33
#include "util/analyzed_signal.hh"
#include "util/schmitt_trigger.hh"
static int init = [] {
	using S = cpputil::SchmittTrigger;
	auto p = [](float x) {
		return [x](S &s, unsigned, Out &o) {
			s.process(x);
			o << s.is_high();
		};
	};
	pair(Spec<S>{"schmitt", [](int w) { return w ? new S(.1f, .9f) : new S(); }, {p(.05f), p(.3f), p(.7f), p(.95f), [](S &s, unsigned, Out &o) { o << s.just_went_high() << s.just_went_low(); }}}, 5, 6);
	using R = cpputil::RisingSchmittTrigger;
	auto r = [](float x) { return [x](R &s, unsigned, Out &o) { o << s.update(x); }; };
	pair(Spec<R>{"rising-schmitt", [](int w) { return w ? new R(.1f, .9f) : new R(); }, {r(.05f), r(.3f), r(.7f), r(.95f)}}, 5, 6);
	using A = AnalyzedSig;
	pair(Spec<A>{"analyzed", [](int w) { return new A(w ? .5f : .25f); },
				 {[](A &s, unsigned a, Out &o) {
					  s.update(float(a));
					  o << s.min << s.max << s.avg << s.iir;
				  },
				  [](A &s, unsigned a, Out &o) {
					  s.update(-float(a));
					  o << s.min << s.max << s.avg << s.iir;
				  },
				  [](A &s, unsigned a, Out &o) {
					  s.reset_to(float(a));
					  o << s.min << s.max << s.avg << s.iir;
				  },
				  [](A &s, unsigned, Out &o) { o << s.min << s.max << s.avg << s.iir; }}},
		 5, 6);
	using P = PeakMeter<int>;
	pair(Spec<P>{"peak", fresh<P>,
				 {[](P &s, unsigned a, Out &o) {
					  s.update(int(a));
					  o << s.min << s.max;
				  },
				  [](P &s, unsigned a, Out &o) {
					  s.update(-int(a));
					  o << s.min << s.max;
				  },
				  [](P &s, unsigned, Out &o) {
					  s.reset();
					  o << s.min << s.max;
				  },
				  [](P &s, unsigned, Out &o) { o << s.min << s.max; }}},
		 5, 6);
	return 0;
}();
#endif

#if PAIR == 34
#include "util/debouncer.hh"
#include "util/debouncer_compact.hh"
template<class T>
static void tog(const char *n, int q, int t, std::vector<std::function<void(T &, unsigned, Out &)>> extra) {
	Spec<T> s{n, fresh<T>,
			  {[](T &x, unsigned, Out &o) {
				   x.register_state(1);
				   o << x.is_high();
			   },
			   [](T &x, unsigned, Out &o) {
				   x.register_state(0);
				   o << x.is_high();
			   },
			   [](T &x, unsigned, Out &o) { o << x.is_just_pressed() << x.is_just_released() << x.is_pressed(); }}};
	for (auto &e : extra)
		s.ops.push_back(e);
	pair(s, q, t);
}
template<class T>
static std::vector<std::function<void(T &, unsigned, Out &)>> more() {
	return {[](T &x, unsigned, Out &o) {
		x.reset();
		o << x.is_high();
	}};
}
static int init = [] {
	tog<Toggler>("toggler", 5, 6, more<Toggler>());
	tog<TogglerCompact>("toggler-compact", 5, 6, more<TogglerCompact>());
	tog<TogglerCounter>("toggler-counter", 5, 6, {[](auto &x, unsigned, Out &o) { o << x.steady_state_count(); }});
	using D = Debouncer<1, 6, 7>;
	tog<D>("debouncer", 6, 7, {});
	using DC = DebouncerCounter<1, 6, 7>;
	tog<DC>("debouncer-counter", 5, 6, {[](auto &x, unsigned, Out &o) { o << x.steady_state_ctr; }});
	return 0;
}();
#endif

#if PAIR == 35
#include "util/change_detector.hh"
#include "util/edge_detector.hh"
#include "util/poll_change.hh"
#include "util/poll_event.hh"
static int init = [] {
	using E = EdgeStateDetector;
	auto e = [](bool v) {
		return [v](E &s, unsigned, Out &o) {
			s.update(v);
			o << s.changed() << s.went_high() << s.went_low() << s.is_high() << s.staying_high() << s.staying_low();
		};
	};
	pair(Spec<E>{"edge-state", fresh<E>, {e(false), e(true), [](E &s, unsigned, Out &o) {
										   s.reset();
										   o << s.changed() << s.is_high();
									   }}},
		 6, 7);
	using R = RisingEdgeDetector;
	pair(Spec<R>{"rising-edge", fresh<R>, {[](R &s, unsigned, Out &o) { o << s.update(false); }, [](R &s, unsigned, Out &o) { o << s.update(true); }}}, 6, 7);
	using F = FallingEdgeDetector;
	pair(Spec<F>{"falling-edge", fresh<F>, {[](F &s, unsigned, Out &o) { o << s.update(false); }, [](F &s, unsigned, Out &o) { o << s.update(true); }}}, 6, 7);
	using C = ChangeDetector;
	auto c = [](bool v) {
		return [v](C &s, unsigned, Out &o) {
			s.update(v);
			o << v;
		};
	};
	pair(Spec<C>{"change", fresh<C>, {c(false), c(true), [](C &s, unsigned, Out &o) { o << s.changed(); }}}, 6, 7);
	using P = PollChange;
	auto p = [](bool v) {
		return [v](P &s, unsigned a, Out &o) {
			s.poll(a, v);
			o << v;
		};
	};
	pair(Spec<P>{"poll-change", [](int w) { return new P(w ? 12 : 3); },
				 {p(false), p(true), [](P &s, unsigned a, Out &o) {
					  s.poll(a, [&] {
						  o << "asked";
						  return true;
					  });
				  },
				  [](P &s, unsigned, Out &o) { o << s.take_change(); },
				  [](P &s, unsigned, Out &o) {
					  s.force_next_poll();
					  o << "force";
				  }}},
		 5, 6);
	using V = PollEvent<int>;
	pair(Spec<V>{"poll-event", [](int w) { return new V(w ? 8 : 4); },
				 {[](V &s, unsigned a, Out &o) { s.poll(int(a), [&] { o << "now"; }); }, [](V &s, unsigned a, Out &o) { s.poll(int(a) + 3, [&] { o << "now"; }); }}},
		 6, 8);
	return 0;
}();
#endif

#if PAIR == 36
#include "util/quadrature_encoder.hh"
#include "util/rotary_motion.hh"
static int init = [] {
	using Q = QuadratureEncoder<>;
	auto q = [](bool a, bool b) { return [=](Q &s, unsigned, Out &o) { o << int(s.get_motion(a, b)); }; };
	pair(Spec<Q>{"encoder", fresh<Q>, {q(0, 0), q(0, 1), q(1, 0), q(1, 1)}}, 5, 6);
	using R = RotaryMotion;
	pair(Spec<R>{"motion", fresh<R>,
				 {[](R &r, unsigned a, Out &o) {
					  RotaryMotion n{0, int32_t(a)};
					  r.add_motion(n);
					  o << r.abs_pos << r.motion << n.motion;
				  },
				  [](R &r, unsigned a, Out &o) {
					  RotaryMotion n{5, -int32_t(a)};
					  r.transfer_motion(n);
					  o << r.abs_pos << r.motion << n.motion;
				  },
				  [](R &r, unsigned, Out &o) { o << r.use_motion() << r.motion; }}},
		 6, 7);
	return 0;
}();
#endif

#if PAIR == 37
#include "util/parameter.hh"
struct RP {
	int v;
	RefParameter<int> p;
	RP(int w)
		: v(w)
		, p(v) {
	}
	RP(const RP &) = delete;
	RP &operator=(const RP &) = delete;
};
static int init = [] {
	using L = LatchedParam<int, 4>;
	pair(Spec<L>{"latched", fresh<L>,
				 {[](L &l, unsigned a, Out &o) { o << l.store_changed(int(a)) << l.val; },
				  [](L &l, unsigned a, Out &o) { o << l.store_changed(int(a) / 4) << int(l); },
				  [](L &l, unsigned, Out &o) { o << l.did_change() << l.val; },
				  [](L &l, unsigned a, Out &o) {
					  l = int(a);
					  o << l.val << l.changed;
				  }}},
		 5, 6);
	using P = Parameter<int>;
	pair(Spec<P>{"parameter", [](int w) { return w ? new P(3) : new P(); },
				 {[](P &l, unsigned a, Out &o) {
					  l.setValue(int(a));
					  o << l.getValue();
				  },
				  [](P &l, unsigned, Out &o) {
					  l = 3;
					  o << int(l);
				  },
				  [](P &l, unsigned, Out &o) { o << l.isChanged() << l.getValue(); }}},
		 6, 7);
	pair(Spec<RP>{"ref-parameter", [](int w) { return new RP(w); },
				  {[](RP &l, unsigned a, Out &o) {
					   l.p.setValue(int(a));
					   o << l.v;
				   },
				   [](RP &l, unsigned a, Out &o) {
					   l.v = int(a) / 8;
					   o << l.p.getValue();
				   },
				   [](RP &l, unsigned, Out &o) { o << l.p.isChanged() << int(l.p); }}},
		 6, 8);
	return 0;
}();
#endif

#if PAIR == 38
#include "util/callable.hh"
static int init = [] {
	using F = FunctionSized<32, int(int)>;
	struct Count {
		int n;
		int pad = 0;
		int operator()(int x) {
			n += x;
			return n;
		}
	};
	pair(Spec<F>{"function", [](int w) { return w ? new F(Count{100}) : new F([k = 1](int x) mutable { return k = k * 2 + x; }); },
				 {[](F &f, unsigned a, Out &o) { o << f(int(a)) << bool(f); },
				  [](F &f, unsigned a, Out &o) { o << f.call(int(a)); },
				  [](F &f, unsigned a, Out &o) {
					  f = F(Count{int(a)});
					  o << "set";
				  }}},
		 6, 7);
	return 0;
}();
#endif

#if PAIR == 39
#include "util/countzip.hh"
#include "util/zip.hh"
struct ZP {
	std::vector<int> a;
	std::array<int, 3> b{7, 8, 9};
	ZP(int w)
		: a(size_t(2 + w), 40 + w) {
	}
	ZP(const ZP &) = delete;
	ZP &operator=(const ZP &) = delete;
};
template<bool Count>
struct ZI : ZP {
	static auto make(ZP &p) {
		if constexpr (Count)
			return countzip(p.a, p.b);
		else
			return zip(p.a, p.b);
	}
	decltype(make(std::declval<ZP &>())) z;
	decltype(z.begin()) it;
	ZI(int w)
		: ZP(w)
		, z(make(*this))
		, it(z.begin()) {
	}
};
template<bool Count>
static void zz(const char *n) {
	using Z = ZI<Count>;
	auto show = [](Z &z, Out &o) {
		if (!(z.it != z.z.end())) {
			o << "end";
			return;
		}
		if constexpr (Count) {
			auto [i, x, y] = *z.it;
			o << i << x << y;
		} else {
			auto [x, y] = *z.it;
			o << x << y;
		}
	};
	pair(Spec<Z>{n, [](int w) { return new Z(w); },
				 {[=](Z &z, unsigned, Out &o) {
					  if (z.it != z.z.end())
						  ++z.it;
					  show(z, o);
				  },
				  [=](Z &z, unsigned a, Out &o) {
					  if (z.it != z.z.end()) {
						  auto t = *z.it;
						  std::get<Count ? 1 : 0>(t) = int(a);
					  }
					  show(z, o);
				  },
				  [=](Z &z, unsigned, Out &o) {
					  std::destroy_at(&z.it);
					  std::construct_at(&z.it, z.z.begin());
					  show(z, o);
				  }}},
		 6, 7);
}
static int init = [] {
	zz<false>("zip");
	zz<true>("countzip");
	return 0;
}();
#endif

#if PAIR == 40
#include <algorithm>
#include <functional>
#include "util/partition.hh"
static int init = [] {
	using P = Partition<2, 4>;
	auto seen = [](P &p, Out &o) {
		for (auto &x : p.parts) {
			for (auto i : x)
				o << i;
			o << "|";
		}
	};
	pair(Spec<P>{"partition", fresh<P>,
				 {[=](P &p, unsigned a, Out &o) {
					  unsigned v[3] = {a, a / 2, 7};
					  p.calc_partitions(v);
					  seen(p, o);
				  },
				  [=](P &p, unsigned a, Out &o) {
					  unsigned v[4] = {1, a, 5, 2};
					  unsigned i0[2] = {0, a};
					  p.calc_partitions(v, i0);
					  seen(p, o);
				  },
				  [=](P &p, unsigned, Out &o) { seen(p, o); }}},
		 5, 6);
	return 0;
}();
#endif

#if PAIR == 42
#include "util/byte_block.hh"
#include "util/padded_aligned.hh"
static int init = [] {
	using B = ByteBlock;
	auto seen = [](B &b, Out &o) {
		for (auto x : b.data)
			o << x;
	};
	pair(Spec<B>{"byte-block", fresh<B>,
				 {[=](B &b, unsigned a, Out &o) {
					  b.print(uint8_t(a));
					  seen(b, o);
				  },
				  [=](B &b, unsigned a, Out &o) {
					  b.print(uint16_t(a * 999));
					  seen(b, o);
				  },
				  [=](B &b, unsigned a, Out &o) {
					  unsigned char x[2] = {1, uint8_t(a)};
					  b.printRaw(x, 2);
					  seen(b, o);
				  }}},
		 5, 6);
	using P = PaddedAligned<int, 16>;
	pair(Spec<P>{"padded", fresh<P>,
				 {[](P &p, unsigned a, Out &o) {
					  p() = int(a);
					  o << p.data;
				  },
				  [](P &p, unsigned, Out &o) { o << static_cast<int &>(p); }}},
		 6, 7);
	return 0;
}();
#endif

#if PAIR == 43
#include "util/rgbled.hh"
struct Led {
	uint8_t *v;
	void set(uint8_t x) const {
		*v = x;
	}
};
struct L {
	uint8_t v[3] = {9, 9, 9};
	MixedRgbLed<Led, Led, Led, 100> led{Led{v}, Led{v + 1}, Led{v + 2}};
	L() = default;
	L(const L &) = delete;
	L &operator=(const L &) = delete;
};
static int init = [] {
	auto upd = [](L &l, unsigned, Out &o) {
		l.led.update_animation();
		o << l.v[0] << l.v[1] << l.v[2];
	};
	pair(Spec<L>{"led-flash", fresh<L>,
				 {upd,
				  [](L &l, unsigned a, Out &o) {
					  l.led.flash_once_ms(Color(uint8_t(a), 1, 2), 20.f);
					  o << "flash";
				  },
				  [](L &l, unsigned a, Out &o) {
					  l.led.fade_once_ms(Color(3, uint8_t(a * 10), 2), 30.f);
					  o << "fade";
				  },
				  [](L &l, unsigned a, Out &o) {
					  l.led.set_base_color(Color(uint8_t(a), uint8_t(a), 200));
					  o << "base";
				  }}},
		 6, 7);
	pair(Spec<L>{"led-breathe", fresh<L>,
				 {upd,
				  [](L &l, unsigned a, Out &o) {
					  l.led.breathe(Color(uint8_t(a * 7), 100, 2), float(a));
					  o << "breathe";
				  },
				  [](L &l, unsigned, Out &o) {
					  l.led.reset_breathe();
					  o << "reset";
				  },
				  [](L &l, unsigned a, Out &o) {
					  l.led.set_color_calibration({uint8_t(100 + a), 128, uint8_t(a)});
					  o << "cal";
				  },
				  [](L &l, unsigned a, Out &o) {
					  l.led.add_base_color(Color(uint8_t(a), 0, 60));
					  l.led.blend_base_color(Color(0, uint8_t(a), 60));
					  o << "base";
				  }}},
		 6, 7);
	return 0;
}();
#endif
