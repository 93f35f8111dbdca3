// Self-test of the concurrency engine: classic litmus programs must show exactly the outcomes the C++ memory model
// allows (load buffering, and stores overtaken in modification order by program-order-later ones, excluded by design).
#include "conc.hh"
#include <atomic>
#include <set>
using namespace std;
static const auto rlx = memory_order_relaxed, acq = memory_order_acquire, rel = memory_order_release, ar = memory_order_acq_rel, sc = memory_order_seq_cst;

struct Test {
	atomic<int> x{0}, y{0};
	int data = 0;
	int r[8] = {};
};
using Body = function<void(Test &)>;
struct Prog : conc::Program {
	Test t;
	const vector<Body> &b;
	set<string> &seen;
	int nr;
	bool fin;
	Prog(const vector<Body> &b, set<string> &s, int nr, bool fin)
		: b{b}
		, seen{s}
		, nr{nr}
		, fin{fin} {
	}
	int threads() const override {
		return int(b.size());
	}
	void thread(int k) override {
		b[size_t(k)](t);
	}
	void finish() override {
		string s;
		for (int i = 0; i < nr; i++)
			s += to_string(t.r[i]);
		if (fin)
			s += "/" + to_string(t.x.load()) + to_string(t.y.load());
		uint64_t h = 0;
		for (char c : s)
			h = h * 31 + uint64_t(c);
		conc::observe(h);
		seen.insert(s);
	}
};
static void litmus(const char *name, vector<Body> b, int nr, bool fin, set<string> want) {
	mc::Reg(name, [=](mc::Job &j) {
		for (bool sleep : {true, false}) {
			set<string> seen;
			conc::Opts o;
			o.sleep_sets = sleep;
			conc::explore(j, o, [&] { return make_unique<Prog>(b, seen, nr, fin); });
			if (j.violated)
				return;
			string g, w;
			for (auto &s : seen)
				g += s + " ";
			for (auto &s : want)
				w += s + " ";
			if (g != w)
				j.record_violation({}, mc::fmt("litmus %s (sleep sets %d): outcomes %s, expected %s", name, sleep, g.c_str(), w.c_str()), "");
		}
	});
}
static void race(const char *name, vector<Body> b, bool expect) {
	mc::Reg(name, [=](mc::Job &j) {
		set<string> seen;
		conc::explore(j, {}, [&] { return make_unique<Prog>(b, seen, 0, false); });
		bool got = j.violated && j.vmsg.find("race") != string::npos;
		if (got)
			j.violated = false, j.vmsg.clear(), j.vtext.clear(), j.vtrace.clear();
		if (got != expect && !j.violated)
			j.record_violation({}, mc::fmt("litmus %s: data race %s", name, got ? "reported where there is none" : "not reported"), "");
	});
}
#define T(...) [](Test & t) { __VA_ARGS__; }
static int init = [] {
	litmus("SB.rlx", {T(t.x.store(1, rlx); t.r[0] = t.y.load(rlx)), T(t.y.store(1, rlx); t.r[1] = t.x.load(rlx))}, 2, false, {"00", "01", "10", "11"});
	litmus("SB.relacq", {T(t.x.store(1, rel); t.r[0] = t.y.load(acq)), T(t.y.store(1, rel); t.r[1] = t.x.load(acq))}, 2, false, {"00", "01", "10", "11"});
	litmus("SB.sc", {T(t.x.store(1, sc); t.r[0] = t.y.load(sc)), T(t.y.store(1, sc); t.r[1] = t.x.load(sc))}, 2, false, {"01", "10", "11"});
	litmus("SB.scfence", {T(t.x.store(1, rlx); atomic_thread_fence(sc); t.r[0] = t.y.load(rlx)), T(t.y.store(1, rlx); atomic_thread_fence(sc); t.r[1] = t.x.load(rlx))}, 2, false, {"01", "10", "11"});
	litmus("MP.rlx", {T(t.x.store(1, rlx); t.y.store(1, rlx)), T(t.r[0] = t.y.load(rlx); t.r[1] = t.x.load(rlx))}, 2, false, {"00", "01", "10", "11"});
	litmus("MP.relacq", {T(t.x.store(1, rlx); t.y.store(1, rel)), T(t.r[0] = t.y.load(acq); t.r[1] = t.x.load(rlx))}, 2, false, {"00", "01", "11"});
	litmus("MP.rel-rlx", {T(t.x.store(1, rlx); t.y.store(1, rel)), T(t.r[0] = t.y.load(rlx); t.r[1] = t.x.load(rlx))}, 2, false, {"00", "01", "10", "11"});
	litmus("MP.rlx-acq", {T(t.x.store(1, rlx); t.y.store(1, rlx)), T(t.r[0] = t.y.load(acq); t.r[1] = t.x.load(rlx))}, 2, false, {"00", "01", "10", "11"});
	litmus("MP.fences", {T(t.x.store(1, rlx); atomic_thread_fence(rel); t.y.store(1, rlx)), T(t.r[0] = t.y.load(rlx); atomic_thread_fence(acq); t.r[1] = t.x.load(rlx))}, 2, false, {"00", "01", "11"});
	litmus("MP.rmw-chain", // a relaxed read-modify-write continues the release sequence
		   {T(t.x.store(1, rlx); t.y.store(1, rel)), T(t.y.fetch_add(1, rlx)), T(t.r[0] = t.y.load(acq); t.r[1] = t.x.load(rlx))}, 2, false, {"00", "01", "11", "10", "21"});
	litmus("CoRR", {T(t.x.store(1, rlx); t.x.store(2, rlx)), T(t.r[0] = t.x.load(rlx); t.r[1] = t.x.load(rlx))}, 2, false, {"00", "01", "02", "11", "12", "22"});
	litmus("CoWR", {T(t.x.store(1, rlx); t.r[0] = t.x.load(rlx)), T(t.x.store(2, rlx))}, 1, true, {"1/10", "1/20", "2/20"});
	litmus("LB", {T(t.r[0] = t.x.load(rlx); t.y.store(1, rlx)), T(t.r[1] = t.y.load(rlx); t.x.store(1, rlx))}, 2, false, {"00", "01", "10"});
	litmus("IRIW.acq", {T(t.x.store(1, rel)), T(t.y.store(1, rel)), T(t.r[0] = t.x.load(acq); t.r[1] = t.y.load(acq)), T(t.r[2] = t.y.load(acq); t.r[3] = t.x.load(acq))}, 4, false,
		   {"0000", "0001", "0010", "0011", "0100", "0101", "0110", "0111", "1000", "1001", "1010", "1011", "1100", "1101", "1110", "1111"});
	litmus("IRIW.sc", {T(t.x.store(1, sc)), T(t.y.store(1, sc)), T(t.r[0] = t.x.load(sc); t.r[1] = t.y.load(sc)), T(t.r[2] = t.y.load(sc); t.r[3] = t.x.load(sc))}, 4, false,
		   {"0000", "0001", "0010", "0011", "0100", "0101", "0110", "0111", "1000", "1001", "1011", "1100", "1101", "1110", "1111"});
	litmus("RMW", {T(t.r[0] = t.x.fetch_add(1, rlx)), T(t.r[1] = t.x.fetch_add(1, rlx)), T(t.r[2] = t.x.fetch_add(1, rlx))}, 3, true, {"012/30", "021/30", "102/30", "120/30", "201/30", "210/30"});
	litmus("CAS", {T(int e = 0; t.r[0] = t.x.compare_exchange_strong(e, 1, ar)), T(int e = 0; t.r[1] = t.x.compare_exchange_strong(e, 2, ar))}, 2, true, {"01/20", "10/10"});
	litmus("CASweak", {T(int e = 0; t.r[0] = t.x.compare_exchange_weak(e, 1, ar, rlx))}, 1, true, {"0/00", "1/10"});
	litmus("XCHG", {T(t.r[0] = t.x.exchange(1, rlx)), T(t.r[1] = t.x.exchange(2, rlx))}, 2, true, {"01/20", "20/10"});
	race("race.rlx", {T(t.data = 1; t.x.store(1, rlx)), T(if (t.x.load(rlx)) t.data = 2)}, true);
	race("race.rel-rlx", {T(t.data = 1; t.x.store(1, rel)), T(if (t.x.load(rlx)) t.data = 2)}, true);
	race("race.relacq", {T(t.data = 1; t.x.store(1, rel)), T(if (t.x.load(acq)) t.data = 2)}, false);
	race("race.fences", {T(t.data = 1; atomic_thread_fence(rel); t.x.store(1, rlx)), T(if (t.x.load(rlx)) { atomic_thread_fence(acq); t.data = 2; })}, false);
	race("race.read", {T(t.r[0] = t.data), T(t.r[1] = t.data)}, false);
	race("race.readwrite", {T(t.r[0] = t.data), T(t.data = 1)}, true);
	race("race.war", // the reader's release must be acquired before the slot is written again
		 {T(t.r[0] = t.data; t.x.store(1, rlx)), T(if (t.x.load(acq)) t.data = 2)}, true);
	return 0;
}();
