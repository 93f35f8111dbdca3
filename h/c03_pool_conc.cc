// C03: fixed pool shared by threads: slots are never owned twice, released once, and hand over their contents.
#include "conc.hh"
#include <cstddef>
#include <optional>
#include "util/thread_safe_pool.hh"

struct Obj {
	uint64_t a = 0, b = 0;
};
enum Op { CREATE, DESTROY, DESTROY_OTHER, USED_OTHER, CLEAR, DESTROY_OOB };
// DESTROY: release own oldest slot. DESTROY_OTHER: try to release slot 0 (whoever owns it) -- exactly-once check
template<size_t N>
struct Prog : conc::Program {
	cpputil::ThreadSafePool<Obj, N> pool;
	std::vector<std::vector<Op>> ops;
	int pre;	  // slots created before the threads start, owned by thread 0
	bool shared_destroy = false;
	struct PerThread {
		size_t own[8];
		int n = 0;
		int creates = 0, destroys = 0, other_true = 0;
		int created_at[N] = {}, destroyed_at[N] = {};
	} th[4];
	int pre_created[N] = {};

	// When each slot was in use: from the call that created it until the call that released it. A create may report a
	// full pool only if every slot was in use at some moment of the call, which is the case unless all its uses are
	// known to the caller (happens-before) to have ended before the call.
	struct Use {
		size_t slot = 0;
		int by = -1;	   // who released it
		unsigned end = 0; // and when, on its own clock
		bool live = true;
	};
	Use uses[40];
	int nuses = 0;
	int owed[4][N] = {}; // slots which only the create call thread t is still in can have been using
	bool in_create[4] = {};

	// bookkeeping of the harness itself, not seen by the race detector
#define GHOST __attribute__((no_sanitize("thread"), noinline))
	GHOST uint64_t enter(int t) { // the uses known to have ended before the call
		uint64_t ended = 0;
		for (int k = 0; k < nuses; k++)
			if (!uses[k].live && conc::knows(uses[k].by, uses[k].end))
				ended |= 1ull << k;
		in_create[t] = true;
		return ended;
	}
	GHOST void created(int t, size_t i) {
		uses[nuses].slot = i;
		uses[nuses].live = true;
		nuses++;
		if (i < N && owed[t][i])
			owed[t][i]--;
	}
	GHOST void failed(int t, uint64_t ended) {
		for (size_t i = 0; i < N; i++) {
			bool used = false;
			for (int k = 0; k < nuses; k++)
				used |= uses[k].slot == i && !(ended >> k & 1);
			if (!used)
				owed[t][i]++;
		}
	}
	// a create call ends: returns a slot that was free throughout a failed call, or -1
	GHOST int leave(int t) {
		in_create[t] = false;
		int other = -1;
		for (int u = 0; u < threads(); u++)
			if (in_create[u])
				other = u;
		for (size_t i = 0; i < N; i++) {
			if (owed[t][i] && other < 0)
				return int(i);
			if (owed[t][i])
				owed[other][i] = 1;
			owed[t][i] = 0;
		}
		return -1;
	}
	GHOST void released(int t, unsigned at, size_t i) {
		for (int k = 0; k < nuses; k++)
			if (uses[k].slot == i && uses[k].live) {
				uses[k].live = false;
				uses[k].by = t;
				uses[k].end = at;
				break;
			}
	}

	Prog(std::vector<std::vector<Op>> o, int pre)
		: ops(std::move(o))
		, pre(pre) {
		for (auto &v : ops)
			for (auto x : v)
				if (x == DESTROY_OTHER)
					shared_destroy = true;
		for (int i = 0; i < pre; i++) {
			auto r = pool.create();
			MC_CHECK(r.has_value() && *r < N, "create on a pool with free slots failed");
			th[0].own[th[0].n++] = *r;
			pre_created[*r]++;
			created(0, *r);
			pool[*r] = Obj{100, 100};
		}
	}
	int threads() const override {
		return int(ops.size());
	}
	void thread(int t) override {
		auto &me = th[t];
		uint64_t serial = t * 1000 + 1;
		for (auto op : ops[t]) {
			switch (op) {
				case CREATE: {
					uint64_t ended = enter(t);
					auto r = pool.create();
					conc::log("create=%d", r ? int(*r) : -1);
					if (r)
						created(t, *r);
					else if (!shared_destroy)
						failed(t, ended);
					int idle = leave(t);
					MC_CHECK(idle < 0, "create failed although slot %d was free throughout", idle);
					if (!r)
						break;
					size_t i = *r;
					MC_CHECK(i < N, "create returned index %zu of a pool of %zu", i, N);
					for (int k = 0; k < me.n; k++)
						MC_CHECK(me.own[k] != i || shared_destroy, "create returned a slot its caller already owns");
					me.creates++;
					me.created_at[i]++;
					if (!shared_destroy) {
						MC_CHECK(pool.is_used(i), "a slot that was just created reads as unused");
						Obj &o = pool[i];
						MC_CHECK(o.a == o.b, "slot contents torn");
						o.a = serial;
						o.b = serial;
						serial++;
						me.own[me.n++] = i;
					}
					break;
				}
				case DESTROY: {
					if (!me.n)
						break;
					size_t i = me.own[0];
					for (int k = 1; k < me.n; k++)
						me.own[k - 1] = me.own[k];
					me.n--;
					MC_CHECK(pool[i].a == pool[i].b, "slot contents changed while owned");
					pool[i] = Obj{serial, serial};
					serial++;
					unsigned at = conc::stamp();
					bool ok = pool.destroy(i);
					conc::log("destroy(%d)=%d", int(i), ok);
					if (ok)
						released(t, at, i);
					MC_CHECK(ok || shared_destroy, "destroy of an owned slot failed");
					if (ok) {
						me.destroys++;
						me.destroyed_at[i]++;
					}
					break;
				}
				case DESTROY_OTHER: {
					bool ok = pool.destroy(0);
					conc::log("destroy(0)=%d", ok);
					if (ok) {
						me.other_true++;
						me.destroyed_at[0]++;
					}
					break;
				}
				case DESTROY_OOB:
					MC_CHECK(!pool.destroy(N) && !pool.destroy(~size_t(0)), "destroy of a non-existent index succeeded");
					MC_CHECK(!pool.is_used(N) && !pool.is_used(~size_t(0)), "a non-existent index reads as used");
					break;
				case USED_OTHER: {
					// slot 0 is owned by thread 0 at the start and never re-created: once it reads as unused,
					// everything its owner did before releasing it must be visible
					bool u = pool.is_used(0);
					conc::log("is_used(0)=%d", u);
					if (!u) {
						MC_CHECK(pool[0].a == pool[0].b && pool[0].a < 100, "slot contents not visible after it was seen as released");
						me.other_true += 100;
					}
					break;
				}
				case CLEAR:
					pool.clear();
					conc::log("clear");
					me.n = 0;
					break;
			}
			conc::observe(uint64_t(op));
		}
	}
	bool has_clear() const {
		for (auto &v : ops)
			for (auto x : v)
				if (x == CLEAR)
					return true;
		return false;
	}
	void finish() override {
		for (size_t i = 0; i < N; i++) {
			int c = pre_created[i], d = 0;
			for (auto &t : th) {
				c += t.created_at[i];
				d += t.destroyed_at[i];
			}
			conc::observe(c * 16 + d);
			if (has_clear())
				continue;
			bool used = pool.is_used(i);
			MC_CHECK(c - d == (used ? 1 : 0), "slot %zu: created %d times, successfully destroyed %d times, ends %s", i, c, d,
					 used ? "used" : "unused");
		}
		if (has_clear())
			return;
		size_t free_slots = 0;
		for (size_t i = 0; i < N; i++)
			free_slots += !pool.is_used(i);
		for (size_t k = 0; k < free_slots; k++) {
			auto r = pool.create();
			MC_CHECK(r.has_value(), "create fails with free slots left");
		}
		MC_CHECK(!pool.create().has_value(), "create succeeds on a full pool");
	}
};

// clear() in one thread while it owns everything, then create in another: contents are reset and no race
template<size_t N>
struct ClearProg : conc::Program {
	cpputil::ThreadSafePool<Obj, N> pool;
	ClearProg() {
		for (size_t i = 0; i < N; i++)
			pool[*pool.create()] = Obj{7, 9};
	}
	int threads() const override {
		return 2;
	}
	void thread(int t) override {
		if (t == 0) {
			pool.clear();
		} else {
			for (int k = 0; k < 2; k++) {
				auto r = pool.create();
				conc::log("create=%d", r ? int(*r) : -1);
				if (r) {
					conc::observe(*r);
					MC_CHECK(pool[*r].a == 0 && pool[*r].b == 0, "slot still holds old contents after clear");
					pool[*r] = Obj{5, 5};
				}
			}
		}
	}
	void finish() override {
	}
};

template<size_t N>
static void reg(const char *name, std::vector<std::vector<Op>> ops, int pre, int tiers = 3, bool sleep = true) {
	mc::Reg(mc::fmt("pool%zu.%s", N, name), [=](mc::Job &j) {
		conc::Opts o;
		o.sleep_sets = sleep;
		conc::explore(j, o, [=] { return std::make_unique<Prog<N>>(ops, pre); });
	}, tiers);
}
static int init = [] {
	using V = std::vector<std::vector<Op>>;
	reg<1>("2x-create", V{{CREATE}, {CREATE}}, 0);
	reg<1>("2x-create-destroy", V{{CREATE, DESTROY}, {CREATE, DESTROY}}, 0);
	reg<1>("2x-cdcd", V{{CREATE, DESTROY, CREATE, DESTROY}, {CREATE, DESTROY, CREATE}}, 0);
	reg<1>("handoff", V{{DESTROY}, {CREATE}, {CREATE}}, 1);
	reg<2>("2x-must-succeed", V{{CREATE, DESTROY}, {CREATE, DESTROY}}, 0);
	reg<2>("2x-cdcd", V{{CREATE, DESTROY, CREATE}, {CREATE, DESTROY, CREATE}}, 0);
	reg<2>("2x-ccd", V{{CREATE, CREATE, DESTROY}, {CREATE, DESTROY}}, 0);
	reg<2>("3x-create", V{{CREATE}, {CREATE}, {CREATE}}, 0);
	reg<2>("3x-create-destroy", V{{CREATE, DESTROY}, {CREATE, DESTROY}, {CREATE}}, 0);
	reg<3>("3x-must-succeed", V{{CREATE, DESTROY}, {CREATE}, {CREATE}}, 0);
	reg<3>("2x-cc-dd", V{{CREATE, CREATE, DESTROY}, {CREATE, DESTROY, CREATE}}, 0);
	reg<2>("double-destroy", V{{DESTROY_OTHER}, {DESTROY_OTHER}}, 1);
	reg<2>("double-destroy3", V{{DESTROY_OTHER}, {DESTROY_OTHER}, {CREATE, CREATE}}, 1);
	reg<1>("destroy-vs-create", V{{DESTROY_OTHER, CREATE}, {DESTROY_OTHER, CREATE}}, 1);
	reg<1>("release-visible", V{{DESTROY}, {USED_OTHER, USED_OTHER}}, 1);
	reg<2>("release-visible", V{{DESTROY, DESTROY}, {USED_OTHER}, {USED_OTHER}}, 2);
	reg<2>("oob", V{{DESTROY_OOB, CREATE}, {DESTROY_OOB}}, 0);
	reg<2>("3x-cd-deep", V{{CREATE, DESTROY, CREATE}, {CREATE, DESTROY}, {CREATE, DESTROY}}, 0, 2);
	reg<3>("3x-cd-deep", V{{CREATE, DESTROY, CREATE}, {CREATE, DESTROY}, {CREATE, DESTROY}}, 0, 2);
	mc::Reg("clear1", [](mc::Job &j) { conc::explore(j, {}, [] { return std::make_unique<ClearProg<1>>(); }); });
	mc::Reg("clear2", [](mc::Job &j) { conc::explore(j, {}, [] { return std::make_unique<ClearProg<2>>(); }); });
	return 0;
}();
