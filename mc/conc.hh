// Controlled-concurrency exploration of real, unmodified C++ code.
//
// The harness (and with it the repository's headers) is compiled with -fsanitize=thread but linked against the
// runtime in conc.cc instead of libtsan.  Every C++ atomic operation is a scheduling point; every plain access is
// checked by a vector-clock race detector; loads may return any value the C++ memory model (view semantics of
// release/acquire/relaxed/seq_cst; modification order = execution order) allows.  All schedules and all reads-from
// choices are enumerated depth-first with sleep sets.
#pragma once
#include "mc.hh"

namespace conc
{
struct Program {
	virtual ~Program() = default;
	virtual int threads() const = 0;
	virtual void thread(int t) = 0; // body of thread t
	virtual void finish() = 0;		// after all threads were joined
};

struct Opts {
	bool sleep_sets = true;
	int max_dev = 2;		   // spurious failures of weak compare-exchange per execution
	int preemptions = -1;	   // -1: unbounded; otherwise sleep sets are off and the bound applies
	bool stale = true;		   // weak memory reads
	int horizon = 400;
};

void explore(mc::Job &job, const Opts &o, const std::function<std::unique_ptr<Program>()> &make);

// record an observation (feeds the distinct-outcome count)
void observe(uint64_t v);
// a scheduling point that orders harness-level bookkeeping; no happens-before effect
void ghost(int id);
// position of the calling thread in its own vector clock, and whether the calling thread is already ordered
// (happens-before) after the point at which thread t had that position
unsigned stamp();
bool knows(int t, unsigned stamp);
void log(const char *f, ...) __attribute__((format(printf, 1, 2)));
} // namespace conc
