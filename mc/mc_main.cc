#include "mc.hh"
#include <atomic>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>

namespace mc
{
static Shared g_static_shared;
Shared *g_shared = &g_static_shared;

std::string fmt(const char *f, ...) {
	char buf[2048];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}
void fail(const char *f, ...) {
	char buf[2048];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	throw Violation{buf};
}

struct Entry {
	std::string name;
	std::function<void(Job &)> f;
	int tiers;
};
static std::vector<Entry> &regs() {
	static std::vector<Entry> r;
	return r;
}
Reg::Reg(const char *name, std::function<void(Job &)> f, int tiers) {
	regs().push_back({name, std::move(f), tiers});
}

void Job::begin_exec() {
	g_shared->progress++;
}
void Job::set_trace(const int64_t *v, size_t n) {
	if (n > 8192)
		n = 8192;
	for (size_t i = 0; i < n; i++)
		g_shared->v[i] = v[i];
	g_shared->n = n;
}
void Job::push_trace(int64_t v) {
	if (g_shared->n < 8192)
		g_shared->v[g_shared->n++] = v;
}
void Job::record_violation(const Trace &t, const std::string &msg, const std::string &text) {
	if (violated)
		return;
	violated = true;
	vtrace = t;
	vmsg = msg;
	vtext = text;
}
bool Job::out_of_time(double cap) {
	if (cap <= 0)
		cap = time_cap;
	return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > cap;
}

int64_t Ctx::choose(int64_t n) {
	if (n <= 1)
		return 0;
	size_t i = taken.size();
	int64_t c = 0;
	if (prefix && i < prefix->size()) {
		c = (*prefix)[i];
		if (c < 0 || c >= n) {
			fprintf(stderr, "replay divergence: choice %lld of %lld at point %zu\n", (long long)c, (long long)n, i);
			_exit(3);
		}
	}
	taken.push_back(c);
	widths.push_back(int(n));
	isdev.push_back(false);
	job->push_trace(c);
	return c;
}
int64_t Ctx::dev(int64_t n) {
	if (n <= 1)
		return 0;
	auto c = choose(n);
	isdev.back() = true;
	if (c)
		devs++;
	return c;
}
void Ctx::log(const char *f, ...) {
	if (!tracing)
		return;
	char buf[1024];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	text += buf;
	text += "; ";
}
void Ctx::visit(const Hash &h, int remaining) {
	if (job->replaying)
		return;
	// only prune at points beyond the replayed prefix: the prefix itself was already visited
	if (prefix && taken.size() < prefix->size())
		return;
	Key k{h.a, h.b};
	auto it = job->visited.find(k);
	if (it == job->visited.end()) {
		job->visited.emplace(k, remaining);
		job->states++;
		return;
	}
	if (it->second >= remaining)
		throw Prune{};
	it->second = remaining;
}

void Job::explore(const Options &o, const std::function<void(Ctx &)> &body) {
	auto run = [&](const Trace &prefix, bool tracing, Ctx &c) -> bool {
		c.job = this;
		c.prefix = &prefix;
		c.max_dev = o.max_dev;
		c.tracing = tracing;
		g_shared->n = 0;
		begin_exec();
		try {
			body(c);
		} catch (Prune &) {
			return true;
		} catch (Violation &e) {
			c.prefix = nullptr;
			vmsg = e.msg;
			return false;
		}
		return true;
	};
	if (replaying) {
		Ctx c;
		if (!run(replay, true, c)) {
			auto m = vmsg;
			record_violation(c.taken, m, c.text);
		} else
			samples.push_back(c.text);
		return;
	}
	Trace prefix;
	uint64_t nsample = 0, last_sampled = 0;
	for (;;) {
		Ctx c;
		bool want = (evaluations == 0 || evaluations == 1000 || evaluations == 100000);
		bool ok = run(prefix, want, c);
		if (want && !c.text.empty()) {
			sample(c.text);
			nsample++;
		}
		(void)last_sampled;
		evaluations++;
		traces++;
		transitions += c.taken.size() - std::min(c.taken.size(), prefix.empty() ? 0 : prefix.size() - 1);
		if (c.nontriv)
			distinct++;
		if (!ok) {
			auto m = vmsg;
			auto t = c.taken;
			Ctx c2;
			if (run(t, true, c2)) {
				record_violation(t, m + " [NOT REPRODUCED ON REPLAY]", c2.text);
				extra["nondeterministic"] = 1;
			} else {
				record_violation(t, m, c2.text);
			}
			return;
		}
		// next
		auto t = c.taken;
		int devs = 0;
		std::vector<int> devs_before(t.size() + 1, 0);
		for (size_t i = 0; i < t.size(); i++) {
			devs_before[i] = devs;
			if (c.isdev[i] && t[i])
				devs++;
		}
		bool found = false;
		while (!t.empty()) {
			size_t i = t.size() - 1;
			if (t[i] + 1 < c.widths[i]) {
				bool allowed = !(o.max_dev >= 0 && c.isdev[i] && devs_before[i] + 1 > o.max_dev);
				if (allowed) {
					t[i]++;
					found = true;
					break;
				}
			}
			t.pop_back();
		}
		if (!found)
			break;
		prefix = t;
		if ((evaluations & 0x3f) == 0 && out_of_time(o.time_s)) {
			exhaustive = false;
			note(fmt("%s: time cap reached after %llu executions (depth-first order)", name.c_str(),
					 (unsigned long long)evaluations));
			break;
		}
	}
	if (visited.empty()) // no state matching: every node of the execution tree is a state
		states += transitions + 1;
	if (exhaustive && o.max_dev < 0)
		note(fmt("%s: every choice sequence (%llu executions)", name.c_str(), (unsigned long long)evaluations));
}

static std::string jstr(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += char(c);
		} else if (c < 0x20 || c >= 0x7f)
			r += fmt("\\u%04x", c);
		else
			r += char(c);
	}
	return r + "\"";
}
} // namespace mc

using namespace mc;

int main(int argc, char **argv) {
	std::string job, out, cur;
	bool list = false, quick = true, replaying = false;
	Trace replay;
	double cap = 0, hang = 25;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--list")
			list = true;
		else if (a == "--tier")
			quick = nxt() != "thorough";
		else if (a == "--job")
			job = nxt();
		else if (a == "--out")
			out = nxt();
		else if (a == "--cur")
			cur = nxt();
		else if (a == "--cap")
			cap = atof(nxt().c_str());
		else if (a == "--hang")
			hang = atof(nxt().c_str());
		else if (a == "--replay") {
			replaying = true;
			auto s = nxt();
			size_t p = 0;
			while (p < s.size()) {
				size_t q = s.find(',', p);
				if (q == std::string::npos)
					q = s.size();
				replay.push_back(strtoll(s.substr(p, q - p).c_str(), nullptr, 10));
				p = q + 1;
			}
		}
	}
	int tierbit = quick ? 1 : 2;
	if (list) {
		for (auto &e : regs())
			if (e.tiers & tierbit)
				printf("%s\n", e.name.c_str());
		return 0;
	}
	if (!cur.empty()) {
		int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) {
			void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p != MAP_FAILED)
				g_shared = static_cast<Shared *>(p);
		}
	}
	for (auto &e : regs()) {
		if (e.name != job)
			continue;
		Job j;
		j.name = e.name;
		j.quick = quick;
		j.replaying = replaying;
		j.replay = replay;
		if (cap > 0)
			j.time_cap = cap;
		// watchdog: one execution that makes no progress for `hang` seconds of process CPU time is a hang
		std::thread([hang] {
			auto cpu = [] {
				struct rusage r;
				getrusage(RUSAGE_SELF, &r);
				return double(r.ru_utime.tv_sec + r.ru_stime.tv_sec) + 1e-6 * double(r.ru_utime.tv_usec + r.ru_stime.tv_usec);
			};
			uint64_t last = ~0ull;
			double since = cpu();
			for (;;) {
				usleep(200'000);
				uint64_t p = *(volatile uint64_t *)&g_shared->progress;
				if (p != last) {
					last = p;
					since = cpu();
				} else if (cpu() - since > hang) {
					fprintf(stderr, "MC-HANG: no progress for %.0f s of CPU time\n", hang);
					_exit(77);
				}
			}
		}).detach();
		g_shared->progress = 1;
		try {
			e.f(j);
		} catch (Violation &v) {
			j.record_violation(replaying ? replay : Trace(g_shared->v, g_shared->v + g_shared->n), v.msg, "");
		}
		FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
		if (!f)
			return 2;
		fprintf(f, "{\"job\":%s,\"evaluations\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,"
				   "\"outcomes\":%zu,\"exhaustive\":%s,",
				jstr(j.name).c_str(), (unsigned long long)j.evaluations, (unsigned long long)j.distinct,
				(unsigned long long)j.states, (unsigned long long)j.transitions, (unsigned long long)j.traces,
				j.outcomes.size(), j.exhaustive ? "true" : "false");
		fprintf(f, "\"notes\":[");
		for (size_t i = 0; i < j.notes.size(); i++)
			fprintf(f, "%s%s", i ? "," : "", jstr(j.notes[i]).c_str());
		fprintf(f, "],\"samples\":[");
		for (size_t i = 0; i < j.samples.size(); i++)
			fprintf(f, "%s%s", i ? "," : "", jstr(j.samples[i]).c_str());
		fprintf(f, "],\"extra\":{");
		bool first = true;
		for (auto &[k, v] : j.extra) {
			fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)v);
			first = false;
		}
		fprintf(f, "},\"violation\":");
		if (j.violated) {
			fprintf(f, "{\"msg\":%s,\"text\":%s,\"trace\":[", jstr(j.vmsg).c_str(), jstr(j.vtext).c_str());
			for (size_t i = 0; i < j.vtrace.size(); i++)
				fprintf(f, "%s%lld", i ? "," : "", (long long)j.vtrace[i]);
			fprintf(f, "]}");
		} else
			fprintf(f, "null");
		fprintf(f, "}\n");
		if (f != stdout)
			fclose(f);
		fflush(stdout);
		_exit(j.violated ? 1 : 0);
	}
	fprintf(stderr, "no such job: %s\n", job.c_str());
	return 2;
}
