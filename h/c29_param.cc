// C29: parameter interpolators; every short history of targets and steps.
#include "mc.hh"
#include <cmath>
#include "util/interp_param.hh"

template<class T>
static T pick(mc::Ctx &c) {
	static const int V[] = {0, 8, -16, 3};
	return T(V[c.choose(4)]);
}
// what must hold after k of n steps from a towards b
template<class T>
static void on_line(const char *what, T a, T b, int k, int n, T got) {
	if constexpr (std::is_integral_v<T>) {
		T step = (b - a) / T(n); // truncated: never beyond the target, less than n short of it
		MC_CHECK(got == a + step * T(k), "%s: after %d of %d steps from %lld to %lld: %lld", what, k, n, (long long)a, (long long)b, (long long)got);
	} else {
		double w = double(a) + (double(b) - double(a)) * k / n;
		double tol = 1e-5;
		MC_CHECK(std::fabs(double(got) - w) <= tol * (1 + std::fabs(w)), "%s: after %d of %d steps from %g to %g: %.9g, expected %.9g", what, k, n, double(a), double(b),
				 double(got), w);
	}
}
template<class T, int N>
static void fixed(mc::Ctx &c, int depth) {
	mc::Arena<InterpParam<T, N>> ar;
	auto &p = ar.make(0xA5);
	T from = 0, to = 0, cur = 0;
	int k = 0;
	MC_CHECK(p.cur_val == T(0) && p.get_step_size() == T(0), "does not start at zero");
	for (int d = 0; d < depth; d++) {
		if (c.choose(2)) {
			T before = cur;
			from = cur;
			to = pick<T>(c);
			k = 0;
			c.log("target %g", double(to));
			p.set_new_value(to);
			MC_CHECK(p.cur_val == before, "set_new_value changes the current value");
			on_line("get_step_size", T(0), T(to - from), 1, N, p.get_step_size());
		} else {
			k++;
			cur = p.next();
			c.log("next -> %g", double(cur));
			MC_CHECK(p.cur_val == cur, "next() and cur_val differ");
			on_line("next", from, to, k, N, cur);
			if (k == N && from != to)
				c.nontrivial();
		}
	}
}
template<class T>
static void var(mc::Ctx &c, int depth) {
	mc::Arena<InterpParamVar<T>> ar;
	auto &p = ar.make(0xA5);
	T from = 0, to = 0, cur = 0, target = 0;
	int k = 0, n = 1;
	for (int d = 0; d < depth; d++) {
		switch (c.choose(3)) {
			case 0: {
				static const int NS[] = {1, 2, 3, 4};
				from = cur;
				target = to = pick<T>(c);
				n = NS[c.choose(4)];
				k = 0;
				c.log("target %g in %d", double(to), n);
				p.set_new_value(to, unsigned(n));
				on_line("get_step_size", T(0), T(to - from), 1, n, p.get_step_size());
				break;
			}
			case 1:
				k++;
				cur = p.next();
				c.log("next -> %g", double(cur));
				on_line("next", from, to, k, n, cur);
				if (k == n && from != to)
					c.nontrivial();
				break;
			case 2: {
				T r = p.snap_to_target();
				c.log("snap -> %g", double(r));
				MC_CHECK(r == target, "snap_to_target returns %g, the target is %g", double(r), double(target));
				// afterwards the step continues from the target; a new ramp starts there
				T step = p.get_step_size();
				cur = target;
				from = T(cur - step * T(k));
				to = T(from + step * T(n));
				break;
			}
		}
	}
}
template<class T>
static void variable(mc::Ctx &c, int depth) {
	mc::Arena<InterpParamVariable<T>> ar;
	static const unsigned NS[] = {256, 1, 2, 3, 5};
	unsigned n = NS[c.choose(5)];
	if (n == 256)
		ar.make(0xA5);
	else
		ar.make(0xA5, n);
	auto &p = ar.get();
	MC_CHECK(p.get_num_updates() == n, "built with %u updates, reports %u", n, p.get_num_updates());
	MC_CHECK(p.cur_val == T(0) && p.target_val == T(0) && p.get_step_size() == T(0), "does not start at zero");
	T from = 0, to = 0, cur = 0;
	int k = 0, rn = int(n);
	for (int d = 0; d < depth; d++) {
		switch (c.choose(3)) {
			case 0:
				from = cur;
				to = pick<T>(c);
				k = 0;
				rn = int(n);
				c.log("target %g", double(to));
				p.set_new_value(to);
				MC_CHECK(p.target_val == to && p.cur_val == cur, "set_new_value: target %g, current %g", double(p.target_val), double(p.cur_val));
				break;
			case 1:
				k++;
				cur = p.next();
				c.log("next -> %g", double(cur));
				MC_CHECK(p.cur_val == cur, "next() and cur_val differ");
				on_line("next", from, to, k, rn, cur);
				if (k == rn && from != to)
					c.nontrivial();
				break;
			case 2:
				n = NS[1 + c.choose(4)];
				c.log("set_num_updates %u", n);
				p.set_num_updates(n);
				MC_CHECK(p.get_num_updates() == n, "get_num_updates");
				// a ramp in progress keeps its length
				MC_CHECK(p.target_val == to && p.cur_val == cur, "set_num_updates changes the target to %g, the value to %g", double(p.target_val), double(p.cur_val));
				break;
		}
	}
}
template<class F>
static void ex(const char *n, const char *what, int q, int t, F f) {
	mc::Reg(n, [=](mc::Job &j) {
		int depth = j.tier(q, t);
		j.note(mc::fmt("%s: %s, every history of %d calls with four targets", n, what, depth));
		j.explore({}, [=](mc::Ctx &c) { f(c, depth); });
	});
}
static int init = [] {
	ex("fixed-float-1", "1 update", 7, 9, [](mc::Ctx &c, int d) { fixed<float, 1>(c, d); });
	ex("fixed-float-4", "4 updates", 8, 10, [](mc::Ctx &c, int d) { fixed<float, 4>(c, d); });
	ex("fixed-double-3", "3 updates", 8, 10, [](mc::Ctx &c, int d) { fixed<double, 3>(c, d); });
	ex("fixed-int-3", "3 updates", 8, 10, [](mc::Ctx &c, int d) { fixed<int, 3>(c, d); });
	ex("fixed-long-4", "4 updates", 8, 10, [](mc::Ctx &c, int d) { fixed<long, 4>(c, d); });
	ex("var-float", "1 to 4 updates", 5, 6, [](mc::Ctx &c, int d) { var<float>(c, d); });
	ex("var-int", "1 to 4 updates", 5, 6, [](mc::Ctx &c, int d) { var<int>(c, d); });
	ex("variable-float", "1 to 5 or 256 updates", 6, 7, [](mc::Ctx &c, int d) { variable<float>(c, d); });
	ex("variable-int", "1 to 5 or 256 updates", 6, 7, [](mc::Ctx &c, int d) { variable<int>(c, d); });
	mc::Reg("ramps", [](mc::Job &j) {
		int M = j.tier(300, 3000);
		j.note("ramps: whole ramps of every length up to a bound arrive at the target");
		j.sweep(1, uint64_t(M) + 1, [](uint64_t n) {
			InterpParamVar<float> a;
			InterpParamVariable<double> b{unsigned(n)};
			InterpParam<float, 48> f;
			a.set_new_value(float(n) / 7 - 20, unsigned(n));
			b.set_new_value(double(n) / 7 - 20);
			f.set_new_value(float(n) / 7 - 20);
			float x = 0, z = 0;
			double y = 0;
			for (uint64_t i = 0; i < n; i++)
				x = a.next(), y = b.next();
			for (int i = 0; i < 48; i++)
				z = f.next();
			double w = double(n) / 7 - 20;
			MC_CHECK(std::fabs(x - w) <= 1e-3 * (1 + std::fabs(w)) && std::fabs(y - w) < 1e-9 * (1 + std::fabs(w)) * double(n) && std::fabs(z - w) < 1e-4 * (1 + std::fabs(w)),
					 "ramps of %d updates to %g end at %g, %g, %g", int(n), w, double(x), y, double(z));
			return n > 1;
		});
	});
	return 0;
}();
