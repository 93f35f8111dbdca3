// C04 (concurrent part): readings published by one context and picked up by another through the new-data mark.
#include "conc.hh"
#include <array>
#include <span>
#include <atomic>
#include "util/filtered_interp_array.hh"

struct Pass {
	float add_val(float v) {
		return v;
	}
};
// one-shot publication: plain data written before the mark, read after it was seen: never a race
struct Once : conc::Program {
	FilteredInterpArray<2, Pass, float> arr;
	float raw[2] = {0, 0};
	int picked = 0;
	int threads() const override {
		return 2;
	}
	void thread(int t) override {
		if (t == 0) {
			raw[0] = 3;
			raw[1] = 4;
			arr.mark_new_data_ready();
		} else {
			for (int k = 0; k < 3; k++) {
				arr.add_new_readings([&](unsigned i) {
					picked++;
					return raw[i];
				});
				arr.get_interp_values([&](unsigned i, float v) {});
			}
		}
	}
	void finish() override {
		conc::observe(picked);
		MC_CHECK(picked == 0 || picked == 2, "one mark: the readings were taken %d/2 times", picked);
		int before = picked;
		arr.add_new_readings([&](unsigned i) {
			picked++;
			return raw[i];
		});
		MC_CHECK(picked == 2, "the readings of one mark were taken %d times in total instead of once", picked / 2);
		arr.set_num_updates(1);
		arr.get_interp_values([&](unsigned i, float v) {
			MC_CHECK(v == (i ? 4.f : 3.f), "output %u settles on %g", i, double(v));
		});
	}
};
// repeated publication (producer values are atomics): the last published value is never lost
template<int Marks, int Polls>
struct Stream : conc::Program {
	FilteredInterpArray<1, Pass, float> arr;
	std::atomic<int> raw{0};
	int last = -1, taken = 0;
	int threads() const override {
		return 2;
	}
	void thread(int t) override {
		if (t == 0) {
			for (int k = 1; k <= Marks; k++) {
				raw.store(k, std::memory_order_relaxed);
				arr.mark_new_data_ready();
			}
		} else {
			for (int k = 0; k < Polls; k++) {
				arr.add_new_readings([&](unsigned) {
					int v = raw.load(std::memory_order_relaxed);
					conc::log("took %d", v);
					MC_CHECK(v >= 1, "new data was announced but the value read is older than the announcement");
					MC_CHECK(v >= last, "an older reading was taken after a newer one");
					last = v;
					taken++;
					return float(v);
				});
			}
		}
	}
	void finish() override {
		conc::observe(last * 16 + taken);
		MC_CHECK(taken <= Marks, "%d marks but readings taken %d times", Marks, taken);
		arr.add_new_readings([&](unsigned) {
			last = raw.load();
			taken++;
			return float(last);
		});
		MC_CHECK(last == Marks, "after %d announcements and a final poll the newest reading taken is %d", Marks, last);
		MC_CHECK(taken >= 1 && taken <= Marks, "%d announcements, readings taken %d times", Marks, taken);
		int again = 0;
		arr.add_new_readings([&](unsigned) {
			again++;
			return 0.f;
		});
		MC_CHECK(!again, "readings taken again without a new announcement");
	}
};
static int init = [] {
	mc::Reg("once", [](mc::Job &j) { conc::explore(j, {}, [] { return std::make_unique<Once>(); }); });
	mc::Reg("stream2x2", [](mc::Job &j) { conc::explore(j, {}, [] { return std::make_unique<Stream<2, 2>>(); }); });
	mc::Reg("stream2x3", [](mc::Job &j) { conc::explore(j, {}, [] { return std::make_unique<Stream<2, 3>>(); }); });
	mc::Reg("stream3x3", [](mc::Job &j) { conc::explore(j, {}, [] { return std::make_unique<Stream<3, 3>>(); }); });
	mc::Reg("stream4x4", [](mc::Job &j) { conc::explore(j, {}, [] { return std::make_unique<Stream<4, 4>>(); }); }, 2);
	return 0;
}();
