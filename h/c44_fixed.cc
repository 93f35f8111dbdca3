// C44: the memory test of a range whose length is known when compiling: the optimizer may not reason the reads away
#include "util/mem_test.hh"
template<uint32_t N>
bool fixed_range(uint32_t *p) {
	return MemTest::check(p, p + N);
}
#define ONE(n) template bool fixed_range<n>(uint32_t *);
#define FOUR(n) ONE(n) ONE(n + 1) ONE(n + 2) ONE(n + 3)
FOUR(1) FOUR(5) FOUR(9) FOUR(13) ONE(32) ONE(64)
