#include "common.hpp"
using namespace c21;
// floating point: all values are small multiples of 1/8, so that every operation is exact
PBT_PROP(doubles, 40000) {
	double const start = static_cast<double>(ctx.range(-400, 400)) / 8;
	double const stop = static_cast<double>(ctx.range(-400, 400)) / 8;
	double const step = static_cast<double>(ctx.range(-60, 60)) / 8;
	PBT_LOG("range(" << start << ", " << stop << ", " << step << ")");
	if (step == 0) {
		bool threw = false;
		try {
			(void) dtl::range(start, stop, step);
		} catch (std::invalid_argument const &) {
			threw = true;
		}
		PBT_CHECK(threw);
		return;
	}
	size_t n = 0;
	for (double x : dtl::range(start, stop, step)) {
		double const want = start + static_cast<double>(n) * step;
		PBT_CHECK_MSG(x == want && (step > 0 ? x < stop : x > stop), "element " << n << " is " << x);
		++n;
	}
	double const next = start + static_cast<double>(n) * step;
	PBT_CHECK_MSG(step > 0 ? next >= stop : next <= stop, n << " elements only");
	if (n >= 2) {
		ctx.nontrivial();
	}
	auto v = dtl::range(start, stop);
	size_t k = 0;
	for (double x : v) {
		PBT_CHECK(x == start + static_cast<double>(k) && x < stop);
		++k;
	}
	PBT_CHECK(start + static_cast<double>(k) >= stop);
}
