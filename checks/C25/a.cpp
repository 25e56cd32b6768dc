#include "common.hpp"
using namespace c25;
Want c25::reference(__int128 base, __int128 exp, __int128 lo, __int128 hi) {
	if (base == 0) return {Kind::value, exp == 0 ? 1 : 0};
	if (base == 1) return {Kind::value, 1};
	if (base == -1) return {Kind::value, exp % 2 == 0 ? 1 : -1};
	if (exp < 0) return {Kind::value, 0};
	__int128 r = 1;
	bool const neg = base < 0 && exp % 2 != 0;
	for (__int128 i = 0; i < exp; ++i) {
		// |r| <= 2^64 and |base| <= 2^64, so the product of the magnitudes is checked against 2^65 without overflowing
		__int128 const a = r < 0 ? -r : r, b = base < 0 ? -base : base;
		if (a > ((static_cast<__int128>(1) << 65) / b)) return {neg ? Kind::underflow : Kind::overflow, 0};
		r *= base;
	}
	if (r > hi) return {Kind::overflow, 0};
	if (r < lo) return {Kind::underflow, 0};
	return {Kind::value, r};
}
ALL(int8_t)
ALL(uint8_t)
ALL(int16_t)
ALL(uint16_t)
