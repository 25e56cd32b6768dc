#include "common.hpp"
using namespace c25;
ALL(int32_t)
ALL(uint32_t)
ALL(int64_t)
ALL(uint64_t)
ONE(int64_t, int)
// character types are integer types too
ONE(char, int)
ONE(char8_t, uint64_t)
ONE(char16_t, int)
ONE(char32_t, char)
ONE(wchar_t, wchar_t)
ONE(int, char16_t)

// exhaustive for 8 bit bases
PBT_PROP(all_8bit_bases, 500) {
	auto const e = static_cast<int>(ctx.range(-4, 40));
	PBT_LOG("all 8 bit bases to the power of " << e);
	for (int b = -128; b < 256; ++b) {
		if (b < 128) {
			Want const w = reference(b, e, -128, 127);
			try {
				int8_t const r = dtl::ipow(static_cast<int8_t>(b), e);
				PBT_CHECK_MSG(w.kind == Kind::value && w.value == r, b << "^" << e << " = " << static_cast<int>(r));
			} catch (std::overflow_error const &) {
				PBT_CHECK_MSG(w.kind == Kind::overflow, b << "^" << e);
			} catch (std::underflow_error const &) {
				PBT_CHECK_MSG(w.kind == Kind::underflow, b << "^" << e);
			}
		}
		if (b >= 0) {
			Want const w = reference(b, e, 0, 255);
			try {
				uint8_t const r = dtl::ipow(static_cast<uint8_t>(b), e);
				PBT_CHECK_MSG(w.kind == Kind::value && w.value == r, b << "^" << e << " = " << static_cast<int>(r));
			} catch (std::overflow_error const &) {
				PBT_CHECK_MSG(w.kind == Kind::overflow, b << "^" << e);
			} catch (std::underflow_error const &) {
				PBT_CHECK_MSG(w.kind == Kind::underflow, b << "^" << e);
			}
		}
	}
	ctx.nontrivial();
}

// values computed by the compiler equal the values computed at run time
template<typename T, T base, size_t... E>
static void table(std::index_sequence<E...>) {
	static constexpr T vals[]{dtl::ipow(base, E)...};
	size_t e = 0;
	for (T v : vals) {
		PBT_CHECK_MSG(reference(base, static_cast<__int128>(e), std::numeric_limits<T>::min(), std::numeric_limits<T>::max()).value == v && dtl::ipow(base, e) == v, "exponent " << e);
		++e;
	}
}
PBT_PROP(compile_time, 10) {
	table<int64_t, 3>(std::make_index_sequence<40>{});
	table<int64_t, -3>(std::make_index_sequence<40>{});
	table<int64_t, -2>(std::make_index_sequence<64>{});
	table<uint64_t, 2>(std::make_index_sequence<64>{});
	table<uint64_t, 10>(std::make_index_sequence<20>{});
	table<int8_t, -2>(std::make_index_sequence<8>{});
	table<int8_t, -128>(std::make_index_sequence<2>{});
	table<uint8_t, 15>(std::make_index_sequence<3>{});
	table<int32_t, 7>(std::make_index_sequence<12>{});
	table<int16_t, -32768>(std::make_index_sequence<2>{});
	static_assert(dtl::ipow(-1, -3) == -1 && dtl::ipow(2, -1) == 0 && dtl::ipow(1, -5) == 1);
}
