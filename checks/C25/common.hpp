#include "pbt.hpp"

#include <cstdint>
#include <limits>
#include <stdexcept>
#include <string>

#include <dice/template-library/ipow.hpp>

namespace c25 {
	namespace dtl = dice::template_library;

	enum struct Kind { value, overflow, underflow };
	struct Want {
		Kind kind;
		__int128 value;
	};
	// exact power in the range [lo, hi]; the exponent may be anything
	Want reference(__int128 base, __int128 exp, __int128 lo, __int128 hi);

	template<typename B, typename E>
	void one(pbt::Ctx &ctx) {
		using L = std::numeric_limits<B>;
		B base;
		E exp;
		switch (ctx.below(4)) {
			case 0:
				base = static_cast<B>(ctx.range(-12, 12));
				exp = static_cast<E>(ctx.choice(70));
				break;
			case 1: { // around a border: the e-th root of a limit, one more or less
				uint64_t const e = 1 + ctx.choice(40);
				bool const neg = std::is_signed_v<B> && ctx.flip();
				__int128 const lim = neg ? -static_cast<__int128>(L::min()) : static_cast<__int128>(L::max());
				__int128 lo = 0, hi = lim;
				while (lo < hi) {
					__int128 const mid = lo + (hi - lo + 1) / 2;
					if (reference(mid, static_cast<__int128>(e), 0, lim).kind == Kind::value) lo = mid; else hi = mid - 1;
				}
				__int128 b = lo + static_cast<__int128>(ctx.choice(4)) - 2;
				if (neg) b = -b;
				base = static_cast<B>(b);
				exp = static_cast<E>(e + ctx.choice(2) - 1);
				break;
			}
			case 2:
				base = ctx.edge<B>();
				exp = ctx.edge<E>();
				break;
			default:
				base = ctx.edge<B>();
				exp = static_cast<E>(ctx.range(-3, 66));
				break;
		}
		PBT_LOG(static_cast<long long>(base) << (std::is_signed_v<B> ? " (signed " : " (unsigned ") << sizeof(B) * 8 << " bit) to the power of " << static_cast<long long>(exp) << (std::is_signed_v<E> ? " (signed " : " (unsigned ") << sizeof(E) * 8 << " bit)");
		Want const w = reference(base, exp, L::min(), L::max());
		Kind k = Kind::value;
		B got{};
		static_assert(std::is_same_v<decltype(dtl::ipow(base, exp)), B>);
		try {
			got = dtl::ipow(base, exp);
		} catch (std::overflow_error const &) {
			k = Kind::overflow;
		} catch (std::underflow_error const &) {
			k = Kind::underflow;
		}
		PBT_CHECK_MSG(k == w.kind, "outcome " << k << ", expected " << w.kind << " (0: a value, 1: overflow, 2: underflow)");
		if (k == Kind::value) {
			PBT_CHECK_MSG(static_cast<__int128>(got) == w.value, "got " << static_cast<long long>(got) << ", expected " << static_cast<long long>(w.value));
		}
		// b^(e+1) = b * b^e as long as both are representable
		if (k == Kind::value && exp >= 0 && exp < std::numeric_limits<E>::max()) {
			B next;
			if (!__builtin_mul_overflow(got, base, &next)) {
				PBT_CHECK(dtl::ipow(base, static_cast<E>(exp + 1)) == next);
			}
		}
		ctx.label(k == Kind::value ? "value" : k == Kind::overflow ? "overflow" : "underflow");
		if (base != 0 && base != 1 && exp > 1) ctx.nontrivial();
	}
} // namespace c25
#define ONE(b, e) PBT_PROP(b##_##e, 5000) { one<b, e>(ctx); }
#define ALL(b) ONE(b, int8_t) ONE(b, uint8_t) ONE(b, int16_t) ONE(b, uint16_t) ONE(b, int32_t) ONE(b, uint32_t) ONE(b, int64_t) ONE(b, uint64_t)
