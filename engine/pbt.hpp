// Tape based property testing engine.
//
// Every random decision of a case is a draw `choice(n)` in [0, n]. While generating, draws come from a PRNG and are
// recorded; while replaying / shrinking / fuzzing, draws are read from a tape (clamped into range, 0 when the tape is
// exhausted). A case is therefore a pure function of its tape, and shrinking the tape shrinks the case. 0 must always
// be the simplest choice.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <string_view>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

	struct Failure {
		std::string msg;
	};

	struct Rng {
		uint64_t s = 0;
		uint64_t next() noexcept {
			uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
			return z ^ (z >> 31);
		}
	};

	struct Ctx {
		static constexpr size_t max_tape = 1 << 16;

		// tape: in replay mode the input, in both modes the record of what was really drawn
		bool replay = false;
		uint64_t const *in = nullptr;
		size_t in_len = 0;
		size_t in_pos = 0;
		Rng rng{};
		uint64_t *rec = nullptr;    // record buffer, may be shared memory
		size_t volatile *rec_len = nullptr;
		uint64_t hash = 0xcbf29ce484222325ULL;
		bool tracing = false;
		bool is_nontrivial = false;
		uint32_t label_bits = 0;

		uint64_t choice(uint64_t max) noexcept {
			uint64_t v;
			if (replay) {
				v = in_pos < in_len ? in[in_pos] : 0;
				++in_pos;
				if (v > max) {
					v = max == 0 ? 0 : v % (max + 1);
				}
			} else if (max == std::numeric_limits<uint64_t>::max()) {
				v = rng.next();
			} else {
				v = static_cast<uint64_t>((static_cast<unsigned __int128>(rng.next()) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
			}
			size_t const n = *rec_len;
			if (n < max_tape) {
				rec[n] = v;
				*rec_len = n + 1;
			}
			hash = (hash ^ v) * 0x100000001b3ULL;
			hash ^= hash >> 29;
			return v;
		}

		// [0, n)
		size_t below(size_t n) noexcept { return n <= 1 ? (choice(0), 0) : static_cast<size_t>(choice(n - 1)); }
		int64_t range(int64_t lo, int64_t hi) noexcept { return static_cast<int64_t>(static_cast<uint64_t>(lo) + choice(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo))); }
		bool flip() noexcept { return choice(1) != 0; }
		// true with probability num/den; 0 is false
		bool chance(unsigned num, unsigned den) noexcept { return choice(den - 1) >= den - num; }
		// continue a loop? 0 stops; expected number of iterations ~ avg
		bool more(unsigned avg) noexcept { return choice(avg) != 0; }

		template<typename T>
		T const &pick(std::initializer_list<T> il) noexcept {
			return *(il.begin() + below(il.size()));
		}

		template<typename C>
		decltype(auto) pick_from(C &&c) noexcept {
			return c[below(c.size())];
		}

		// size biased to small values, in [0, max]
		size_t size(size_t max) noexcept {
			switch (choice(3)) {
				case 0: return choice(max < 3 ? max : 3);
				case 1: return choice(max < 8 ? max : 8);
				default: return choice(max);
			}
		}

		// integer biased to the limits, powers of two and small values
		template<std::integral T>
		T edge() noexcept {
			using L = std::numeric_limits<T>;
			using U = std::make_unsigned_t<T>;
			uint64_t const kind = choice(7);
			switch (kind) {
				case 0: return static_cast<T>(choice(4));
				case 1: return static_cast<T>(U{0} - static_cast<U>(choice(4)));
				case 2: return static_cast<T>(static_cast<U>(L::max()) - static_cast<U>(choice(4)));
				case 3: return static_cast<T>(static_cast<U>(L::min()) + static_cast<U>(choice(4)));
				case 4: {
					U const p = static_cast<U>(U{1} << choice(sizeof(T) * 8 - 1));
					return static_cast<T>(static_cast<U>(p + static_cast<U>(choice(2)) - 1));
				}
				case 5: return static_cast<T>(choice(100));
				default: return static_cast<T>(choice(static_cast<uint64_t>(std::numeric_limits<U>::max())));
			}
		}

		void nontrivial() noexcept { is_nontrivial = true; }

		// classification labels (static strings); counted per property
		void label(char const *name) noexcept;

		void log(std::string_view s) noexcept;

		[[noreturn]] void fail(std::string msg) { throw Failure{std::move(msg)}; }

		void check(bool cond, char const *what) {
			if (!cond) [[unlikely]] {
				throw Failure{what};
			}
		}
	};

	using PropFn = void (*)(Ctx &);

	// cheap-to-compile string builder (all members out of line)
	struct Str {
		std::string s;
		Str();
		~Str();
		Str &operator<<(char const *x);
		Str &operator<<(std::string_view x);
		Str &operator<<(std::string const &x) { return *this << std::string_view{x}; }
		Str &operator<<(bool x);
		Str &operator<<(char x);
		Str &operator<<(double x);
		Str &put_i(long long x);
		Str &put_u(unsigned long long x);
		template<std::integral T> requires (!std::same_as<T, bool> && !std::same_as<T, char>)
		Str &operator<<(T x) {
			if constexpr (std::is_signed_v<T>) {
				return put_i(static_cast<long long>(x));
			} else {
				return put_u(static_cast<unsigned long long>(x));
			}
		}
		template<typename T> requires (std::is_enum_v<T>)
		Str &operator<<(T x) { return put_i(static_cast<long long>(x)); }
		template<typename T> requires (std::is_pointer_v<T> && !std::same_as<std::remove_cv_t<std::remove_pointer_t<T>>, char>)
		Str &operator<<(T x) { return *this << "ptr:" << static_cast<unsigned long long>(reinterpret_cast<uintptr_t>(x)); }
		[[noreturn]] void fail(char const *where);
		void log(Ctx &ctx);
	};

	[[noreturn]] void fail_at(char const *where);

	// minimal function reference
	template<typename Sig>
	struct fref;
	template<typename R, typename... A>
	struct fref<R(A...)> {
		void *obj;
		R (*fn)(void *, A...);
		template<typename F> requires (!std::same_as<std::remove_cvref_t<F>, fref>)
		fref(F &&f) : obj{const_cast<void *>(static_cast<void const *>(&f))}, fn{[](void *o, A... a) -> R { return (*static_cast<std::remove_reference_t<F> *>(o))(static_cast<A &&>(a)...); }} {}
		R operator()(A... a) const { return fn(obj, static_cast<A &&>(a)...); }
	};

	struct Prop {
		char const *name;
		PropFn fn;
		uint64_t quick;
		uint64_t thorough;
		bool leak_check;
	};

	struct Reg {
		Reg(char const *name, PropFn fn, uint64_t quick, uint64_t thorough, bool leak_check);
	};

	template<typename A, typename B>
	void check_eq(A const &a, B const &b, char const *what) {
		if (!(a == b)) [[unlikely]] {
			Str os;
			if constexpr (requires { os << a << b; }) {
				os << ": got " << a << ", expected " << b;
			}
			os.fail(what);
		}
	}

	// Called by harness code that detects a failure where it cannot throw.
	[[noreturn]] void die(char const *msg) noexcept;

	bool is_fuzzing() noexcept;
} // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)

// PBT_PROP(name, number of quick cases [, number of thorough cases [, leak check]])
#define PBT_PROP4(pname, nquick, nthorough, leak)                                   \
	static void prop_##pname(::pbt::Ctx &);                                         \
	static ::pbt::Reg const reg_##pname{#pname, &prop_##pname, nquick, nthorough, leak}; \
	static void prop_##pname([[maybe_unused]] ::pbt::Ctx &ctx)
#define PBT_PROP(pname, nquick) PBT_PROP4(pname, nquick, (nquick) * 20ULL, true)
#define PBT_PROP_NOLEAK(pname, nquick) PBT_PROP4(pname, nquick, (nquick) * 20ULL, false)

#define PBT_CHECK(cond)                                                              \
	do {                                                                             \
		if (!(cond)) [[unlikely]] {                                                  \
			::pbt::fail_at(__FILE__ ":" PBT_STR(__LINE__) ": " #cond);               \
		}                                                                            \
	} while (0)
#define PBT_CHECK_MSG(cond, stream)                                                  \
	do {                                                                             \
		if (!(cond)) [[unlikely]] {                                                  \
			::pbt::Str pbt_os_;                                                      \
			pbt_os_ << stream;                                                       \
			pbt_os_.fail(__FILE__ ":" PBT_STR(__LINE__) ": " #cond ": ");            \
		}                                                                            \
	} while (0)
#define PBT_EQ(a, b) ::pbt::check_eq((a), (b), __FILE__ ":" PBT_STR(__LINE__) ": " #a " == " #b)
#define PBT_LOG(stream)                                                              \
	do {                                                                             \
		if (ctx.tracing) [[unlikely]] {                                              \
			::pbt::Str pbt_os_;                                                      \
			pbt_os_ << stream;                                                       \
			pbt_os_.log(ctx);                                                        \
		}                                                                            \
	} while (0)

#endif
