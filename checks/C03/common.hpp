#include "life.hpp"

#include <dice/template-library/variant2.hpp>

#include <cmath>
#include <format>
#include <optional>
#include <string>
#include <unordered_set>
#include <utility>

namespace c03 {
	namespace dtl = dice::template_library;

	struct Boom {};
	struct Thrower {
		template<typename X>
		operator X() const { throw Boom{}; }
	};

	// weakly ordered: equivalence ignores the low bit, equality as well
	struct Weak {
		int v = 0;
		friend bool operator==(Weak const &a, Weak const &b) { return (a.v >> 1) == (b.v >> 1); }
		friend std::weak_ordering operator<=>(Weak const &a, Weak const &b) { return (a.v >> 1) <=> (b.v >> 1); }
	};
	// partially ordered: divisibility
	struct Part {
		int v = 1;
		friend bool operator==(Part const &a, Part const &b) { return a.v == b.v; }
		friend std::partial_ordering operator<=>(Part const &a, Part const &b) {
			if (a.v == b.v) {
				return std::partial_ordering::equivalent;
			}
			if (b.v % a.v == 0) {
				return std::partial_ordering::less;
			}
			if (a.v % b.v == 0) {
				return std::partial_ordering::greater;
			}
			return std::partial_ordering::unordered;
		}
	};
	struct MoveOnly {
		int v = 0;
		explicit MoveOnly(int x = 0) : v{x} {}
		MoveOnly(MoveOnly const &) = delete;
		MoveOnly(MoveOnly &&o) noexcept : v{std::exchange(o.v, -1)} {}
		MoveOnly &operator=(MoveOnly const &) = delete;
		MoveOnly &operator=(MoveOnly &&o) noexcept {
			v = std::exchange(o.v, -1);
			return *this;
		}
		friend bool operator==(MoveOnly const &, MoveOnly const &) = default;
		friend auto operator<=>(MoveOnly const &, MoveOnly const &) = default;
	};

	template<typename T>
	T gen(pbt::Ctx &ctx) {
		if constexpr (std::is_same_v<T, std::string>) {
			static std::string const strs[] = {"", "a", "b", "aa", "ab", std::string("a\0b", 3), std::string(40, 'z'), "{}", "\n"};
			return strs[ctx.below(std::size(strs))];
		} else if constexpr (std::is_floating_point_v<T>) {
			static T const ds[] = {0, -0.0, 1, -1, 0.5, 1e30f, std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
			return ds[ctx.below(std::size(ds))];
		} else if constexpr (std::is_same_v<T, bool>) {
			return ctx.flip();
		} else if constexpr (std::is_integral_v<T>) {
			return ctx.flip() ? static_cast<T>(ctx.below(4)) : ctx.edge<T>();
		} else if constexpr (std::is_same_v<T, Part>) {
			return Part{static_cast<int>(1 + ctx.below(8))};
		} else if constexpr (std::is_same_v<T, MoveOnly>) {
			return MoveOnly{static_cast<int>(ctx.below(5))};
		} else if constexpr (std::is_same_v<T, Weak>) {
			return Weak{static_cast<int>(ctx.below(6))};
		} else {
			return T{static_cast<int>(ctx.below(5))};
		}
	}

	// reference state
	template<typename T, typename U>
	struct Model {
		int idx = -1;
		std::optional<T> a;
		std::optional<U> b;
	};

	template<typename T, typename U>
	void make(pbt::Ctx &ctx, std::optional<dtl::variant2<T, U>> &v, Model<T, U> &m) {
		switch (ctx.below(5)) {
			case 0:
			case 1: {
				T x = gen<T>(ctx);
				if constexpr (std::is_copy_constructible_v<T>) {
					m.a.emplace(x);
				} else {
					m.a.emplace(x.v);
				}
				m.idx = 0;
				v.emplace(std::in_place_index<0>, std::move(x));
				break;
			}
			case 2:
			case 3: {
				U x = gen<U>(ctx);
				if constexpr (std::is_copy_constructible_v<U>) {
					m.b.emplace(x);
				} else {
					m.b.emplace(x.v);
				}
				m.idx = 1;
				v.emplace(std::in_place_index<1>, std::move(x));
				break;
			}
			default: {
				// valueless, reached from either alternative
				m.idx = -1;
				if (ctx.flip()) {
					v.emplace(std::in_place_index<1>, gen<U>(ctx));
				} else {
					v.emplace(std::in_place_index<0>, gen<T>(ctx));
				}
				bool threw = false;
				try {
					if (ctx.flip()) {
						v->template emplace<1>(Thrower{});
					} else {
						v->template emplace<0>(Thrower{});
					}
				} catch (Boom const &) {
					threw = true;
				}
				PBT_CHECK(threw);
				PBT_CHECK(v->valueless_by_exception());
				break;
			}
		}
	}

	inline int ord(auto c) { return c < 0 ? -1 : c > 0 ? 1 : c == 0 ? 0 : 2; }

	template<typename T, typename U>
	void state_is(dtl::variant2<T, U> const &v, Model<T, U> const &m) {
		PBT_CHECK(v.index() == (m.idx < 0 ? std::variant_npos : static_cast<size_t>(m.idx)));
		PBT_CHECK(v.valueless_by_exception() == (m.idx < 0));
		auto same = [](auto const &x, auto const &y) {
			if constexpr (std::is_floating_point_v<std::remove_cvref_t<decltype(x)>>) {
				return x == y || (x != x && y != y);
			} else if constexpr (requires { x.v; }) {
				return x.v == y.v;
			} else {
				return x == y;
			}
		};
		if (m.idx == 0) {
			PBT_CHECK(same(dtl::get<0>(v), *m.a));
		} else if (m.idx == 1) {
			PBT_CHECK(same(dtl::get<1>(v), *m.b));
		}
	}

	template<typename T, typename U>
	void run_compare(pbt::Ctx &ctx) {
		using V = dtl::variant2<T, U>;
		std::optional<V> v, w;
		Model<T, U> mv, mw;
		make(ctx, v, mv);
		make(ctx, w, mw);
		PBT_LOG("lhs index " << mv.idx << ", rhs index " << mw.idx);
		V const &x = *v;
		V const &y = *w;
		if (mv.idx == mw.idx || mv.idx < 0 || mw.idx < 0) {
			ctx.nontrivial();
		}
		if (mv.idx < 0 && mw.idx < 0) {
			ctx.label("both valueless");
		} else if (mv.idx < 0 || mw.idx < 0) {
			ctx.label("one valueless");
		} else if (mv.idx == mw.idx) {
			ctx.label("same alternative");
		} else {
			ctx.label("different alternatives");
		}
		// equality
		auto eq_model = [](Model<T, U> const &p, Model<T, U> const &q) {
			if (p.idx != q.idx) {
				return false;
			}
			return p.idx < 0 ? true : p.idx == 0 ? *p.a == *q.a : *p.b == *q.b;
		};
		bool const eq = eq_model(mv, mw);
		PBT_CHECK((x == y) == eq);
		PBT_CHECK((y == x) == eq);
		PBT_CHECK((x != y) == !eq);
		PBT_CHECK((x == x) == eq_model(mv, mv));
		// ordering
		if constexpr (std::three_way_comparable<T> && std::three_way_comparable<U>) {
			using C = std::common_comparison_category_t<std::compare_three_way_result_t<T>, std::compare_three_way_result_t<U>>;
			PBT_CHECK((std::is_same_v<decltype(x <=> y), C>));
			auto cmp_model = [](Model<T, U> const &p, Model<T, U> const &q) -> int {
				if (p.idx != q.idx) {
					return p.idx < q.idx ? -1 : 1;
				}
				return p.idx < 0 ? 0 : p.idx == 0 ? ord(*p.a <=> *q.a) : ord(*p.b <=> *q.b);
			};
			int const want = cmp_model(mv, mw);
			PBT_CHECK_MSG(ord(x <=> y) == want, "got " << ord(x <=> y) << ", expected " << want);
			PBT_CHECK(ord(y <=> x) == cmp_model(mw, mv));
			PBT_CHECK((x < y) == (want == -1));
			PBT_CHECK((x > y) == (want == 1));
			PBT_CHECK((x <= y) == (want == -1 || want == 0));
			PBT_CHECK((x >= y) == (want == 1 || want == 0));
		}
		// hash
		if constexpr (requires { std::hash<T>{}(std::declval<T const &>()); std::hash<U>{}(std::declval<U const &>()); }) {
			std::hash<V> h;
			size_t const hx = h(x), hy = h(y);
			if (eq) {
				PBT_CHECK(hx == hy);
			}
			PBT_CHECK(h(x) == hx);
			if constexpr (std::is_copy_constructible_v<V>) {
				V const copy = x;
				PBT_CHECK(h(copy) == hx);
				if (!(x != x)) {
					std::unordered_set<V> set;
					set.insert(x);
					set.insert(y);
					set.insert(copy);
					if (!(y != y)) {
						PBT_CHECK(set.size() == (eq ? 1u : 2u));
					}
					PBT_CHECK(set.contains(x));
				}
			}
		}
		// format
		if constexpr (std::formattable<T, char> && std::formattable<U, char>) {
			auto text = [](Model<T, U> const &p) -> std::string {
				if (p.idx < 0) {
					return "variant(valueless by exception)";
				}
				return "variant(" + (p.idx == 0 ? std::format("{}", *p.a) : std::format("{}", *p.b)) + ")";
			};
			auto const got = std::format("<{}>", x);
			PBT_CHECK_MSG(got == "<" + text(mv) + ">", "got " << got << ", expected <" << text(mv) << ">");
			PBT_CHECK(std::format("{} {}", x, y) == text(mv) + " " + text(mw));
		}
		// swap
		V &xm = *v;
		V &ym = *w;
		switch (ctx.below(3)) {
			case 0:
				swap(xm, ym);
				state_is(xm, mw);
				state_is(ym, mv);
				swap(xm, ym);
				break;
			case 1:
				std::swap(xm, ym);
				state_is(xm, mw);
				state_is(ym, mv);
				std::ranges::swap(ym, xm);
				break;
			default:
				swap(xm, xm);
				break;
		}
		state_is(xm, mv);
		state_is(ym, mw);
	}

	enum Cat { L, CL, R, CR };

	template<typename T, typename U>
	struct Visitor {
		int mutable calls_const = 0;
		int calls = 0;
		int idx = -1;
		Cat cat = L;
		void const *addr = nullptr;
		int self_cat = -1;

		template<typename X>
		void note(X &&x, int sc) {
			++calls;
			idx = std::is_same_v<std::remove_cvref_t<X>, T> ? 0 : 1;
			addr = &x;
			cat = std::is_lvalue_reference_v<X> ? (std::is_const_v<std::remove_reference_t<X>> ? CL : L) : (std::is_const_v<std::remove_reference_t<X>> ? CR : R);
			self_cat = sc;
		}
		template<typename X>
		Visitor &operator()(X &&x) & {
			note(std::forward<X>(x), 0);
			return *this;
		}
		template<typename X>
		Visitor &&operator()(X &&x) && {
			note(std::forward<X>(x), 1);
			return std::move(*this);
		}
		template<typename X>
		Visitor const &operator()(X &&x) const & {
			const_cast<Visitor *>(this)->note(std::forward<X>(x), 2);
			return *this;
		}
	};

	template<typename T, typename U>
	void run_visit(pbt::Ctx &ctx) {
		using V = dtl::variant2<T, U>;
		std::optional<V> v;
		Model<T, U> m;
		make(ctx, v, m);
		V &x = *v;
		V const &cx = x;
		Visitor<T, U> vis;
		size_t const cat = ctx.below(4);
		size_t const sc = ctx.below(3);
		PBT_LOG("visit: index " << m.idx << " value category " << cat << " visitor category " << sc);
		ctx.nontrivial();
		void const *target = m.idx == 0 ? static_cast<void const *>(dtl::get_if<0>(&cx)) : m.idx == 1 ? static_cast<void const *>(dtl::get_if<1>(&cx)) : nullptr;
		bool threw = false;
		auto go = [&](auto &&visitor) {
			using F = decltype(visitor);
			using Want = std::conditional_t<!std::is_lvalue_reference_v<F>, Visitor<T, U> &&, std::conditional_t<std::is_const_v<std::remove_reference_t<F>>, Visitor<T, U> const &, Visitor<T, U> &>>;
			auto check = [&](auto &&call) {
				static_assert(std::is_same_v<decltype(call()), Want>, "visit must return what the visitor returns");
				auto &&r = call();
				PBT_CHECK(&r == &vis);
			};
			switch (cat) {
				case 0: check([&]() -> decltype(auto) { return dtl::visit(std::forward<F>(visitor), x); }); break;
				case 1: check([&]() -> decltype(auto) { return dtl::visit(std::forward<F>(visitor), cx); }); break;
				case 2: check([&]() -> decltype(auto) { return dtl::visit(std::forward<F>(visitor), std::move(x)); }); break;
				default: check([&]() -> decltype(auto) { return dtl::visit(std::forward<F>(visitor), std::move(cx)); }); break;
			}
		};
		try {
			switch (sc) {
				case 0: go(vis); break;
				case 1: go(std::move(vis)); break;
				default: go(std::as_const(vis)); break;
			}
		} catch (std::bad_variant_access const &) {
			threw = true;
		}
		PBT_CHECK(threw == (m.idx < 0));
		PBT_CHECK(vis.calls == (m.idx < 0 ? 0 : 1));
		if (!threw) {
			PBT_CHECK(vis.idx == m.idx);
			PBT_CHECK(vis.addr == target);
			PBT_CHECK(vis.cat == static_cast<Cat>(cat));
			PBT_CHECK(vis.self_cat == static_cast<int>(sc));
		}
		state_is(cx, m);
		// an exception of the visitor reaches the caller
		if (m.idx >= 0) {
			bool boom = false;
			try {
				dtl::visit([](auto const &) { throw Boom{}; }, cx);
			} catch (Boom const &) {
				boom = true;
			}
			PBT_CHECK(boom);
			state_is(cx, m);
		}
	}
} // namespace c03
