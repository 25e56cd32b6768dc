// Histories interpreted from bytes, written so that they can be constant evaluated as well as run. Each compares the library
// with a plain model on the way: the result is the first line that disagreed (0: none) and a digest of everything observed.
#ifndef VERIF_C33_PROGS_HPP
#define VERIF_C33_PROGS_HPP
#include <algorithm>
#include <array>
#include <compare>
#include <cstdint>
#include <memory>
#include <optional>
#include <span>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

#include <dice/template-library/flex_array.hpp>
#include <dice/template-library/for.hpp>
#include <dice/template-library/functional.hpp>
#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/integral_template_variant.hpp>
#include <dice/template-library/ipow.hpp>
#include <dice/template-library/memfn.hpp>
#include <dice/template-library/next_to_range.hpp>
#include <dice/template-library/opt_minmax.hpp>
#include <dice/template-library/pointer_tag_pair.hpp>
#include <dice/template-library/polymorphic_allocator.hpp>
#include <dice/template-library/ranges.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/switch_cases.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
#include <dice/template-library/type_list.hpp>

namespace dtl = dice::template_library;

struct Out {
	std::uint64_t digest = 1469598103934665603ull;
	int bad = 0;
	bool operator==(Out const &) const = default;
	constexpr void put(auto v) {
		digest = (digest ^ static_cast<std::uint64_t>(v)) * 1099511628211ull;
	}
};
struct In {
	std::uint8_t const *p;
	std::size_t n, at = 0;
	constexpr unsigned below(unsigned k) { return at < n ? p[at++] % k : 0; }
	constexpr bool flip() { return below(2) == 1; }
	constexpr bool done() const { return at >= n; }
};
#define WANT(...)                          \
	do {                                   \
		if (!(__VA_ARGS__) && !out.bad) {  \
			out.bad = __LINE__;            \
		}                                  \
	} while (false)

constexpr int ord(auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

// owns memory: the compiler rejects a constant evaluation that leaks it, frees it twice or uses it after it was freed
struct Box {
	int *p;
	constexpr Box(int v = 0) : p{new int{v}} {}
	constexpr Box(Box const &o) : p{o.p ? new int{*o.p} : nullptr} {}
	constexpr Box(Box &&o) noexcept : p{std::exchange(o.p, nullptr)} {}
	constexpr Box &operator=(Box const &o) {
		if (this != &o) {
			int *q = o.p ? new int{*o.p} : nullptr;
			delete p;
			p = q;
		}
		return *this;
	}
	constexpr Box &operator=(Box &&o) noexcept {
		if (this != &o) {
			delete p;
			p = std::exchange(o.p, nullptr);
		}
		return *this;
	}
	constexpr ~Box() { delete p; }
	constexpr operator int() const { return p ? *p : -1; }
	friend constexpr bool operator==(Box const &a, Box const &b) { return int{a} == int{b}; }
	friend constexpr auto operator<=>(Box const &a, Box const &b) { return int{a} <=> int{b}; }
};

// ---------------------------------------------------------------------------------------------------------------- flex_array
constexpr int val(auto const &x) { return static_cast<int>(x); }
inline constexpr auto alike = [](auto const &a, auto const &b) { return val(a) == val(b); };
template<typename F>
constexpr void same(Out &out, F &f, std::vector<int> const &m) {
	F const &c = f;
	WANT(f.size() == m.size() && f.empty() == m.empty());
	std::span const s{static_cast<std::span<typename F::value_type, F::has_dynamic_extent ? std::dynamic_extent : F::extent>>(f)};
	std::span const t{static_cast<std::span<typename F::value_type const, F::has_dynamic_extent ? std::dynamic_extent : F::extent>>(c)};
	WANT(s.size() == m.size() && t.size() == m.size());
	if (f.size() != m.size() || s.size() != m.size() || t.size() != m.size()) {
		return;
	}
	WANT(std::equal(f.begin(), f.end(), m.begin(), m.end(), alike) && std::equal(c.begin(), c.end(), m.begin(), m.end(), alike));
	WANT(std::equal(f.rbegin(), f.rend(), m.rbegin(), m.rend(), alike) && std::equal(c.crbegin(), c.crend(), m.rbegin(), m.rend(), alike));
	WANT(std::equal(s.begin(), s.end(), m.begin(), m.end(), alike) && std::equal(t.begin(), t.end(), m.begin(), m.end(), alike));
	for (std::size_t i = 0; i < m.size(); ++i) {
		WANT(val(f[i]) == m[i] && val(c[i]) == m[i] && val(f.data()[i]) == m[i] && val(*(c.data() + i)) == m[i]);
		out.put(m[i]);
	}
	out.put(m.size() + 77);
}
template<typename T, std::size_t E, std::size_t X>
constexpr Out flex_prog(In in) {
	using F = dtl::flex_array<T, E, X>;
	constexpr std::size_t top = E != std::dynamic_extent ? E : X != std::dynamic_extent ? X : 7;
	Out out;
	std::vector<int> m[2];
	auto some = [&] {
		std::vector<int> v(E != std::dynamic_extent ? E : in.below(top + 1));
		for (int &x : v) {
			x = static_cast<int>(in.below(5));
		}
		return v;
	};
	auto from = [](std::vector<int> const &v) {
		std::vector<T> src(v.begin(), v.end());
		return F(src.begin(), src.end());
	};
	m[0] = some();
	m[1] = some();
	F f[2]{from(m[0]), from(m[1])};
	while (!in.done() && !out.bad) {
		unsigned const i = in.below(2), j = in.below(2);
		switch (in.below(8)) {
			case 0:
				m[i] = some();
				f[i] = from(m[i]);
				break;
			case 1:
				f[i] = f[j];
				m[i] = m[j];
				break;
			case 2: {
				F g{f[i]};
				same(out, g, m[i]);
				WANT(g == f[i]);
				break;
			}
			case 3:
				if (i != j) {
					swap(f[i], f[j]);
					std::swap(m[i], m[j]);
				}
				break;
			case 4:
				if (!m[i].empty()) {
					unsigned const at = in.below(static_cast<unsigned>(m[i].size()));
					int const v = static_cast<int>(in.below(5));
					m[i][at] = v;
					switch (in.below(3)) {
						case 0: f[i][at] = T(v); break;
						case 1: static_cast<std::span<T, F::has_dynamic_extent ? std::dynamic_extent : F::extent>>(f[i])[at] = T(v); break;
						default: *(f[i].begin() + at) = T(v); break;
					}
				}
				break;
			case 5: {
				F g{f[i]};
				F h{std::move(g)};
				same(out, h, m[i]);
				g = f[j];
				h = std::move(g);
				same(out, h, m[j]);
				break;
			}
			case 6:
				if constexpr (E != std::dynamic_extent) {
					dtl::flex_array<T, std::dynamic_extent, E + 2> d{f[i]};
					same(out, d, m[i]);
					F back{d};
					same(out, back, m[i]);
					dtl::flex_array<T, std::dynamic_extent, std::dynamic_extent> e{f[i]};
					same(out, e, m[i]);
					F again{e};
					same(out, again, m[i]);
				} else if constexpr (std::is_same_v<T, int>) {
					f[i] = {1, 2};
					m[i] = {1, 2};
				}
				break;
			default: {
				auto const want = std::lexicographical_compare_three_way(m[i].begin(), m[i].end(), m[j].begin(), m[j].end());
				WANT(ord(f[i] <=> f[j]) == ord(want) && (f[i] == f[j]) == (m[i] == m[j]) && (f[i] < f[j]) == (want < 0) && (f[i] != f[j]) == (m[i] != m[j]) && (f[i] >= f[j]) == (want >= 0));
				out.put(ord(want));
				break;
			}
		}
		same(out, f[0], m[0]);
		same(out, f[1], m[1]);
	}
	return out;
}

// ---------------------------------------------------------------------------------------------------------------- ranges
constexpr std::vector<int> ints(In &in, unsigned longest, unsigned distinct) {
	std::vector<int> v(in.below(longest + 1));
	for (int &x : v) {
		x = static_cast<int>(in.below(distinct));
	}
	return v;
}
constexpr Out algo_prog(In in) {
	Out out;
	do {
		std::vector<int> v = ints(in, 8, 1 + in.below(6)), w = ints(in, 8, 3);
		if (in.flip()) {
			std::sort(v.begin(), v.end());
		}
		if (in.below(4) == 0) {
			w = v;
		}
		bool equal = true, sorted = true, down = true;
		for (std::size_t i = 1; i < v.size(); ++i) {
			equal = equal && v[i] == v[0];
			sorted = sorted && v[i - 1] < v[i];
			down = down && v[i - 1] > v[i];
		}
		WANT(dtl::all_equal(v) == equal && dtl::all_equal(v.begin(), v.end()) == equal && (v | dtl::all_equal()) == equal);
		WANT(dtl::is_sorted_unique(v) == sorted && dtl::is_sorted_unique(v.begin(), v.end()) == sorted && (v | dtl::is_sorted_unique()) == sorted);
		WANT(dtl::is_sorted_unique(v, std::ranges::greater{}) == down && dtl::is_sorted_unique(v, {}, std::negate<>{}) == down);
		WANT((v | dtl::empty) == v.empty() && (v | dtl::non_empty) == !v.empty() && dtl::empty(v.begin(), v.end()) == v.empty());
		auto const want = std::lexicographical_compare_three_way(v.begin(), v.end(), w.begin(), w.end());
		WANT(ord(dtl::lexicographical_compare_three_way(v, w)) == ord(want) && ord(dtl::lexicographical_compare_three_way(v.begin(), v.end(), w.begin(), w.end())) == ord(want));
		int const k = static_cast<int>(in.below(5));
		bool all = true, any = false;
		for (int x : v) {
			all = all && x < k;
			any = any || x < k;
		}
		auto const less = [k](int x) { return x < k; };
		WANT((v | dtl::all_of(less)) == all && (v | dtl::any_of(less)) == any && (v | dtl::none_of(less)) == !any);
		WANT(dtl::all_of(v, less) == all && dtl::any_of(v.begin(), v.end(), less) == any && dtl::none_of(v, less) == !any);
		std::vector<int> kept, got;
		std::copy_if(v.begin(), v.end(), std::back_inserter(kept), [k](int x) { return x != k; });
		for (int x : v | dtl::remove_element(k)) {
			got.push_back(x);
		}
		WANT(got == kept);
		out.put(ord(want) + 2 * equal + 4 * sorted + 8 * all + 16 * any + 32 * static_cast<int>(got.size()));
	} while (!in.done() && !out.bad);
	return out;
}
template<typename T, typename S>
constexpr Out range_prog(In in) {
	Out out;
	do {
		T const a = static_cast<T>(in.below(40)), b = static_cast<T>(in.below(40));
		S const s = static_cast<S>(std::is_signed_v<S> && in.flip() ? -static_cast<int>(1 + in.below(6)) : 1 + static_cast<int>(in.below(6)));
		std::vector<T> want;
		if (s > 0) {
			for (long long x = static_cast<long long>(a); x < static_cast<long long>(b); x += static_cast<long long>(s)) {
				want.push_back(static_cast<T>(x));
			}
		} else {
			for (long long x = static_cast<long long>(a); x > static_cast<long long>(b); x += static_cast<long long>(s)) {
				want.push_back(static_cast<T>(x));
			}
		}
		auto const r = dtl::range(a, b, s);
		std::vector<T> got, back;
		for (T x : r) {
			got.push_back(x);
		}
		for (T x : r.reversed()) {
			back.push_back(x);
		}
		std::reverse(back.begin(), back.end());
		WANT(got == want && back == want && r.size() == want.size() && r.empty() == want.empty());
		if (!want.empty()) {
			unsigned const at = in.below(static_cast<unsigned>(want.size()));
			WANT(r[at] == want[at] && r.front() == want.front() && r.back() == want.back());
			auto rest = r;
			rest.advance(at);
			WANT(rest.size() == want.size() - at && rest.front() == want[at]);
			auto it = r.begin();
			it += at;
			WANT(it != r.end() && *it == want[at]);
			auto const &p = it.peek();
			WANT(p.has_value() == (at + 1 < want.size()) && (!p || *p == want[at + 1]));
			++it;
			WANT((it == r.end()) == (at + 1 == want.size()));
			WANT(*(r.begin() + at) == want[at]);
			out.put(want[at]);
		}
		out.put(want.size());
	} while (!in.done() && !out.bad);
	return out;
}
struct Count {
	using value_type = int;
	int at = 0, end = 5;
	constexpr Count(int e = 5) : end{e} {}
	constexpr std::optional<int> next() { return at < end ? std::optional{at++} : std::nullopt; }
	constexpr std::optional<int> next_back() { return at < end ? std::optional{--end} : std::nullopt; }
};
constexpr Out next_prog(In in) {
	Out out;
	do {
		int const n = static_cast<int>(in.below(7));
		dtl::next_to_range<Count> const r{n};
		int k = 0;
		for (auto it = r.begin(); it != r.end(); ++it, ++k) {
			WANT(*it == k);
			if (in.flip()) {
				auto const &p = it.peek();
				WANT(p.has_value() == (k + 1 < n) && (!p || *p == k + 1));
			}
			if (in.flip()) {
				auto copy = it;
				auto old = copy++;
				WANT(*old == k && (copy == r.end()) == (k + 1 == n));
			}
			out.put(*it);
		}
		WANT(k == n);
		k = 0;
		for (int x : r.reversed()) {
			WANT(x == n - 1 - k++);
		}
		WANT(k == n);
	} while (!in.done() && !out.bad);
	return out;
}

// ---------------------------------------------------------------------------------------------------------------- opt_minmax, ipow
constexpr Out opt_prog(In in) {
	Out out;
	do {
		std::vector<std::optional<int>> v(in.below(7));
		std::optional<int> lo, hi;
		for (auto &x : v) {
			if (in.below(3) != 0) {
				x = static_cast<int>(in.below(9)) - 4;
				lo = lo ? std::min(*lo, *x) : *x;
				hi = hi ? std::max(*hi, *x) : *x;
			}
		}
		WANT(dtl::opt_min_element(v) == lo && dtl::opt_max_element(v.begin(), v.end()) == hi && (v | dtl::opt_max_element()) == hi);
		WANT(dtl::opt_min_element(v, std::ranges::greater{}) == hi);
		auto const mm = dtl::opt_minmax_element(v);
		WANT(mm.has_value() == lo.has_value() && (!mm || (mm->min == *lo && mm->max == *hi)));
		std::optional<int> const a = v.size() > 0 ? v[0] : std::nullopt, b = v.size() > 1 ? v[1] : std::nullopt, c = v.size() > 2 ? v[2] : std::nullopt;
		std::optional<int> small, large;
		for (auto const &x : {a, b}) {
			if (x) {
				small = small ? std::min(*small, *x) : *x;
				large = large ? std::max(*large, *x) : *x;
			}
		}
		WANT(dtl::opt_min(a, b) == small && dtl::opt_max(a, b) == large);
		WANT(dtl::opt_min<int>({a, b, c}) == dtl::opt_min(small, c) && dtl::opt_max<int>({a, b, c}) == dtl::opt_max(large, c));
		auto const two = dtl::opt_minmax(a, b);
		WANT(two.has_value() == small.has_value() && (!two || (two->min == *small && two->max == *large)));
		out.put(lo.value_or(50) + 100 * hi.value_or(50));
	} while (!in.done() && !out.bad);
	return out;
}
template<typename B, typename E>
constexpr Out ipow_prog(In in) {
	Out out;
	do {
		long long const lo = std::is_signed_v<B> ? -6 : 0;
		long long const base = lo + static_cast<long long>(in.below(static_cast<unsigned>(13 + (lo < 0 ? 0 : 6))));
		int exp = static_cast<int>(in.below(20));
		if (std::is_signed_v<E> && in.below(5) == 0) {
			exp = -exp;
		}
		__int128 want = 1;
		bool fits = true;
		if (exp >= 0) {
			for (int i = 0; i < exp && fits; ++i) {
				want *= base;
				fits = want >= static_cast<__int128>(std::numeric_limits<B>::min()) && want <= static_cast<__int128>(std::numeric_limits<B>::max());
			}
		} else if (base == 1 || base == -1) {
			want = base == 1 || exp % 2 == 0 ? 1 : -1;
		} else {
			want = 0;
		}
		if (fits) {
			auto const got = dtl::ipow(static_cast<B>(base), static_cast<E>(exp));
			WANT(static_cast<__int128>(got) == want);
			out.put(got);
		}
	} while (!in.done() && !out.bad);
	return out;
}

// ---------------------------------------------------------------------------------------------------------------- tuples, variants
template<int ix>
struct Cell {
	int v = ix + 10;
	constexpr Cell() = default;
	explicit constexpr Cell(int x) : v{x} {}
	constexpr auto operator<=>(Cell const &) const = default;
};
template<int first, int last>
constexpr Out ituple_prog(In in) {
	constexpr int step = first <= last ? 1 : -1;
	constexpr int n = (last - first) * step;
	using T = dtl::integral_template_tuple<first, last, Cell>;
	Out out;
	std::array<int, static_cast<std::size_t>(n)> m[2];
	T t[2];
	for (auto &x : m) {
		for (int i = 0; i < n; ++i) {
			x[static_cast<std::size_t>(i)] = first + i * step + 10;
		}
	}
	while (!in.done() && !out.bad) {
		unsigned const i = in.below(2), j = in.below(2);
		switch (in.below(4)) {
			case 0: {
				int const at = static_cast<int>(in.below(static_cast<unsigned>(n))), v = static_cast<int>(in.below(9));
				m[i][static_cast<std::size_t>(at)] = v;
				dtl::switch_cases<0, n>(at, [&](auto ix) { t[i].template get<first + decltype(ix)::value * step>().v = v; });
				break;
			}
			case 1:
				t[i] = t[j];
				m[i] = m[j];
				break;
			case 2:
				WANT((t[i] == t[j]) == (m[i] == m[j]) && (t[i] < t[j]) == (m[i] < m[j]) && ord(t[i] <=> t[j]) == ord(m[i] <=> m[j]));
				break;
			default:
				t[i].visit([&](auto &c) { c.v += 1; });
				for (int &x : m[i]) {
					++x;
				}
				break;
		}
		std::size_t k = 0;
		std::as_const(t[i]).visit([&]<int ix>(Cell<ix> const &c) {
			WANT(ix == first + static_cast<int>(k) * step && c.v == m[i][k]);
			out.put(c.v);
			++k;
		});
		WANT(k == m[i].size());
	}
	return out;
}
template<int first, int last>
constexpr Out ivariant_prog(In in) {
	constexpr int step = first <= last ? 1 : -1;
	constexpr int n = (last - first) * step;
	using V = dtl::integral_template_variant<first, last, Cell>;
	Out out;
	V v[2];
	std::pair<int, int> m[2]{{0, first + 10}, {0, first + 10}};
	while (!in.done() && !out.bad) {
		unsigned const i = in.below(2), j = in.below(2);
		switch (in.below(5)) {
			case 0: {
				int const at = static_cast<int>(in.below(static_cast<unsigned>(n))), x = static_cast<int>(in.below(9));
				bool const assign = in.flip();
				m[i] = {at, x};
				dtl::switch_cases<0, n>(at, [&](auto ix) {
					constexpr int id = first + decltype(ix)::value * step;
					if (assign) {
						v[i] = V{Cell<id>{x}};
					} else {
						WANT(v[i].template emplace<id>(x).v == x);
					}
				});
				break;
			}
			case 1:
				v[i] = v[j];
				m[i] = m[j];
				break;
			case 2: {
				V c{v[i]};
				WANT(c == v[i]);
				V d{std::move(c)};
				WANT(d == v[i]);
				break;
			}
			case 3: {
				// alternatives compare by position
				WANT((v[i] == v[j]) == (m[i] == m[j]) && ord(v[i] <=> v[j]) == ord(m[i] <=> m[j]) && (v[i] < v[j]) == (m[i] < m[j]));
				break;
			}
			default:
				v[i].visit([](auto &c) { c.v += 2; });
				m[i].second += 2;
				break;
		}
		WANT(v[i].index() == first + m[i].first * step);
		WANT(std::as_const(v[i]).visit([]<int ix>(Cell<ix> const &c) { return c.v + 100 * ix; }) == m[i].second + 100 * (first + m[i].first * step));
		dtl::switch_cases<0, n>(m[i].first, [&](auto ix) {
			constexpr int id = first + decltype(ix)::value * step;
			WANT(v[i].template holds_alternative<id>() && v[i].template get<id>().v == m[i].second);
		});
		out.put(m[i].first * 100 + m[i].second);
	}
	return out;
}
constexpr Out tuple_prog(In in) {
	Out out;
	do {
		int const a = static_cast<int>(in.below(50));
		long const b = static_cast<long>(in.below(50));
		signed char const c = static_cast<signed char>(in.below(50));
		auto go = [&](auto t) {
			long seen = 1;
			int calls = 0;
			dtl::tuple_for_each(t, [&](auto &x) {
				seen = seen * 100 + x;
				x = static_cast<std::remove_reference_t<decltype(x)>>(x + 1);
				++calls;
			});
			WANT(seen == ((1l * 100 + a) * 100 + b) * 100 + c && calls == 3);
			long const folded = dtl::tuple_fold(t, 1l, [](long acc, auto const &x) { return acc * 100 + x; });
			WANT(folded == ((1l * 100 + a + 1) * 100 + b + 1) * 100 + c + 1);
			out.put(folded);
			return t;
		};
		go(std::tuple{a, b, c});
		go(std::array<int, 3>{a, static_cast<int>(b), c});
		auto const t = go(dtl::standard_layout_tuple<int, long, signed char>{a, b, c});
		dtl::standard_layout_tuple<int, long, signed char> u{a, b, c};
		WANT(u < t && t != u && u.get<0>() == a && std::as_const(u).get<1>() == b && std::move(u).get<2>() == c);
		WANT(ord(u <=> t) == -1);
		dtl::standard_layout_tuple<Box, Box> boxes{dtl::uniform_construct, a};
		WANT(int{boxes.get<0>()} == a && int{boxes.get<1>()} == a);
		dtl::standard_layout_tuple<Box, Box> const other{dtl::individual_construct, Box{c}, Box{a}};
		boxes = other;
		WANT(boxes == other && int{boxes.get<0>()} == c);
		auto const [sum, sizes] = std::pair{dtl::tuple_type_fold<std::tuple<int, char, long>>(0ul, []<typename T>(unsigned long acc) { return acc * 10 + sizeof(T); }), 0};
		WANT(sum == 418 && sizes == 0);
	} while (!in.done() && !out.bad);
	return out;
}

// ---------------------------------------------------------------------------------------------------------------- loops, dispatch, binding
constexpr int sub(int a, int b, int c) { return a * 10000 + b * 100 + c; }
constexpr int take(Box a, Box const &b, int &c) { return c += a * 100 + b; }
struct Thing {
	int v;
	constexpr int mix(int a, int b) const { return v * 10000 + a * 100 + b; }
	constexpr int run(int a, int b) const { return DICE_MEMFN(mix, a)(b); }
};
constexpr Out loop_prog(In in) {
	Out out;
	do {
		int const x = static_cast<int>(in.below(12)) - 3;
		auto const f = [](auto i) { return static_cast<int>(decltype(i)::value) * 7; };
		int const d = dtl::switch_cases<0, 6>(x, f, [] { return -1; });
		WANT(d == (x >= 0 && x < 6 ? x * 7 : -1));
		WANT((dtl::switch_cases<5, -3>(x, f, [] { return -100; })) == (x >= -3 && x < 5 ? x * 7 : -100));
		WANT(dtl::switch_cases<4>(x < 0 ? 0 : x, f, [] { return -1; }) == (x < 0 ? 0 : x < 4 ? x * 7 : -1));
		WANT(dtl::switch_bool(x > 2, [](auto b) { return decltype(b)::value ? 5 : 6; }) == (x > 2 ? 5 : 6));
		int s = 1;
		dtl::for_range<2, -3>([&](auto i) { s = s * 3 + i + x; });
		int want = 1;
		for (int i = 2; i > -3; --i) {
			want = want * 3 + i + x;
		}
		WANT(s == want);
		dtl::for_values<4, 'c', 2l>([&](auto i) { s = (s * 3 + static_cast<int>(i)) % 10007; });
		for (int i : {4, int{'c'}, 2}) {
			want = (want * 3 + i) % 10007;
		}
		WANT(s == want);
		dtl::for_types<int, char, long>([&]<typename T>() { s = s * 3 + static_cast<int>(sizeof(T)); });
		want = ((want * 3 + 4) * 3 + 1) * 3 + 8;
		WANT(s == want);
		using L = dtl::type_list::type_list<char, int, long>;
		dtl::type_list::for_each<L>([&]<typename T>(std::type_identity<T>) { s = (s % 10007) * 3 + static_cast<int>(sizeof(T)); });
		want = (((want % 10007) * 3 + 1) % 10007 * 3 + 4) % 10007 * 3 + 8;
		WANT(s == want);
		WANT(dtl::type_list::fold<L>(x, []<typename T>(int acc, std::type_identity<T>) { return acc * 10 + static_cast<int>(sizeof(T)); }) == x * 1000 + 148);
		auto const bound = dtl::bind_front<sub>(x);
		WANT(bound(3, 4) == sub(x, 3, 4) && dtl::bind_front<sub>(x, 5)(6) == sub(x, 5, 6) && dtl::bind_front<sub>()(1, x, 2) == sub(1, x, 2));
		WANT(dtl::bind_front<&Thing::mix>(Thing{x})(1, 2) == Thing{x}.mix(1, 2));
		int c = 1;
		auto boxes = dtl::bind_front<take>(Box{3}, Box{4});
		WANT(boxes(c) == 305 && boxes(c) == 609 && c == 609);
		WANT(std::move(boxes)(c) == 913);
		WANT(Thing{x}.run(7, 8) == Thing{x}.mix(7, 8));
		out.put(d + s);
	} while (!in.done() && !out.bad);
	return out;
}
enum struct Tag : std::uint8_t { a, b, c, d };
template<typename T>
constexpr Out tag_prog(In in) {
	using P = dtl::pointer_tag_pair<long, T>;
	Out out;
	unsigned m[2]{0, 0};
	P p[2];
	while (!in.done() && !out.bad) {
		unsigned const i = in.below(2), j = in.below(2);
		switch (in.below(4)) {
			case 0:
				m[i] = in.below(4);
				p[i] = P{nullptr, static_cast<T>(m[i])};
				break;
			case 1:
				p[i] = p[j];
				m[i] = m[j];
				break;
			case 2:
				swap(p[i], p[j]);
				std::swap(m[i], m[j]);
				break;
			default: {
				P const q{p[i]};
				WANT(q == p[i] && ord(p[i] <=> p[j]) == ord(m[i] <=> m[j]) && (p[i] != p[j]) == (m[i] != m[j]));
				WANT(static_cast<unsigned>(get<1>(q)) == m[i]);
				break;
			}
		}
		WANT(static_cast<unsigned>(p[0].tag()) == m[0] && static_cast<unsigned>(p[1].tag()) == m[1]);
		out.put(m[0] * 4 + m[1]);
	}
	return out;
}
template<typename A>
constexpr Out alloc_prog(In in) {
	Out out;
	std::vector<int> m[2];
	std::vector<int, A> v[2];
	while (!in.done() && !out.bad) {
		unsigned const i = in.below(2), j = in.below(2);
		switch (in.below(6)) {
			case 0:
			case 1: {
				int const x = static_cast<int>(in.below(9));
				v[i].push_back(x);
				m[i].push_back(x);
				break;
			}
			case 2:
				if (!m[i].empty()) {
					v[i].erase(v[i].begin());
					m[i].erase(m[i].begin());
				}
				break;
			case 3:
				if (i != j) {
					v[i] = v[j];
					m[i] = m[j];
				}
				break;
			case 4:
				if (i != j) {
					v[i].swap(v[j]);
					m[i].swap(m[j]);
				}
				break;
			default:
				if (i != j) {
					v[i] = std::move(v[j]);
					v[j].clear();
					m[i] = std::move(m[j]);
					m[j].clear();
				}
				break;
		}
		for (unsigned k = 0; k < 2; ++k) {
			WANT(std::equal(v[k].begin(), v[k].end(), m[k].begin(), m[k].end()));
			for (int x : v[k]) {
				out.put(x);
			}
		}
	}
	return out;
}
#endif
