#include "pbt.hpp"

#include <algorithm>
#include <optional>
#include <ranges>
#include <stdexcept>
#include <vector>

#include <dice/template-library/ranges.hpp>

namespace c21 {
	namespace dtl = dice::template_library;
	using i128 = __int128;

	template<typename T>
	T value(pbt::Ctx &ctx) {
		return ctx.edge<T>();
	}
	struct Model {
		i128 start, step;
		i128 count;
		i128 at(i128 i) const { return start + i * step; }
	};
	inline Model model(i128 start, i128 stop, i128 step) {
		i128 const dist = step > 0 ? stop - start : start - stop;
		i128 const mag = step > 0 ? step : -step;
		return {start, step, dist <= 0 ? 0 : (dist + mag - 1) / mag};
	}

	template<typename V>
	void check_view(pbt::Ctx &ctx, V const &v, Model const &m) {
		using T = typename V::value_type;
		auto is = [&](auto const &got, i128 ix) { return static_cast<i128>(got) == m.at(ix); };
		size_t const n = static_cast<size_t>(m.count);
		PBT_CHECK_MSG(v.size() == n, "size " << v.size() << ", expected " << n);
		PBT_CHECK(v.empty() == (n == 0) && static_cast<bool>(v) == (n != 0));
		PBT_CHECK(std::ranges::empty(v) == (n == 0) && std::ranges::size(v) == n);
		size_t const prefix = n < 40 ? n : 40;
		{
			auto it = v.begin();
			for (size_t i = 0; i < prefix; ++i) {
				PBT_CHECK(it != v.end() && v.end() != it);
				PBT_CHECK_MSG(is(*it, static_cast<i128>(i)), "element " << i << " is " << *it << ", expected " << static_cast<long long>(m.at(static_cast<i128>(i))));
				if (ctx.flip()) {
					++it;
				} else {
					auto old = it++;
					PBT_CHECK(is(*old, static_cast<i128>(i)) && is(*old.operator->(), static_cast<i128>(i)));
				}
			}
			PBT_CHECK((it == v.end()) == (prefix == n));
			PBT_CHECK((v.cend() == it) == (prefix == n));
		}
		{
			auto it = v.rbegin();
			for (size_t i = 0; i < prefix; ++i) {
				PBT_CHECK(it != v.rend());
				PBT_CHECK_MSG(is(*it, m.count - 1 - static_cast<i128>(i)), "element " << i << " from the back is " << *it);
				++it;
			}
			PBT_CHECK((it == v.rend()) == (prefix == n));
		}
		if (n > 0) {
			PBT_CHECK(is(v.front(), 0) && is(v.back(), m.count - 1));
			size_t const ix = static_cast<size_t>(ctx.choice(n - 1));
			PBT_CHECK_MSG(is(v[ix], static_cast<i128>(ix)), "[" << ix << "] is " << v[ix]);
			PBT_CHECK(is(v[n - 1], m.count - 1));
			auto it = v.begin();
			PBT_CHECK(is(*(it + ix), static_cast<i128>(ix)));
			it += ix;
			PBT_CHECK(is(*it, static_cast<i128>(ix)));
			bool const last = ix + 1 == n;
			std::optional<T> const pk = it.peek();
			PBT_CHECK(pk.has_value() == !last);
			if (!last) {
				PBT_CHECK(is(*pk, static_cast<i128>(ix) + 1));
			}
			++it;
			PBT_CHECK((it == v.end()) == last);
			if (!last) {
				PBT_CHECK(is(*it, static_cast<i128>(ix) + 1));
			}
			// jump to or behind the end
			size_t const over = n + ctx.below(3);
			if (over >= n) {
				auto e = v.begin();
				e += over;
				PBT_CHECK(e == v.end());
				auto re = v.crbegin();
				re += over;
				PBT_CHECK(re == v.crend());
			}
			auto r = v.rbegin();
			r += ix;
			PBT_CHECK(is(*r, m.count - 1 - static_cast<i128>(ix)));
		}
		{
			// drop from the front
			V w = v;
			size_t const off = static_cast<size_t>(n == 0 ? ctx.below(3) : ctx.choice(n < ~size_t{0} - 2 ? n + 2 : n));
			PBT_CHECK(&w.advance(off) == &w);
			size_t const left = off >= n ? 0 : n - off;
			PBT_CHECK_MSG(w.size() == left, "after advance(" << off << ") size " << w.size() << ", expected " << left);
			if (left > 0) {
				PBT_CHECK(is(w.front(), static_cast<i128>(off)) && is(*w.begin(), static_cast<i128>(off)) && is(w.back(), m.count - 1));
			} else {
				PBT_CHECK(w.begin() == w.end() && w.rbegin() == w.rend());
			}
			PBT_CHECK(v.size() == n);
		}
	}

	template<typename V>
	void check_adaptors(pbt::Ctx &ctx, V const &v, Model const &m) {
		if (m.count > 200) {
			return;
		}
		using T = typename V::value_type;
		std::vector<T> want;
		for (i128 i = 0; i < m.count; ++i) {
			want.push_back(static_cast<T>(m.at(i)));
		}
		size_t const k = ctx.below(want.size() + 2);
		std::vector<T> got;
		for (auto x : v | std::views::take(k)) {
			got.push_back(x);
		}
		PBT_CHECK(got == std::vector<T>(want.begin(), want.begin() + static_cast<long>(std::min(k, want.size()))));
		got.clear();
		for (auto x : v | std::views::drop(k)) {
			got.push_back(x);
		}
		PBT_CHECK(got == std::vector<T>(want.begin() + static_cast<long>(std::min(k, want.size())), want.end()));
		got.clear();
		for (auto x : v | std::views::filter([](T x) { return (static_cast<unsigned long long>(x) & 1) != 0; }) | std::views::transform([](T x) { return static_cast<T>(~x); })) {
			got.push_back(x);
		}
		std::vector<T> odd;
		for (T x : want) {
			if ((static_cast<unsigned long long>(x) & 1) != 0) {
				odd.push_back(static_cast<T>(~x));
			}
		}
		PBT_CHECK(got == odd);
		got.clear();
		for (auto x : v.reversed()) {
			got.push_back(x);
		}
		std::reverse(got.begin(), got.end());
		PBT_CHECK(got == want);
		got.clear();
		std::ranges::copy(v, std::back_inserter(got));
		PBT_CHECK(got == want);
	}

	// arbitrary mix of consuming from both ends
	template<typename T, typename S>
	void check_double_ended(pbt::Ctx &ctx, T start, T stop, S step, Model const &m) {
		using It = typename dtl::range_view<T, S>::iterator::base_iterator;
		It it{start, stop, step};
		i128 lo = 0, hi = m.count;
		int k = 0;
		while (k++ < 30 && ctx.more(8)) {
			size_t const left = static_cast<size_t>(hi - lo);
			PBT_CHECK_MSG(it.remaining() == left, "remaining " << it.remaining() << ", expected " << left);
			size_t off = 0;
			switch (ctx.below(4)) {
				case 0: off = ctx.below(4); break;
				case 1: off = left == 0 ? 0 : static_cast<size_t>(ctx.choice(left - 1)); break;
				case 2: off = left - (left > 0 ? ctx.below(2) : 0); break;
				default: off = ctx.chance(1, 4) ? ctx.edge<size_t>() : 0; break;
			}
			bool const has = off < left;
			size_t const what = ctx.below(4);
			std::optional<T> got;
			i128 want = 0;
			switch (what) {
				case 0:
					got = it.next();
					want = lo;
					if (left > 0) {
						++lo;
					}
					PBT_CHECK(got.has_value() == (left > 0));
					break;
				case 1:
					got = it.next_back();
					want = hi - 1;
					if (left > 0) {
						--hi;
					}
					PBT_CHECK(got.has_value() == (left > 0));
					break;
				case 2:
					got = it.nth(off);
					want = lo + static_cast<i128>(off);
					lo = has ? want + 1 : hi;
					PBT_CHECK_MSG(got.has_value() == has, "nth(" << off << ") with " << left << " elements");
					break;
				default:
					got = it.nth_back(off);
					want = hi - 1 - static_cast<i128>(off);
					hi = has ? want : lo;
					PBT_CHECK_MSG(got.has_value() == has, "nth_back(" << off << ") with " << left << " elements");
					break;
			}
			if (got.has_value()) {
				PBT_CHECK_MSG(static_cast<i128>(*got) == m.at(want), "operation " << what << " with offset " << off << " returned " << *got << ", expected " << static_cast<long long>(m.at(want)));
			}
		}
	}

	template<typename T, typename S>
	void run(pbt::Ctx &ctx) {
		T start = value<T>(ctx), stop = value<T>(ctx);
		if (ctx.chance(1, 3)) {
			// close together, near any place
			stop = static_cast<T>(static_cast<unsigned long long>(start) + static_cast<unsigned long long>(ctx.below(60)) - 30);
		}
		S step = value<S>(ctx);
		if (ctx.chance(1, 3)) {
			step = static_cast<S>(ctx.range(-4, 4));
		}
		if (ctx.chance(2, 3) && (step > S{0}) != (stop > start)) {
			std::swap(start, stop);
		}
		PBT_LOG("range(" << start << ", " << stop << ", " << step << ")");
		if (step == S{0}) {
			bool threw = false;
			try {
				(void) dtl::range(start, stop, step);
			} catch (std::invalid_argument const &) {
				threw = true;
			}
			PBT_CHECK_MSG(threw, "step 0 was accepted");
			return;
		}
		Model const m = model(start, stop, step);
		auto const v = dtl::range(start, stop, step);
		check_view(ctx, v, m);
		check_adaptors(ctx, v, m);
		check_double_ended<T, S>(ctx, start, stop, step, m);
		if (m.count >= 2) {
			ctx.nontrivial();
		}
		if (m.count > 0 && (m.at(m.count) > static_cast<i128>(std::numeric_limits<T>::max()) || m.at(m.count) < static_cast<i128>(std::numeric_limits<T>::min()))) {
			ctx.label("the step behind the last element overflows the type");
		}
		if (step < S{0}) {
			ctx.label("backwards");
		}
		if (m.count > 200) {
			ctx.label("too long to enumerate, sampled");
		}
	}
	template<typename T>
	void run_short(pbt::Ctx &ctx) {
		T const start = value<T>(ctx), stop = value<T>(ctx);
		PBT_LOG("range(" << start << ", " << stop << ") and range(" << stop << ")");
		check_view(ctx, dtl::range(start, stop), model(start, stop, 1));
		check_view(ctx, dtl::range(stop), model(0, stop, 1));
		ctx.nontrivial();
	}
} // namespace c21
