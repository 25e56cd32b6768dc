#include "common.hpp"
using namespace c22;

template<typename P>
static bool naive_distinct(Vals const &v, P eq) {
	for (size_t i = 0; i < v.size(); ++i) {
		for (size_t j = i + 1; j < v.size(); ++j) {
			if (eq(v[i], v[j])) {
				return false;
			}
		}
	}
	return true;
}
template<typename T>
static void distinct_case(pbt::Ctx &ctx) {
	Vals const v = values(ctx, 8);
	log(ctx, "values", v);
	auto const t = convert<T>(v);
	std::forward_list<T> const l(t.begin(), t.end());
	bool const want = naive_distinct(v, [](int a, int b) { return E<T>::eq(a, b); });
	PBT_CHECK_MSG(dtl::all_distinct(t) == want && dtl::all_distinct(t.begin(), t.end()) == want && (t | dtl::all_distinct()) == want, "expected " << want);
	PBT_CHECK(dtl::all_distinct(l) == want && (l | dtl::all_distinct()) == want);
	with_input(t, [&](auto &&r) { PBT_CHECK(dtl::all_distinct(r) == want); });
	with_input(t, [&](auto &&r) { PBT_CHECK((r | dtl::all_distinct()) == want); });
	if (v.size() > 1) {
		ctx.nontrivial();
	}
}
PBT_PROP(distinct_int, 20000) { distinct_case<int>(ctx); }
PBT_PROP(distinct_less, 15000) { distinct_case<Less>(ctx); }
PBT_PROP(distinct_double, 15000) { distinct_case<double>(ctx); }
PBT_PROP(distinct_hashed, 20000) {
	distinct_case<Hashed>(ctx);
	// predicates that are coarser or finer than ==, but never call elements with different hashes equal
	Vals const v = values(ctx, 8);
	log(ctx, "values", v);
	auto const t = convert<Hashed>(v);
	bool const split = ctx.flip();
	auto same = [split](int a, int b) { return a % 4 == b % 4 && (!split || a == b); };
	auto pred = [same](Hashed a, Hashed b) { return same(a.v, b.v); };
	// needs a default constructible predicate only if none is given
	bool const want = naive_distinct(v, same);
	std::function<bool(Hashed, Hashed)> fn = pred;
	PBT_CHECK(dtl::all_distinct(t, pred) == want && dtl::all_distinct(t.begin(), t.end(), pred) == want && (t | dtl::all_distinct(pred)) == want);
	PBT_CHECK(dtl::all_distinct(t, fn) == want);
}

// unique
template<typename T>
static void unique_case(pbt::Ctx &ctx) {
	Vals const v = values(ctx, 8);
	log(ctx, "values", v);
	auto const t = convert<T>(v);
	std::vector<size_t> want; // positions of first occurrences
	for (size_t i = 0; i < v.size(); ++i) {
		bool dup = false;
		for (size_t j = 0; j < i; ++j) {
			dup |= E<T>::eq(v[i], v[j]);
		}
		if (!dup) {
			want.push_back(i);
		}
	}
	auto check = [&](auto &&view) {
		size_t k = 0;
		for (auto &&x : view) {
			PBT_CHECK_MSG(k < want.size() && &x == &t[want[k]], "unique element " << k);
			++k;
		}
		PBT_CHECK(k == want.size());
	};
	check(t | dtl::unique);
	check(dtl::unique(t));
	std::list<T> const l(t.begin(), t.end());
	{
		size_t k = 0;
		for (auto const &x : l | dtl::unique | std::views::transform([](T const &x) { return x; })) {
			if constexpr (std::is_same_v<T, double>) {
				PBT_CHECK(k < want.size() && (x == t[want[k]] || (x != x && v[want[k]] == 7)));
			} else {
				PBT_CHECK(k < want.size() && E<T>::id(x) == v[want[k]]);
			}
			++k;
		}
		PBT_CHECK(k == want.size());
	}
	// lazily, in order, from a single pass range
	Src<T> s{&t};
	auto view = InRange<T>{In<T>{&s, 0}, std::default_sentinel} | dtl::unique;
	PBT_CHECK(s.read == 0 && s.pos == 0);
	auto it = view.begin();
	size_t const stop = ctx.below(want.size() + 1);
	for (size_t k = 0; k < stop; ++k) {
		PBT_CHECK(it != view.end());
		PBT_CHECK(&*it == &t[want[k]]);
		PBT_CHECK_MSG(s.read == want[k] + 1, "produced element " << k << " after reading " << s.read << " elements, the element is at " << want[k]);
		if (k + 1 < stop || stop == want.size()) {
			++it;
		}
	}
	if (stop == want.size()) {
		PBT_CHECK(it == view.end() && view.end() == it);
	}
	PBT_CHECK(!s.misuse);
	if (v.size() > 1) {
		ctx.nontrivial();
	}
}
PBT_PROP(unique_int, 20000) { unique_case<int>(ctx); }
PBT_PROP(unique_less, 15000) { unique_case<Less>(ctx); }
PBT_PROP(unique_hashed, 15000) { unique_case<Hashed>(ctx); }
PBT_PROP(unique_double, 15000) { unique_case<double>(ctx); }
