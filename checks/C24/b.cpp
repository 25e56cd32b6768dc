#include "common.hpp"
using namespace c24;

// two arguments; passing temporaries, lvalues and nothing
PBT_PROP(pairs, 60000) {
	auto one = [&](int id) { return ctx.chance(1, 4) ? O{} : O{mk(static_cast<int>(ctx.below(5)), id)}; };
	Os v{one(0), one(1)};
	int cls[6];
	for (int &c : cls) c = static_cast<int>(ctx.below(3));
	size_t calls = 0;
	Cmp const cmp{cls, ctx.flip(), &calls};
	O const a = v[0], b = v[1];
	PBT_LOG("arguments " << show(v) << "classes " << cls[0] << cls[1] << cls[2] << cls[3] << cls[4] << (cmp.desc ? " descending" : ""));
	Want w = want(v, [](V const &x, V const &y) { return x.key < y.key; });
	PBT_CHECK(dtl::opt_min(a, b) == w.min && dtl::opt_max(a, b) == w.max);
	PBT_CHECK(same(dtl::opt_minmax(a, b), w));
	PBT_CHECK(dtl::opt_min(O{a}, O{b}) == w.min && dtl::opt_max(O{a}, O{b}) == w.max && same(dtl::opt_minmax(O{a}, O{b}), w));
	w = want(v, cmp);
	PBT_CHECK_MSG(dtl::opt_min(a, b, cmp) == w.min, "expected " << show(w.min));
	PBT_CHECK_MSG(dtl::opt_max(a, b, cmp) == w.max, "expected " << show(w.max));
	PBT_CHECK(same(dtl::opt_minmax(a, b, cmp), w));
	PBT_CHECK(a == v[0] && b == v[1]);
	// the same object twice
	PBT_CHECK(dtl::opt_min(a, a, cmp) == a && dtl::opt_max(b, b, cmp) == b);
	if (a && b) ctx.nontrivial();
}

template<size_t... I>
static void lists(Os const &v, Cmp const &cmp, std::index_sequence<I...>) {
	std::initializer_list<O> const il{v[I]...};
	Want w = want(v, [](V const &x, V const &y) { return x.key < y.key; });
	PBT_CHECK(dtl::opt_min(il) == w.min && dtl::opt_max(il) == w.max && same(dtl::opt_minmax(il), w));
	w = want(v, cmp);
	PBT_CHECK_MSG(dtl::opt_min(il, cmp) == w.min, "expected " << show(w.min));
	PBT_CHECK_MSG(dtl::opt_max(il, cmp) == w.max, "expected " << show(w.max));
	PBT_CHECK(same(dtl::opt_minmax(il, cmp), w));
	if constexpr (sizeof...(I) > 0) {
		PBT_CHECK((dtl::opt_min({v[I]...}, cmp) == w.min && dtl::opt_max({v[I]...}, cmp) == w.max));
	}
}

PBT_PROP(initializer_lists, 40000) {
	Os const v = gen(ctx, 8, 5);
	int cls[6];
	for (int &c : cls) c = static_cast<int>(ctx.below(3));
	size_t calls = 0;
	Cmp const cmp{cls, ctx.flip(), &calls};
	PBT_LOG("arguments " << show(v) << "classes " << cls[0] << cls[1] << cls[2] << cls[3] << cls[4] << (cmp.desc ? " descending" : ""));
	switch (v.size()) {
		case 0: lists(v, cmp, std::make_index_sequence<0>{}); break;
		case 1: lists(v, cmp, std::make_index_sequence<1>{}); break;
		case 2: lists(v, cmp, std::make_index_sequence<2>{}); break;
		case 3: lists(v, cmp, std::make_index_sequence<3>{}); break;
		case 4: lists(v, cmp, std::make_index_sequence<4>{}); break;
		case 5: lists(v, cmp, std::make_index_sequence<5>{}); break;
		case 6: lists(v, cmp, std::make_index_sequence<6>{}); break;
		case 7: lists(v, cmp, std::make_index_sequence<7>{}); break;
		default: lists(v, cmp, std::make_index_sequence<8>{}); break;
	}
	if (v.size() > 1) ctx.nontrivial();
}

// results at compile time equal the results at run time
constexpr auto cmin = dtl::opt_min(std::optional<int>{3}, std::optional<int>{-2});
constexpr auto cmax = dtl::opt_max({std::optional<int>{3}, std::optional<int>{}, std::optional<int>{7}, std::optional<int>{-2}});
constexpr auto cmm = dtl::opt_minmax({std::optional<int>{3}, std::optional<int>{}, std::optional<int>{7}, std::optional<int>{-2}});
constexpr auto cno = dtl::opt_minmax(std::optional<int>{}, std::optional<int>{});
PBT_PROP(compile_time, 10) {
	PBT_CHECK(cmin == -2 && cmax == 7 && cmm.has_value() && cmm->min == -2 && cmm->max == 7 && !cno.has_value());
}

// move-only comparators and references
PBT_PROP(views_of_optionals, 20000) {
	Os const v = gen(ctx, 8, 5);
	std::vector<int> ix;
	size_t const n = v.empty() ? 0 : ctx.size(8);
	Os o;
	for (size_t i = 0; i < n; ++i) {
		ix.push_back(static_cast<int>(ctx.below(v.size())));
		o.push_back(v[static_cast<size_t>(ix.back())]);
	}
	PBT_LOG("picked " << show(o));
	Want const w = want(o, [](V const &x, V const &y) { return x.key < y.key; });
	auto by_ref = ix | std::views::transform([&](int i) -> O const & { return v[static_cast<size_t>(i)]; });
	auto by_val = ix | std::views::transform([&](int i) -> O { return v[static_cast<size_t>(i)]; });
	auto less = [](V const &x, V const &y) { return x.key < y.key; };
	PBT_CHECK((by_ref | dtl::opt_min_element(less)) == w.min && (by_ref | dtl::opt_max_element(less)) == w.max && same(by_ref | dtl::opt_minmax_element(less), w));
	PBT_CHECK((by_val | dtl::opt_min_element(less)) == w.min && (by_val | dtl::opt_max_element(less)) == w.max && same(by_val | dtl::opt_minmax_element(less), w));
	if (n > 1) ctx.nontrivial();
}
