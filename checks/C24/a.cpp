#include "common.hpp"
using namespace c24;

// ranges of optionals: whole range, iterator pair, piped, single pass
PBT_PROP(ranges_of_optionals, 40000) {
	Os const v = gen(ctx, 10, 6);
	int cls[6];
	for (int &c : cls) c = static_cast<int>(ctx.below(4));
	bool const desc = ctx.flip(), dflt = ctx.flip();
	size_t calls = 0, present = 0;
	for (auto const &o : v) present += o.has_value();
	PBT_LOG((dflt ? "default order " : desc ? "descending classes " : "classes ") << cls[0] << cls[1] << cls[2] << cls[3] << cls[4] << cls[5] << " of " << show(v));
	std::forward_list<O> const fl(v.begin(), v.end());
	Cmp const cmp{cls, desc, &calls};
	if (dflt) {
		Want const w = want(v, [](V const &a, V const &b) { return a.key < b.key; });
		PBT_CHECK_MSG(dtl::opt_min_element(v) == w.min && dtl::opt_min_element(v.begin(), v.end()) == w.min && (v | dtl::opt_min_element()) == w.min, "min is " << show(w.min));
		PBT_CHECK_MSG(dtl::opt_max_element(v) == w.max && dtl::opt_max_element(v.begin(), v.end()) == w.max && (v | dtl::opt_max_element()) == w.max, "max is " << show(w.max));
		PBT_CHECK(same(dtl::opt_minmax_element(v), w) && same(dtl::opt_minmax_element(fl.begin(), fl.end()), w) && same(fl | dtl::opt_minmax_element(), w));
	} else {
		Want const w = want(v, cmp);
		PBT_CHECK_MSG(dtl::opt_min_element(v, cmp) == w.min && dtl::opt_min_element(fl.begin(), fl.end(), cmp) == w.min && (v | dtl::opt_min_element(cmp)) == w.min, "min is " << show(w.min));
		PBT_CHECK_MSG(dtl::opt_max_element(v, cmp) == w.max && dtl::opt_max_element(fl.begin(), fl.end(), cmp) == w.max && (fl | dtl::opt_max_element(cmp)) == w.max, "max is " << show(w.max));
		PBT_CHECK(same(dtl::opt_minmax_element(v, cmp), w) && same(dtl::opt_minmax_element(fl.begin(), fl.end(), cmp), w) && same(v | dtl::opt_minmax_element(cmp), w));
		Src s{&v};
		auto sub = [&] { s.pos = 0; return std::ranges::subrange<In, std::default_sentinel_t>(In{&s}, std::default_sentinel); };
		PBT_CHECK(dtl::opt_min_element(sub(), cmp) == w.min && s.pos == v.size());
		PBT_CHECK((sub() | dtl::opt_max_element(cmp)) == w.max && s.pos == v.size());
		PBT_CHECK(same(dtl::opt_minmax_element(sub(), cmp), w) && s.pos == v.size());
	}
	ctx.label(present == 0 ? "none present" : present == v.size() ? "all present" : "some absent");
	if (present > 1) ctx.nontrivial();
}

// ranges whose elements are plain values
PBT_PROP(ranges_of_values, 30000) {
	size_t const n = ctx.size(9);
	Os o;
	std::vector<V> v;
	for (size_t i = 0; i < n; ++i) {
		v.push_back(mk(static_cast<int>(ctx.below(5)), static_cast<int>(i)));
		o.emplace_back(v.back());
	}
	PBT_LOG("values " << show(o));
	int cls[6];
	for (int &c : cls) c = static_cast<int>(ctx.below(3));
	size_t calls = 0;
	Cmp const cmp{cls, ctx.flip(), &calls};
	Want w = want(o, [](V const &a, V const &b) { return a.key < b.key; });
	static_assert(std::is_same_v<decltype(dtl::opt_min_element(v)), O> && std::is_same_v<decltype(dtl::opt_max_element(v)), O> && std::is_same_v<decltype(dtl::opt_minmax_element(v)), std::optional<dtl::opt_minmax_result<V>>>);
	PBT_CHECK(dtl::opt_min_element(v) == w.min && dtl::opt_max_element(v) == w.max && same(dtl::opt_minmax_element(v), w));
	w = want(o, cmp);
	PBT_CHECK(dtl::opt_min_element(v, cmp) == w.min && dtl::opt_max_element(v, cmp) == w.max && same(dtl::opt_minmax_element(v, cmp), w));
	// through a view that produces the elements on the fly, and without the ones that do not match
	int const k = static_cast<int>(ctx.below(5));
	auto keep = [k](V const &x) { return x.key != k; };
	Os f;
	for (auto const &x : v) if (keep(x)) f.emplace_back(x);
	w = want(f, cmp);
	auto view = v | std::views::filter(keep) | std::views::transform([](V const &x) { return mk(x.key, x.id); });
	PBT_CHECK((view | dtl::opt_min_element(cmp)) == w.min && (view | dtl::opt_max_element(cmp)) == w.max && same(view | dtl::opt_minmax_element(cmp), w));
	if (n > 1) ctx.nontrivial();
}

// arithmetic element types at the limits
template<typename T>
static void limits_case(pbt::Ctx &ctx) {
	size_t const n = ctx.size(8);
	std::vector<std::optional<T>> v;
	std::optional<T> mn, mx;
	for (size_t i = 0; i < n; ++i) {
		if (ctx.chance(1, 3)) {
			v.emplace_back();
			PBT_LOG("none");
		} else {
			T const x = ctx.edge<T>();
			PBT_LOG("value " << x);
			v.emplace_back(x);
			if (!mn || x < *mn) mn = x;
			if (!mx || x > *mx) mx = x;
		}
	}
	PBT_CHECK(dtl::opt_min_element(v) == mn && dtl::opt_max_element(v) == mx);
	auto const mm = dtl::opt_minmax_element(v);
	PBT_CHECK(mm.has_value() == mn.has_value() && (!mm || (mm->min == *mn && mm->max == *mx)));
	PBT_CHECK(dtl::opt_min_element(v, std::greater<>{}) == mx && dtl::opt_max_element(v, std::greater<>{}) == mn);
	if (n > 1) ctx.nontrivial();
}
PBT_PROP(limits_i64, 20000) { limits_case<int64_t>(ctx); }
PBT_PROP(limits_u8, 20000) { limits_case<uint8_t>(ctx); }
