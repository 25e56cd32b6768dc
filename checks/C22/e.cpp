// ranges whose elements are proxies: pairs of references, into containers or into the iterators themselves
#include "common.hpp"
using namespace c22;

using Pair = std::pair<int, int>;
static std::vector<Pair> pairs(Vals const &a, Vals const &b) {
	std::vector<Pair> r;
	for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) r.emplace_back(a[i], b[i]);
	return r;
}
static void judge(pbt::Ctx &ctx, std::vector<Pair> const &p, auto const &make) {
	bool eq = true, distinct = true, sorted = true;
	for (size_t i = 0; i < p.size(); ++i) {
		for (size_t j = i + 1; j < p.size(); ++j) {
			eq = eq && p[i] == p[j];
			distinct = distinct && p[i] != p[j];
			sorted = sorted && p[i] < p[j];
		}
	}
	PBT_LOG("all equal " << eq << ", distinct " << distinct << ", sorted " << sorted);
	{
		auto r = make();
		PBT_CHECK(dtl::all_equal(r) == eq);
	}
	PBT_CHECK((make() | dtl::all_equal()) == eq);
	{
		// no two elements but the first are compared
		auto const pred = [](auto const &a, auto const &b) { return std::get<0>(a) % 2 == std::get<0>(b) % 2; };
		bool par = true;
		for (auto const &x : p) par = par && x.first % 2 == p[0].first % 2;
		PBT_CHECK(dtl::all_equal(make(), pred) == par && (make() | dtl::all_equal(pred)) == par);
	}
	PBT_CHECK(dtl::all_distinct(make()) == distinct && (make() | dtl::all_distinct()) == distinct);
	{
		auto r = make();
		PBT_CHECK(dtl::is_sorted_unique(r) == sorted && dtl::is_sorted_unique(r.begin(), r.end()) == sorted);
	}
	PBT_CHECK((make() | dtl::is_sorted_unique()) == sorted);
	{
		bool keys = true;
		for (size_t i = 1; i < p.size(); ++i) keys = keys && p[i - 1].second > p[i].second;
		auto const second = [](auto const &x) { return std::get<1>(x); };
		PBT_CHECK(dtl::is_sorted_unique(make(), std::ranges::greater{}, second) == keys);
	}
	std::vector<Pair> want, got;
	for (auto const &x : p) {
		if (std::find(want.begin(), want.end(), x) == want.end()) want.push_back(x);
	}
	for (auto &&x : make() | dtl::unique) got.emplace_back(std::get<0>(x), std::get<1>(x));
	PBT_CHECK(got == want);
	bool const one = p.size() > 1;
	if (one) ctx.nontrivial();
}
static void two(pbt::Ctx &ctx, Vals &a, Vals &b) {
	a = values(ctx, 5);
	b = ctx.flip() ? a : values(ctx, 5);
	if (ctx.flip()) b.assign(a.size(), 1);
	log(ctx, "first", a);
	log(ctx, "second", b);
}
PBT_PROP(zip_containers, 20000) {
	Vals a, b;
	two(ctx, a, b);
	judge(ctx, pairs(a, b), [&] { return std::views::zip(a, b); });
}
PBT_PROP(zip_stashing, 20000) {
	Vals a, b;
	two(ctx, a, b);
	judge(ctx, pairs(a, b), [&] { return std::views::zip(stash(a), stash(b)); });
}
PBT_PROP(zip_mixed, 15000) {
	Vals a, b;
	two(ctx, a, b);
	judge(ctx, pairs(a, b), [&] { return std::views::zip(stash(a), b); });
}
PBT_PROP(zip_ranges, 15000) {
	int const f = static_cast<int>(ctx.below(4)), n = static_cast<int>(ctx.below(5)), s = 1 + static_cast<int>(ctx.below(2));
	std::vector<Pair> p;
	for (int i = f, j = 0; i < f + n && j < n; i += s, ++j) p.emplace_back(i, j);
	judge(ctx, p, [&] { return std::views::zip(dtl::range(f, f + n, s), dtl::range(n)); });
}
PBT_PROP(bits, 20000) {
	Vals const v = values(ctx, 2);
	log(ctx, "bits", v);
	std::vector<bool> b;
	for (int x : v) b.push_back(x != 0);
	bool eq = true;
	for (int x : v) eq = eq && x == v[0];
	bool const distinct = v.size() < 2 || (v.size() == 2 && v[0] != v[1]);
	bool const sorted = v.size() < 2 || (v.size() == 2 && v[0] < v[1]);
	PBT_CHECK(dtl::all_equal(b) == eq && (b | dtl::all_equal()) == eq && dtl::all_equal(std::as_const(b)) == eq && dtl::all_equal(b.begin(), b.end()) == eq);
	PBT_CHECK(dtl::all_distinct(b) == distinct && (b | dtl::all_distinct()) == distinct);
	PBT_CHECK(dtl::is_sorted_unique(b) == sorted && (b | dtl::is_sorted_unique()) == sorted);
	Vals got, want;
	for (bool x : b | dtl::unique) got.push_back(x);
	for (int x : v) {
		if (std::find(want.begin(), want.end(), x) == want.end()) want.push_back(x);
	}
	PBT_CHECK(got == want);
	if (v.size() > 1) ctx.nontrivial();
}
