#include "common.hpp"
using namespace c22;

static int ord(auto o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }

PBT_PROP(lexicographical, 60000) {
	Vals const a = values(ctx, 8);
	Vals b = values(ctx, 8);
	if (ctx.flip()) {
		b = a;
		if (!b.empty() && ctx.flip()) {
			b[ctx.below(b.size())] = static_cast<int>(ctx.below(8));
		}
		if (ctx.flip()) {
			b.resize(ctx.below(b.size() + 3), 1);
		}
	}
	log(ctx, "left", a);
	log(ctx, "right", b);
	std::list<int> const lb(b.begin(), b.end());
	int const want = ord(std::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end()));
	auto const r = dtl::lexicographical_compare_three_way(a, b);
	static_assert(std::is_same_v<std::remove_const_t<decltype(r)>, std::strong_ordering>);
	PBT_CHECK_MSG(ord(r) == want, "got " << ord(r) << ", expected " << want);
	PBT_CHECK(ord(dtl::lexicographical_compare_three_way(a.begin(), a.end(), lb.begin(), lb.end())) == want && ord(dtl::lexicographical_compare_three_way(a, lb)) == want);
	with_one(a, [&](auto &&x) {
		with_one(b, [&](auto &&y) { PBT_CHECK(ord(dtl::lexicographical_compare_three_way(x, y)) == want); });
	});
	with_one<int, MoveIn>(a, [&](auto &&x) {
		with_one<int, MoveIn>(b, [&](auto &&y) { PBT_CHECK(ord(dtl::lexicographical_compare_three_way(x, y)) == want); });
	});
	PBT_CHECK(ord(dtl::lexicographical_compare_three_way(stash(a), stash(b))) == want);
	// other comparison, projections to different types
	auto cmp = [](int x, long y) -> std::weak_ordering { return std::weak_order(y % 4, static_cast<long>(x % 4)); };
	auto p1 = [](int x) { return x + 8; };
	auto p2 = [](int x) -> long { return x ^ 2; };
	std::vector<int> pa;
	std::vector<long> pb;
	for (int x : a) {
		pa.push_back(p1(x));
	}
	for (int x : b) {
		pb.push_back(p2(x));
	}
	int const want2 = ord(std::lexicographical_compare_three_way(pa.begin(), pa.end(), pb.begin(), pb.end(), cmp));
	PBT_CHECK(ord(dtl::lexicographical_compare_three_way(a, b, cmp, p1, p2)) == want2);
	PBT_CHECK(ord(dtl::lexicographical_compare_three_way(a.begin(), a.end(), lb.begin(), lb.end(), cmp, p1, p2)) == want2);
	with_one(a, [&](auto &&x) {
		with_one(b, [&](auto &&y) { PBT_CHECK(ord(dtl::lexicographical_compare_three_way(x, y, cmp, p1, p2)) == want2); });
	});
	// comparison and projections with state, all of one type
	struct Add {
		int n;
		int operator()(int x) const { return x + n; }
	};
	int const n1 = static_cast<int>(ctx.below(3)), n2 = static_cast<int>(ctx.below(3));
	pa.clear();
	std::vector<int> pc;
	for (int x : a) pa.push_back(x + n1);
	for (int x : b) pc.push_back(x + n2);
	int const want3 = ord(std::lexicographical_compare_three_way(pa.begin(), pa.end(), pc.begin(), pc.end()));
	PBT_CHECK(ord(dtl::lexicographical_compare_three_way(a, b, std::compare_three_way{}, Add{n1}, Add{n2})) == want3 && ord(dtl::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end(), std::compare_three_way{}, Add{n1}, Add{n2})) == want3);
	if (a.size() > 0 && b.size() > 0) {
		ctx.nontrivial();
	}
	if (a != b && want == 0) {
		ctx.label("different but equal");
	}
}
PBT_PROP(lexicographical_partial, 30000) {
	auto const a = convert<double>(values(ctx, 8));
	auto b = convert<double>(values(ctx, 8));
	if (ctx.flip()) {
		b = a;
		if (!b.empty() && ctx.flip()) {
			b[ctx.below(b.size())] = 3;
		}
	}
	auto const want = std::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end());
	auto const got = dtl::lexicographical_compare_three_way(a, b);
	static_assert(std::is_same_v<decltype(got), decltype(want)>);
	PBT_CHECK(ord(got) == ord(want));
	PBT_CHECK(ord(dtl::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end())) == ord(want));
	if (a.size() > 0 && b.size() > 0) {
		ctx.nontrivial();
	}
}
