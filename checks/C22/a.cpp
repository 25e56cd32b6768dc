#include "common.hpp"
using namespace c22;

// all_of, any_of, none_of, empty, non_empty, all_equal
PBT_PROP(quantifiers, 60000) {
	Vals const v = values(ctx, 8);
	log(ctx, "values", v);
	int const k = static_cast<int>(ctx.below(9));
	int const mode = static_cast<int>(ctx.below(4));
	PBT_LOG("predicate " << mode << " with " << k);
	auto pred = [k, mode](int x) { return mode == 0 ? x < k : mode == 1 ? x == k : mode == 2 ? x != k : (x & 1) == 0; };
	size_t n_true = 0;
	for (int x : v) {
		n_true += pred(x);
	}
	bool const all = n_true == v.size(), any = n_true > 0;
	std::vector<int> seen;
	auto logged = [&](int const &x) {
		seen.push_back(x);
		return pred(x);
	};
	auto order = [&] {
		PBT_CHECK_MSG(seen.size() <= v.size() && std::equal(seen.begin(), seen.end(), v.begin()), "elements were not visited once in order");
		seen.clear();
	};
	std::forward_list<int> const fl(v.begin(), v.end());
#define FORMS(algo, expected)                                   \
	PBT_CHECK(dtl::algo(v, logged) == (expected)); order();     \
	PBT_CHECK((v | dtl::algo(logged)) == (expected)); order();  \
	PBT_CHECK(dtl::algo(v.begin(), v.end(), logged) == (expected)); order(); \
	PBT_CHECK((fl | dtl::algo(logged)) == (expected)); order(); \
	with_one(v, [&](auto &&r) { PBT_CHECK((r | dtl::algo(logged)) == (expected)); }); order(); with_one<int, MoveIn>(v, [&](auto &&r) { PBT_CHECK((r | dtl::algo(logged)) == (expected)); }); order(); \
	with_one(v, [&](auto &&r) { PBT_CHECK(dtl::algo(r, logged) == (expected)); }); order(); with_one<int, MoveIn>(v, [&](auto &&r) { PBT_CHECK(dtl::algo(r, logged) == (expected)); }); order();   \
	PBT_CHECK((v | std::views::reverse | dtl::algo(pred)) == (expected))
	FORMS(all_of, all);
	FORMS(any_of, any);
	FORMS(none_of, !any);
	bool const none = v.empty();
	PBT_CHECK(dtl::empty(v) == none && (v | dtl::empty) == none && dtl::empty(v.begin(), v.end()) == none && dtl::empty(fl) == none && (fl | dtl::empty) == none);
	PBT_CHECK(dtl::non_empty(v) == !none && (v | dtl::non_empty) == !none && dtl::non_empty(v.begin(), v.end()) == !none && dtl::non_empty(fl) == !none && (fl | dtl::non_empty) == !none);
	PBT_CHECK(dtl::empty(fl.begin(), fl.end()) == none && dtl::non_empty(fl.begin(), fl.end()) == !none);
	PBT_CHECK((v | std::views::filter(pred) | dtl::empty) == !any && (v | std::views::filter(pred) | dtl::non_empty) == any);
	if (v.size() > 1) {
		ctx.nontrivial();
	}
}

template<typename T, typename P>
static bool naive_all(Vals const &v, P eq) {
	for (int a : v) {
		for (int b : v) {
			if (!eq(a, b)) {
				return false;
			}
		}
	}
	return true;
}

template<typename T>
static void equal_case(pbt::Ctx &ctx) {
	Vals const v = values(ctx, 8);
	log(ctx, "values", v);
	auto const t = convert<T>(v);
	std::list<T> const l(t.begin(), t.end());
	bool want = naive_all<T>(v, [](int a, int b) { return E<T>::eq(a, b); });
	PBT_CHECK(dtl::all_equal(t) == want && dtl::all_equal(t.begin(), t.end()) == want && (t | dtl::all_equal()) == want);
	PBT_CHECK(dtl::all_equal(l) == want && (l | dtl::all_equal()) == want);
	with_input(t, [&](auto &&r) { PBT_CHECK(dtl::all_equal(r) == want); });
	with_input(t, [&](auto &&r) { PBT_CHECK((r | dtl::all_equal()) == want); });
	// an arbitrary equivalence with state
	int cls[8];
	for (int &c : cls) {
		c = static_cast<int>(ctx.below(3));
	}
	auto same = [cls](int a, int b) { return cls[a] == cls[b]; };
	auto pred = [same](T const &a, T const &b) { return same(E<T>::id(a), E<T>::id(b)); };
	want = naive_all<T>(v, same);
	PBT_LOG("all equal under classes: " << want);
	PBT_CHECK(dtl::all_equal(t, pred) == want && dtl::all_equal(t.begin(), t.end(), pred) == want && (t | dtl::all_equal(pred)) == want && (l | dtl::all_equal(pred)) == want);
	with_input(t, [&](auto &&r) { PBT_CHECK((r | dtl::all_equal(pred)) == want); });
	if (v.size() > 1) {
		ctx.nontrivial();
	}
}
PBT_PROP(all_equal_int, 25000) { equal_case<int>(ctx); }
PBT_PROP(all_equal_string, 15000) { equal_case<std::string>(ctx); }
