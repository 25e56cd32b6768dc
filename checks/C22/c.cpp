#include "common.hpp"
using namespace c22;

template<typename T>
static void remove_case(pbt::Ctx &ctx) {
	Vals const v = values(ctx, 8);
	log(ctx, "values", v);
	auto t = convert<T>(v);
	int const k = static_cast<int>(ctx.below(9)) % 8;
	PBT_LOG("remove " << k);
	T const val = E<T>::make(k);
	auto check = [&](auto &&view, auto keep) {
		auto it = view.begin();
		for (size_t i = 0; i < v.size(); ++i) {
			if (keep(v[i])) {
				PBT_CHECK_MSG(it != view.end() && &*it == &t[i], "element " << i << " is missing");
				++it;
			}
		}
		PBT_CHECK(it == view.end());
	};
	auto ne = [&](int x) { return !E<T>::eq(x, k); };
	check(t | dtl::remove_element(val), ne);
	check(std::as_const(t) | dtl::remove_element(T{val}), ne);
	{
		T own{val};
		check(t | dtl::remove_element(own), ne);
		PBT_CHECK_MSG(own == val, "a value passed as lvalue was changed");
		std::function<bool(T const &, T const &)> same = [](T const &a, T const &b) { return a == b; };
		check(t | dtl::remove_element(own, same), ne);
		PBT_CHECK_MSG(own == val && same, "a value or predicate passed as lvalue was changed");
	}
	auto adaptor = dtl::remove_element(val);
	check(t | adaptor, ne);
	check(t | adaptor, ne);
	// custom predicate pred(element, value)
	int cls[8][8];
	for (auto &r : cls) {
		for (int &c : r) {
			c = static_cast<int>(ctx.below(2));
		}
	}
	std::vector<int> first;
	auto pred = [&](T const &e, T const &w) {
		PBT_CHECK(E<T>::id(w) == k);
		return cls[E<T>::id(e)][k] != 0;
	};
	check(t | dtl::remove_element(val, pred), [&](int x) { return cls[x][k] == 0; });
	{
		std::vector<T> got;
		for (auto const &x : t | std::views::reverse | dtl::remove_element(val) | std::views::transform([](T const &x) { return x; })) {
			got.push_back(x);
		}
		size_t n = 0;
		for (size_t i = v.size(); i-- > 0;) {
			if (ne(v[i])) {
				PBT_CHECK(n < got.size() && E<T>::id(got[n]) == v[i]);
				++n;
			}
		}
		PBT_CHECK(n == got.size());
	}
	// lazily from a single pass range
	Src<T> s{&t};
	auto view = InRange<T>{In<T>{&s, 0}, std::default_sentinel} | dtl::remove_element(val);
	PBT_CHECK(s.read == 0);
	auto it = view.begin();
	for (size_t i = 0; i < v.size(); ++i) {
		if (ne(v[i])) {
			PBT_CHECK(it != view.end() && &*it == &t[i] && s.read == i + 1);
			++it;
		}
	}
	PBT_CHECK(it == view.end() && !s.misuse);
	if (v.size() > 1) {
		ctx.nontrivial();
	}
}
PBT_PROP(remove_int, 30000) { remove_case<int>(ctx); }
PBT_PROP(remove_string, 15000) { remove_case<std::string>(ctx); }

static bool naive_sorted(Vals const &v, pbt::fref<bool(int, int)> less) {
	for (size_t i = 0; i < v.size(); ++i) {
		for (size_t j = i + 1; j < v.size(); ++j) {
			if (!less(v[i], v[j])) {
				return false;
			}
		}
	}
	return true;
}
PBT_PROP(sorted_unique, 60000) {
	Vals const v = values(ctx, 8);
	log(ctx, "values", v);
	std::forward_list<int> const l(v.begin(), v.end());
	bool want = naive_sorted(v, [](int a, int b) { return a < b; });
	PBT_CHECK(dtl::is_sorted_unique(v) == want && dtl::is_sorted_unique(v.begin(), v.end()) == want && (v | dtl::is_sorted_unique()) == want);
	PBT_CHECK(dtl::is_sorted_unique(l) == want && (l | dtl::is_sorted_unique()) == want && dtl::is_sorted_unique(l.begin(), l.end()) == want);
	with_input(v, [&](auto &&r) { PBT_CHECK(dtl::is_sorted_unique(r) == want); });
	with_input(v, [&](auto &&r) { PBT_CHECK((r | dtl::is_sorted_unique()) == want); });
	with_input(v, [&](auto &&r) { PBT_CHECK(dtl::is_sorted_unique(std::ranges::begin(r), std::ranges::end(r)) == want); });
	PBT_CHECK(dtl::is_sorted_unique(stash(v)) == want && (stash(v) | dtl::is_sorted_unique()) == want);
	want = naive_sorted(v, [](int a, int b) { return a > b; });
	PBT_CHECK(dtl::is_sorted_unique(v, std::ranges::greater{}) == want && dtl::is_sorted_unique(v.begin(), v.end(), std::ranges::greater{}) == want && (v | dtl::is_sorted_unique(std::greater<>{})) == want);
	// weak order given by a table, applied to projected elements
	int rank[8], to[8];
	for (int &r : rank) {
		r = static_cast<int>(ctx.below(6));
	}
	for (int i = 0; i < 8; ++i) {
		to[i] = ctx.flip() ? i : static_cast<int>(ctx.below(8));
	}
	struct Cmp {
		int const *rank;
		bool operator()(int a, int b) const { return rank[a] < rank[b]; }
	};
	struct Proj {
		int const *to;
		int operator()(int a) const { return to[a]; }
	};
	want = naive_sorted(v, [&](int a, int b) { return rank[to[a]] < rank[to[b]]; });
	PBT_LOG("sorted by rank of projection: " << want);
	PBT_CHECK(dtl::is_sorted_unique(v, Cmp{rank}, Proj{to}) == want && dtl::is_sorted_unique(v.begin(), v.end(), Cmp{rank}, Proj{to}) == want && (v | dtl::is_sorted_unique(Cmp{rank}, Proj{to})) == want && (l | dtl::is_sorted_unique(Cmp{rank}, Proj{to})) == want);
	with_input(v, [&](auto &&r) { PBT_CHECK((r | dtl::is_sorted_unique(Cmp{rank}, Proj{to})) == want); });
	// projection to a member
	struct P {
		int key, other;
	};
	std::vector<P> ps;
	for (int x : v) {
		ps.push_back({to[x], static_cast<int>(ctx.below(3))});
	}
	want = naive_sorted(v, [&](int a, int b) { return to[a] < to[b]; });
	with_input(ps, [&](auto &&r) { PBT_CHECK(dtl::is_sorted_unique(r, std::ranges::less{}, &P::key) == want); });
	PBT_CHECK(dtl::is_sorted_unique(ps, std::ranges::less{}, &P::key) == want && (ps | dtl::is_sorted_unique(std::ranges::less{}, &P::key)) == want);
	if (v.size() > 1) {
		ctx.nontrivial();
	}
	if (want && v.size() > 1) {
		ctx.label("sorted with at least two elements");
	}
}
