#include "common.hpp"
#include <boost/container/list.hpp>
#include <boost/container/vector.hpp>
using namespace c11;
// offset_ptr_stl_allocator
template<template<typename> typename X>
using Off = dtl::offset_ptr_stl_allocator<int, X>;
template<typename V, template<typename> typename X>
static void off(pbt::Ctx &ctx) {
	int const kind = X<int>::kind, add = X<int>::select_add;
	using A = typename V::allocator_type;
	PBT_CHECK(pocca<A> == pocca<X<int>> && pocma<A> == pocma<X<int>> && pocs<A> == pocs<X<int>>);
	containers<V>(ctx, 1, &kind, &add, [&](size_t, int id) {
		switch (ctx.below(3)) {
			case 0: return A{X<int>{id}};
			case 1: {
				X<int> const x{id};
				return A{x};
			}
			default: {
				life::Args x{{id - 1}, {1}};
				A const a{std::in_place, x.l, std::move(x.r)};
				x.check(true);
				return a;
			}
		}
	});
}
PBT_PROP(offset_vector, 8000) { off<std::vector<int, Off<AllT>>, AllT>(ctx); }
PBT_PROP(offset_vector_none, 8000) { off<std::vector<int, Off<None>>, None>(ctx); }
PBT_PROP(offset_boost_list, 8000) { off<boost::container::list<int, Off<NoCopyAsn>>, NoCopyAsn>(ctx); }

PBT_PROP(offset_direct, 20000) {
	up.reset();
	{
		using A = dtl::offset_ptr_stl_allocator<int, AllU>;
		using B = dtl::offset_ptr_stl_allocator<Obj24, AllU>;
		std::vector<A> as;
		std::vector<int> ids;
		as.reserve(32);
		for (int i = 0; i < 2; ++i) {
			ids.push_back(static_cast<int>(ctx.below(3)));
			as.emplace_back(AllU<int>{ids.back()});
		}
		int k = 0;
		while (k < 20 && ctx.more(8)) {
			++k;
			size_t const i = ctx.below(as.size()), j = ctx.below(as.size());
			switch (ctx.below(7)) {
				case 6: { // any count is passed on, also back
					size_t const cnt = static_cast<size_t>(ctx.choice(PTRDIFF_MAX / sizeof(Obj24)));
					B b{as[i]};
					auto p = b.allocate(cnt);
					PBT_CHECK(up.last.p == std::to_address(p) && up.last.n == cnt && up.last.type == &type_tag<Obj24> && up.last.id == ids[i]);
					b.deallocate(p, cnt);
					PBT_CHECK_MSG(up.error.empty(), up.error);
					break;
				}
				case 0: as.push_back(A{B{as[i]}}); ids.push_back(ids[i]); break;
				case 1: as.push_back(std::move(as[i])); ids.push_back(ids[i]); break;
				case 2: as[i] = std::as_const(as[j]); ids[i] = ids[j]; break;
				case 3: swap(as[i], as[j]); std::swap(ids[i], ids[j]); break;
				case 4: as.push_back(std::allocator_traits<A>::select_on_container_copy_construction(as[i])); ids.push_back(ids[i] + AllU<int>::select_add); break;
				default: as[i].upstream_allocator().id = 7; ids[i] = 7; break;
			}
			for (size_t x = 0; x < as.size(); ++x) {
				PBT_CHECK((probe(as[x]) == Id{2, ids[x]}));
				PBT_CHECK((probe(B{as[x]}) == Id{2, ids[x]}));
				PBT_CHECK(std::as_const(as[x]).upstream_allocator().id == ids[x]);
				for (size_t y = 0; y < as.size(); ++y) {
					PBT_CHECK((as[x] == as[y]) == (ids[x] == ids[y]) && (as[x] != as[y]) == (ids[x] != ids[y]));
				}
			}
		}
		if (k >= 2) {
			ctx.nontrivial();
		}
	}
	PBT_CHECK(up.live.empty() && up.error.empty());
	up.live.shrink_to_fit();
}
