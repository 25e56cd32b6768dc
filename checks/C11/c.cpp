#include "common.hpp"
#include <list>
using namespace c11;
template<template<typename> typename... As>
static void vec(pbt::Ctx &ctx) {
	using P = Poly<As...>;
	using A = dtl::polymorphic_allocator<int, As...>;
	containers<std::vector<int, A>>(ctx, P::nk, P::kinds, P::adds, [](size_t k, int id) {
		A r;
		P::with_kind(k, [&]<template<typename> typename X, size_t I>() { r = A{X<int>{id}}; });
		return r;
	});
}
template<template<typename> typename... As>
static void lst(pbt::Ctx &ctx) {
	using P = Poly<As...>;
	using A = dtl::polymorphic_allocator<int, As...>;
	containers<std::list<int, A>>(ctx, P::nk, P::kinds, P::adds, [](size_t k, int id) {
		A r;
		P::with_kind(k, [&]<template<typename> typename X, size_t I>() { r = A{X<int>{id}}; });
		return r;
	});
}
PBT_PROP(vectors, 10000) { vec<AllT, AllU>(ctx); }
PBT_PROP(vectors_mixed, 10000) { vec<NoCopyAsn, None, AllV>(ctx); }
PBT_PROP(lists, 8000) { lst<AllT, NoMoveAsn>(ctx); }
PBT_PROP(vectors_single, 8000) { vec<None>(ctx); }
