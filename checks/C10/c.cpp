#include "common.hpp"
#include <list>
#include <vector>
using namespace c10;

// containers sharing limits: contents as over std::allocator, the bytes held never exceed the limit, a refused growth
// leaves a vector unchanged and the budget comes back
namespace {
	template<template<typename> typename In, Sync S>
	void containers(pbt::Ctx &ctx) {
		up.reset();
		up.fake = false;
		using A = dtl::limit_allocator<int, In, S>;
		using V = std::vector<int, A>;
		size_t const limit[2] = {ctx.below(400), ctx.below(200)};
		unsigned moves = 0, refused = 0;
		int k = 0;
		{
			std::vector<V> v;
			std::vector<std::vector<int>> m;
			int block[4];
			{
				A a0{limit[0], std::in_place, 0, 1}, a1{limit[1], std::in_place, 0, 2};
				for (int i = 0; i < 4; ++i) {
					block[i] = i / 2;
					v.emplace_back(i / 2 ? a1 : a0);
					m.emplace_back();
				}
			}
			while (k < 80 && ctx.more(25)) {
				++k;
				size_t const i = ctx.below(4), j = ctx.below(4);
				int const val = static_cast<int>(ctx.below(100));
				std::vector<int> want = m[i];
				size_t const what = ctx.below(8);
				up.fail = ctx.chance(1, 10);
				try {
					switch (what) {
						case 0:
						case 1:
							PBT_LOG("v" << i << ".push_back");
							want.push_back(val);
							v[i].push_back(val);
							m[i] = want;
							break;
						case 2: {
							size_t const n = ctx.below(60);
							PBT_LOG("v" << i << ".resize(" << n << ")");
							want.resize(n, val);
							v[i].resize(n, val);
							m[i] = want;
							break;
						}
						case 3:
							PBT_LOG("v" << i << ".shrink_to_fit()");
							v[i].shrink_to_fit();
							break;
						case 4:
							PBT_LOG("v" << i << " = v" << j);
							++moves;
							v[i] = std::as_const(v[j]);
							m[i] = m[j];
							block[i] = block[j];
							break;
						case 5:
							if (i != j) {
								PBT_LOG("v" << i << " = move(v" << j << ")");
								++moves;
								v[i] = std::move(v[j]);
								m[i] = m[j];
								if (A::propagate_on_container_move_assignment::value) {
									block[i] = block[j];
								}
								v[j].clear();
								m[j].clear();
							}
							break;
						case 6:
							PBT_LOG("swap(v" << i << ", v" << j << ")");
							++moves;
							swap(v[i], v[j]);
							std::swap(m[i], m[j]);
							std::swap(block[i], block[j]);
							break;
						default: {
							PBT_LOG("copy of v" << i);
							V x{v[i]};
							PBT_CHECK(std::vector<int>(x.begin(), x.end()) == m[i]);
							V y{std::move(x)};
							x.clear();
							PBT_CHECK(std::vector<int>(y.begin(), y.end()) == m[i]);
							break;
						}
					}
				} catch (std::bad_alloc const &) {
					++refused;
					PBT_LOG("  -> refused");
					if (what >= 4) {
						// assignments only give the basic guarantee
						m[i].assign(v[i].begin(), v[i].end());
						if (what == 5) {
							m[j].assign(v[j].begin(), v[j].end());
						}
						if (what == 4) {
							block[i] = v[i].get_allocator() == v[j].get_allocator() ? block[j] : block[i];
						}
					}
				} catch (std::length_error const &) {
				}
				up.fail = false;
				if (!up.error.empty()) {
					throw pbt::Failure{up.error};
				}
				unsigned __int128 used[2] = {0, 0};
				for (size_t x = 0; x < 4; ++x) {
					PBT_CHECK_MSG(std::vector<int>(v[x].begin(), v[x].end()) == m[x], "contents of v" << x);
					used[block[x]] += v[x].capacity() * sizeof(int);
				}
				PBT_CHECK(used[0] + used[1] == up.bytes());
				PBT_CHECK_MSG(used[0] <= limit[0] && used[1] <= limit[1], "limit exceeded");
				for (size_t x = 0; x < 4; ++x) {
					// exactly the unused budget can still be allocated
					A al = v[x].get_allocator();
					size_t const left = (limit[block[x]] - static_cast<size_t>(used[block[x]])) / sizeof(int);
					bool threw = false;
					try {
						int *p = al.allocate(left + 1);
						al.deallocate(p, left + 1);
					} catch (std::bad_alloc const &) {
						threw = true;
					}
					PBT_CHECK_MSG(threw, "more than the remaining budget was granted");
					try {
						int *p = al.allocate(left);
						al.deallocate(p, left);
					} catch (std::bad_alloc const &) {
						PBT_CHECK_MSG(false, "the remaining budget of " << left << " elements was refused");
					}
				}
			}
		}
		PBT_CHECK(up.live.empty());
		if (k >= 3 && (moves > 0 || refused > 0)) {
			ctx.nontrivial();
		}
		if (refused) {
			ctx.label("refused growth");
		}
		up.live.shrink_to_fit();
		up.error.shrink_to_fit();
	}
} // namespace
PBT_PROP(vectors_sync, 8000) { containers<Inner, Sync::sync>(ctx); }
PBT_PROP(vectors_unsync_nd, 8000) { containers<NdInner, Sync::unsync>(ctx); }
