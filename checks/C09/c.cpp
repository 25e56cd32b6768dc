#include "common.hpp"
#include <list>
#include <map>
#include <string>
using namespace c09;

namespace {
	template<typename T>
	using A = dtl::pool_allocator<T, 8, 32, 64>;
	using Vec = std::vector<int, A<int>>;
	using Lst = std::list<std::basic_string<char, std::char_traits<char>, A<char>>, A<std::basic_string<char, std::char_traits<char>, A<char>>>>;
	using Map = std::map<int, double, std::less<int>, A<std::pair<int const, double>>>;

	bool same(auto const &a, auto const &b) { return a == b; }
	bool same(Lst::value_type const &a, std::string const &b) { return std::string_view{a} == b; }

	// a container over pools next to the same container over std::allocator
	template<typename C, typename R, typename Mut>
	void containers(pbt::Ctx &ctx, Mut mutate) {
		heap::reset();
		{
			heap::Tracking t;
			using CA = typename C::allocator_type;
			CA a0, a1;
			std::vector<C> c;
			std::vector<R> r;
			for (int i = 0; i < 3; ++i) {
				c.emplace_back(i == 0 ? a0 : a1);
				r.emplace_back();
			}
			int k = 0;
			unsigned moves = 0;
			while (k < 80 && ctx.more(25)) {
				++k;
				size_t const i = ctx.below(3), j = ctx.below(3);
				switch (ctx.below(8)) {
					case 0:
						PBT_LOG("c" << i << " = c" << j);
						c[i] = std::as_const(c[j]);
						r[i] = std::as_const(r[j]);
						PBT_CHECK(c[i].get_allocator() == c[j].get_allocator());
						++moves;
						break;
					case 1:
						if (i != j) {
							PBT_LOG("c" << i << " = move(c" << j << ")");
							auto const al = c[j].get_allocator();
							c[i] = std::move(c[j]);
							r[i] = std::move(r[j]);
							c[j].clear();
							r[j].clear();
							PBT_CHECK(c[i].get_allocator() == al && c[j].get_allocator() == al);
							++moves;
						}
						break;
					case 2:
						PBT_LOG("swap c" << i << " c" << j);
						swap(c[i], c[j]);
						swap(r[i], r[j]);
						++moves;
						break;
					case 3: {
						PBT_LOG("copy of c" << i);
						C x{c[i]};
						PBT_CHECK(x.get_allocator() == c[i].get_allocator());
						C y{std::move(x)};
						x.clear();
						mutate(ctx, x);
						R dummy;
						c[i] = std::move(y);
						++moves;
						break;
					}
					default: {
						// the same mutation on both: replay the same decisions
						PBT_LOG("mutate c" << i);
						mutate(ctx, c[i], r[i]);
						break;
					}
				}
				for (size_t x = 0; x < 3; ++x) {
					PBT_CHECK_MSG(c[x].size() == r[x].size(), "container " << x << " has size " << c[x].size() << ", expected " << r[x].size());
					auto ci = c[x].begin();
					for (auto const &e : r[x]) {
						PBT_CHECK(same(*ci, e));
						++ci;
					}
				}
				if (heap::error() != nullptr) {
					pbt::fail_at(heap::error());
				}
			}
			if (k >= 3 && moves > 0) {
				ctx.nontrivial();
			}
		}
		PBT_CHECK_MSG(heap::live() == 0, heap::live() << " blocks of memory were not given back");
	}

	struct VecMut {
		void operator()(pbt::Ctx &, Vec &x) const { x.push_back(1); }
		void operator()(pbt::Ctx &ctx, Vec &x, std::vector<int> &y) const {
			int const v = static_cast<int>(ctx.below(1000));
			switch (ctx.below(4)) {
				case 0: x.push_back(v); y.push_back(v); break;
				case 1: {
					size_t const n = ctx.below(30);
					x.insert(x.begin(), n, v);
					y.insert(y.begin(), n, v);
					break;
				}
				case 2: {
					size_t const n = ctx.below(20);
					x.resize(n);
					y.resize(n);
					x.shrink_to_fit();
					break;
				}
				default:
					if (!y.empty()) {
						auto const p = static_cast<long>(ctx.below(y.size()));
						x.erase(x.begin() + p);
						y.erase(y.begin() + p);
					}
					break;
			}
		}
	};
	struct LstMut {
		void operator()(pbt::Ctx &, Lst &x) const { x.emplace_back("x", x.get_allocator()); }
		void operator()(pbt::Ctx &ctx, Lst &x, std::list<std::string> &y) const {
			switch (ctx.below(4)) {
				case 0:
				case 1: {
					std::string s(ctx.below(90), static_cast<char>('a' + ctx.below(26)));
					x.emplace_back(s.begin(), s.end(), x.get_allocator());
					y.push_back(s);
					break;
				}
				case 2:
					if (!y.empty()) {
						x.pop_front();
						y.pop_front();
					}
					break;
				default:
					if (!y.empty()) {
						x.front() += "suffix that makes it longer";
						y.front() += "suffix that makes it longer";
						x.reverse();
						y.reverse();
					}
					break;
			}
		}
	};
	struct MapMut {
		void operator()(pbt::Ctx &, Map &x) const { x[5] = 1; }
		void operator()(pbt::Ctx &ctx, Map &x, std::map<int, double> &y) const {
			int const key = static_cast<int>(ctx.below(20));
			if (ctx.chance(1, 3)) {
				x.erase(key);
				y.erase(key);
			} else {
				x[key] += 0.5 * key;
				y[key] += 0.5 * key;
			}
		}
	};
} // namespace
PBT_PROP(vectors, 6000) { containers<Vec, std::vector<int>>(ctx, VecMut{}); }
PBT_PROP(lists_of_strings, 6000) { containers<Lst, std::list<std::string>>(ctx, LstMut{}); }
PBT_PROP(maps, 6000) { containers<Map, std::map<int, double>>(ctx, MapMut{}); }
