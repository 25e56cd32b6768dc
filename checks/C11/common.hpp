#include "life.hpp"
#include "pbt.hpp"

#include <cstdlib>
#include <memory>
#include <new>
#include <string>
#include <vector>

#include <dice/template-library/polymorphic_allocator.hpp>

namespace c11 {
	namespace dtl = dice::template_library;

	struct Failed : std::bad_alloc {};

	struct Up {
		struct Block {
			void *p;
			size_t n, elem;
			int kind, id;
			void const *type;
		};
		std::vector<Block> live;
		std::string error;
		bool fail = false;
		unsigned long allocs = 0, deallocs = 0;
		Block last{};
		void reset() {
			for (auto &b : live) {
				std::free(b.p);
			}
			live.clear();
			error.clear();
			fail = false;
			allocs = deallocs = 0;
		}
		void err(char const *w) {
			if (error.empty()) {
				error = w;
			}
		}
		void *get(size_t n, size_t elem, int kind, int id, void const *type) {
			++allocs;
			if (fail) {
				throw Failed{};
			}
			// huge blocks are only recorded, nobody touches them
			void *p = std::malloc(n > 100000 ? 1 : n * elem + 1);
			last = {p, n, elem, kind, id, type};
			live.push_back(last);
			return p;
		}
		void put(void *p, size_t n, size_t elem, int kind, int id, void const *type) {
			++deallocs;
			last = {p, n, elem, kind, id, type};
			for (size_t i = 0; i < live.size(); ++i) {
				if (live[i].p == p) {
					if (live[i].n != n || live[i].elem != elem || live[i].type != type) {
						err("deallocated with another type or count than allocated");
					}
					if (live[i].kind != kind || live[i].id != id) {
						err("deallocated by another allocator than the one that allocated");
					}
					std::free(p);
					live[i] = live.back();
					live.pop_back();
					return;
				}
			}
			err("deallocation of memory that is not allocated");
		}
	};
	inline Up up;
	template<typename T>
	inline char const type_tag{};

	enum Bits : unsigned { Pocca = 1, Pocma = 2, Pocs = 4, NoSwap = 8 };

	// an argument of constructors that tells how it arrived
	struct Arg {
		int id;
		explicit Arg(int i) : id{i} {}
		Arg(Arg const &) = delete;
	};

	template<typename T, int Kind, unsigned B>
	struct Base {
		using value_type = T;
		using propagate_on_container_copy_assignment = std::bool_constant<(B & Pocca) != 0>;
		using propagate_on_container_move_assignment = std::bool_constant<(B & Pocma) != 0>;
		using propagate_on_container_swap = std::bool_constant<(B & Pocs) != 0>;
		using is_always_equal = std::false_type;
		static constexpr int kind = Kind;
		int id = 0;
		Base() = default;
		explicit Base(int i) : id{i} {}
		Base(int a, int b) : id{a + b} {}
		Base(int a, Arg &&x) : id{a + x.id} {}
		Base(int a, Arg const &x) : id{a + x.id + 1} {}
		Base(int a, Arg &x) : id{a + x.id + 2} {}
		T *allocate(size_t n) { return static_cast<T *>(up.get(n, sizeof(T), Kind, id, &type_tag<T>)); }
		void deallocate(T *p, size_t n) { up.put(p, n, sizeof(T), Kind, id, &type_tag<T>); }
		friend bool operator==(Base const &a, Base const &b) { return a.id == b.id; }
	};

#define C11_ALLOC(Name, Kind, B, SelectAdd)                                                                  \
	template<typename T>                                                                                     \
	struct Name : Base<T, Kind, B> {                                                                         \
		using base = Base<T, Kind, B>;                                                                       \
		using base::base;                                                                                    \
		Name() = default;                                                                                    \
		template<typename U>                                                                                 \
		Name(Name<U> const &o) : base{o.id} {}                                                               \
		template<typename U>                                                                                 \
		struct rebind {                                                                                      \
			using other = Name<U>;                                                                           \
		};                                                                                                   \
		static constexpr int select_add = SelectAdd;                                                         \
		Name select_on_container_copy_construction() const { return Name{this->id + SelectAdd}; }            \
	}
	C11_ALLOC(AllT, 1, Pocca | Pocma | Pocs, 10);
	C11_ALLOC(AllU, 2, Pocca | Pocma | Pocs, 20);
	C11_ALLOC(AllV, 3, Pocca | Pocma | Pocs, 0);
	C11_ALLOC(NoCopyAsn, 4, Pocma | Pocs, 10);
	C11_ALLOC(NoMoveAsn, 5, Pocca | Pocs, 0);
	C11_ALLOC(None, 6, 0, 5);

	template<typename T>
	constexpr bool pocca = std::allocator_traits<T>::propagate_on_container_copy_assignment::value;
	template<typename T>
	constexpr bool pocma = std::allocator_traits<T>::propagate_on_container_move_assignment::value;
	template<typename T>
	constexpr bool pocs = std::allocator_traits<T>::propagate_on_container_swap::value;

	struct Obj24 {
		long a, b, c;
	};

	struct Id {
		int kind = -1; // -1: not alive
		int id = 0;
		bool operator==(Id const &) const = default;
	};

	// how a type erased allocator is observed: allocate one element
	template<typename A>
	Id probe(A a) {
		auto p = a.allocate(3);
		Id const r{up.last.kind, up.last.id};
		PBT_CHECK(up.last.n == 3 && up.last.type == &type_tag<typename std::allocator_traits<A>::value_type> && up.last.p == std::to_address(p));
		unsigned long const d = up.deallocs;
		a.deallocate(p, 3);
		PBT_CHECK(up.deallocs == d + 1 && up.last.n == 3 && up.last.kind == r.kind && up.last.id == r.id);
		return r;
	}

	template<template<typename> typename... As>
	struct Poly {
		template<typename T>
		using A = dtl::polymorphic_allocator<T, As...>;
		static constexpr size_t nk = sizeof...(As);
		static constexpr int kinds[] = {As<int>::kind...};
		static constexpr int adds[] = {As<int>::select_add...};
		static int add_of(int kind) {
			for (size_t i = 0; i < nk; ++i) {
				if (kinds[i] == kind) {
					return adds[i];
				}
			}
			return 0;
		}
		// f.operator()<As, index>()
		template<typename F>
		static void with_kind(size_t k, F &&f) {
			[&]<size_t... I>(std::index_sequence<I...>) {
				((k == I ? f.template operator()<As, I>() : void()), ...);
			}(std::make_index_sequence<nk>{});
		}
	};

	template<template<typename> typename... As>
	struct Driver {
		using P = Poly<As...>;
		template<typename T>
		using A = typename P::template A<T>;
		using A0 = A<int>;
		using A1 = A<Obj24>;
		static constexpr int n = 4;
		static_assert(std::allocator_traits<A0>::is_always_equal::value == false);

		struct Slot {
			alignas(A0) unsigned char buf[sizeof(A0)];
			Id m;
		};
		pbt::Ctx &ctx;
		Slot s[n];
		struct Region {
			void *p;
			size_t n;
			int type;
			Id m;
		};
		std::vector<Region> live;
		unsigned ops = 0, copies = 0, failed = 0;

		A0 &a(int i) { return *std::launder(reinterpret_cast<A0 *>(s[i].buf)); }
		int some() {
			int l[n], k = 0;
			for (int i = 0; i < n; ++i) {
				if (s[i].m.kind >= 0) {
					l[k++] = i;
				}
			}
			return k == 0 ? -1 : l[ctx.below(static_cast<size_t>(k))];
		}
		void verify() {
			if (!up.error.empty()) {
				throw pbt::Failure{up.error};
			}
			PBT_CHECK(up.live.size() == live.size());
			for (int i = 0; i < n; ++i) {
				if (s[i].m.kind < 0) {
					continue;
				}
				for (int j = 0; j < n; ++j) {
					if (s[j].m.kind >= 0) {
						bool const eq = s[i].m == s[j].m;
						PBT_CHECK_MSG((a(i) == a(j)) == eq && (a(i) != a(j)) == !eq, "allocators " << i << " and " << j);
					}
				}
				(check_holds<As>(i), ...);
			}
		}
		template<template<typename> typename X>
		void check_holds(int i) {
			bool const h = s[i].m.kind == X<int>::kind;
			PBT_CHECK_MSG(a(i).template holds_allocator<X>() == h && a(i).template holds_allocator<X<int>>() == h, "holds_allocator of allocator " << i);
		}
		template<typename T>
		static void dealloc(A0 &x, Region const &r) {
			A<T> y{x};
			y.deallocate(static_cast<T *>(r.p), r.n);
		}
		void give_back(size_t ix, int user) {
			Region const r = live[ix];
			PBT_LOG("allocator " << user << ": deallocate " << r.n);
			live[ix] = live.back();
			live.pop_back();
			unsigned long const d = up.deallocs;
			if (r.type == 0) {
				a(user).deallocate(static_cast<int *>(r.p), r.n);
			} else if (r.type == 1) {
				dealloc<Obj24>(a(user), r);
			} else {
				dealloc<char>(a(user), r);
			}
			PBT_CHECK(up.deallocs == d + 1);
		}
		void release_for(int i) {
			for (int j = 0; j < n; ++j) {
				if (j != i && s[j].m == s[i].m) {
					return;
				}
			}
			for (size_t k = live.size(); k-- > 0;) {
				if (live[k].m == s[i].m) {
					give_back(k, i);
				}
			}
		}
		void drop(int i) {
			if (s[i].m.kind >= 0) {
				release_for(i);
				a(i).~A0();
				s[i].m.kind = -1;
			}
		}
		template<typename T>
		void alloc(int i, int type) {
			size_t const cnt = ctx.chance(1, 12) ? static_cast<size_t>(ctx.choice(PTRDIFF_MAX / sizeof(T) - 200000)) + 100001 : ctx.size(40);
			up.fail = ctx.chance(1, 8);
			PBT_LOG("allocator " << i << ": allocate " << cnt << (up.fail ? ", upstream fails" : ""));
			unsigned long const before = up.allocs;
			void *p = nullptr;
			bool threw = false;
			try {
				A<T> x{a(i)};
				p = x.allocate(cnt);
			} catch (Failed const &) {
				threw = true;
			}
			PBT_CHECK(threw == up.fail && up.allocs == before + 1);
			up.fail = false;
			if (threw) {
				++failed;
				return;
			}
			PBT_CHECK(up.last.p == p && up.last.n == cnt && up.last.type == &type_tag<T> && up.last.elem == sizeof(T));
			PBT_CHECK_MSG(up.last.kind == s[i].m.kind && up.last.id == s[i].m.id, "request went to allocator kind " << up.last.kind << " id " << up.last.id << ", expected " << s[i].m.kind << " id " << s[i].m.id);
			live.push_back({p, cnt, type, s[i].m});
			++ops;
		}
		void step() {
			switch (ctx.below(10)) {
				case 0:
				case 1: {
					int const i = static_cast<int>(ctx.below(n));
					drop(i);
					size_t const k = ctx.below(P::nk);
					int const id = static_cast<int>(ctx.below(3));
					size_t const how = ctx.below(13);
					PBT_LOG("allocator " << i << " = new, kind " << P::kinds[k] << " id " << id << " how " << how);
					s[i].m = {P::kinds[k], id};
					P::with_kind(k, [&]<template<typename> typename X, size_t I>() {
						switch (how) {
							case 0: new (s[i].buf) A0(std::in_place_type<X<int>>, id); break;
							case 1: new (s[i].buf) A0(std::in_place_index<I>, id); break;
							case 2: new (s[i].buf) A0(X<int>{id}); break;
							case 3: {
								X<int> const x{id};
								new (s[i].buf) A0(x);
								break;
							}
							case 4: new (s[i].buf) A0(std::in_place_type<X<int>>, id - 1, 1); break;
							case 5: {
								X<int> x{id};
								new (s[i].buf) A0(x);
								break;
							}
							case 6: new (s[i].buf) A0(std::in_place_type<X<int>>, -1, Arg{id + 1}); break;
							case 7: new (s[i].buf) A0(std::in_place_index<I>, -1, Arg{id + 1}); break;
							case 8: {
								Arg const x{id};
								new (s[i].buf) A0(std::in_place_type<X<int>>, -1, x);
								break;
							}
							case 9: {
								Arg const x{id};
								new (s[i].buf) A0(std::in_place_index<I>, -1, x);
								break;
							}
							case 10: {
								Arg x{id};
								new (s[i].buf) A0(std::in_place_type<X<int>>, -2, x);
								break;
							}
							case 11: {
								Arg x{id};
								new (s[i].buf) A0(std::in_place_index<I>, -2, x);
								break;
							}
							default:
								new (s[i].buf) A0();
								s[i].m = {P::kinds[0], 0};
								break;
						}
					});
					break;
				}
				case 2: {
					int const o = some();
					int const i = static_cast<int>(ctx.below(n));
					if (o < 0 || i == o) {
						break;
					}
					drop(i);
					size_t const how = ctx.below(5);
					PBT_LOG("allocator " << i << " from " << o << ", how " << how);
					switch (how) {
						case 0: new (s[i].buf) A0(std::as_const(a(o))); break;
						case 1: new (s[i].buf) A0(std::move(a(o))); break;
						case 2: new (s[i].buf) A0(A1(a(o))); break;
						case 3: new (s[i].buf) A0(a(o)); break;
						default: new (s[i].buf) A0(std::allocator_traits<A0>::select_on_container_copy_construction(a(o))); break;
					}
					s[i].m = s[o].m;
					if (how == 4) {
						s[i].m.id += P::add_of(s[i].m.kind);
					}
					++copies;
					break;
				}
				case 3: {
					int const i = some();
					if (i < 0) {
						break;
					}
					int const o = some();
					size_t how = ctx.below(3);
					if (how == 2) {
						PBT_LOG("swap allocators " << i << " and " << o);
						swap(a(i), a(o));
						std::swap(s[i].m, s[o].m);
					} else {
						if (!(s[i].m == s[o].m)) {
							release_for(i);
						}
						if (i == o) {
							how = 0;
						}
						PBT_LOG("allocator " << i << " = " << (how ? "move " : "") << o);
						if (how == 1) {
							a(i) = std::move(a(o));
						} else {
							a(i) = std::as_const(a(o));
						}
						s[i].m = s[o].m;
					}
					++copies;
					break;
				}
				case 4: {
					int const i = some();
					if (i >= 0) {
						drop(i);
					}
					break;
				}
				case 5:
				case 6:
				case 7: {
					int const i = some();
					if (i < 0) {
						break;
					}
					switch (ctx.below(3)) {
						case 0: alloc<int>(i, 0); break;
						case 1: alloc<Obj24>(i, 1); break;
						default: alloc<char>(i, 2); break;
					}
					break;
				}
				default: {
					if (live.empty()) {
						break;
					}
					size_t const ix = ctx.below(live.size());
					int user = -1;
					int const start = static_cast<int>(ctx.below(n));
					for (int i = 0; i < n; ++i) {
						int const c = (start + i) % n;
						if (s[c].m == live[ix].m) {
							user = c;
						}
					}
					PBT_CHECK(user >= 0);
					give_back(ix, user);
					break;
				}
			}
		}
		void run() {
			int k = 0;
			while (k < 100 && ctx.more(30)) {
				++k;
				step();
				verify();
			}
			for (int i = 0; i < n; ++i) {
				drop(i);
				verify();
			}
			if (ops >= 2 && copies > 0) {
				ctx.nontrivial();
			}
			if (failed) {
				ctx.label("upstream failed");
			}
		}
	};
	template<template<typename> typename... As>
	void run(pbt::Ctx &ctx) {
		using A0 = dtl::polymorphic_allocator<int, As...>;
		PBT_CHECK(pocca<A0> == (pocca<As<int>> && ...));
		PBT_CHECK(pocma<A0> == (pocma<As<int>> && ...));
		PBT_CHECK(pocs<A0> == (pocs<As<int>> && ...));
		up.reset();
		{
			Driver<As...> d{ctx, {}, {}};
			d.run();
		}
		up.live.shrink_to_fit();
		up.error.shrink_to_fit();
	}

	// containers of ints, V<A> with allocators produced by make(kind index, id), identified by ident(allocator)
	template<typename V, typename Make>
	void containers(pbt::Ctx &ctx, size_t nk, int const *kinds, int const *adds, Make make) {
		using A = typename V::allocator_type;
		up.reset();
		auto add_of = [&](int kind) {
			for (size_t i = 0; i < nk; ++i) {
				if (kinds[i] == kind) {
					return adds[i];
				}
			}
			return 0;
		};
		unsigned moves = 0, cross = 0, k = 0;
		{
			std::vector<V> v;
			std::vector<std::vector<int>> m;
			std::vector<Id> id;
			v.reserve(3);
			for (int i = 0; i < 3; ++i) {
				size_t const kx = ctx.below(nk);
				int const d = static_cast<int>(ctx.below(2));
				v.emplace_back(make(kx, d));
				id.push_back({kinds[kx], d});
				m.emplace_back();
			}
			while (k < 60 && ctx.more(20)) {
				++k;
				size_t const i = ctx.below(3), j = ctx.below(3);
				int const val = static_cast<int>(ctx.below(1000));
				switch (ctx.below(9)) {
					case 0:
					case 1:
						PBT_LOG("v" << i << ".push_back");
						v[i].push_back(val);
						m[i].push_back(val);
						break;
					case 2: {
						size_t const n = ctx.below(30);
						PBT_LOG("v" << i << ".resize(" << n << ")");
						v[i].resize(n);
						m[i].resize(n);
						break;
					}
					case 3: {
						size_t const at = ctx.below(m[i].size() + 1);
						PBT_LOG("v" << i << " insert/erase at " << at);
						if (ctx.flip() && at < m[i].size()) {
							v[i].erase(std::next(v[i].begin(), static_cast<long>(at)));
							m[i].erase(m[i].begin() + static_cast<long>(at));
						} else {
							v[i].insert(std::next(v[i].begin(), static_cast<long>(at)), val);
							m[i].insert(m[i].begin() + static_cast<long>(at), val);
						}
						break;
					}
					case 4:
					case 5:
						PBT_LOG("v" << i << " = v" << j);
						++moves;
						cross += !(id[i] == id[j]);
						v[i] = std::as_const(v[j]);
						m[i] = m[j];
						if (pocca<A>) {
							id[i] = id[j];
						}
						break;
					case 6:
						if (i != j) {
							PBT_LOG("v" << i << " = move(v" << j << ")");
							++moves;
							cross += !(id[i] == id[j]);
							v[i] = std::move(v[j]);
							m[i] = m[j];
							if (pocma<A>) {
								id[i] = id[j];
							}
							v[j].clear();
							m[j].clear();
						}
						break;
					case 7:
						// undefined for unequal allocators that are not swapped
						if (pocs<A> || id[i] == id[j]) {
							PBT_LOG("swap(v" << i << ", v" << j << ")");
							++moves;
							cross += !(id[i] == id[j]);
							swap(v[i], v[j]);
							std::swap(m[i], m[j]);
							std::swap(id[i], id[j]);
						}
						break;
					default: {
						PBT_LOG("copy of v" << i);
						V x{v[i]};
						Id want = id[i];
						want.id += add_of(want.kind);
						PBT_CHECK(probe(A{x.get_allocator()}) == want);
						V y{std::move(x)};
						PBT_CHECK(probe(A{y.get_allocator()}) == want);
						PBT_CHECK(std::vector<int>(y.begin(), y.end()) == m[i]);
						break;
					}
				}
				if (!up.error.empty()) {
					throw pbt::Failure{up.error};
				}
				for (size_t x = 0; x < 3; ++x) {
					PBT_CHECK_MSG(std::vector<int>(v[x].begin(), v[x].end()) == m[x], "contents of v" << x);
					Id const got = probe(A{v[x].get_allocator()});
					PBT_CHECK_MSG(got == id[x], "container " << x << " uses allocator kind " << got.kind << " id " << got.id << ", expected " << id[x].kind << " id " << id[x].id);
				}
			}
		}
		PBT_CHECK(up.live.empty());
		PBT_CHECK(up.error.empty());
		if (k >= 3 && moves > 0) {
			ctx.nontrivial();
		}
		if (cross) {
			ctx.label("transfer between unequal allocators");
		}
		up.live.shrink_to_fit();
		up.error.shrink_to_fit();
	}
} // namespace c11
