#include "life.hpp"
#include "pbt.hpp"

#include <cstdlib>
#include <memory>
#include <new>
#include <string>

#include <dice/template-library/limit_allocator.hpp>

namespace c10 {
	namespace dtl = dice::template_library;
	using Sync = dtl::limit_allocator_syncness;

	struct InnerFailed : std::bad_alloc {};

	// upstream memory; "fake" memory can be arbitrarily large because it is never touched
	struct Up {
		struct Block {
			void *p;
			size_t n;
			size_t elem;
			int id;
		};
		std::vector<Block> live;
		std::string error;
		bool fake = true;
		bool fail = false;
		uintptr_t next = 0x1000;
		unsigned long calls = 0;
		void reset() {
			for (auto &b : live) {
				if (!fake) {
					std::free(b.p);
				}
			}
			live.clear();
			error.clear();
			fake = true;
			fail = false;
			next = 0x1000;
			calls = 0;
		}
		void err(char const *w) {
			if (error.empty()) {
				error = w;
			}
		}
		void *get(size_t n, size_t elem, int id) {
			++calls;
			if (fail) {
				throw InnerFailed{};
			}
			void *p;
			if (fake) {
				p = reinterpret_cast<void *>(next);
				next += 0x100;
			} else {
				p = std::malloc(n * elem + 1);
			}
			live.push_back({p, n, elem, id});
			return p;
		}
		void put(void *p, size_t n, size_t elem, int id) {
			for (size_t i = 0; i < live.size(); ++i) {
				if (live[i].p == p) {
					if (live[i].n != n || live[i].elem != elem) {
						err("upstream deallocation with another size than allocated");
					}
					if (live[i].id != id) {
						err("upstream deallocation by an unequal allocator");
					}
					if (!fake) {
						std::free(p);
					}
					live[i] = live.back();
					live.pop_back();
					return;
				}
			}
			err("upstream deallocation of memory that is not allocated");
		}
		unsigned __int128 bytes() const {
			unsigned __int128 r = 0;
			for (auto const &b : live) {
				r += static_cast<unsigned __int128>(b.n) * b.elem;
			}
			return r;
		}
	};
	inline Up up;

	template<typename T>
	struct Inner {
		using value_type = T;
		using propagate_on_container_copy_assignment = std::true_type;
		using propagate_on_container_move_assignment = std::false_type;
		using propagate_on_container_swap = std::true_type;
		int id = 0;
		Inner() = default;
		explicit Inner(int i) : id{i} {}
		Inner(int a, int b) : id{a + b} {}
		template<typename U>
		Inner(Inner<U> const &o) : id{o.id} {}
		T *allocate(size_t n) { return static_cast<T *>(up.get(n, sizeof(T), id)); }
		void deallocate(T *p, size_t n) { up.put(p, n, sizeof(T), id); }
		Inner select_on_container_copy_construction() const { return Inner{id + 10}; }
		template<typename U>
		friend bool operator==(Inner const &a, Inner<U> const &b) { return a.id == b.id; }
	};

	// not default constructible, propagates always
	template<typename T>
	struct NdInner {
		using value_type = T;
		using propagate_on_container_copy_assignment = std::true_type;
		using propagate_on_container_move_assignment = std::true_type;
		using propagate_on_container_swap = std::true_type;
		int id;
		explicit NdInner(int i) : id{i} {}
		NdInner(int a, int b) : id{a + b} {}
		template<typename U>
		NdInner(NdInner<U> const &o) : id{o.id} {}
		T *allocate(size_t n) { return static_cast<T *>(up.get(n, sizeof(T), id)); }
		void deallocate(T *p, size_t n) { up.put(p, n, sizeof(T), id); }
		NdInner select_on_container_copy_construction() const { return NdInner{id + 10}; }
		template<typename U>
		friend bool operator==(NdInner const &a, NdInner<U> const &b) { return a.id == b.id; }
	};

	template<size_t N>
	struct Blob {
		char b[N];
	};

	template<template<typename> typename In, Sync S>
	struct Driver {
		template<typename T>
		using A = dtl::limit_allocator<T, In, S>;
		using T0 = char;
		using T1 = Blob<4>;
		using T2 = Blob<24>;
		static constexpr int n = 4;
		static constexpr size_t umax = ~size_t{0};

		struct Slot {
			alignas(A<T0>) unsigned char buf[sizeof(A<T0>)];
			int block = -1; // control block number, -1 not alive
			int id = 0;
		};
		struct Region {
			void *p;
			size_t n;
			int type;
			int block;
			int id;
		};
		struct Limit {
			size_t limit;
			size_t left;
		};
		pbt::Ctx &ctx;
		Slot s[n];
		std::vector<Region> live;
		std::vector<Limit> limits;
		unsigned refused = 0, innerfail = 0, ok = 0, overflow = 0, copies = 0;

		A<T0> &a(int i) { return *std::launder(reinterpret_cast<A<T0> *>(s[i].buf)); }
		int some() {
			int l[n], k = 0;
			for (int i = 0; i < n; ++i) {
				if (s[i].block >= 0) {
					l[k++] = i;
				}
			}
			return k == 0 ? -1 : l[ctx.below(static_cast<size_t>(k))];
		}
		static size_t size_of(int type) { return type == 0 ? sizeof(T0) : type == 1 ? sizeof(T1) : sizeof(T2); }

		void verify() {
			if (!up.error.empty()) {
				throw pbt::Failure{up.error};
			}
			for (int i = 0; i < n; ++i) {
				if (s[i].block < 0) {
					continue;
				}
				PBT_CHECK_MSG(a(i).upstream_allocator().id == s[i].id, "allocator " << i << " has upstream " << a(i).upstream_allocator().id << ", expected " << s[i].id);
				for (int j = 0; j < n; ++j) {
					if (s[j].block >= 0) {
						bool const eq = s[i].block == s[j].block && s[i].id == s[j].id;
						PBT_CHECK_MSG((a(i) == a(j)) == eq && (a(i) != a(j)) == !eq, "allocators " << i << " and " << j);
					}
				}
			}
			for (size_t b = 0; b < limits.size(); ++b) {
				unsigned __int128 used = 0;
				for (auto const &r : live) {
					if (r.block == static_cast<int>(b)) {
						used += static_cast<unsigned __int128>(r.n) * size_of(r.type);
					}
				}
				PBT_CHECK(used + limits[b].left == limits[b].limit);
			}
			PBT_CHECK(up.live.size() == live.size());
		}

		template<typename T>
		void alloc(int i, int type) {
			Limit &l = limits[static_cast<size_t>(s[i].block)];
			size_t cnt;
			switch (ctx.below(7)) {
				case 0: cnt = ctx.below(8); break;
				case 1: cnt = l.left / sizeof(T) + ctx.below(3); break;
				case 2: cnt = l.left / sizeof(T) - (l.left / sizeof(T) ? ctx.below(2) : 0); break;
				case 3: cnt = l.left / sizeof(T) / 2; break;
				case 4: cnt = umax / sizeof(T) + ctx.below(4); break; // product wraps around to small values
				case 5: cnt = umax - ctx.below(4); break;
				default: cnt = l.limit / sizeof(T) + ctx.below(2); break;
			}
			if (sizeof(T) == 4 && ctx.chance(1, 20)) {
				cnt = (size_t{1} << 62) + ctx.below(8);
			}
			up.fail = ctx.chance(1, 6);
			bool const fits = static_cast<unsigned __int128>(cnt) * sizeof(T) <= l.left;
			if (static_cast<unsigned __int128>(cnt) * sizeof(T) > umax) {
				++overflow;
			}
			PBT_LOG("allocator " << i << " (limit " << s[i].block << ", " << l.left << " of " << l.limit << " bytes left): allocate " << cnt << " x " << sizeof(T) << (up.fail ? ", upstream fails" : ""));
			bool threw = false, inner_threw = false;
			void *p = nullptr;
			unsigned long const before = up.calls;
			try {
				A<T> x{a(i)};
				p = x.allocate(cnt);
			} catch (InnerFailed const &) {
				inner_threw = true;
			} catch (std::bad_alloc const &) {
				threw = true;
			}
			bool const failing = up.fail;
			up.fail = false;
			if (!fits) {
				++refused;
				PBT_CHECK_MSG(threw, "allocation of " << cnt << " x " << sizeof(T) << " bytes was granted with " << l.left << " bytes left");
				PBT_CHECK(up.calls == before);
				return;
			}
			if (failing) {
				++innerfail;
				PBT_CHECK(inner_threw);
				return;
			}
			PBT_CHECK_MSG(!threw && !inner_threw, "allocation of " << cnt << " x " << sizeof(T) << " bytes was refused with " << l.left << " bytes left");
			PBT_CHECK(up.calls == before + 1 && up.live.back().p == p && up.live.back().n == cnt && up.live.back().elem == sizeof(T) && up.live.back().id == s[i].id);
			l.left -= cnt * sizeof(T);
			live.push_back({p, cnt, type, s[i].block, s[i].id});
			++ok;
		}
		template<typename T>
		static void dealloc(A<T0> &x, Region const &r) {
			A<T> y{x};
			y.deallocate(static_cast<T *>(r.p), r.n);
		}
		void give_back(size_t ix, int user) {
			Region const r = live[ix];
			PBT_LOG("allocator " << user << ": deallocate " << r.n << " x " << size_of(r.type));
			live[ix] = live.back();
			live.pop_back();
			switch (r.type) {
				case 0: dealloc<T0>(a(user), r); break;
				case 1: dealloc<T1>(a(user), r); break;
				default: dealloc<T2>(a(user), r); break;
			}
			limits[static_cast<size_t>(r.block)].left += r.n * size_of(r.type);
		}
		// give back everything that can only be given back through allocator i
		void release_for(int i) {
			for (int j = 0; j < n; ++j) {
				if (j != i && s[j].block == s[i].block && s[j].id == s[i].id) {
					return;
				}
			}
			for (size_t k = live.size(); k-- > 0;) {
				if (live[k].block == s[i].block && live[k].id == s[i].id) {
					give_back(k, i);
				}
			}
		}
		void drop(int i) {
			if (s[i].block >= 0) {
				release_for(i);
				a(i).~A<T0>();
				s[i].block = -1;
			}
		}
		void step() {
			switch (ctx.below(12)) {
				case 0:
				case 1: {
					int const i = static_cast<int>(ctx.below(n));
					drop(i);
					size_t limit;
					switch (ctx.below(5)) {
						case 0: limit = ctx.below(200); break;
						case 1: limit = ctx.below(40); break;
						case 2: limit = umax - ctx.below(30); break;
						case 3: limit = ctx.edge<size_t>(); break;
						default: limit = 0; break;
					}
					int const id = static_cast<int>(ctx.below(3));
					size_t const how = ctx.below(4);
					PBT_LOG("allocator " << i << " = new limit " << limits.size() << " of " << limit << " bytes, upstream " << id << ", how " << how);
					In<T0> const in{id};
					switch (how) {
						case 0: new (s[i].buf) A<T0>(limit, in); break;
						case 1: new (s[i].buf) A<T0>(limit, In<T0>{id}); break;
						case 2: {
							life::Args x{{id - 1}, {1}};
							new (s[i].buf) A<T0>(limit, std::in_place, x.l, std::move(x.r));
							x.check(true);
							break;
						}
						default:
							if constexpr (std::is_default_constructible_v<In<T0>>) {
								new (s[i].buf) A<T0>(limit);
								break;
							}
							new (s[i].buf) A<T0>(limit, std::in_place, id);
							break;
					}
					s[i].id = how == 3 && std::is_default_constructible_v<In<T0>> ? 0 : id;
					s[i].block = static_cast<int>(limits.size());
					limits.push_back({limit, limit});
					break;
				}
				case 2: {
					int const o = some();
					int const i = static_cast<int>(ctx.below(n));
					if (o < 0 || i == o) {
						break;
					}
					drop(i);
					size_t const how = ctx.below(5);
					PBT_LOG("allocator " << i << " from " << o << ", how " << how);
					switch (how) {
						case 0: new (s[i].buf) A<T0>(std::as_const(a(o))); break;
						case 1: new (s[i].buf) A<T0>(std::move(a(o))); break;
						case 2: new (s[i].buf) A<T0>(A<T2>(a(o))); break;
						case 3: new (s[i].buf) A<T0>(A<T1>(A<T2>(std::move(a(o))))); break;
						default: new (s[i].buf) A<T0>(std::allocator_traits<A<T0>>::select_on_container_copy_construction(a(o))); break;
					}
					s[i].block = s[o].block;
					s[i].id = s[o].id + (how == 4 ? 10 : 0);
					++copies;
					break;
				}
				case 3: {
					int const i = some();
					if (i < 0) {
						break;
					}
					int const o = some();
					size_t const how = ctx.below(3);
					if (how == 2) {
						PBT_LOG("swap allocators " << i << " and " << o);
						swap(a(i), a(o));
						std::swap(s[i].block, s[o].block);
						std::swap(s[i].id, s[o].id);
					} else {
						if (!(s[i].block == s[o].block && s[i].id == s[o].id)) {
							release_for(i);
						}
						PBT_LOG("allocator " << i << " = " << (how ? "move " : "") << o);
						if (how == 1) {
							a(i) = std::move(a(o));
						} else {
							a(i) = std::as_const(a(o));
						}
						s[i].block = s[o].block;
						s[i].id = s[o].id;
					}
					++copies;
					break;
				}
				case 4: {
					int const i = some();
					if (i >= 0) {
						PBT_LOG("destroy allocator " << i);
						drop(i);
					}
					break;
				}
				case 5:
				case 6:
				case 7:
				case 8:
				case 9: {
					int const i = some();
					if (i < 0) {
						break;
					}
					switch (ctx.below(3)) {
						case 0: alloc<T0>(i, 0); break;
						case 1: alloc<T1>(i, 1); break;
						default: alloc<T2>(i, 2); break;
					}
					break;
				}
				default: {
					if (live.empty()) {
						break;
					}
					size_t const ix = ctx.below(live.size());
					int user = -1;
					int const start = static_cast<int>(ctx.below(n));
					for (int i = 0; i < n; ++i) {
						int const c = (start + i) % n;
						if (s[c].block == live[ix].block && s[c].id == live[ix].id) {
							user = c;
						}
					}
					PBT_CHECK(user >= 0);
					give_back(ix, user);
					break;
				}
			}
		}
		void run() {
			int k = 0;
			while (k < 120 && ctx.more(40)) {
				++k;
				step();
				verify();
			}
			for (int i = 0; i < n; ++i) {
				drop(i);
				verify();
			}
			if (ok >= 2 && refused > 0) {
				ctx.nontrivial();
			}
			if (innerfail) {
				ctx.label("upstream failed");
			}
			if (overflow) {
				ctx.label("size in bytes exceeds size_t");
			}
			if (copies) {
				ctx.label("several allocators share a limit");
			}
		}
	};
	template<template<typename> typename In, Sync S>
	void run(pbt::Ctx &ctx) {
		up.reset();
		{
			Driver<In, S> d{ctx, {}, {}, {}};
			d.run();
		}
		up.live.shrink_to_fit();
		up.error.shrink_to_fit();
	}
} // namespace c10
