#include "common.hpp"
using namespace c09;

namespace {
	// allocators of several value types over two pools
	template<size_t... B>
	struct Driver {
		template<typename T>
		using A = dtl::pool_allocator<T, B...>;
		using P = dtl::pool<B...>;
		using T0 = char;
		using T1 = Blob<12, 4>;
		using T2 = Blob<24, 8>;
		using T3 = Blob<32, 16>;
		using T4 = Blob<3, 1>;
		using T5 = Blob<32, 32>; // over-aligned
		using T6 = Blob<64, 64>;

		pbt::Ctx &ctx;
		Model m{B...};
		// every allocator is kept as A<T0> and rebound for use
		static constexpr int n = 4;
		alignas(A<T0>) unsigned char buf[n][sizeof(A<T0>)];
		int pool_of[n] = {-1, -1, -1, -1}; // -1: no allocator
		P const *pools[2] = {nullptr, nullptr};
		unsigned moves = 0;

		A<T0> &a(int i) { return *std::launder(reinterpret_cast<A<T0> *>(buf[i])); }
		int refs(int pool) {
			int r = 0;
			for (int x : pool_of) {
				r += x == pool;
			}
			return r;
		}
		// the pool is gone when the last allocator is: give back all regions first
		void release_for(int pool, int leaving) {
			if (pool < 0 || refs(pool) > leaving) {
				return;
			}
			int user = -1;
			for (int i = 0; i < n; ++i) {
				if (pool_of[i] == pool) {
					user = i;
				}
			}
			for (size_t i = m.live.size(); i-- > 0;) {
				if (m.live[i].pool == pool) {
					give_back(i, user);
				}
			}
		}
		void gone(int pool) {
			if (pool >= 0 && refs(pool) == 0) {
				m.forget(pool);
				pools[pool] = nullptr;
			}
		}
		template<typename T>
		void dealloc(size_t ix, int user) {
			auto const r = m.live[ix];
			// deallocate through a freshly rebound allocator
			m.deallocate(ix, [&] {
				A<T> x{a(user)};
				x.deallocate(reinterpret_cast<T *>(r.p), r.count);
			});
		}
		void give_back(size_t ix, int user) {
			switch (m.live[ix].type) {
				case 0: dealloc<T0>(ix, user); break;
				case 1: dealloc<T1>(ix, user); break;
				case 2: dealloc<T2>(ix, user); break;
				case 3: dealloc<T3>(ix, user); break;
				case 4: dealloc<T4>(ix, user); break;
				case 5: dealloc<T5>(ix, user); break;
				default: dealloc<T6>(ix, user); break;
			}
		}
		template<typename T>
		void alloc(int i, int type) {
			size_t cnt = ctx.chance(1, 3) ? 1 : ctx.below(8);
			if (sizeof(T) == 1) {
				cnt = request(ctx, m.buckets);
			}
			A<T> x{a(i)};
			if (ctx.chance(1, 30)) {
				// impossible sizes
				size_t const lim = ~size_t{0} / sizeof(T);
				size_t const huge = sizeof(T) == 1 || ctx.flip() ? lim - ctx.below(4) : lim + 1 + (ctx.flip() ? ctx.below(4) : ctx.choice(~size_t{0} - lim - 1));
				PBT_LOG("allocator " << i << ": allocate(" << huge << ") of " << sizeof(T) << " byte elements");
				bool threw = false;
				try {
					heap::Tracking t;
					heap::sink = x.allocate(huge);
				} catch (std::bad_alloc const &) {
					threw = true;
				}
				PBT_CHECK_MSG(threw, "allocate(" << huge << ") of " << sizeof(T) << " byte elements did not fail");
				return;
			}
			PBT_LOG("allocator " << i << ": allocate(" << cnt << ") of " << sizeof(T) << " byte elements");
			m.allocate(ctx, pool_of[i], cnt * sizeof(T), alignof(T), cnt, type, [&]() -> void * { return x.allocate(cnt); });
		}
		// the same request again and again is served from one region, however often it is made
		template<typename T>
		void churn(int i, int type) {
			size_t const cnt = ctx.flip() ? ctx.below(2) : ctx.below(8);
			size_t const reps = 2 + ctx.below(80);
			size_t const user = static_cast<size_t>(i);
			PBT_LOG("allocator " << i << ": " << reps << " times allocate and deallocate(" << cnt << ") of " << sizeof(T) << " byte elements");
			A<T> x{a(i)};
			for (size_t k = 0; k < reps; ++k) {
				size_t const before = m.live.size();
				m.allocate(ctx, pool_of[i], cnt * sizeof(T), alignof(T), cnt, type, [&]() -> void * { return x.allocate(cnt); });
				if (m.live.size() > before) {
					give_back(before, static_cast<int>(user));
				}
			}
		}
		int some() {
			int l[n], k = 0;
			for (int i = 0; i < n; ++i) {
				if (pool_of[i] >= 0) {
					l[k++] = i;
				}
			}
			return k == 0 ? -1 : l[ctx.below(static_cast<size_t>(k))];
		}
		void drop(int i) {
			int const p = pool_of[i];
			if (p < 0) {
				return;
			}
			release_for(p, 1);
			{
				heap::Tracking t;
				a(i).~A<T0>();
			}
			pool_of[i] = -1;
			gone(p);
		}
		void verify() {
			m.verify();
			for (int i = 0; i < n; ++i) {
				if (pool_of[i] < 0) {
					continue;
				}
				PBT_CHECK_MSG(a(i).underlying_pool().get() == pools[pool_of[i]], "allocator " << i << " uses another pool than expected");
				for (int j = 0; j < n; ++j) {
					if (pool_of[j] < 0) {
						continue;
					}
					bool const same = pool_of[i] == pool_of[j];
					PBT_CHECK_MSG((a(i) == a(j)) == same && (a(i) != a(j)) == !same, "allocators " << i << " and " << j);
					PBT_CHECK((A<T2>{a(i)} == A<T2>{a(j)}) == same);
				}
			}
		}
		void step() {
			switch (ctx.below(13)) {
				case 0: { // new allocator with a new pool
					int const i = static_cast<int>(ctx.below(n));
					int const p = refs(0) == 0 ? 0 : refs(1) == 0 ? 1 : -1;
					if (p < 0 || pool_of[i] >= 0) {
						break;
					}
					PBT_LOG("allocator " << i << " with new pool " << p);
					heap::Tracking t;
					if (ctx.flip()) {
						new (buf[i]) A<T0>();
					} else {
						new (buf[i]) A<T0>(std::make_shared<P>());
					}
					pool_of[i] = p;
					pools[p] = a(i).underlying_pool().get();
					PBT_CHECK(pools[p] != nullptr && pools[p] != pools[1 - p]);
					break;
				}
				case 1: { // construct from another
					int const o = some();
					int const i = static_cast<int>(ctx.below(n));
					if (o < 0 || pool_of[i] >= 0) {
						break;
					}
					size_t const how = ctx.below(4);
					PBT_LOG("allocator " << i << " from " << o << " how " << how);
					heap::Tracking t;
					switch (how) {
						case 0: new (buf[i]) A<T0>(std::as_const(a(o))); break;
						case 1: new (buf[i]) A<T0>(std::move(a(o))); break;
						case 2: new (buf[i]) A<T0>(A<T3>(a(o))); break;
						default: new (buf[i]) A<T0>(std::allocator_traits<A<T0>>::select_on_container_copy_construction(a(o))); break;
					}
					pool_of[i] = pool_of[o];
					++moves;
					break;
				}
				case 2: { // assign / swap
					int const i = some();
					if (i < 0) {
						break;
					}
					int const o = some();
					size_t const how = ctx.below(3);
					if (how == 2) {
						PBT_LOG("swap allocators " << i << " and " << o);
						swap(a(i), a(o));
						std::swap(pool_of[i], pool_of[o]);
					} else {
						int const p = pool_of[i];
						if (p != pool_of[o]) {
							release_for(p, 1);
						}
						PBT_LOG("allocator " << i << " = " << (how ? "move " : "") << o);
						{
							heap::Tracking t;
							if (how) {
								a(i) = std::move(a(o));
							} else {
								a(i) = std::as_const(a(o));
							}
						}
						pool_of[i] = pool_of[o];
						gone(p);
					}
					++moves;
					break;
				}
				case 3: {
					int const i = some();
					if (i >= 0) {
						PBT_LOG("destroy allocator " << i);
						drop(i);
					}
					break;
				}
				case 4:
				case 5:
				case 6:
				case 7:
				case 8: {
					int const i = some();
					if (i < 0) {
						break;
					}
					switch (ctx.below(11)) {
						case 0:
						case 1: alloc<T0>(i, 0); break;
						case 2:
						case 3: alloc<T1>(i, 1); break;
						case 4:
						case 5: alloc<T2>(i, 2); break;
						case 6: alloc<T3>(i, 3); break;
						case 7: alloc<T5>(i, 5); break;
						case 8: alloc<T6>(i, 6); break;
						default: alloc<T4>(i, 4); break;
					}
					break;
				}
				case 9: {
					int const i = some();
					if (i < 0 || !ctx.chance(1, 4)) {
						break;
					}
					switch (ctx.below(4)) {
						case 0: churn<T0>(i, 0); break;
						case 1: churn<T1>(i, 1); break;
						case 2: churn<T5>(i, 5); break;
						default: churn<T3>(i, 3); break;
					}
					break;
				}
				default: {
					if (m.live.empty()) {
						break;
					}
					size_t const ix = ctx.below(m.live.size());
					// any equal allocator may deallocate
					int user = -1;
					int const start = static_cast<int>(ctx.below(n));
					for (int i = 0; i < n; ++i) {
						int const c = (start + i) % n;
						if (pool_of[c] == m.live[ix].pool) {
							user = c;
						}
					}
					PBT_LOG("allocator " << user << ": deallocate region of " << m.live[ix].bytes << " bytes");
					give_back(ix, user);
					break;
				}
			}
		}
		void run() {
			int k = 0;
			while (k < 200 && ctx.more(50)) {
				++k;
				step();
				verify();
			}
			for (int i = 0; i < n; ++i) {
				drop(i);
			}
			PBT_CHECK(heap::error() == nullptr);
			PBT_CHECK_MSG(heap::live() == 0, heap::live() << " blocks of memory were not given back");
			if (m.total >= 3 && moves > 0) {
				ctx.nontrivial();
			}
			if (m.failed) {
				ctx.label("with failed general purpose allocation");
			}
			if (m.large) {
				ctx.label("with requests that fit no bucket");
			}
		}
	};
	template<size_t... B>
	void go(pbt::Ctx &ctx) {
		heap::reset();
		Driver<B...> d{ctx};
		d.run();
	}
} // namespace
PBT_PROP(allocators_16_40, 14000) { go<16, 40>(ctx); }
PBT_PROP(allocators_odd, 10000) { go<5, 33, 96>(ctx); }
