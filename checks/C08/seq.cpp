// Histories of guards in one thread against a mutex that records what is done with it.
#include "../../engine/pbt.hpp"
#include <array>
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <type_traits>
#include <vector>
namespace dtl = dice::template_library;

namespace {
	constexpr int nobj = 3, nslot = 4;

	struct State {
		int x = 0, s = 0; // held exclusively / shared so many times
	};
	struct Probe {
		static inline State st[nobj];
		static inline int next = 0;
		static inline std::string error;
		// what the next acquisition does
		static inline bool refuse = false, fail = false;
		int id;
		Probe() : id{next++ % nobj} {}
		Probe(Probe const &) = delete;
		Probe(Probe &&) = delete;
		~Probe() {
			if (st[id].x || st[id].s) err("a held mutex is destroyed");
		}
		static void err(char const *w) {
			if (error.empty()) error = w;
		}
		void acquire() {
			if (fail) throw std::system_error{std::make_error_code(std::errc::resource_unavailable_try_again)};
		}
		void lock() {
			acquire();
			++st[id].x;
		}
		bool try_lock() {
			acquire();
			if (refuse) return false;
			++st[id].x;
			return true;
		}
		void unlock() {
			if (--st[id].x < 0) err("unlock without a lock");
		}
		void lock_shared() {
			acquire();
			++st[id].s;
		}
		bool try_lock_shared() {
			acquire();
			if (refuse) return false;
			++st[id].s;
			return true;
		}
		void unlock_shared() {
			if (--st[id].s < 0) err("unlock_shared without a lock");
		}
	};

	struct Boom {};
	// value that records how it was made
	struct Val {
		static inline int live = 0;
		static inline bool boom = false;
		char how;
		int a = 0;
		std::string text = "a text that is long enough to be allocated";
		static void may() {
			if (boom) throw Boom{};
		}
		void operator&() const = delete;
		Val() : how{'d'} { may(); ++live; }
		explicit Val(int x) : how{'i'}, a{x} { may(); ++live; }
		Val(int x, std::unique_ptr<int> y) : how{'2'}, a{x + *y} { may(); ++live; }
		Val(std::unique_ptr<int> &x, std::unique_ptr<int> &&y) : how{'3'}, a{*x + *y} { may(); ++live; y.reset(); }
		Val(std::unique_ptr<int> &&x, std::unique_ptr<int> &&y) : how{'x'}, a{*x + *y} { may(); ++live; }
		Val(std::unique_ptr<int> &x, std::unique_ptr<int> &y) : how{'y'}, a{*x + *y} { may(); ++live; }
		Val(Val const &o) : how{'c'}, a{o.a} { may(); ++live; }
		Val(Val &&o) : how{'m'}, a{o.a} { may(); ++live; o.a = -1; }
		Val &operator=(Val const &) = default;
		~Val() { --live; }
	};

	template<typename W, typename X, typename S, bool has_shared>
	struct Seq {
		pbt::Ctx &ctx;
		std::unique_ptr<W> w[nobj];
		Val *where[nobj]{};
		int model[nobj]{};
		std::optional<X> x[nslot];
		std::optional<S> s[nslot];
		int hx[nslot], hs[nslot]; // object held, -1: none
		unsigned moves = 0, refused = 0, failed = 0, taken = 0;

		void verify() {
			if (!Probe::error.empty()) throw pbt::Failure{Probe::error};
			for (int o = 0; o < nobj; ++o) {
				int nx = 0, ns = 0;
				for (int i = 0; i < nslot; ++i) {
					nx += hx[i] == o;
					ns += hs[i] == o;
				}
				PBT_CHECK_MSG(Probe::st[o].x == nx, "object " << o << " is locked " << Probe::st[o].x << " times, " << nx << " guards are there");
				PBT_CHECK_MSG(Probe::st[o].s == ns, "object " << o << " is locked shared " << Probe::st[o].s << " times, " << ns << " guards are there");
			}
			for (int i = 0; i < nslot; ++i) {
				if (hx[i] >= 0) {
					PBT_CHECK(std::addressof(**x[i]) == where[hx[i]] && (*x[i]).operator->() == where[hx[i]]);
					PBT_CHECK((*x[i])->a == model[hx[i]]);
				}
				if constexpr (has_shared) {
					if (hs[i] >= 0) {
						PBT_CHECK(std::addressof(**s[i]) == where[hs[i]] && (*s[i]).operator->() == where[hs[i]]);
						PBT_CHECK((**s[i]).a == model[hs[i]]);
					}
				}
			}
		}
		void make(int o) {
			Val::boom = ctx.chance(1, 8);
			size_t const how = ctx.below(6);
			int const v = static_cast<int>(ctx.below(100));
			PBT_LOG("object " << o << " is made, how " << how << " value " << v << (Val::boom ? ", throws" : ""));
			bool const boom = std::exchange(Val::boom, false);
			char want = 'd';
			int value = 0;
			try {
				Val src{v};
				Val::boom = boom;
				switch (how) {
					case 0: w[o].reset(new W{}); break;
					case 1: want = 'c'; value = v; w[o].reset(new W(std::as_const(src))); break;
					case 2: want = 'm'; value = v; w[o].reset(new W(std::move(src))); break;
					case 3: want = 'i'; value = v; w[o].reset(new W(std::in_place, v)); break;
					case 4: {
						want = '3';
						value = v + 2;
						auto l = std::make_unique<int>(v), r = std::make_unique<int>(2);
						w[o].reset(new W(std::in_place, l, std::move(r)));
						PBT_CHECK(l && !r);
						break;
					}
					default: want = '2'; value = v + 1; w[o].reset(new W(std::in_place, v, std::make_unique<int>(1))); break;
				}
				PBT_CHECK(!boom);
				if (how == 1) PBT_CHECK(src.a == v);
			} catch (Boom const &) {
				PBT_CHECK(boom);
				Val::boom = false;
				Probe::next = o;
				w[o].reset(new W{});
				want = 'd';
				value = 0;
			}
			Val::boom = false;
			Probe::st[o] = {};
			{
				auto g = w[o]->lock();
				where[o] = std::addressof(*g);
				PBT_CHECK(g->how == want && g->a == value);
				PBT_CHECK(Probe::st[o].x == 1);
			}
			PBT_CHECK(Probe::st[o].x == 0 && Probe::st[o].s == 0);
			model[o] = value;
		}
		template<typename G>
		void manage(std::optional<G> *g, int *h, size_t how, int a, int b) {
			switch (how) {
				case 0:
					if (a == b || !g[a]) return;
					g[b].reset();
					h[b] = -1;
					verify();
					PBT_LOG("guard " << b << " is move constructed from " << a);
					g[b].emplace(std::move(*g[a]));
					h[b] = std::exchange(h[a], -1);
					++moves;
					return;
				case 1:
					if (a == b || !g[a] || !g[b]) return;
					PBT_LOG("guard " << b << " is move assigned from " << a);
					*g[b] = std::move(*g[a]);
					h[b] = std::exchange(h[a], -1);
					++moves;
					return;
				case 2:
				case 3:
					if (!g[a] || !g[b]) return;
					PBT_LOG("guards " << a << " and " << b << " are swapped");
					if (how == 2) swap(*g[a], *g[b]);
					else std::ranges::swap(*g[a], *g[b]);
					std::swap(h[a], h[b]);
					++moves;
					return;
				default:
					PBT_LOG("guard " << a << " ends");
					g[a].reset();
					h[a] = -1;
					return;
			}
		}
		void acquire(int o, int slot, size_t how) {
			W &m = *w[o];
			bool const shared = has_shared && how >= 2;
			Probe::fail = ctx.chance(1, 8);
			Probe::refuse = ctx.chance(1, 3);
			bool const tries = how % 2;
			PBT_LOG((shared ? "shared" : "exclusive") << " guard " << slot << (tries ? " tries" : " takes") << " object " << o << (Probe::fail ? ", the mutex throws" : Probe::refuse && tries ? ", the mutex refuses" : ""));
			bool got = false, threw = false;
			try {
				if constexpr (has_shared) {
					if (how == 2) {
						s[slot].emplace(std::as_const(m).lock_shared());
						got = true;
					} else if (how == 3) {
						std::optional<S> r = std::as_const(m).try_lock_shared();
						if (r) {
							s[slot].emplace(std::move(*r));
							got = true;
						}
					}
				}
				if (!shared && !tries) {
					x[slot].emplace(m.lock());
					got = true;
				} else if (!shared) {
					std::optional<X> r = m.try_lock();
					if (r) {
						x[slot].emplace(std::move(*r));
						got = true;
					}
				}
			} catch (std::system_error const &e) {
				threw = true;
				PBT_CHECK(e.code() == std::errc::resource_unavailable_try_again);
			}
			PBT_CHECK(threw == Probe::fail);
			if (!threw) PBT_CHECK_MSG(got == !(tries && Probe::refuse), "a guard was " << (got ? "returned without the lock" : "not returned although the lock was taken"));
			failed += threw;
			refused += !got && !threw;
			if (got) {
				++taken;
				(shared ? hs : hx)[slot] = o;
			}
			Probe::fail = Probe::refuse = false;
		}
		void run() {
			for (int i = 0; i < nslot; ++i) hx[i] = hs[i] = -1;
			for (int o = 0; o < nobj; ++o) {
				Probe::next = o;
				make(o);
			}
			int k = 0;
			while (k < 80 && ctx.more(30)) {
				++k;
				int const a = static_cast<int>(ctx.below(nslot)), b = static_cast<int>(ctx.below(nslot)), o = static_cast<int>(ctx.below(nobj));
				switch (ctx.below(8)) {
					case 0:
					case 1:
					case 2: {
						size_t const how = ctx.below(has_shared ? 4 : 2);
						// the slot is freed first: what emplace does to the old guard is not the point
						if (how >= 2) {
							s[a].reset();
							hs[a] = -1;
						} else {
							x[a].reset();
							hx[a] = -1;
						}
						acquire(o, a, how);
						break;
					}
					case 3:
						if (hx[a] >= 0) {
							int const v = static_cast<int>(ctx.below(1000));
							PBT_LOG("write " << v << " through guard " << a);
							if (ctx.flip()) (**x[a]).a = v;
							else (*x[a])->a = v;
							model[hx[a]] = v;
						}
						break;
					case 4: {
						// a guard that is a temporary, or left by an exception
						size_t const how = ctx.below(3);
						PBT_LOG("short lived guard, how " << how);
						if (how == 0) model[o] = (w[o]->lock()->a += 1);
						else if (how == 1) {
							try {
								auto g = w[o]->lock();
								PBT_CHECK(Probe::st[o].x >= 1);
								model[o] = ++g->a;
								throw Boom{};
							} catch (Boom const &) {}
						} else if constexpr (has_shared) {
							PBT_CHECK(std::as_const(*w[o]).lock_shared()->a == model[o]);
						}
						break;
					}
					case 5:
						if (ctx.chance(1, 4)) {
							bool used = false;
							for (int i = 0; i < nslot; ++i) used = used || hx[i] == o || hs[i] == o;
							if (!used) {
								w[o].reset();
								Probe::next = o;
								make(o);
							}
							break;
						}
						[[fallthrough]];
					default:
						if (has_shared && ctx.flip()) manage(s, hs, ctx.below(5), a, b);
						else manage(x, hx, ctx.below(5), a, b);
						break;
				}
				verify();
			}
			for (int i = 0; i < nslot; ++i) {
				x[i].reset();
				s[i].reset();
				hx[i] = hs[i] = -1;
				verify();
			}
			for (auto &p : w) p.reset();
			if (!Probe::error.empty()) throw pbt::Failure{Probe::error};
			if (taken >= 2 && moves) ctx.nontrivial();
			if (refused) ctx.label("the mutex refused");
			if (failed) ctx.label("the mutex threw");
		}
	};
	template<typename W, typename X, typename S, bool has_shared>
	void go(pbt::Ctx &ctx) {
		for (auto &s : Probe::st) s = {};
		Probe::error.clear();
		Probe::refuse = Probe::fail = false;
		Val::live = 0;
		Val::boom = false;
		{
			Seq<W, X, S, has_shared> s{ctx};
			s.run();
		}
		PBT_CHECK_MSG(Val::live == 0, Val::live << " values are left");
	}

	using M = dtl::mutex<Val, Probe>;
	using SM = dtl::shared_mutex<Val, Probe>;
	using MG = dtl::mutex_guard<Val, Probe>;
	using SG = dtl::shared_mutex_guard<Val, Probe>;
	using SGc = dtl::shared_mutex_guard<Val const, Probe>;
	// a guard can not be had without a lock, or for two
	template<typename G>
	constexpr bool unique_guard = !std::is_default_constructible_v<G> && !std::is_copy_constructible_v<G> && !std::is_copy_assignable_v<G> && std::is_nothrow_move_constructible_v<G> && !std::is_constructible_v<G, Val &> && !std::is_constructible_v<G, Val &, Probe &>;
	static_assert(unique_guard<MG> && unique_guard<SG> && unique_guard<SGc>);
	static_assert(!std::is_copy_constructible_v<M> && !std::is_move_constructible_v<M> && !std::is_copy_assignable_v<M> && !std::is_move_assignable_v<M>);
	static_assert(!std::is_copy_constructible_v<SM> && !std::is_move_constructible_v<SM> && !std::is_copy_assignable_v<SM> && !std::is_move_assignable_v<SM>);
	// nothing to modify through a shared guard, nor an exclusive guard through a const object
	static_assert(std::is_same_v<decltype(*std::declval<SGc &>()), Val const &> && std::is_same_v<decltype(std::declval<SGc &>().operator->()), Val const *>);
	static_assert(std::is_same_v<decltype(std::declval<SM const &>().lock_shared()), SGc> && std::is_same_v<decltype(std::declval<SM &>().lock_shared()), SGc>);
	static_assert(std::is_same_v<decltype(std::declval<SM const &>().try_lock_shared()), std::optional<SGc>>);
	template<typename X>
	concept lockable = requires(X &x) { x.lock(); };
	template<typename X>
	concept try_lockable = requires(X &x) { x.try_lock(); };
	static_assert(lockable<M> && !lockable<M const> && lockable<SM> && !lockable<SM const> && !try_lockable<M const> && !try_lockable<SM const>);
	static_assert(!std::is_convertible_v<SGc, SG> && !std::is_constructible_v<SG, SGc>);
} // namespace
PBT_PROP(guards, 40000) { go<M, MG, MG, false>(ctx); }
PBT_PROP(shared_guards, 40000) { go<SM, SG, SGc, true>(ctx); }
