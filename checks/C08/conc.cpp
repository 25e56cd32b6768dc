// Generated programs for several threads on the mutex wrappers under generated schedules.
#include "../../engine/sched.hpp"
#include <atomic>
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>
#include <memory>
#include <mutex>
#include <optional>
#include <shared_mutex>
#include <thread>
#include <vector>
namespace dtl = dice::template_library;

namespace {
	struct Bail {};

	// mutexes supplied by a user
	struct Spin {
		std::atomic<bool> held{false};
		void lock() {
			while (held.exchange(true, std::memory_order_acquire)) std::this_thread::yield();
		}
		bool try_lock() { return !held.exchange(true, std::memory_order_acquire); }
		void unlock() { held.store(false, std::memory_order_release); }
	};
	struct SharedSpin {
		std::atomic<int> state{0}; // readers, or -1
		bool try_lock() {
			int e = 0;
			return state.compare_exchange_strong(e, -1, std::memory_order_acquire, std::memory_order_relaxed);
		}
		void lock() {
			while (!try_lock()) std::this_thread::yield();
		}
		void unlock() { state.store(0, std::memory_order_release); }
		bool try_lock_shared() {
			int e = state.load(std::memory_order_relaxed);
			while (e >= 0) {
				if (state.compare_exchange_weak(e, e + 1, std::memory_order_acquire, std::memory_order_relaxed)) return true;
			}
			return false;
		}
		void lock_shared() {
			while (!try_lock_shared()) std::this_thread::yield();
		}
		void unlock_shared() { state.fetch_sub(1, std::memory_order_release); }
	};

	// the protected value
	struct Value {
		int count = 0;
		int twin = 0;
		std::unique_ptr<int> far = std::make_unique<int>(0);
		void bump() {
			int const c = count;
			sched::point();
			count = c + 1;
			sched::point();
			twin = twin + 1;
			*far = *far + 1;
		}
		// < 0: torn
		int look() const {
			int const c = count;
			sched::point();
			return c == twin && c == *far && c == count ? c : -1;
		}
	};

	enum struct K { lock, try_lock, lock_shared, try_lock_shared, bump, look, move, assign, swap, release, bail };
	constexpr char const *names[] = {"lock", "try_lock", "lock_shared", "try_lock_shared", "modify", "read", "move construct", "move assign", "swap", "release", "leave by exception"};
	struct Cmd {
		K k;
		int obj = 0, a = 0, b = 0;
	};
	constexpr int slots = 3;

	// what a thread (maybe) holds of an object: from before the acquisition starts to after the release
	struct Intent {
		int thread, obj;
		bool shared;
		bool sure; // the guard exists
		uint64_t from, to;
	};

	template<typename W>
	struct traits;
	template<typename T, typename M>
	struct traits<dtl::mutex<T, M>> {
		using guard = dtl::mutex_guard<T, M>;
		using sguard = guard;
		static constexpr bool shared = false;
	};
	template<typename T, typename M>
	struct traits<dtl::shared_mutex<T, M>> {
		using guard = dtl::shared_mutex_guard<T, M>;
		using sguard = dtl::shared_mutex_guard<T const, M>;
		static constexpr bool shared = true;
	};

	template<typename W>
	struct World {
		using X = typename traits<W>::guard;
		using S = typename traits<W>::sguard;
		static constexpr bool has_shared = traits<W>::shared;
		W obj[2];
		std::vector<Intent> intents;
		std::vector<std::string> errors;
		int bumps[2]{};
		unsigned failed_tries = 0, moved = 0;

		void error(std::string s) {
			sched::Quiet q;
			errors.push_back(std::move(s));
		}
		void note_move() {
			sched::Quiet q;
			++moved;
		}

		size_t begin(int o, bool shared) {
			sched::Quiet q;
			intents.push_back({sched::self(), o, shared, false, sched::now(), ~uint64_t{0}});
			return intents.size() - 1;
		}
		void got(size_t i) {
			sched::Quiet q;
			intents[i].sure = true;
			for (auto const &x : intents) {
				if (&x != &intents[i] && x.sure && x.obj == intents[i].obj && (!x.shared || !intents[i].shared)) {
					error("thread " + std::to_string(intents[i].thread) + " holds a" + (intents[i].shared ? " shared" : "n exclusive") + " guard while thread " + std::to_string(x.thread) + " holds a" + (x.shared ? " shared" : "n exclusive") + " guard of the same object");
				}
			}
		}
		void refused(size_t i) {
			sched::Quiet q;
			++failed_tries;
			Intent const me = intents[i];
			bool excuse = false;
			for (auto const &x : intents) {
				if (&x != &intents[i] && x.obj == me.obj && (!x.shared || !me.shared) && x.to >= me.from) excuse = true;
			}
			if (!excuse) error("a non-blocking acquisition by thread " + std::to_string(me.thread) + " failed although nobody had the lock");
			intents[i].to = sched::now();
		}
		void releasing(size_t i) {
			sched::Quiet q;
			intents[i].sure = false;
		}
		void released(size_t i) {
			sched::Quiet q;
			intents[i].to = sched::now();
		}

		// guards of a thread, both kinds
		struct Locals {
			World &w;
			std::optional<X> x[slots];
			std::optional<S> s[slots];
			int obj[2][slots];        // -1: no guard or moved from
			size_t intent[2][slots];
			explicit Locals(World &w) : w{w} {
				for (auto &r : obj) for (int &o : r) o = -1;
			}
			bool holds(int o) const {
				for (auto const &r : obj) for (int i : r) if (i == o) return true;
				return false;
			}
			template<typename F>
			void giving_up(int kind, int slot, F f) {
				int const o = obj[kind][slot];
				size_t const i = intent[kind][slot];
				obj[kind][slot] = -1;
				if (o >= 0) w.releasing(i);
				f();
				if (o >= 0) w.released(i);
			}
			template<int kind>
			auto &of() {
				if constexpr (kind == 0) return x;
				else return s;
			}
			~Locals() {
				for (int i = 0; i < slots; ++i) {
					giving_up(0, i, [&] { x[i].reset(); });
					giving_up(1, i, [&] { s[i].reset(); });
				}
			}
			template<int kind>
			void manage(Cmd const &c) {
				auto &g = of<kind>();
				switch (c.k) {
					case K::move: {
						if (c.a == c.b || !g[c.a]) return;
						w.note_move();
						giving_up(kind, c.b, [&] { g[c.b].reset(); });
						g[c.b].emplace(std::move(*g[c.a]));
						obj[kind][c.b] = std::exchange(obj[kind][c.a], -1);
						intent[kind][c.b] = intent[kind][c.a];
						return;
					}
					case K::assign: {
						if (c.a == c.b || !g[c.a] || !g[c.b]) return;
						w.note_move();
						int const o = obj[kind][c.a];
						giving_up(kind, c.b, [&] { *g[c.b] = std::move(*g[c.a]); });
						obj[kind][c.a] = -1;
						obj[kind][c.b] = o;
						intent[kind][c.b] = intent[kind][c.a];
						return;
					}
					case K::swap: {
						if (c.a == c.b || !g[c.a] || !g[c.b]) return;
						w.note_move();
						if (c.obj) std::ranges::swap(*g[c.a], *g[c.b]);
						else swap(*g[c.a], *g[c.b]);
						std::swap(obj[kind][c.a], obj[kind][c.b]);
						std::swap(intent[kind][c.a], intent[kind][c.b]);
						return;
					}
					case K::release: giving_up(kind, c.a, [&] { g[c.a].reset(); }); return;
					default: return;
				}
			}
			void use(int o, bool write) {
				for (int i = 0; i < slots; ++i) {
					if (obj[0][i] == o) {
						if (write) {
							if (i % 2) (*x[i])->bump();
							else (**x[i]).bump();
							sched::Quiet q;
							++w.bumps[o];
						} else if ((*x[i])->look() < 0) {
							w.error("an exclusive guard sees a half done modification");
						}
						return;
					}
				}
				for (int i = 0; i < slots; ++i) {
					if (obj[1][i] == o && (i % 2 ? (*s[i])->look() : (**s[i]).look()) < 0) w.error("a shared guard sees a half done modification");
				}
			}
			void take(Cmd const &c) {
				// no deadlocks of the program's own making: objects in order, none twice
				if (holds(c.obj) || (c.obj == 0 && holds(1) && (c.k == K::lock || c.k == K::lock_shared))) return;
				bool const shared = has_shared && (c.k == K::lock_shared || c.k == K::try_lock_shared);
				int const kind = shared ? 1 : 0;
				giving_up(kind, c.a, [&] {
					if (shared) s[c.a].reset();
					else x[c.a].reset();
				});
				W &m = w.obj[c.obj];
				size_t const i = w.begin(c.obj, shared);
				bool ok = true;
				if constexpr (has_shared) {
					if (shared) {
						if (c.k == K::lock_shared) s[c.a].emplace(std::as_const(m).lock_shared());
						else if (auto r = std::as_const(m).try_lock_shared()) s[c.a].emplace(*std::move(r));
						else ok = false;
					}
				}
				if (!shared) {
					if (c.k == K::lock || c.k == K::lock_shared) x[c.a].emplace(m.lock());
					else if (auto r = m.try_lock()) x[c.a].emplace(*std::move(r));
					else ok = false;
				}
				if (!ok) return w.refused(i);
				w.got(i);
				obj[kind][c.a] = c.obj;
				intent[kind][c.a] = i;
			}
			void run(Cmd const &c) {
				switch (c.k) {
					case K::lock:
					case K::try_lock:
					case K::lock_shared:
					case K::try_lock_shared: return take(c);
					case K::bump: return use(c.obj, true);
					case K::look: return use(c.obj, false);
					case K::bail: throw Bail{};
					default:
						if (has_shared && c.obj % 2) manage<1>(c);
						else manage<0>(c);
				}
			}
		};
		void thread(std::vector<Cmd> const &p) {
			size_t i = 0;
			while (i < p.size()) {
				try {
					Locals l{*this};
					while (i < p.size()) l.run(p[i++]);
				} catch (Bail const &) {}
			}
		}
	};

	template<typename W>
	void go(pbt::Ctx &ctx) {
		using Wo = World<W>;
		std::vector<std::vector<Cmd>> ps(2 + ctx.below(3));
		size_t const objs = 1 + ctx.below(2);
		for (size_t t = 0; t < ps.size(); ++t) {
			size_t const n = 1 + ctx.below(6);
			for (size_t i = 0; i < n; ++i) {
				Cmd c;
				switch (ctx.below(6)) {
					case 0:
					case 1: c.k = ctx.pick({K::lock, K::lock_shared}); break;
					case 2: c.k = ctx.pick({K::try_lock, K::try_lock_shared}); break;
					case 3: c.k = ctx.pick({K::bump, K::look}); break;
					case 4: c.k = ctx.pick({K::move, K::assign, K::swap}); break;
					default: c.k = ctx.pick({K::release, K::release, K::bail}); break;
				}
				c.obj = static_cast<int>(ctx.below(c.k >= K::move ? 2 : objs));
				c.a = static_cast<int>(ctx.below(slots));
				c.b = static_cast<int>(ctx.below(slots));
				ps[t].push_back(c);
				// use what was taken
				if (c.k < K::bump && ctx.chance(3, 4)) {
					c.k = ctx.pick({K::bump, K::bump, K::look});
					ps[t].push_back(c);
				}
			}
			for (auto const &c : ps[t]) PBT_LOG("thread " << t + 1 << ": " << names[static_cast<int>(c.k)] << " object " << c.obj << " slots " << c.a << " " << c.b);
		}
		Wo w;
		w.intents.reserve(128);
		sched::Stats st;
		{
			sched::Run run{ctx};
			for (auto const &p : ps) run.spawn([&w, &p] { w.thread(p); });
			auto const r = run.go();
			PBT_CHECK_MSG(w.errors.empty(), w.errors[0]);
			PBT_CHECK_MSG(r == sched::Status::done, "a thread waits for a lock that nobody holds");
			for (int o = 0; o < 2; ++o) {
				{
					auto g = w.obj[o].try_lock();
					PBT_CHECK_MSG(g.has_value(), "the lock of object " << o << " is still held after all guards are gone");
					PBT_CHECK_MSG((*g)->look() == w.bumps[o], "object " << o << ": " << (*g)->count << " modifications are visible, " << w.bumps[o] << " were made");
				}
				if constexpr (Wo::has_shared) {
					auto a = w.obj[o].try_lock_shared();
					PBT_CHECK(a.has_value());
				}
			}
			PBT_CHECK_MSG(w.errors.empty(), w.errors[0]);
			st = run.stats();
		}
		if (st.preemptions + st.blocks > 0 && w.bumps[0] + w.bumps[1] >= 2) ctx.nontrivial();
		if (w.failed_tries) ctx.label("non-blocking acquisition failed");
		if (w.moved) ctx.label("guard moved, assigned or swapped");
		if (st.blocks) ctx.label("blocking acquisition");
	}
} // namespace
PBT_PROP(std_mutex, 30000) { go<dtl::mutex<Value>>(ctx); }
PBT_PROP(std_timed_mutex, 8000) { go<dtl::mutex<Value, std::timed_mutex>>(ctx); }
PBT_PROP(std_recursive_mutex, 8000) { go<dtl::mutex<Value, std::recursive_mutex>>(ctx); }
PBT_PROP(user_mutex, 8000) { go<dtl::mutex<Value, Spin>>(ctx); }
PBT_PROP(std_shared_mutex, 30000) { go<dtl::shared_mutex<Value>>(ctx); }
PBT_PROP(std_shared_timed_mutex, 8000) { go<dtl::shared_mutex<Value, std::shared_timed_mutex>>(ctx); }
PBT_PROP(user_shared_mutex, 8000) { go<dtl::shared_mutex<Value, SharedSpin>>(ctx); }
