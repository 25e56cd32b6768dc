#include "sched.hpp"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <memory>
#include <new>
#include <optional>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);

namespace sched {
	namespace {
		constexpr int T = max_threads;
		constexpr size_t stack_size = 256 * 1024;

		struct VC {
			uint32_t c[T]{};
			void join(VC const &o) {
				for (int i = 0; i < T; ++i) c[i] = std::max(c[i], o.c[i]);
			}
		};

		enum struct State { none, ready, blocked, finished };

		// what a condition variable, futex, ... waiter waits for
		struct Fiber {
			State state = State::none;
			void *sp = nullptr;
			std::function<void()> body;
			char const *why = "";
			void const *on = nullptr;     // address waited on
			bool timed = false;           // the wait has a timeout
			bool woken_by_timeout = false;
			bool condwait = false;        // may be woken spuriously
			bool shared_wait = false;
			VC vc;
			VC acq_pending;  // joined by relaxed loads, taken by an acquire fence
			VC rel_fence;    // clock of the last release fence
			bool has_rel_fence = false;
			void *eh[2]{};
		};

		struct SyncObj {
			void const *addr = nullptr;
			uint32_t gen = 0;
			VC vc;
		};
		constexpr size_t sync_size = 1024;

		struct Granule {
			uintptr_t key = 0;
			uint32_t gen = 0;
			bool freed = false;
			void *pc[T];
			uint32_t w[T][8], r[T][8], aw[T][8], ar[T][8];
		};
		constexpr size_t gran_size = 1 << 13;

		struct G {
			bool active = false;    // a case is running
			int cur = 0;
			int quiet = 0;
			int n = 1;
			uint64_t time = 0;
			uint32_t gen = 0;
			pbt::Ctx *ctx = nullptr;
			Fiber f[T];
			char *stacks[T]{};
			void *main_sp = nullptr;
			Stats stats;
			// policy
			int mode = 0;
			unsigned period = 0;
			unsigned countdown = 0; // points to the next preemption, 0: none
			unsigned left = 0;      // preemptions left
			int spurious_left = 0;
			int cas_left = 0;
			unsigned since_switch = 0;
			uint64_t total = 0;
			bool endless = false;
			std::string failure;
			SyncObj *sync = nullptr;
			Granule *gran = nullptr;
			size_t gran_used = 0;
			std::vector<void *> *quarantine = nullptr;
		};
		G g;

		// --- context switch ---------------------------------------------------------------------------

		extern "C" void sched_swap(void **save, void *to);
		asm(R"(
.text
.globl sched_swap
.type sched_swap,@function
sched_swap:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sched_swap,.-sched_swap
)");

		void switch_to(int to) {
			int const from = g.cur;
			if (to == from) return;
			void **eh = reinterpret_cast<void **>(abi::__cxa_get_globals());
			g.f[from].eh[0] = eh[0];
			g.f[from].eh[1] = eh[1];
			eh[0] = g.f[to].eh[0];
			eh[1] = g.f[to].eh[1];
			g.cur = to;
			g.since_switch = 0;
			sched_swap(from == 0 ? &g.main_sp : &g.f[from].sp, to == 0 ? g.main_sp : g.f[to].sp);
		}

		void set_failure(std::string s) {
			if (g.failure.empty()) g.failure = std::move(s);
		}

		int ready_list(int *out, bool with_cur) {
			int n = 0;
			for (int i = 1; i < g.n; ++i) {
				if (g.f[i].state == State::ready && (with_cur || i != g.cur)) out[n++] = i;
			}
			return n;
		}

		void arm() {
			g.countdown = 0;
			if (g.mode == 0 || g.left == 0) return;
			g.countdown = static_cast<unsigned>(g.ctx->choice(g.period));
		}

		void make_ready(int i) {
			g.f[i].state = State::ready;
			g.f[i].on = nullptr;
			g.f[i].condwait = false;
		}

		// leaves the current thread (blocked, finished or yielding) for another one
		void reschedule() {
			int list[T];
			int n = ready_list(list, g.f[g.cur].state == State::ready);
			if (n == 0) {
				// timeouts fire if nothing else can happen
				int timed[T], m = 0;
				for (int i = 1; i < g.n; ++i) {
					if (g.f[i].state == State::blocked && g.f[i].timed) timed[m++] = i;
				}
				if (m > 0) {
					int const i = timed[m > 1 ? g.ctx->below(static_cast<size_t>(m)) : 0];
					g.f[i].woken_by_timeout = true;
					make_ready(i);
					list[n++] = i;
				}
			}
			if (n == 0) {
				switch_to(0);
				return;
			}
			int const to = list[n > 1 ? g.ctx->below(static_cast<size_t>(n)) : 0];
			arm();
			switch_to(to);
		}

		// the current thread blocks until somebody makes it ready
		void block(char const *why, void const *on, bool timed, bool condwait) {
			Fiber &f = g.f[g.cur];
			f.state = State::blocked;
			f.why = why;
			f.on = on;
			f.timed = timed;
			f.woken_by_timeout = false;
			f.condwait = condwait;
			++g.stats.blocks;
			reschedule();
		}

		bool in_thread() { return g.active && g.cur != 0 && g.quiet == 0; }

		void maybe_switch(bool sync) {
			if (!in_thread()) return;
			if (sync) {
				++g.stats.points;
				++g.time;
			} else if (g.mode != 4) {
				return;
			}
			if ((g.total += sync ? 10 : 1) > 60000) {
				g.endless = true;
				switch_to(0);
				return;
			}
			if ((g.since_switch += sync ? 10 : 1) > 3000) {
				int list[T];
				int const n = ready_list(list, false);
				// round robin
				int to = 0;
				for (int k = 0; k < n; ++k) {
					if (list[k] > g.cur) {
						to = list[k];
						break;
					}
				}
				if (to == 0 && n > 0) to = list[0];
				if (to == 0) {
					// only this one can run: let timeouts pass
					for (int i = 1; i < g.n; ++i) {
						if (g.f[i].state == State::blocked && g.f[i].timed) {
							g.f[i].woken_by_timeout = true;
							make_ready(i);
							to = i;
							break;
						}
					}
				}
				g.since_switch = 0;
				if (to != 0) switch_to(to);
				return;
			}
			if (g.countdown == 0 || --g.countdown != 0) return;
			--g.left;
			int list[T];
			int n = ready_list(list, false);
			int options = n;
			int wake[T];
			int w = 0;
			for (int i = 1; i < g.n; ++i) {
				if (g.f[i].state == State::blocked && ((g.f[i].condwait && g.spurious_left > 0) || g.f[i].timed)) wake[w++] = i;
			}
			options += w;
			if (options == 0) {
				arm();
				return;
			}
			int const k = static_cast<int>(g.ctx->below(static_cast<size_t>(options)));
			int to;
			if (k < n) {
				to = list[k];
			} else {
				to = wake[k - n];
				if (g.f[to].timed) g.f[to].woken_by_timeout = true;
				else --g.spurious_left;
				++g.stats.spurious;
				make_ready(to);
			}
			++g.stats.preemptions;
			arm();
			switch_to(to);
		}

		void entry() {
			Fiber &f = g.f[g.cur];
			try {
				f.body();
			} catch (pbt::Failure const &x) {
				set_failure(x.msg);
			} catch (std::exception const &x) {
				set_failure(std::string{"exception in thread: "} + x.what());
			} catch (...) {
				set_failure("exception in thread");
			}
			f.state = State::finished;
			if (!g.failure.empty()) switch_to(0);
			reschedule();
			std::abort();
		}

		// --- happens-before ---------------------------------------------------------------------------

		VC &sync_vc(void const *addr) {
			size_t h = (reinterpret_cast<uintptr_t>(addr) * 0x9e3779b97f4a7c15ULL) >> 54;
			for (size_t k = 0; k < sync_size; ++k, h = (h + 1) % sync_size) {
				SyncObj &s = g.sync[h];
				if (s.gen != g.gen) {
					s.gen = g.gen;
					s.addr = addr;
					s.vc = VC{};
					return s.vc;
				}
				if (s.addr == addr) return s.vc;
			}
			static VC over;
			return over;
		}
		VC *find_vc(void const *addr) {
			size_t h = (reinterpret_cast<uintptr_t>(addr) * 0x9e3779b97f4a7c15ULL) >> 54;
			for (size_t k = 0; k < sync_size; ++k, h = (h + 1) % sync_size) {
				SyncObj &s = g.sync[h];
				if (s.gen != g.gen) return nullptr;
				if (s.addr == addr) return &s.vc;
			}
			return nullptr;
		}
		void acquire(void const *addr) {
			if (g.active) g.f[g.cur].vc.join(sync_vc(addr));
		}
		void release(void const *addr) {
			if (!g.active) return;
			sync_vc(addr).join(g.f[g.cur].vc);
			++g.f[g.cur].vc.c[g.cur];
		}

		Granule *granule(uintptr_t key, bool create) {
			size_t h = (key * 0x9e3779b97f4a7c15ULL) >> 51;
			for (size_t k = 0; k < gran_size; ++k, h = (h + 1) % gran_size) {
				Granule &s = g.gran[h];
				if (s.gen != g.gen) {
					if (!create || g.gran_used > gran_size * 3 / 4) return nullptr;
					++g.gran_used;
					s.gen = g.gen;
					s.key = key;
					s.freed = false;
					std::memset(s.w, 0, sizeof(s.w) + sizeof(s.r) + sizeof(s.aw) + sizeof(s.ar));
					return &s;
				}
				if (s.key == key) return &s;
			}
			return nullptr;
		}

		char const *kind_name(bool write, bool atomic) { return write ? atomic ? "atomic write" : "write" : atomic ? "atomic read" : "read"; }

		extern "C" char __executable_start;
		std::string where(void *pc) {
			char b[32];
			std::snprintf(b, sizeof b, " (pc %lx)", static_cast<unsigned long>(static_cast<char *>(pc) - &__executable_start));
			return b;
		}

		void access(void const *p, size_t size, bool write, bool atomic, void *pc = nullptr) {
			if (!in_thread()) return;
			uintptr_t a = reinterpret_cast<uintptr_t>(p);
			int const me = g.cur;
			uint32_t const *c = g.f[me].vc.c;
			uintptr_t const end = a + size;
			while (a < end) {
				Granule *s = granule(a >> 3, true);
				size_t const from = a & 7;
				size_t const to = std::min<size_t>(8, from + (end - a));
				if (s) {
					if (s->freed) {
						set_failure(std::string{"use of freed memory ("} + kind_name(write, atomic) + ") by thread " + std::to_string(me));
					}
					for (int t = 1; t < T; ++t) {
						if (t == me) continue;
						for (size_t b = from; b < to; ++b) {
							bool const bad = s->w[t][b] > c[t] || (write && s->r[t][b] > c[t]) || (!atomic && (s->aw[t][b] > c[t] || (write && s->ar[t][b] > c[t])));
							if (bad) [[unlikely]] {
								char const *other = s->w[t][b] > c[t] ? "write" : write && s->r[t][b] > c[t] ? "read" : "atomic access";
								set_failure(std::string{"data race: "} + kind_name(write, atomic) + " by thread " + std::to_string(me) + where(pc) + " and " + other + " by thread " + std::to_string(t) + where(s->pc[t]) + " are not ordered");
								switch_to(0);
								return;
							}
						}
					}
					auto &mine = atomic ? write ? s->aw[me] : s->ar[me] : write ? s->w[me] : s->r[me];
					for (size_t b = from; b < to; ++b) mine[b] = c[me];
					s->pc[me] = pc;
					if (s->freed) {
						switch_to(0);
						return;
					}
				}
				a = (a | 7) + 1;
			}
		}

		// memory is given to somebody new: forget what was there
		void forget(void const *p, size_t size) {
			uintptr_t const first = reinterpret_cast<uintptr_t>(p) >> 3, last = (reinterpret_cast<uintptr_t>(p) + size + 7) >> 3;
			if (last - first > 4096) return;
			for (uintptr_t k = first; k < last; ++k) {
				if (Granule *s = granule(k, false)) {
					s->freed = false;
					std::memset(s->w, 0, sizeof(s->w) + sizeof(s->r) + sizeof(s->aw) + sizeof(s->ar));
				}
			}
		}

		void *get_memory(size_t n, size_t align) {
			void *p = align > alignof(std::max_align_t) ? aligned_alloc(align, (n + align - 1) / align * align) : __libc_malloc(n ? n : 1);
			if (p && g.active) {
				int const q = g.quiet;
				g.quiet = 1;
				forget(p, malloc_usable_size(p));
				g.quiet = q;
			}
			return p;
		}
		void free_memory(void *p) {
			if (p == nullptr) return;
			if (in_thread()) {
				size_t const n = malloc_usable_size(p);
				access(p, n, true, false);
				++g.quiet;
				for (uintptr_t k = reinterpret_cast<uintptr_t>(p) >> 3; k < (reinterpret_cast<uintptr_t>(p) + n) >> 3; ++k) {
					if (Granule *s = granule(k, true)) s->freed = true;
				}
				g.quarantine->push_back(p);
				--g.quiet;
				return;
			}
			free(p);
		}

		// --- atomics ----------------------------------------------------------------------------------

		bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
		bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

		void atomic_load_hb(void const *a, int mo) {
			if (!g.active || g.cur == 0) return;
			VC *v = find_vc(a);
			if (!v) return;
			if (is_acq(mo)) g.f[g.cur].vc.join(*v);
			else g.f[g.cur].acq_pending.join(*v);
		}
		void atomic_store_hb(void const *a, int mo, bool rmw) {
			if (!g.active || g.cur == 0) return;
			Fiber &f = g.f[g.cur];
			VC &v = sync_vc(a);
			if (!rmw) v = VC{}; // a plain store ends release sequences
			if (is_rel(mo)) {
				v.join(f.vc);
				++f.vc.c[g.cur];
			} else if (f.has_rel_fence) {
				v.join(f.rel_fence);
			}
		}

		template<typename V>
		V a_load(V const volatile *a, int mo) {
			maybe_switch(true);
			access(const_cast<V const *>(a), sizeof(V), false, true);
			atomic_load_hb(const_cast<V const *>(a), mo);
			return *a;
		}
		template<typename V>
		void a_store(V volatile *a, V v, int mo) {
			maybe_switch(true);
			access(const_cast<V *>(a), sizeof(V), true, true);
			atomic_store_hb(const_cast<V *>(a), mo, false);
			*a = v;
		}
		template<typename V, typename F>
		V a_rmw(V volatile *a, int mo, F f) {
			maybe_switch(true);
			access(const_cast<V *>(a), sizeof(V), true, true);
			atomic_load_hb(const_cast<V *>(a), mo);
			atomic_store_hb(const_cast<V *>(a), mo, true);
			V const old = *a;
			*a = f(old);
			return old;
		}
		template<typename V>
		bool a_cas(V volatile *a, V *expected, V desired, int mo, int fail, bool weak) {
			maybe_switch(true);
			bool ok = *a == *expected;
			if (ok && weak && g.cas_left > 0 && in_thread() && g.ctx->chance(1, 4)) {
				--g.cas_left;
				++g.stats.cas_failures;
				ok = false;
			}
			access(const_cast<V *>(a), sizeof(V), ok, true);
			if (ok) {
				atomic_load_hb(const_cast<V *>(a), mo);
				atomic_store_hb(const_cast<V *>(a), mo, true);
				*a = desired;
			} else {
				atomic_load_hb(const_cast<V *>(a), fail);
				*expected = *a;
			}
			return ok;
		}
		void fence(int mo) {
			maybe_switch(true);
			if (!g.active || g.cur == 0) return;
			Fiber &f = g.f[g.cur];
			if (is_acq(mo)) f.vc.join(f.acq_pending);
			if (is_rel(mo)) {
				f.rel_fence = f.vc;
				f.has_rel_fence = true;
				++f.vc.c[g.cur];
			}
		}

		// --- mutexes, condition variables, rwlocks ----------------------------------------------------

		void wake_all(void const *on) {
			for (int i = 1; i < g.n; ++i) {
				if (g.f[i].state == State::blocked && g.f[i].on == on) make_ready(i);
			}
		}

		struct Mutex {
			int owner; // thread + 1
			unsigned count;
		};
		Mutex &mutex_of(pthread_mutex_t *m) {
			static_assert(sizeof(Mutex) <= offsetof(pthread_mutex_t, __data.__kind));
			return *reinterpret_cast<Mutex *>(m);
		}
		bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

		int mutex_lock(pthread_mutex_t *pm, bool wait, bool timed) {
			Mutex &m = mutex_of(pm);
			if (g.active && g.quiet == 0) access(pm, 1, false, true);
			maybe_switch(true);
			for (;;) {
				if (m.owner == 0) {
					m.owner = g.cur + 1;
					m.count = 1;
					acquire(pm);
					return 0;
				}
				if (m.owner == g.cur + 1 && recursive(pm)) {
					++m.count;
					return 0;
				}
				if (!wait) return EBUSY;
				if (!g.active || g.cur == 0) {
					std::fprintf(stderr, "deadlock outside of threads\n");
					std::abort();
				}
				block("mutex", pm, timed, false);
				if (g.f[g.cur].woken_by_timeout) {
					g.f[g.cur].woken_by_timeout = false;
					if (m.owner != 0) return ETIMEDOUT;
				}
			}
		}
		void mutex_unlock(pthread_mutex_t *pm, bool point) {
			Mutex &m = mutex_of(pm);
			if (g.active && g.quiet == 0) access(pm, 1, false, true);
			if (m.owner != g.cur + 1) {
				if (g.active) {
					set_failure("a mutex is unlocked by a thread that does not hold it");
					if (g.cur != 0) switch_to(0);
				}
				return;
			}
			if (--m.count > 0) return;
			release(pm);
			m.owner = 0;
			wake_all(pm);
			if (point) maybe_switch(true);
		}

		struct RW {
			int writer; // thread + 1
			int readers;
			unsigned held[T]; // by thread
		};
		static_assert(sizeof(RW) <= sizeof(pthread_rwlock_t));
		int rw_lock(pthread_rwlock_t *p, bool write, bool wait, bool timed) {
			RW &l = *reinterpret_cast<RW *>(p);
			if (g.active && g.quiet == 0) access(p, 1, false, true);
			maybe_switch(true);
			for (;;) {
				if (l.writer == 0 && (!write || l.readers == 0)) {
					if (write) {
						l.writer = g.cur + 1;
					} else {
						++l.readers;
						++l.held[g.cur];
					}
					acquire(p);
					return 0;
				}
				if (!wait) return EBUSY;
				if (!g.active || g.cur == 0) {
					std::fprintf(stderr, "deadlock outside of threads\n");
					std::abort();
				}
				block("rwlock", p, timed, false);
				if (g.f[g.cur].woken_by_timeout) {
					g.f[g.cur].woken_by_timeout = false;
					return ETIMEDOUT;
				}
			}
		}

		int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
			if (!g.active || g.cur == 0) {
				std::fprintf(stderr, "wait outside of threads\n");
				std::abort();
			}
			maybe_switch(true);
			Mutex &mm = mutex_of(m);
			if (mm.owner != g.cur + 1) {
				set_failure("waiting on a condition variable without holding the mutex");
				switch_to(0);
			}
			unsigned const count = mm.count;
			mm.count = 1;
			mutex_unlock(m, false);
			block("condition variable", c, timed, true);
			bool const timeout = std::exchange(g.f[g.cur].woken_by_timeout, false);
			mutex_lock(m, true, false);
			mm.count = count;
			return timeout ? ETIMEDOUT : 0;
		}
		void cond_signal(pthread_cond_t *c, bool all) {
			maybe_switch(true);
			if (!g.active) return;
			if (all) {
				wake_all(c);
				return;
			}
			int list[T], n = 0;
			for (int i = 1; i < g.n; ++i) {
				if (g.f[i].state == State::blocked && g.f[i].on == c) list[n++] = i;
			}
			if (n == 0) return;
			make_ready(list[n > 1 ? g.ctx->below(static_cast<size_t>(n)) : 0]);
		}

		void yield() {
			if (!in_thread()) return;
			++g.stats.points;
			if ((g.total += 10) > 60000) {
				g.endless = true;
				switch_to(0);
				return;
			}
			int list[T];
			int const n = ready_list(list, false);
			if (n == 0) {
				// timed waits end while this one spins
				for (int i = 1; i < g.n; ++i) {
					if (g.f[i].state == State::blocked && g.f[i].timed) {
						g.f[i].woken_by_timeout = true;
						make_ready(i);
						switch_to(i);
						return;
					}
				}
				return;
			}
			int const to = list[n > 1 ? g.ctx->below(static_cast<size_t>(n)) : 0];
			arm();
			switch_to(to);
		}

		long futex(void *addr, int op, int val, bool timed) {
			switch (op & FUTEX_CMD_MASK) {
				case FUTEX_WAIT:
				case FUTEX_WAIT_BITSET: {
					maybe_switch(true);
					if (*static_cast<int volatile *>(addr) != val) {
						errno = EAGAIN;
						return -1;
					}
					if (!g.active || g.cur == 0) {
						std::fprintf(stderr, "wait outside of threads\n");
						std::abort();
					}
					block("atomic wait", addr, timed, true);
					if (std::exchange(g.f[g.cur].woken_by_timeout, false)) {
						errno = ETIMEDOUT;
						return -1;
					}
					return 0;
				}
				case FUTEX_WAKE:
				case FUTEX_WAKE_BITSET: {
					maybe_switch(true);
					long woken = 0;
					if (!g.active) return 0;
					for (; woken < val;) {
						int list[T], n = 0;
						for (int i = 1; i < g.n; ++i) {
							if (g.f[i].state == State::blocked && g.f[i].on == addr) list[n++] = i;
						}
						if (n == 0) break;
						make_ready(list[n > 1 ? g.ctx->below(static_cast<size_t>(n)) : 0]);
						++woken;
					}
					return woken;
				}
				default: errno = ENOSYS; return -1;
			}
		}
	}// namespace

	int self() noexcept { return g.cur; }
	uint64_t now() noexcept { return ++g.time; }
	void point() noexcept { maybe_switch(true); }
	Quiet::Quiet() noexcept { ++g.quiet; }
	Quiet::~Quiet() { --g.quiet; }

	Run::Run(pbt::Ctx &ctx) {
		if (!g.sync) {
			__libc_single_threaded = 0;
			g.sync = new SyncObj[sync_size];
			g.gran = static_cast<Granule *>(mmap(nullptr, sizeof(Granule) * gran_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
			g.quarantine = new std::vector<void *>;
			g.quarantine->reserve(4096);
			for (int i = 1; i < T; ++i) {
				char *p = static_cast<char *>(mmap(nullptr, stack_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
				mprotect(p, 4096, PROT_NONE);
				g.stacks[i] = p + 4096;
			}
		}
		g.ctx = &ctx;
		g.n = 1;
		++g.gen;
		g.gran_used = 0;
		g.time = 0;
		g.total = 0;
		g.endless = false;
		g.failure.clear();
		g.stats = {};
		for (auto &f : g.f) {
			f.state = State::none;
			f.body = nullptr;
			f.vc = VC{};
			f.acq_pending = f.rel_fence = VC{};
			f.has_rel_fence = false;
			f.eh[0] = f.eh[1] = nullptr;
			f.on = nullptr;
			f.timed = f.condwait = f.woken_by_timeout = false;
		}
		g.f[0].vc.c[0] = 1;
		// 0: threads run until they block; 1: few preemptions; 2, 3: many; 4: also between memory accesses
		g.mode = static_cast<int>(ctx.below(5));
		static constexpr unsigned periods[] = {0, 40, 12, 4, 60};
		static constexpr unsigned lefts[] = {0, 3, 40, 200, 60};
		g.period = periods[g.mode];
		g.left = lefts[g.mode];
		g.spurious_left = g.mode == 0 ? 0 : static_cast<int>(ctx.below(3));
		g.cas_left = g.mode == 0 ? 0 : 3;
		g.countdown = 0;
		g.quiet = 0;
		g.active = true;
	}
	Run::~Run() {
		g.active = false;
		g.cur = 0;
		g.ctx = nullptr;
		for (void *p : *g.quarantine) free(p);
		g.quarantine->clear();
	}

	int Run::spawn(std::function<void()> body) {
		int const i = g.n++;
		if (i >= T) std::abort();
		Fiber &f = g.f[i];
		f.body = std::move(body);
		f.state = State::ready;
		f.vc.join(g.f[0].vc);
		f.vc.c[i] = 1;
		++g.f[0].vc.c[0];
		uintptr_t sp = reinterpret_cast<uintptr_t>(g.stacks[i]) + stack_size - 64;
		sp &= ~uintptr_t{15};
		void **s = reinterpret_cast<void **>(sp);
		*--s = nullptr; // return address of entry: never used, keeps the alignment of a call
		*--s = reinterpret_cast<void *>(&entry);
		for (int k = 0; k < 6; ++k) *--s = nullptr;
		f.sp = s;
		return i;
	}

	Status Run::go() {
		g.endless = false;
		g.total = 0;
		int list[T];
		int const n = ready_list(list, true);
		if (n > 0) {
			int const to = list[n > 1 ? g.ctx->below(static_cast<size_t>(n)) : 0];
			arm();
			switch_to(to);
		}
		g.quiet = 0;
		if (!g.failure.empty()) throw pbt::Failure{g.failure};
		if (g.endless) return Status::endless;
		bool all = true;
		for (int i = 1; i < g.n; ++i) {
			if (g.f[i].state == State::finished) g.f[0].vc.join(g.f[i].vc);
			else all = false;
		}
		return all ? Status::done : Status::stuck;
	}
	bool Run::finished(int thread) const { return g.f[thread].state == State::finished; }
	char const *Run::blocked_on(int thread) const { return g.f[thread].why; }
	Stats const &Run::stats() const { return g.stats; }
}// namespace sched

using namespace sched;

// --- memory ---------------------------------------------------------------------------------------

extern "C" void free(void *p) {
	if (g.active && p) {
		int const q = g.quiet;
		g.quiet = 1;
		forget(p, malloc_usable_size(p));
		g.quiet = q;
	}
	__libc_free(p);
}
void *operator new(size_t n) {
	if (void *p = get_memory(n, 0)) return p;
	throw std::bad_alloc{};
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::align_val_t a) {
	if (void *p = get_memory(n, static_cast<size_t>(a))) return p;
	throw std::bad_alloc{};
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return get_memory(n, 0); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return get_memory(n, 0); }
void operator delete(void *p) noexcept { free_memory(p); }
void operator delete[](void *p) noexcept { free_memory(p); }
void operator delete(void *p, size_t) noexcept { free_memory(p); }
void operator delete[](void *p, size_t) noexcept { free_memory(p); }
void operator delete(void *p, std::align_val_t) noexcept { free_memory(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free_memory(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free_memory(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free_memory(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { free_memory(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { free_memory(p); }

// --- pthread --------------------------------------------------------------------------------------

extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, pthread_mutexattr_t const *a) noexcept {
	std::memset(m, 0, sizeof(*m));
	int kind = 0;
	if (a) pthread_mutexattr_gettype(a, &kind);
	m->__data.__kind = kind;
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept {
	if (g.active && mutex_of(m).owner != 0) set_failure("a held mutex is destroyed");
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return mutex_lock(m, true, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return mutex_lock(m, false, false); }
int pthread_mutex_timedlock(pthread_mutex_t *m, timespec const *) noexcept { return mutex_lock(m, true, true); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, timespec const *) noexcept { return mutex_lock(m, true, true); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
	mutex_unlock(m, true);
	return 0;
}
int pthread_cond_init(pthread_cond_t *c, pthread_condattr_t const *) noexcept {
	std::memset(c, 0, sizeof(*c));
	return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) noexcept {
	if (g.active) {
		for (int i = 1; i < g.n; ++i) {
			if (g.f[i].state == State::blocked && g.f[i].on == c && g.failure.empty()) set_failure("a condition variable is destroyed while a thread waits on it");
		}
	}
	return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, timespec const *) { return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) noexcept {
	cond_signal(c, false);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
	cond_signal(c, true);
	return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, pthread_rwlockattr_t const *) noexcept {
	std::memset(l, 0, sizeof(*l));
	return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) noexcept {
	RW &x = *reinterpret_cast<RW *>(l);
	if (g.active && (x.writer || x.readers)) set_failure("a held shared mutex is destroyed");
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, false, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, false, false, false); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, timespec const *) noexcept { return rw_lock(l, false, true, true); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t, timespec const *) noexcept { return rw_lock(l, false, true, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, true, true, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, true, false, false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, timespec const *) noexcept { return rw_lock(l, true, true, true); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t, timespec const *) noexcept { return rw_lock(l, true, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
	RW &x = *reinterpret_cast<RW *>(l);
	if (x.writer == g.cur + 1) {
		x.writer = 0;
	} else if (x.writer == 0 && x.held[g.cur] > 0) {
		--x.held[g.cur];
		--x.readers;
	} else {
		if (g.active) {
			set_failure("a shared mutex is unlocked by a thread that does not hold it");
			if (g.cur != 0) switch_to(0);
		}
		return 0;
	}
	release(l);
	if (x.readers == 0) wake_all(l);
	maybe_switch(true);
	return 0;
}
int sched_yield() noexcept {
	yield();
	return 0;
}
int nanosleep(timespec const *, timespec *) {
	yield();
	return 0;
}
int clock_nanosleep(clockid_t, int, timespec const *, timespec *) {
	yield();
	return 0;
}
int usleep(useconds_t) {
	yield();
	return 0;
}
pthread_t pthread_self() noexcept { return 0x1000000ul + static_cast<unsigned>(g.cur); }
long syscall(long nr, ...) noexcept {
	va_list ap;
	va_start(ap, nr);
	long a[6];
	for (long &x : a) x = va_arg(ap, long);
	va_end(ap);
	if (nr == SYS_futex && g.active) return futex(reinterpret_cast<void *>(a[0]), static_cast<int>(a[1]), static_cast<int>(a[2]), a[3] != 0);
	static auto *real = reinterpret_cast<long (*)(long, ...)>(dlsym(RTLD_NEXT, "syscall"));
	return real(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// --- instrumentation ------------------------------------------------------------------------------

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, false); }
void __tsan_vptr_read(void **p) { access(p, 8, false, false); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(n)                                                    \
	void __tsan_read##n(void *p) {                                \
		maybe_switch(false);                                      \
		access(p, n, false, false, __builtin_return_address(0));                               \
	}                                                             \
	void __tsan_write##n(void *p) {                               \
		maybe_switch(false);                                      \
		access(p, n, true, false, __builtin_return_address(0));                                \
	}                                                             \
	void __tsan_unaligned_read##n(void *p) { __tsan_read##n(p); } \
	void __tsan_unaligned_write##n(void *p) { __tsan_write##n(p); } \
	void __tsan_read##n##_pc(void *p, void *) { __tsan_read##n(p); } \
	void __tsan_write##n##_pc(void *p, void *) { __tsan_write##n(p); } \
	void __tsan_read_write##n(void *p) { __tsan_read##n(p); __tsan_write##n(p); } \
	void __tsan_unaligned_read_write##n(void *p) { __tsan_read##n(p); __tsan_write##n(p); } \
	void __tsan_volatile_read##n(void *p) { __tsan_read##n(p); }    \
	void __tsan_volatile_write##n(void *p) { __tsan_write##n(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) {
	maybe_switch(false);
	access(p, n, false, false);
}
void __tsan_write_range(void *p, size_t n) {
	maybe_switch(false);
	access(p, n, true, false);
}
void *__tsan_memcpy(void *d, void const *s, size_t n) {
	access(s, n, false, false);
	access(d, n, true, false);
	return std::memcpy(d, s, n);
}
void *__tsan_memmove(void *d, void const *s, size_t n) {
	access(s, n, false, false);
	access(d, n, true, false);
	return std::memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
	access(d, n, true, false);
	return std::memset(d, c, n);
}
#pragma GCC diagnostic ignored "-Wpedantic"
#define ATOM(bits, V)                                                                                                            \
	V __tsan_atomic##bits##_load(V const volatile *a, int mo) { return a_load<V>(a, mo); }                                        \
	void __tsan_atomic##bits##_store(V volatile *a, V v, int mo) { a_store<V>(a, v, mo); }                                        \
	V __tsan_atomic##bits##_exchange(V volatile *a, V v, int mo) { return a_rmw<V>(a, mo, [=](V) { return v; }); }                \
	V __tsan_atomic##bits##_fetch_add(V volatile *a, V v, int mo) { return a_rmw<V>(a, mo, [=](V o) { return static_cast<V>(o + v); }); } \
	V __tsan_atomic##bits##_fetch_sub(V volatile *a, V v, int mo) { return a_rmw<V>(a, mo, [=](V o) { return static_cast<V>(o - v); }); } \
	V __tsan_atomic##bits##_fetch_and(V volatile *a, V v, int mo) { return a_rmw<V>(a, mo, [=](V o) { return static_cast<V>(o & v); }); } \
	V __tsan_atomic##bits##_fetch_or(V volatile *a, V v, int mo) { return a_rmw<V>(a, mo, [=](V o) { return static_cast<V>(o | v); }); }  \
	V __tsan_atomic##bits##_fetch_xor(V volatile *a, V v, int mo) { return a_rmw<V>(a, mo, [=](V o) { return static_cast<V>(o ^ v); }); } \
	V __tsan_atomic##bits##_fetch_nand(V volatile *a, V v, int mo) { return a_rmw<V>(a, mo, [=](V o) { return static_cast<V>(~(o & v)); }); } \
	int __tsan_atomic##bits##_compare_exchange_strong(V volatile *a, V *e, V v, int mo, int fail) { return a_cas<V>(a, e, v, mo, fail, false); } \
	int __tsan_atomic##bits##_compare_exchange_weak(V volatile *a, V *e, V v, int mo, int fail) { return a_cas<V>(a, e, v, mo, fail, true); } \
	V __tsan_atomic##bits##_compare_exchange_val(V volatile *a, V e, V v, int mo, int fail) {                                     \
		a_cas<V>(a, &e, v, mo, fail, false);                                                                                      \
		return e;                                                                                                                 \
	}
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
ATOM(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
