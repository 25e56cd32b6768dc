// Deterministic scheduler for concurrent code.
//
// Threads of a case are fibers of one OS thread. All pthread synchronisation (mutexes, condition variables, rwlocks, yield,
// sleep, futex) is implemented by sched.cpp, and the code under test is compiled with -fsanitize=thread but linked against the
// __tsan_* functions of sched.cpp, so every synchronisation operation, every atomic and (in some cases) every memory access is a
// point at which another thread may continue. Which one does is drawn from the tape of the case: schedules are generated, replayed
// and shrunk like any other input. On top of that a happens-before race detector (vector clocks, honouring memory orders) runs over
// all instrumented accesses, and freed memory is kept and poisoned until the end of the case.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP

#include "pbt.hpp"

#include <functional>
#include <string>

namespace sched {
	constexpr int max_threads = 6; // including 0, the harness

	enum struct Status {
		done,    // all threads ended
		stuck,   // threads are left and all of them are blocked
		endless, // the threads do not come to an end
	};

	// statistics of a case
	struct Stats {
		unsigned points = 0, preemptions = 0, blocks = 0, spurious = 0, cas_failures = 0;
	};

	class Run {
	public:
		// draws the policy of the schedule
		explicit Run(pbt::Ctx &ctx);
		~Run();
		Run(Run const &) = delete;
		int spawn(std::function<void()> body);
		// continues the threads until all of them have ended or are blocked; throws pbt::Failure for races, uses of freed memory,
		// misuse of synchronisation objects and failures within the threads
		Status go();
		bool finished(int thread) const;
		char const *blocked_on(int thread) const;
		Stats const &stats() const;
	};

	// index of the current thread (0: the harness)
	int self() noexcept;
	// logical time
	uint64_t now() noexcept;
	// a point at which other threads may run
	void point() noexcept;

	// no scheduling and no race detection while this lives: bookkeeping of the harness
	struct Quiet {
		Quiet() noexcept;
		~Quiet();
		Quiet(Quiet const &) = delete;
	};
}// namespace sched

#endif
