// Tracks every call of the general purpose allocation functions between start() and stop().
#ifndef C09_HEAP_HPP
#define C09_HEAP_HPP
#include "pbt.hpp"
namespace heap {
	inline void *volatile sink;
	struct Block {
		unsigned char *p;
		size_t bytes;
	};
	void reset();
	void track(bool on);
	void fail_all(bool on);
	unsigned long calls();           // number of tracked allocations
	size_t live();                   // live tracked blocks
	bool containing(void const *p, Block &out);
	char const *error();             // nullptr or description
	struct Tracking {
		Tracking() { track(true); }
		~Tracking() { track(false); }
	};
} // namespace heap
#endif
