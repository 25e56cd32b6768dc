#include "heap.hpp"
#include <cstdlib>
#include <new>

namespace heap {
	static constexpr size_t max_blocks = 4096;
	static Block blocks[max_blocks];
	static size_t n_blocks = 0;
	static unsigned long n_calls = 0;
	static bool on = false, failing = false;
	static char const *err = nullptr;

	void reset() {
		n_blocks = 0;
		n_calls = 0;
		failing = false;
		err = nullptr;
	}
	void track(bool b) { on = b; }
	void fail_all(bool b) { failing = b; }
	unsigned long calls() { return n_calls; }
	size_t live() { return n_blocks; }
	char const *error() { return err; }
	bool containing(void const *p, Block &out) {
		auto const *q = static_cast<unsigned char const *>(p);
		for (size_t i = 0; i < n_blocks; ++i) {
			if (q >= blocks[i].p && q < blocks[i].p + blocks[i].bytes) {
				out = blocks[i];
				return true;
			}
		}
		return false;
	}
	static void *get(size_t n, size_t align = 0) {
		if (on && failing) {
			return nullptr;
		}
		if (n > (size_t{1} << 32)) {
			return nullptr;
		}
		n = n == 0 ? 1 : n;
		void *p = align == 0 ? std::malloc(n) : std::aligned_alloc(align, (n + align - 1) / align * align);
		if (on && p != nullptr) {
			++n_calls;
			if (n_blocks == max_blocks) {
				pbt::die("too many blocks");
			}
			blocks[n_blocks++] = {static_cast<unsigned char *>(p), n};
			std::memset(p, 0xC3, n);
		}
		return p;
	}
	static void put(void *p) {
		if (p == nullptr) {
			return;
		}
		for (size_t i = n_blocks; i-- > 0;) {
			if (blocks[i].p == p) {
				blocks[i] = blocks[--n_blocks];
				std::free(p);
				return;
			}
		}
		if (on) {
			err = "operator delete called for memory that was not obtained from operator new";
			return;
		}
		std::free(p);
	}
} // namespace heap

void *operator new(size_t n) {
	void *p = heap::get(n);
	if (p == nullptr) {
		throw std::bad_alloc{};
	}
	return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return heap::get(n); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return heap::get(n); }
void operator delete(void *p) noexcept { heap::put(p); }
void operator delete[](void *p) noexcept { heap::put(p); }
void operator delete(void *p, size_t) noexcept { heap::put(p); }
void operator delete[](void *p, size_t) noexcept { heap::put(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { heap::put(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { heap::put(p); }
void *operator new(size_t n, std::align_val_t a) {
	void *p = heap::get(n, static_cast<size_t>(a));
	if (p == nullptr) {
		throw std::bad_alloc{};
	}
	return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void *operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return heap::get(n, static_cast<size_t>(a)); }
void *operator new[](size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return heap::get(n, static_cast<size_t>(a)); }
void operator delete(void *p, std::align_val_t) noexcept { heap::put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { heap::put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { heap::put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { heap::put(p); }
