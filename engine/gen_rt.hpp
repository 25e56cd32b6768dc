// Runtime of generated programs (see gencpp.py). Included before the code of the module.
#ifndef VERIF_GEN_RT_HPP
#define VERIF_GEN_RT_HPP
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <utility>

namespace rt {
	inline int item = -1;
	inline unsigned long checks = 0;
	inline bool failed = false;
	inline void say(char const *what, char const *text) noexcept {
		char buf[1200];
		int n = std::snprintf(buf, sizeof(buf), "%s %d %s\n", what, item, text);
		if (n > static_cast<int>(sizeof(buf)) - 1) n = sizeof(buf) - 1;
		(void) !::write(1, buf, static_cast<size_t>(n));
	}
	inline void check(bool ok, char const *text) noexcept {
		++checks;
		if (!ok) [[unlikely]] {
			failed = true;
			say("FAIL", text);
		}
	}
	template<void (*f)()>
	void run(int i) noexcept {
		item = i;
		say("AT", "");
		try {
			f();
		} catch (std::exception const &e) {
			failed = true;
			say("FAIL unexpected exception", e.what());
		} catch (...) {
			failed = true;
			say("FAIL", "unexpected exception");
		}
	}
	inline int done() {
		item = -1;
		std::string const n = std::to_string(checks);
		say("DONE", n.c_str());
		std::fflush(nullptr);
		return failed ? 1 : 0;
	}
	template<typename A, typename B>
	concept same = std::is_same_v<A, B>;
} // namespace rt
#define CHECK(...) ::rt::check(static_cast<bool>(__VA_ARGS__), #__VA_ARGS__)
// the compile-time fact itself is the check: a wrong value must not stop the other items from compiling
#define SAME(...) ::rt::check(std::is_same_v<__VA_ARGS__>, "same types: " #__VA_ARGS__)
#endif
