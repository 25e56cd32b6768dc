#ifndef C30_COMMON_HPP
#define C30_COMMON_HPP
#include <pbt.hpp>

#include <array>
#include <deque>
#include <format>
#include <forward_list>
#include <list>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <vector>

// a class with a formatter of its own (both character types), not streamable
struct Point {
	int x = 0, y = 0;
	auto operator<=>(Point const &) const = default;
};
template<typename CharT>
struct std::formatter<Point, CharT> {
	bool swapped = false;
	int width = 0;
	constexpr auto parse(auto &ctx) {
		auto it = ctx.begin();
		if (it != ctx.end() && *it == 's') { swapped = true; ++it; }
		while (it != ctx.end() && *it >= '0' && *it <= '9') width = width * 10 + (*it++ - '0');
		return it;
	}
	auto format(Point const &p, auto &ctx) const {
		auto out = ctx.out();
		std::string text = "{" + std::to_string(swapped ? p.y : p.x) + "|" + std::to_string(swapped ? p.x : p.y) + "}";
		while (text.size() < static_cast<size_t>(width)) text += '_';
		for (char c : text) *out++ = static_cast<CharT>(c);
		return out;
	}
};

namespace c30 {
	inline std::string gen_text(pbt::Ctx &ctx, size_t max) {
		static constexpr std::string_view alphabet = "a{}:, %\\\"\n0zé";
		std::string s;
		for (size_t n = ctx.size(max); n-- > 0;) s += alphabet[ctx.below(alphabet.size() - 2)];
		return s;
	}
	inline char gen_char(pbt::Ctx &ctx) {
		static constexpr std::string_view alphabet = "a{},: \n0%\\";
		return alphabet[ctx.below(alphabet.size())];
	}
	// the definition: elements formatted one by one, separator in between
	template<typename Rng>
	std::string want(Rng const &r, std::string const &fmt, std::string_view sep) {
		std::string out;
		bool first = true;
		for (auto &&e : r) {
			if (!first) out += sep;
			first = false;
			auto const &x = e;
			out += std::vformat(fmt, std::make_format_args(x));
		}
		return out;
	}
	template<typename J>
	std::string vf(std::string_view fmt, J const &j) {
		return std::vformat(fmt, std::make_format_args(j));
	}
	// single pass view over a vector: every element is read exactly once, in order, and begin() may be called on a constant object
	template<typename T>
	struct Once : std::ranges::view_interface<Once<T>> {
		struct State { std::vector<T> const *v; size_t pos = 0; size_t reads = 0; size_t begins = 0; };
		State *s = nullptr;
		struct It {
			using value_type = T;
			using difference_type = std::ptrdiff_t;
			State *s = nullptr;
			It() = default;
			explicit It(State *st) : s{st} {}
			It(It &&) = default;
			It &operator=(It &&) = default;
			It(It const &) = delete;
			It &operator=(It const &) = delete;
			T operator*() const { ++s->reads; return (*s->v)[s->pos]; }
			It &operator++() { ++s->pos; return *this; }
			void operator++(int) { ++s->pos; }
			bool operator==(std::default_sentinel_t) const { return s->pos == s->v->size(); }
		};
		It begin() const { ++s->begins; return It{s}; }
		std::default_sentinel_t end() const { return {}; }
	};
} // namespace c30
#endif
