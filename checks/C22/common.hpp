#include "pbt.hpp"

#include <algorithm>
#include <compare>
#include <forward_list>
#include <functional>
#include <list>
#include <ranges>
#include <set>
#include <string>
#include <vector>

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include <dice/template-library/ranges.hpp>

namespace c22 {
	namespace dtl = dice::template_library;
	using Vals = std::vector<int>;

	// element kinds
	struct Hashed { // equality and hash only look at v % 4
		int v;
		friend bool operator==(Hashed a, Hashed b) { return a.v % 4 == b.v % 4; }
	};
	struct Less { // only operator<
		int v;
		friend bool operator<(Less a, Less b) { return a.v < b.v; }
	};
	template<typename T>
	struct E;
	template<>
	struct E<int> {
		static int make(int v) { return v; }
		static int id(int t) { return t; }
		static bool eq(int a, int b) { return a == b; }
	};
	template<>
	struct E<Hashed> {
		static Hashed make(int v) { return {v}; }
		static int id(Hashed t) { return t.v; }
		static bool eq(int a, int b) { return a % 4 == b % 4; }
	};
	template<>
	struct E<Less> {
		static Less make(int v) { return {v}; }
		static int id(Less t) { return t.v; }
		static bool eq(int a, int b) { return a == b; }
	};
	template<>
	struct E<std::string> {
		static std::string make(int v) { return std::string(20, static_cast<char>('a' + v)) + static_cast<char>(v + 1); }
		static int id(std::string const &t) { return t[20] - 1; }
		static bool eq(int a, int b) { return a == b; }
	};
	template<>
	struct E<double> { // 7 is a NaN, 0 and 6 are the two zeroes
		static double make(int v) { return v == 7 ? std::numeric_limits<double>::quiet_NaN() : v == 6 ? -0.0 : v; }
		static bool eq(int a, int b) { return make(a) == make(b); }
	};

	// single pass range; misuse (reading or advancing through an outdated copy) is recorded
	template<typename T>
	struct Src {
		std::vector<T> const *data = nullptr;
		size_t pos = 0;
		size_t read = 0; // number of elements that were looked at
		bool misuse = false;
	};
	template<typename T>
	struct In {
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		Src<T> *s = nullptr;
		size_t pos = 0;
		T const &operator*() const {
			if (pos != s->pos || pos >= s->data->size()) {
				s->misuse = true;
				return s->data->front();
			}
			if (s->read < pos + 1) {
				s->read = pos + 1;
			}
			return (*s->data)[pos];
		}
		In &operator++() {
			if (pos != s->pos || pos >= s->data->size()) {
				s->misuse = true;
			}
			++pos;
			s->pos = pos;
			return *this;
		}
		void operator++(int) { ++*this; }
		friend bool operator==(In const &a, std::default_sentinel_t) {
			if (a.pos != a.s->pos) {
				a.s->misuse = true;
			}
			return a.pos >= a.s->data->size();
		}
	};
	// the same, but not copyable
	template<typename T>
	struct MoveIn : In<T> {
		MoveIn(Src<T> *s, size_t pos) : In<T>{s, pos} {}
		MoveIn(MoveIn &&) = default;
		MoveIn &operator=(MoveIn &&) = default;
		MoveIn &operator++() {
			In<T>::operator++();
			return *this;
		}
		void operator++(int) { ++*this; }
	};
	// copies are independent, but the element is stored in the iterator and overwritten by increments
	template<typename T>
	struct Stash {
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		std::vector<T> const *data = nullptr;
		size_t pos = 0;
		mutable T cur{};
		Stash() = default;
		explicit Stash(std::vector<T> const &v) : data{&v} { fill(); }
		void fill() {
			if (pos < data->size()) cur = (*data)[pos];
			else cur = T{};
		}
		T &operator*() const { return cur; }
		Stash &operator++() {
			++pos;
			fill();
			return *this;
		}
		void operator++(int) { ++*this; }
		friend bool operator==(Stash const &a, std::default_sentinel_t) { return a.pos >= a.data->size(); }
	};
	template<typename T>
	auto stash(std::vector<T> const &v) { return std::ranges::subrange(Stash<T>{v}, std::default_sentinel); }
	template<typename T>
	using InRange = std::ranges::subrange<In<T>, std::default_sentinel_t>;

	inline Vals values(pbt::Ctx &ctx, int alphabet) {
		Vals v;
		switch (ctx.below(5)) {
			case 0: { // all the same
				size_t const n = ctx.size(8);
				v.assign(n, static_cast<int>(ctx.below(static_cast<size_t>(alphabet))));
				if (n > 0 && ctx.flip()) {
					v[ctx.below(n)] = static_cast<int>(ctx.below(static_cast<size_t>(alphabet)));
				}
				break;
			}
			case 1: { // strictly increasing, sometimes with one flaw
				for (int i = 0; i < alphabet; ++i) {
					if (ctx.flip()) {
						v.push_back(i);
					}
				}
				if (!v.empty() && ctx.flip()) {
					v[ctx.below(v.size())] = static_cast<int>(ctx.below(static_cast<size_t>(alphabet)));
				}
				if (ctx.chance(1, 4)) {
					std::reverse(v.begin(), v.end());
				}
				break;
			}
			case 2: { // permutation of distinct values
				for (int i = 0; i < alphabet; ++i) {
					v.insert(v.begin() + static_cast<long>(ctx.below(v.size() + 1)), i);
				}
				v.resize(ctx.below(v.size() + 1));
				if (!v.empty() && ctx.flip()) {
					v.push_back(v[ctx.below(v.size())]);
				}
				break;
			}
			default: {
				size_t const n = ctx.size(12);
				for (size_t i = 0; i < n; ++i) {
					v.push_back(static_cast<int>(ctx.below(static_cast<size_t>(alphabet))));
				}
				break;
			}
		}
		return v;
	}
	inline void log(pbt::Ctx &ctx, char const *name, Vals const &v) {
		if (ctx.tracing) {
			pbt::Str s;
			s << name << ":";
			for (int x : v) {
				s << " " << x;
			}
			s.log(ctx);
		}
	}
	template<typename T>
	std::vector<T> convert(Vals const &v) {
		std::vector<T> r;
		for (int x : v) {
			r.push_back(E<T>::make(x));
		}
		return r;
	}

	template<typename T, template<typename> typename It = In, typename F>
	void with_one(std::vector<T> const &v, F &&f) {
		Src<T> s{&v};
		std::ranges::subrange<It<T>, std::default_sentinel_t> r{It<T>{&s, 0}, std::default_sentinel};
		f(r);
		PBT_CHECK_MSG(!s.misuse, "a single pass range was used as if it was multi pass");
	}
	// calls f(range) for single pass ranges with the same contents
	template<typename T, typename F>
	void with_input(std::vector<T> const &v, F &&f) {
		with_one(v, f);
		with_one<T, MoveIn>(v, f);
	}
} // namespace c22
template<>
struct std::hash<c22::Hashed> {
	size_t operator()(c22::Hashed h) const { return static_cast<size_t>(h.v % 4); }
};
