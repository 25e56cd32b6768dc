#include "pbt.hpp"

#include <forward_list>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <optional>
#include <ranges>
#include <string>
#include <vector>

#include <dice/template-library/opt_minmax.hpp>

namespace c24 {
	namespace dtl = dice::template_library;

	// value with a key to compare by and an identity to tell ties apart
	struct V {
		int key = 0;
		int id = -1;
		std::string pad; // so that using a dead or moved-from element shows up
		friend bool operator==(V const &, V const &) = default;
		friend bool operator<(V const &a, V const &b) { return a.key < b.key; }
		friend auto operator<=>(V const &a, V const &b) { return a.key <=> b.key; }
	};
	inline V mk(int key, int id) { return V{key, id, "element with number " + std::to_string(id)}; }

	using O = std::optional<V>;
	using Os = std::vector<O>;

	// weak order: compares a generated class of the key, and counts / validates its calls
	struct Cmp {
		int const *cls;
		bool desc;
		size_t *calls;
		bool operator()(V const &a, V const &b) const {
			++*calls;
			if (a.pad.size() < 20 || b.pad.size() < 20) {
				pbt::die("comparator was given an element that is not alive");
			}
			return desc ? cls[b.key] < cls[a.key] : cls[a.key] < cls[b.key];
		}
	};

	struct Want {
		O min, max;
	};
	template<typename L>
	Want want(Os const &v, L less) {
		Want w;
		for (auto const &o : v) {
			if (o) {
				if (!w.min || less(*o, *w.min)) w.min = o;
				if (!w.max || less(*w.max, *o)) w.max = o;
			}
		}
		return w;
	}

	template<typename R>
	bool same(R const &mm, Want const &w) {
		return mm.has_value() ? (w.min.has_value() && mm->min == *w.min && mm->max == *w.max) : !w.min.has_value();
	}

	struct Src {
		Os const *v;
		size_t pos = 0;
	};
	// single pass iterator that creates its elements on the fly
	struct In {
		using value_type = O;
		using difference_type = std::ptrdiff_t;
		Src *s = nullptr;
		O operator*() const { return (*s->v)[s->pos]; }
		In &operator++() {
			++s->pos;
			return *this;
		}
		void operator++(int) { ++s->pos; }
		friend bool operator==(In const &a, std::default_sentinel_t) { return a.s->pos >= a.s->v->size(); }
	};
	static_assert(std::input_iterator<In>);

	inline Os gen(pbt::Ctx &ctx, size_t max, int keys) {
		size_t const n = ctx.size(max);
		int const mode = static_cast<int>(ctx.below(3)); // 0: everything present, 1: mixed, 2: mostly absent
		Os v;
		for (size_t i = 0; i < n; ++i) {
			bool const there = mode == 0 || (mode == 1 ? !ctx.chance(1, 3) : ctx.chance(1, 4));
			if (there) {
				v.emplace_back(mk(static_cast<int>(ctx.below(static_cast<size_t>(keys))), static_cast<int>(i)));
			} else {
				v.emplace_back();
			}
		}
		return v;
	}
	inline std::string show(O const &o) { return o ? "(" + std::to_string(o->key) + "#" + std::to_string(o->id) + ")" : "none"; }
	inline std::string show(Os const &v) {
		std::string s;
		for (auto const &o : v) s += show(o) + " ";
		return s;
	}
} // namespace c24
