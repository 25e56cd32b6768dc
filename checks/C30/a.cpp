#include "common.hpp"
#include <dice/template-library/fmt_join.hpp>
namespace dtl = dice::template_library;
using namespace c30;

namespace {
	// all ways to pass a separator
	template<typename F>
	std::string with_separator(pbt::Ctx &ctx, std::string const &sep, F &&f) {
		switch (ctx.below(10)) {
			case 0: return f(sep);
			case 1: return f(std::string{sep});
			case 2: return f(std::string_view{sep});
			case 3: return f(sep.c_str());
			case 4: return f(std::vector<char>(sep.begin(), sep.end()));
			case 5: return f(std::deque<char>(sep.begin(), sep.end()));
			case 6: {
				std::list<char> const l(sep.begin(), sep.end());
				return f(l);
			}
			case 7: return f(std::span<char const>{sep});
			case 8: {
				std::string own = sep;
				std::string r = f(own);
				PBT_CHECK_MSG(own == sep, "a separator passed as lvalue was changed");
				return r;
			}
			default: {
				std::string shifted = sep;
				for (char &c : shifted) c = static_cast<char>(c + 1);
				return f(shifted | std::views::transform([](char c) { return static_cast<char>(c - 1); }));
			}
		}
	}
	template<typename T, typename F>
	std::string with_range(pbt::Ctx &ctx, std::vector<T> const &v, F &&f) {
		switch (ctx.below(9)) {
			case 0: return f(v);
			case 1: return f(std::vector<T>{v});
			case 2: return f(std::list<T>(v.begin(), v.end()));
			case 3: {
				std::forward_list<T> const l(v.begin(), v.end());
				return f(l);
			}
			case 4: {
				std::deque<T> d(v.begin(), v.end());
				std::string r = f(d);
				PBT_CHECK_MSG(d == std::deque<T>(v.begin(), v.end()), "a range passed as lvalue was changed");
				return r;
			}
			case 5: {
				std::vector<T> const r(v.rbegin(), v.rend());
				return f(r | std::views::reverse);
			}
			case 6: return f(v | std::views::transform([](T const &x) { return x; }));
			case 7: {
				std::vector<T> longer = v;
				longer.insert(longer.begin(), T{});
				longer.push_back(T{});
				return f(longer | std::views::drop(1) | std::views::take(static_cast<std::ptrdiff_t>(v.size())));
			}
			default: {
				typename Once<T>::State st{&v};
				Once<T> once;
				once.s = &st;
				std::string r = f(once);
				PBT_CHECK(st.reads == v.size() && st.begins == 1);
				return r;
			}
		}
	}
	template<typename T>
	void check(pbt::Ctx &ctx, std::vector<T> const &v, std::string const &spec) {
		std::string const fmt = "{" + (spec.empty() ? std::string{} : ":" + spec) + "}";
		std::string const sep = gen_text(ctx, 5);
		std::string const w = want(v, fmt, sep);
		std::string const got = with_range(ctx, v, [&](auto &&r) {
			return with_separator(ctx, sep, [&](auto &&s) {
				using R = decltype(r);
				using S = decltype(s);
				return vf(fmt, dtl::fmt_join(static_cast<R>(r), static_cast<S>(s)));
			});
		});
		PBT_CHECK_MSG(got == w, "got <" << got << ">, expected <" << w << "> for " << fmt);
		ctx.label(v.empty() ? "empty" : v.size() == 1 ? "one element" : "several elements");
		if (v.size() > 1 && !sep.empty()) ctx.nontrivial();
	}
}

PBT_PROP(integers, 30000) {
	std::vector<int> v(ctx.size(12));
	for (int &x : v) x = ctx.edge<int>();
	std::string const spec = ctx.pick<char const *>({"", "d", "x", "#x", "05", ">8", "<6", "^7", "*^9", "+", "b", "{<4", "}>4"});
	if (spec[0] == '{' || spec[0] == '}') return check(ctx, v, "");
	PBT_LOG("spec " << spec << " of " << v.size() << " integers");
	check(ctx, v, spec);
}

PBT_PROP(strings, 30000) {
	std::vector<std::string> v(ctx.size(8));
	for (auto &x : v) x = gen_text(ctx, 6);
	std::string const spec = ctx.pick<char const *>({"", "s", ">5", "<5", "^5", ".2", "_^6.3", ".0"});
	PBT_LOG("spec " << spec << " of " << v.size() << " strings");
	check(ctx, v, spec);
}

PBT_PROP(own_formatter, 20000) {
	std::vector<Point> v(ctx.size(8));
	for (auto &x : v) x = Point{static_cast<int>(ctx.below(20)), static_cast<int>(ctx.below(20))};
	std::string const spec = ctx.pick<char const *>({"", "s", "9", "s12"});
	PBT_LOG("spec " << spec << " of " << v.size() << " points");
	check(ctx, v, spec);
}

PBT_PROP(others, 20000) {
	switch (ctx.below(4)) {
		case 0: {
			std::vector<double> v(ctx.size(6));
			for (double &x : v) x = static_cast<double>(ctx.range(-1000, 1000)) / 8;
			return check(ctx, v, ctx.pick<char const *>({"", ".2f", "e", "g", "+.1f", "012.3f"}));
		}
		case 1: {
			std::vector<char> v(ctx.size(9));
			for (char &x : v) x = gen_char(ctx);
			return check(ctx, v, ctx.pick<char const *>({"", "c", "d", "3"}));
		}
		case 2: {
			std::vector<std::string_view> v(ctx.size(6));
			for (auto &x : v) x = ctx.pick<std::string_view>({"", "{}", "a", "}{", "xyz"});
			return check(ctx, v, ctx.pick<char const *>({"", ">4"}));
		}
		default: {
			std::vector<unsigned long> v(ctx.size(6));
			for (auto &x : v) x = ctx.edge<unsigned long>();
			return check(ctx, v, ctx.pick<char const *>({"", "o", "B", "020X"}));
		}
	}
}
