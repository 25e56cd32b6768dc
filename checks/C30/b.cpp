#include "common.hpp"
#include <dice/template-library/fmt_join.hpp>
namespace dtl = dice::template_library;
using namespace c30;

// single characters, initializer lists, std::set, wide characters, joins of joins, bounded output, dynamic widths, arguments around the join
PBT_PROP(forms, 40000) {
	std::vector<int> v(ctx.size(9));
	for (int &x : v) x = static_cast<int>(ctx.range(-50, 200));
	char const c = gen_char(ctx);
	std::string const sep = gen_text(ctx, 4);
	size_t const form = ctx.below(11);
	PBT_LOG("form " << form << " with " << v.size() << " elements");
	std::string const joined = want(v, "{}", sep);
	switch (form) {
		case 0: PBT_CHECK(std::format("{}", dtl::fmt_join(v, c)) == want(v, "{}", std::string(1, c))); break;
		case 1: PBT_CHECK(std::format("{:3}", dtl::fmt_join(v, ", ")) == want(v, "{:3}", ", ")); break;
		case 2: {
			int const a = static_cast<int>(ctx.below(99)), b = static_cast<int>(ctx.below(99)), d = static_cast<int>(ctx.below(99));
			PBT_CHECK(std::format("{:02}", dtl::fmt_join({a, b, d}, sep)) == want(std::vector<int>{a, b, d}, "{:02}", sep));
			PBT_CHECK(std::format("{}", dtl::fmt_join({a}, c)) == std::to_string(a));
			std::initializer_list<std::string> const il{std::to_string(a), "{", sep};
			PBT_CHECK(std::format("{}", dtl::fmt_join(il, sep)) == std::to_string(a) + sep + "{" + sep + sep);
			std::string own = sep;
			PBT_CHECK(std::format("{}", dtl::fmt_join(il, own)) == std::to_string(a) + sep + "{" + sep + sep && own == sep);
			// the list may be gone when the result is used
			auto const later = dtl::fmt_join({std::to_string(a), std::to_string(b)}, std::string{sep});
			PBT_CHECK(std::format("{}{}", later, later) == std::to_string(a) + sep + std::to_string(b) + std::to_string(a) + sep + std::to_string(b));
			break;
		}
		case 3: {
			std::set<int> const s(v.begin(), v.end());
			PBT_CHECK(std::format("{}", dtl::fmt_join(s, sep)) == want(s, "{}", sep));
			break;
		}
		case 4: {
			std::wstring w;
			for (size_t i = 0; i < v.size(); ++i) w += (i ? L", " : L"") + std::to_wstring(v[i]);
			PBT_CHECK(std::format(L"{}", dtl::fmt_join(v, L", ")) == w && std::format(L"{}", dtl::fmt_join(v, std::wstring{L", "})) == w);
			break;
		}
		case 5: {
			// around, twice, reordered
			std::string const got = std::format("<{1}|{0:>4}|{1}{{}}{2}>", dtl::fmt_join(v, sep), dtl::fmt_join(v, c), c);
			std::string const other = want(v, "{}", std::string(1, c));
			PBT_CHECK(got == "<" + other + "|" + want(v, "{:>4}", sep) + "|" + other + "{}" + std::string(1, c) + ">");
			break;
		}
		case 6: {
			// joins of joins
			std::vector<std::vector<int>> vv(ctx.size(5), v);
			for (auto &x : vv) if (!x.empty()) x.resize(ctx.below(x.size() + 1));
			auto inner = vv | std::views::transform([&](std::vector<int> const &x) { return dtl::fmt_join(x, sep); });
			std::string w;
			for (size_t i = 0; i < vv.size(); ++i) w += (i ? std::string{"; "} : std::string{}) + want(vv[i], "{:2}", sep);
			PBT_CHECK(std::format("{:2}", dtl::fmt_join(inner, "; ")) == w);
			break;
		}
		case 7: {
			size_t const limit = ctx.below(joined.size() + 4);
			std::string buf(limit, '?');
			auto const r = std::format_to_n(buf.begin(), static_cast<std::ptrdiff_t>(limit), "{}", dtl::fmt_join(v, sep));
			PBT_CHECK(static_cast<size_t>(r.size) == joined.size() && buf.substr(0, std::min(limit, joined.size())) == joined.substr(0, limit));
			PBT_CHECK(std::formatted_size("{}", dtl::fmt_join(v, sep)) == joined.size());
			PBT_CHECK(r.out - buf.begin() == static_cast<std::ptrdiff_t>(std::min(limit, joined.size())));
			break;
		}
		case 8: {
			std::list<char> out;
			std::format_to(std::back_inserter(out), "{}!", dtl::fmt_join(v, c));
			PBT_CHECK(std::string(out.begin(), out.end()) == want(v, "{}", std::string(1, c)) + "!");
			std::string fixed(joined.size() + 1, '?');
			char *end = std::format_to(fixed.data(), "{}", dtl::fmt_join(v, sep));
			PBT_CHECK(fixed == joined + "?" && end == fixed.data() + joined.size());
			break;
		}
		case 9: {
			int const width = static_cast<int>(ctx.below(9));
			PBT_CHECK(std::format("{:{}}", dtl::fmt_join(v, sep), width) == want(v, "{:" + (width ? std::to_string(width) : std::string{}) + "}", sep));
			PBT_CHECK(std::format("{1:{0}}", width, dtl::fmt_join(v, sep)) == want(v, "{:" + (width ? std::to_string(width) : std::string{}) + "}", sep));
			break;
		}
		default: {
			// long output crosses every internal buffer
			std::vector<std::string> big(3 + ctx.below(40), std::string(ctx.below(120), 'q'));
			std::string const s(ctx.below(300), '-');
			PBT_CHECK(std::format("{}", dtl::fmt_join(big, s)) == want(big, "{}", s));
			PBT_CHECK(std::format("{}", dtl::fmt_join(big, c)) == want(big, "{}", std::string(1, c)));
			break;
		}
	}
	if (v.size() > 1) ctx.nontrivial();
}

namespace {
	// counts copies
	struct Counted {
		std::vector<int> v;
		int *copies;
		Counted(std::vector<int> x, int *c) : v{std::move(x)}, copies{c} {}
		Counted(Counted const &o) : v{o.v}, copies{o.copies} { ++*copies; }
		Counted(Counted &&) = default;
		Counted &operator=(Counted &&) = default;
		auto begin() const { return v.begin(); }
		auto end() const { return v.end(); }
	};
}

// ranges: lvalues are referred to (later changes are visible), temporaries are owned
PBT_PROP(ownership, 15000) {
	std::vector<int> v(ctx.size(7));
	for (int &x : v) x = static_cast<int>(ctx.below(100));
	std::string const sep = gen_text(ctx, 3);
	int copies = 0;
	Counted c{v, &copies};
	auto const by_reference = dtl::fmt_join(c, std::string{sep});
	PBT_CHECK(copies == 0 && std::format("{}", by_reference) == want(v, "{}", sep));
	for (int &x : c.v) ++x;
	PBT_CHECK(std::format("{}", by_reference) == want(c.v, "{}", sep) && copies == 0);
	auto const owned = dtl::fmt_join(Counted{v, &copies}, std::string{sep});
	auto const owned2 = dtl::fmt_join(std::move(c), std::string{sep});
	PBT_CHECK(copies == 0 && std::format("{}", owned) == want(v, "{}", sep));
	for (int &x : v) ++x;
	PBT_CHECK(std::format("{}", owned2) == want(v, "{}", sep));
	if (v.size() > 1) ctx.nontrivial();
}

// exceptions of element formatters reach the caller
namespace {
	struct Thrower { int v; };
}
template<>
struct std::formatter<Thrower, char> : std::formatter<int, char> {
	auto format(Thrower const &t, auto &ctx) const {
		if (t.v < 0) throw t.v;
		return std::formatter<int, char>::format(t.v, ctx);
	}
};
PBT_PROP(throwing, 10000) {
	std::vector<Thrower> v(1 + ctx.size(6));
	int first = 0;
	for (auto &x : v) {
		x.v = static_cast<int>(ctx.range(-2, 12));
		if (x.v < 0 && first == 0) first = x.v;
	}
	int caught = 0;
	std::string got;
	try {
		got = std::format("{:2}", dtl::fmt_join(v, ", "));
	} catch (int e) {
		caught = e;
	}
	PBT_CHECK(caught == first && (first == 0) == !got.empty());
	bool bad = false;
	try {
		(void) vf(ctx.pick<char const *>({"{:s}", "{:.}", "{:", "{:z}"}), dtl::fmt_join(v, ", "));
	} catch (std::format_error const &) {
		bad = true;
	} catch (int) {
	}
	PBT_CHECK(bad);
	ctx.nontrivial();
}
