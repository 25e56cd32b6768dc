#include "common.hpp"
#include <dice/template-library/fmt_join.hpp>
#include <dice/template-library/format_to_ostream.hpp>

#include <iomanip>
#include <iostream>
namespace dtl = dice::template_library;

namespace own {
	// only formattable, declared in a namespace, no own operator<<
	struct F { std::string s; };
	// both: the stream operator wins
	struct Both { int v; };
	inline std::ostream &operator<<(std::ostream &os, Both const &b) { return os << "stream:" << b.v; }
	// streamable through a template, and formattable
	template<typename T> struct Tmpl { T v; };
	template<typename C, typename Tr, typename T> std::basic_ostream<C, Tr> &operator<<(std::basic_ostream<C, Tr> &os, Tmpl<T> const &t) { return os << '[' << t.v << ']'; }
	// streamable through a conversion, and formattable
	struct Conv { int v; operator int() const { return v; } };
	// streamable only
	struct S { int v; friend std::ostream &operator<<(std::ostream &os, S const &s) { return os << "only " << s.v; } };
	struct Neither {};
	// formattable, only as wide characters
	struct W { int v; };
	struct Throws { int v; };
	enum class En { a, b };
}
template<> struct std::formatter<own::F, char> : std::formatter<std::string, char> { auto format(own::F const &f, auto &ctx) const { return std::formatter<std::string, char>::format(f.s, ctx); } };
template<> struct std::formatter<own::Both, char> : std::formatter<int, char> { auto format(own::Both const &f, auto &ctx) const { return std::formatter<int, char>::format(f.v + 1000, ctx); } };
template<typename T> struct std::formatter<own::Tmpl<T>, char> : std::formatter<T, char> { auto format(own::Tmpl<T> const &f, auto &ctx) const { return std::formatter<T, char>::format(f.v + 1000, ctx); } };
template<> struct std::formatter<own::Conv, char> : std::formatter<int, char> { auto format(own::Conv const &f, auto &ctx) const { return std::formatter<int, char>::format(f.v + 1000, ctx); } };
template<> struct std::formatter<own::W, wchar_t> : std::formatter<int, wchar_t> { auto format(own::W const &f, auto &ctx) const { return std::formatter<int, wchar_t>::format(f.v, ctx); } };
template<> struct std::formatter<own::Throws, char> : std::formatter<int, char> { auto format(own::Throws const &f, auto &ctx) const { if (f.v > 3) throw f.v; return std::formatter<int, char>::format(f.v, ctx); } };
template<> struct std::formatter<own::En, char> : std::formatter<std::string_view, char> { auto format(own::En const &f, auto &ctx) const { return std::formatter<std::string_view, char>::format(f == own::En::a ? "En a" : "En b", ctx); } };

template<typename T, typename C> concept streamable = requires (std::basic_ostream<C> &os, T const &t) { os << t; };
static_assert(streamable<own::F, char> && streamable<own::Both, char> && streamable<own::S, char> && streamable<own::W, wchar_t>);
static_assert(!streamable<own::Neither, char> && !streamable<own::W, char> && !streamable<own::F, wchar_t>);

using namespace c30;

PBT_PROP(streams, 30000) {
	std::ostringstream os;
	std::string w;
	size_t const n = 1 + ctx.size(10);
	for (size_t i = 0; i < n; ++i) {
		int const v = static_cast<int>(ctx.range(-99, 999));
		std::ostream *r = nullptr;
		switch (ctx.below(11)) {
			case 0: {
				own::F const f{gen_text(ctx, 300)};
				r = &(os << f);
				w += f.s;
				break;
			}
			case 1: r = &(os << own::F{"tmp{}"}); w += "tmp{}"; break;
			case 2: r = &(os << own::Both{v}); w += "stream:" + std::to_string(v); break;
			case 3: r = &(os << own::Tmpl<int>{v}); w += "[" + std::to_string(v) + "]"; break;
			case 4: r = &(os << own::Conv{v}); w += std::to_string(v); break;
			case 5: r = &(os << own::S{v} << Point{v, 1} << v); w += "only " + std::to_string(v) + "{" + std::to_string(v) + "|1}" + std::to_string(v); break;
			case 6: r = &(os << Point{v, 2} << ' ' << Point{3, v}); w += "{" + std::to_string(v) + "|2} {3|" + std::to_string(v) + "}"; break;
			case 7: {
				std::vector<int> x(ctx.size(5), v);
				r = &(os << dtl::fmt_join(x, ", "));
				w += want(x, "{}", ", ");
				break;
			}
			case 8: r = &(os << "text" << std::string{"s"} << 'c' << true << 1.5); w += "textsc11.5"; break;
			case 9: {
				// flags of the stream do not change what the formatter writes
				auto const flags = os.flags();
				r = &(os << std::hex << std::showbase << Point{v, 5});
				os.flags(flags);
				w += "{" + std::to_string(v) + "|5}";
				break;
			}
			default: r = &(os << own::En::b << own::En{}); w += "En bEn a"; break;
		}
		PBT_CHECK(r == &os && os.good());
		PBT_CHECK_MSG(os.str() == w, "got <" << os.str() << ">, expected <" << w << ">");
	}
	ctx.nontrivial();
}

PBT_PROP(wide_and_failing, 15000) {
	int const v = static_cast<int>(ctx.range(-99, 999));
	std::wostringstream ws;
	ws << own::W{v} << L' ' << Point{v, 1} << 5;
	PBT_CHECK(ws.str() == std::to_wstring(v) + L" {" + std::to_wstring(v) + L"|1}5");
	// exceptions of formatters reach the caller
	std::ostringstream os;
	int const t = static_cast<int>(ctx.below(8));
	int caught = 0;
	try {
		os << own::Throws{t};
	} catch (int e) {
		caught = e;
	}
	PBT_CHECK(caught == (t > 3 ? t : 0) && os.str() == (t > 3 ? std::string{} : std::to_string(t)));
	// other kinds of streams
	std::stringstream ss;
	std::iostream &both = ss;
	both << Point{v, v};
	PBT_CHECK(ss.str() == std::format("{}", Point{v, v}));
	ctx.nontrivial();
}
