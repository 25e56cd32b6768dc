#include "common.hpp"
#include <dice/template-library/dbg.hpp>

#include <iostream>
#include <memory>
using namespace c30;

struct Only {
	std::unique_ptr<int> p;
	explicit Only(int v) : p{std::make_unique<int>(v)} {}
};
template<> struct std::formatter<Only, char> : std::formatter<int, char> { auto format(Only const &o, auto &ctx) const { return std::formatter<int, char>::format(*o.p, ctx); } };
struct Copies { int v = 0; int copies = 0; Copies(int x) : v{x} {} Copies(Copies const &o) : v{o.v}, copies{o.copies + 1} {} Copies(Copies &&o) noexcept : v{o.v}, copies{o.copies} {} };
template<> struct std::formatter<Copies, char> : std::formatter<int, char> { auto format(Copies const &o, auto &ctx) const { return std::formatter<int, char>::format(o.v, ctx); } };

namespace {
	struct Capture {
		std::ostringstream os;
		std::streambuf *old = std::cerr.rdbuf(os.rdbuf());
		~Capture() { std::cerr.rdbuf(old); }
		std::string take() {
			std::string s = os.str();
			os.str("");
			return s;
		}
	};
	std::string line(int l, std::string const &expr, std::string const &value) { return "[dbg.cpp:" + std::to_string(l) + "] " + expr + " = " + value + "\n"; }
	int evals;
	int once(int x) { ++evals; return x; }
	template<typename A, typename B> A first(A a, B) { return a; }
	int boom(int x) { ++evals; if (x > 2) throw x; return x; }
}

PBT_PROP(debug_printing, 40000) {
	int x = ctx.edge<int>() / 4;
	int const cx = static_cast<int>(ctx.range(-100, 100));
	std::string s = gen_text(ctx, 8);
	Capture cap;
	evals = 0;
	switch (ctx.below(14)) {
		case 0: {
			decltype(auto) r = DICE_DBG(x); int const l = __LINE__;
			static_assert(std::is_same_v<decltype(r), int &>);
			PBT_CHECK(&r == &x && cap.take() == line(l, "x", std::to_string(x)));
			break;
		}
		case 1: {
			decltype(auto) r = DICE_DBG(cx); int const l = __LINE__;
			static_assert(std::is_same_v<decltype(r), int const &>);
			PBT_CHECK(&r == &cx && cap.take() == line(l, "cx", std::to_string(cx)));
			break;
		}
		case 2: {
			int const r = DICE_DBG(once(x) * 2) + 1; int const l = __LINE__;
			PBT_CHECK(r == x * 2 + 1 && evals == 1 && cap.take() == line(l, "once(x) * 2", std::to_string(x * 2)));
			break;
		}
		case 3: {
			std::string const t = DICE_DBG(s + "{}"); int const l = __LINE__;
			PBT_CHECK(t == s + "{}" && cap.take() == line(l, "s + \"{}\"", s + "{}"));
			break;
		}
		case 4: {
			Only o{cx};
			int *const p = o.p.get();
			Only const moved = DICE_DBG(std::move(o)); int const l = __LINE__;
			PBT_CHECK(moved.p.get() == p && o.p == nullptr && cap.take() == line(l, "std::move(o)", std::to_string(cx)));
			break;
		}
		case 5: {
			Only const o = DICE_DBG(Only{cx}); int const l = __LINE__;
			PBT_CHECK(*o.p == cx && cap.take() == line(l, "Only{cx}", std::to_string(cx)));
			break;
		}
		case 6: {
			int const r = DICE_DBG(DICE_DBG(once(cx)) + 1); int const l = __LINE__;
			PBT_CHECK(r == cx + 1 && evals == 1 && cap.take() == line(l, "once(cx)", std::to_string(cx)) + line(l, "DICE_DBG(once(cx)) + 1", std::to_string(cx + 1)));
			break;
		}
		case 7: {
			int const r = DICE_DBG((first<int, char>(once(cx), 'x'))); int const l = __LINE__;
			PBT_CHECK(r == cx && evals == 1 && cap.take() == line(l, "(first<int, char>(once(cx), 'x'))", std::to_string(cx)));
			break;
		}
		case 8: {
			int const arg = static_cast<int>(ctx.below(6));
			int caught = 0;
			try {
				DICE_DBG(boom(arg));
			} catch (int e) {
				caught = e;
			}
			PBT_CHECK(evals == 1 && caught == (arg > 2 ? arg : 0) && cap.take().empty() == (arg > 2));
			break;
		}
		case 9: {
			Copies c{cx};
			Copies const &r = DICE_DBG(c); int l = __LINE__;
			PBT_CHECK(&r == &c && r.copies == 0 && cap.take() == line(l, "c", std::to_string(cx)));
			Copies const m = DICE_DBG(Copies{cx + 1}); l = __LINE__;
			PBT_CHECK(m.copies == 0 && m.v == cx + 1 && cap.take() == line(l, "Copies{cx + 1}", std::to_string(cx + 1)));
			break;
		}
		case 10: {
			DICE_DBG(x) = 7; int const l = __LINE__;
			std::string const got = cap.take();
			PBT_CHECK(x == 7 && got.starts_with("[dbg.cpp:" + std::to_string(l) + "] x = ") && got.ends_with("\n"));
			break;
		}
		case 11: {
			// inside a larger expression, in order
			int const r = DICE_DBG(cx), q = DICE_DBG(r + 1); int const l = __LINE__;
			PBT_CHECK(q == cx + 1 && cap.take() == line(l, "cx", std::to_string(cx)) + line(l, "r + 1", std::to_string(cx + 1)));
			break;
		}
		case 12: {
			std::string_view const v = DICE_DBG(std::string_view{s}); int const l = __LINE__;
			PBT_CHECK(v.data() == s.data() && v.size() == s.size() && cap.take() == line(l, "std::string_view{s}", s));
			break;
		}
		default: {
			// arrays stay what they are, strings are printed as text; constant evaluation order in loops
			int n = 0;
			for (int i = 0; i < 3; ++i) n += DICE_DBG(i * cx);
			int const l = __LINE__ - 1;
			PBT_CHECK(n == 3 * cx && cap.take() == line(l, "i * cx", "0") + line(l, "i * cx", std::to_string(cx)) + line(l, "i * cx", std::to_string(2 * cx)));
			char const text[] = "abc";
			auto &r = DICE_DBG(text); int const k = __LINE__;
			static_assert(std::is_same_v<decltype(r), char const (&)[4]>);
			PBT_CHECK(&r == &text && cap.take() == line(k, "text", "abc"));
			break;
		}
	}
	ctx.nontrivial();
}
