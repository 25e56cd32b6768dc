COUNT = {"quick": 160, "thorough": 5000}
BATCH = 10
FLAGS = ["-O0", "-fsanitize=undefined", "-fno-sanitize-recover=all"]
INCLUDES = """
#include <compare>
#include <map>
#include <memory>
#include <set>
#include <variant>
#include <dice/template-library/integral_template_variant.hpp>
namespace dtl = dice::template_library;
struct Boom { int v; };
struct Cat { int operator()(auto &) & { return 1; } int operator()(auto &) const & { return 2; } int operator()(auto &) && { return 3; } };
inline int alive;
inline bool armed; // the next copy or construction from int throws
// X: small, owning, instrumented, may throw; Y: trivial, sizes differ; Z: trivially copyable, over-aligned
template<int ix> struct X {
	std::unique_ptr<int> p;
	static void may_throw(int v) { if (armed) { armed = false; throw Boom{v}; } }
	X() : p{std::make_unique<int>(0)} { ++alive; }
	X(int v) : p{(may_throw(v), std::make_unique<int>(v))} { ++alive; }
	X(X const &o) : p{(may_throw(o.get()), std::make_unique<int>(o.get()))} { ++alive; }
	X(X &&o) noexcept : p{std::make_unique<int>(o.get())} { o.p = nullptr; ++alive; }
	X &operator=(X const &o) { may_throw(o.get()); p = std::make_unique<int>(o.get()); return *this; }
	X &operator=(X &&o) noexcept { if (this != &o) p = std::move(o.p); return *this; }
	~X() { --alive; }
	int get() const { if (!p) std::abort(); return *p; }
	static constexpr int index = ix;
	friend auto operator<=>(X const &a, X const &b) { return a.get() <=> b.get(); }
	friend bool operator==(X const &a, X const &b) { return a.get() == b.get(); }
};
template<unsigned char ix> struct Y { int v; char pad[ix % 7 + 1]; constexpr Y() : v{}, pad{} {} constexpr Y(int x) : v{x}, pad{} {} constexpr int get() const { return v; } static constexpr unsigned char index = ix;
	constexpr auto operator<=>(Y const &o) const { return v <=> o.v; } constexpr bool operator==(Y const &o) const { return v == o.v; } };
template<long ix> struct alignas(ix % 2 == 0 ? 16 : 4) Z { int v; constexpr Z() : v{} {} constexpr Z(int x) : v{x} {} constexpr int get() const { return v; } static constexpr long index = ix;
	constexpr auto operator<=>(Z const &o) const { return v <=> o.v; } constexpr bool operator==(Z const &o) const { return v == o.v; } };
// elements that offer less: no comparison; no comparison, no copy; equality only; no comparison, no default construction, no copy, no move
template<int ix> struct Nc { int v = 0; Nc() = default; Nc(int x) : v{x} {} int get() const { return v; } };
template<int ix> struct Mo { std::unique_ptr<int> p = std::make_unique<int>(0); Mo() = default; Mo(int x) : p{std::make_unique<int>(x)} {} int get() const { return p ? *p : -1; } };
template<int ix> struct Eq { int v = 0; Eq() = default; Eq(int x) : v{x} {} int get() const { return v; } bool operator==(Eq const &) const = default; };
template<int ix> struct Pin { int v; explicit Pin(int x) : v{x} {} Pin(Pin &&) = delete; int get() const { return v; } };
// M: which operations may throw differs from index to index; counts how it is passed around
struct Src { int v; };
template<int ix> struct M {
	static constexpr unsigned bits = (static_cast<unsigned>(ix) + 77u) * 0x9E3779B1u >> 21;
	static constexpr bool nd = bits & 1, ns = bits & 2, n2 = bits & 4, nc = bits & 8, nm = bits & 16, nca = bits & 32, nma = bits & 64, nsr = bits & 128;
	static inline int copies, moves, copy_assigned, move_assigned, lvalues, rvalues;
	static void zero() { copies = moves = copy_assigned = move_assigned = lvalues = rvalues = 0; }
	int v;
	static void may_throw(int v) { if (armed) { armed = false; throw Boom{v}; } }
	M() noexcept(nd) : v{0} { if constexpr (!nd) may_throw(0); ++alive; }
	M(Src const &x) noexcept(ns) : v{x.v} { if constexpr (!ns) may_throw(x.v); ++lvalues; ++alive; }
	M(Src &&x) noexcept(nsr) : v{x.v} { if constexpr (!nsr) may_throw(x.v); x.v = -1; ++rvalues; ++alive; }
	M(Src &x, Src &&y) noexcept(n2) : v{x.v * 10 + y.v} { if constexpr (!n2) may_throw(x.v); x.v = -2; y.v = -3; ++alive; }
	M(M const &o) noexcept(nc) : v{o.v} { if constexpr (!nc) may_throw(v); ++copies; ++alive; }
	M(M &&o) noexcept(nm) : v{o.v} { if constexpr (!nm) may_throw(v); o.v = -4; ++moves; ++alive; }
	M &operator=(M const &o) noexcept(nca) { if constexpr (!nca) may_throw(o.v); v = o.v; ++copy_assigned; return *this; }
	M &operator=(M &&o) noexcept(nma) { if constexpr (!nma) may_throw(o.v); v = o.v; o.v = -4; ++move_assigned; return *this; }
	~M() { --alive; }
	auto operator<=>(M const &o) const { return v <=> o.v; }
	bool operator==(M const &o) const { return v == o.v; }
};
template<int ix> struct std::hash<X<ix>> { size_t operator()(X<ix> const &x) const { return x.get() * 31u + 7; } };
template<unsigned char ix> struct std::hash<Y<ix>> { size_t operator()(Y<ix> const &x) const { return x.get() * 31u + 7; } };
template<long ix> struct std::hash<Z<ix>> { size_t operator()(Z<ix> const &x) const { return x.get() * 31u + 7; } };
"""
FAM = {"X": ("int", -(2**31), 2**31 - 1), "Y": ("unsigned char", 0, 255), "Z": ("long", -(2**63), 2**63 - 1)}


def flit(fam, v):
    ity = FAM[fam][0]
    if v == -(2**63):
        return "(-9223372036854775807L - 1)"
    if v == -(2**31) and ity == "int":
        return "(-2147483647 - 1)"
    return f"static_cast<unsigned char>({v})" if ity == "unsigned char" else f"({v}{'L' if ity == 'long' else ''})"


def itv(t):
    fam = t.pick(list(FAM))
    ity, lo, hi = FAM[fam]
    n = t.size(8, 1)
    base = [max(lo, 0), 1 if lo == 0 else -2, lo, hi - n, t.range(0, 60)][t.below(5)]
    asc = t.flip()
    if not asc and base == hi - n:
        pass
    first, last = (base, base + n) if asc else (base + n, base)

    lit = lambda v: flit(fam, v)

    ixs = list(range(first, last)) if asc else list(range(first, last, -1))
    V = f"dtl::integral_template_variant<{lit(first)}, {lit(last)}, {fam}>"
    E = lambda i: f"{fam}<{lit(ixs[i])}>"
    U = f"std::variant<{', '.join(E(i) for i in range(n))}>"
    o = [f"using V = {V}; using U = {U};", "SAME(typename V::underlying_type, U);", f"SAME(typename V::index_type, {ity});", f"SAME(typename V::template value_type<{lit(ixs[-1])}>, {E(n - 1)});"]
    for tr in ("is_nothrow_copy_constructible", "is_nothrow_move_constructible", "is_nothrow_move_assignable", "is_nothrow_copy_assignable", "is_trivially_copyable", "is_trivially_destructible"):
        if "nothrow" in tr:
            o.append(f"CHECK(std::{tr}_v<V> == std::{tr}_v<U>);")
    o.append("int const before = alive; {")
    model, names = {}, []

    def val():
        return t.range(0, 5)

    def guard(stmt, thr, post="", pre=""):
        """a statement whose element operation throws if thr"""
        if thr:
            return f"{{ {pre} bool caught = false; armed = true; try {{ {stmt} }} catch (Boom const &) {{ caught = true; }} CHECK(caught && !armed); {post} }}"
        return stmt

    def create():
        nm = f"v{len(names)}"
        i, v = t.below(n), val()
        k = t.below(6)
        if k == 0 or (k == 3 and not names):
            o.append(f"V {nm}{{{E(i)}({v})}};")
        elif k == 1:
            i, v = 0, 0
            o.append(f"V {nm};")
        elif k == 2:
            o.append(f"V {nm}{{std::in_place_type<{E(i)}>, {v}}};")
        elif k == 3:
            src = t.pick(names)
            i, v = model[src]
            o.append(f"V {nm}{{{t.pick([src, f'std::as_const({src})'])}}};")
        elif k == 4:
            o.append(f"{E(i)} const e{nm}({v}); V {nm} = e{nm}; CHECK(e{nm}.get() == {v});")
        else:
            o.append(f"V {nm}{{V{{{E(i)}({v})}}}};")
        names.append(nm)
        model[nm] = (i, v)

    def check_all():
        for x in names:
            i, v = model[x]
            o.append(f"CHECK({x}.index() == {lit(ixs[i])}); SAME(decltype({x}.index()), {ity}); CHECK(std::as_const({x}).to_underlying().index() == {i});")
            o.append(f"CHECK(std::as_const({x}).template get<{lit(ixs[i])}>().get() == {v});")

    create()
    create()
    check_all()
    for _ in range(4 + t.below(8)):
        k = t.below(13)
        a, b = t.pick(names), t.pick(names)
        i, v = t.below(n), val()
        thr = fam == "X" and t.below(4) == 3
        if k == 0:
            create()
        elif k == 1:
            # an emplacement that throws leaves the std::variant in a state of its own: only into an already valueless-free copy
            if thr:
                o.append(guard(f"V c{{{a}}}; armed = true; c.template emplace<{lit(ixs[i])}>({v});".replace("V c{", "armed = false; V c{"), True))
            else:
                o.append(f"{{ auto &r = {a}.template emplace<{lit(ixs[i])}>({v}); SAME(decltype({a}.template emplace<{lit(ixs[i])}>({v})), {E(i)} &); CHECK(r.get() == {v} && &r == &{a}.template get<{lit(ixs[i])}>()); }}")
                model[a] = (i, v)
        elif k == 2:
            if thr:
                # copy assignment of std::variant: same alternative: assigned in place; else copy first, then move: target unchanged
                o.append(guard(f"{a} = std::as_const({b});" if a != b else f"V c{{{a}}};", True))
            else:
                o.append(f"{a} = {b};" if t.flip() and a != b else f"{a} = std::as_const({b});")
                model[a] = model[b]
        elif k == 3:
            if thr:
                o.append(guard(f"{E(i)} const e = (armed = false, {E(i)}({v})); armed = true; {a} = e;", True))
            else:
                o.append(f"{a} = {E(i)}({v});")
                model[a] = (i, v)
        elif k == 4:
            if thr:
                o.append(guard(f"V c{{{a}}};", True))
                o.append(guard(f"{E(i)} const e = (armed = false, {E(i)}({v})); armed = true; V c{{e}};", True))
            else:
                o.append(f"{{ V c{{{a}}}; {b} = std::move(c); }}")
                model[b] = model[a]
        elif k == 5:
            # wrong index: exception; right index: a reference of the category of the variant
            o.append(f"{{ bool bad = false; try {{ (void) {a}.template get<{lit(ixs[i])}>(); }} catch (std::bad_variant_access const &) {{ bad = true; }} CHECK(bad == {str(i != model[a][0]).lower()}); }}")
            o.append(f"{{ bool bad = false; try {{ (void) std::as_const({a}).template get<{lit(ixs[i])}>(); }} catch (std::bad_variant_access const &) {{ bad = true; }} CHECK(bad == {str(i != model[a][0]).lower()}); }}")
            e = f"template get<{lit(ixs[i])}>()"
            o.append(f"SAME(decltype({a}.{e}), {E(i)} &); SAME(decltype(std::as_const({a}).{e}), {E(i)} const &); SAME(decltype(std::move({a}).{e}), {E(i)} &&); SAME(decltype(std::move(std::as_const({a})).{e}), {E(i)} const &&);")
        elif k == 6:
            o.append(f"{a}.template get<{lit(ixs[model[a][0]])}>() = {E(model[a][0])}({v});")
            model[a] = (model[a][0], v)
        elif k == 7:
            for j in range(n):
                yes = str(j == model[a][0]).lower()
                o.append(f"CHECK({a}.template holds_alternative<{lit(ixs[j])}>() == {yes} && std::as_const({a}).template holds_alternative<{E(j)}>() == {yes});")
        elif k == 8:
            i0, v0 = model[a]
            o.append(f"{{ int calls = 0; auto f = [&](auto &e) {{ ++calls; return std::pair<__int128, int>{{e.index, e.get()}}; }}; auto r = {t.pick([a, f'std::as_const({a})'])}.visit(f); CHECK(calls == 1 && r.first == {lit(ixs[i0])} && r.second == {v0}); }}")
            o.append(f"{{ void const *p = nullptr; {a}.visit([&](auto &e) {{ p = &e; }}); CHECK(p == &{a}.template get<{lit(ixs[i0])}>()); }}")
            o.append(f"CHECK((std::move({a}).visit([](auto &&e) {{ return std::is_rvalue_reference_v<decltype(e)> && !std::is_const_v<std::remove_reference_t<decltype(e)>>; }}))); CHECK((std::as_const({a}).visit([](auto &&e) {{ return std::is_lvalue_reference_v<decltype(e)> && std::is_const_v<std::remove_reference_t<decltype(e)>>; }})));")
            o.append(f"{{ Cat c; CHECK({a}.visit(c) == 1 && {a}.visit(std::as_const(c)) == 2 && {a}.visit(Cat{{}}) == 3 && {a}.visit(std::move(c)) == 3); }}")
            o.append(f"{{ int box = 0; SAME(decltype({a}.visit([&](auto &) -> int & {{ return box; }})), int &); SAME(decltype({a}.visit([&](auto &) -> int const && {{ return std::move(box); }})), int const &&); CHECK(&{a}.visit([&](auto &) -> int & {{ return box; }}) == &box && *std::as_const({a}).visit([](auto const &) {{ return std::make_unique<int>(3); }}) == 3); }}")
            o.append(f"{{ bool caught = false; try {{ {a}.visit([](auto &) {{ throw 5; }}); }} catch (int) {{ caught = true; }} CHECK(caught); }}")
        elif k == 9:
            ma, mb = model[a], model[b]
            o.append(f"CHECK(({a} == {b}) == {str(ma == mb).lower()} && ({a} != {b}) == {str(ma != mb).lower()} && ({a} < {b}) == {str(ma < mb).lower()} && ({a} <= {b}) == {str(ma <= mb).lower()} && ({a} > {b}) == {str(ma > mb).lower()} && ({a} >= {b}) == {str(ma >= mb).lower()});")
            o.append(f"CHECK(({a} <=> {b}) == ({a}.to_underlying() <=> {b}.to_underlying()) && ({a} == V{{{E(i)}({v})}}) == {str(ma == (i, v)).lower()});")
        elif k == 10:
            ma, mb = model[a], model[b]
            o.append(f"CHECK(std::hash<V>{{}}({a}) == std::hash<V>{{}}(std::as_const({a})) && std::hash<V>{{}}({a}) == std::hash<U>{{}}({a}.to_underlying()));")
            if ma == mb:
                o.append(f"CHECK(std::hash<V>{{}}({a}) == std::hash<V>{{}}({b}));")
        elif k == 11:
            o.append(f"SAME(decltype({a}.to_underlying()), U &); SAME(decltype(std::as_const({a}).to_underlying()), U const &); SAME(decltype(std::move({a}).to_underlying()), U &&);")
            o.append(f"{a}.to_underlying() = U{{std::in_place_index<{i}>, {v}}};")
            model[a] = (i, v)
        else:
            if a != b:
                o.append(f"std::swap({a}, {b});")
                model[a], model[b] = model[b], model[a]
        check_all()
    o.append("} CHECK(alive == before);")
    return {"body": "\n".join(o), "nontrivial": n > 1, "desc": f"integral_template_variant over {fam} from {first} to {last}"}


def throwing_emplace(t):
    """after a failed emplace (or assignment) the variant behaves as the std::variant does"""
    n = 1 + t.below(5)
    first = t.range(-3, 3)
    asc = t.flip()
    ixs = [first + i if asc else first - i for i in range(n)]
    V = f"dtl::integral_template_variant<{first}, {first + n if asc else first - n}, X>"
    U = f"std::variant<{', '.join(f'X<{i}>' for i in ixs)}>"
    i, j = t.below(n), t.below(n)
    k = t.below(3)
    if k == 0:
        op = (f"v.template emplace<{ixs[j]}>(9);", f"u.template emplace<{j}>(9);")
    elif k == 1:
        op = (f"v = std::as_const(w);", "u = std::as_const(x);")
    else:
        op = (f"v = std::as_const(e);", "u = std::as_const(e);")
    body = f"""
using V = {V}; using U = {U};
int const before = alive;
{{
V v{{std::in_place_type<X<{ixs[i]}>>, 3}}; U u{{std::in_place_index<{i}>, 3}};
V const w{{std::in_place_type<X<{ixs[j]}>>, 4}}; U const x{{std::in_place_index<{j}>, 4}};
X<{ixs[j]}> const e{{5}};
int c = 0;
armed = true; try {{ {op[0]} }} catch (Boom const &b) {{ c = b.v; }} CHECK(!armed);
int d = 0;
armed = true; try {{ {op[1]} }} catch (Boom const &b) {{ d = b.v; }} CHECK(!armed);
CHECK(c == d && c == {9 if k == 0 else 4 if k == 1 else 5});
CHECK(v.to_underlying().index() == u.index() && v.to_underlying().valueless_by_exception() == u.valueless_by_exception());
if (!u.valueless_by_exception()) {{ CHECK(v.to_underlying() == u); CHECK(v.index() == {first} {'+' if asc else '-'} static_cast<int>(u.index())); }}
else {{ bool bad = false; try {{ v.visit([](auto &) {{}}); }} catch (std::bad_variant_access const &) {{ bad = true; }} CHECK(bad); }}
v.template emplace<{ixs[i]}>(6);
CHECK(v.index() == {ixs[i]} && v.template get<{ixs[i]}>().get() == 6);
}}
CHECK(alive == before);"""
    return {"body": body, "nontrivial": True, "desc": f"failing {['emplace', 'copy assignment', 'value assignment'][k]} from {ixs[i]} to {ixs[j]} over {ixs}"}


def passing(t):
    """each way to put a value into the variant: passed on in its value category, exactly once, exceptions of exactly that operation reach the caller"""
    n = 1 + t.below(4)
    first = t.range(-40, 40)
    asc = t.flip()
    ixs = [first + i if asc else first - i for i in range(n)]
    i, j = t.below(n), t.below(n)
    E, F = f"M<{ixs[i]}>", f"M<{ixs[j]}>"
    V = f"dtl::integral_template_variant<{first}, {first + n if asc else first - n}, M>"
    U = f"std::variant<{', '.join(f'M<{k}>' for k in ixs)}>"
    d = f"M<{ixs[0]}>"
    ways = [
        # setup, statement, may throw, check of the counters
        ("", "V v;", f"!{d}::nd", f"CHECK(v.index() == {ixs[0]} && v.template get<{ixs[0]}>().v == 0 && {d}::copies + {d}::moves == 0);"),
        (f"{E} const e{{Src{{5}}}};", "V v{e};", f"!{E}::nc", f"CHECK({E}::copies == 1 && {E}::moves == 0 && e.v == 5 && v.template get<{ixs[i]}>().v == 5);"),
        (f"{E} e{{Src{{5}}}};", "V v{std::move(e)};", f"!{E}::nm", f"CHECK({E}::copies == 0 && {E}::moves == 1 && e.v == -4 && v.template get<{ixs[i]}>().v == 5);"),
        ("Src const x{6};", f"V v(std::in_place_type<{E}>, x);", f"!{E}::ns", f"CHECK({E}::lvalues == 1 && {E}::rvalues + {E}::copies + {E}::moves == 0 && x.v == 6 && v.template get<{ixs[i]}>().v == 6);"),
        ("Src x{6};", f"V v(std::in_place_type<{E}>, std::move(x));", f"!{E}::nsr", f"CHECK({E}::rvalues == 1 && {E}::lvalues + {E}::copies + {E}::moves == 0 && x.v == -1 && v.template get<{ixs[i]}>().v == 6);"),
        ("Src x{2}; Src y{3};", f"V v(std::in_place_type<{E}>, x, std::move(y));", f"!{E}::n2", f"CHECK({E}::copies + {E}::moves == 0 && x.v == -2 && y.v == -3 && v.template get<{ixs[i]}>().v == 23);"),
        ("", f"V v(std::in_place_type<{E}>);", f"!{E}::nd", f"CHECK({E}::copies + {E}::moves == 0 && v.index() == {ixs[i]} && v.template get<{ixs[i]}>().v == 0);"),
        (f"V v(std::in_place_type<{F}>, Src{{1}}); Src const x{{6}};", f"v.template emplace<{ixs[i]}>(x);", f"!{E}::ns", f"CHECK({E}::lvalues == 1 && {E}::rvalues + {E}::copies + {E}::moves + {E}::copy_assigned + {E}::move_assigned == 0 && v.template get<{ixs[i]}>().v == 6);"),
        (f"V v(std::in_place_type<{F}>, Src{{1}}); Src x{{2}}; Src y{{3}};", f"v.template emplace<{ixs[i]}>(x, std::move(y));", f"!{E}::n2", f"CHECK({E}::copies + {E}::moves + {E}::copy_assigned + {E}::move_assigned == 0 && x.v == -2 && y.v == -3 && v.template get<{ixs[i]}>().v == 23);"),
        (f"V v(std::in_place_type<{F}>, Src{{1}});", f"v.template emplace<{ixs[i]}>();", f"!{E}::nd", f"CHECK({E}::copies + {E}::moves + {E}::copy_assigned + {E}::move_assigned == 0 && v.template get<{ixs[i]}>().v == 0);"),
        (f"V const w(std::in_place_type<{E}>, Src{{7}});", "V v{w};", f"!{E}::nc", f"CHECK({E}::copies == 1 && {E}::moves == 0 && w.template get<{ixs[i]}>().v == 7 && v.template get<{ixs[i]}>().v == 7);"),
        (f"V w(std::in_place_type<{E}>, Src{{7}});", "V v{std::move(w)};", f"!{E}::nm", f"CHECK({E}::copies == 0 && {E}::moves == 1 && w.template get<{ixs[i]}>().v == -4 && v.template get<{ixs[i]}>().v == 7);"),
        # like a std::variant
        (f"V const w(std::in_place_type<{E}>, Src{{7}}); V v(std::in_place_type<{F}>, Src{{1}});", "v = w;", f"!{E}::nca" if i == j else f"!{E}::nc", f"CHECK(w.template get<{ixs[i]}>().v == 7 && v.template get<{ixs[i]}>().v == 7" + (f" && {E}::copy_assigned == 1 && {E}::copies + {E}::moves + {E}::move_assigned == 0);" if i == j else ");")),
        (f"V w(std::in_place_type<{E}>, Src{{7}}); V v(std::in_place_type<{F}>, Src{{1}});", "v = std::move(w);", f"!{E}::nma" if i == j else f"!{E}::nm", f"CHECK(w.template get<{ixs[i]}>().v == -4 && v.template get<{ixs[i]}>().v == 7 && {E}::copies + {E}::copy_assigned == 0" + (f" && {E}::move_assigned == 1 && {E}::moves == 0);" if i == j else ");")),
    ]
    o = [f"using V = {V}; using U = {U}; int const before = alive;"]
    for tr in ("is_nothrow_default_constructible", "is_nothrow_copy_constructible", "is_nothrow_move_constructible", "is_nothrow_move_assignable", "is_nothrow_copy_assignable", "is_nothrow_swappable", "is_trivially_copyable"):
        # a specification may be weaker than it could be, but it may not promise more than the elements keep
        o.append(f"CHECK(!std::{tr}_v<V> || std::{tr}_v<U>);")
    for _ in range(4):
        setup, stmt, thr, chk = ways[t.below(len(ways))]
        zero = f"{E}::zero(); {F}::zero(); {d}::zero();"
        o.append(f"{{ {setup} {zero} {stmt} {chk} }} CHECK(alive == before);")
        o.append(f"{{ {setup} int const with = alive; bool caught = false; armed = {thr}; bool const expect = armed; try {{ {stmt} }} catch (Boom const &) {{ caught = true; }} CHECK(caught == expect && !armed); armed = false; (void) with; }} CHECK(alive == before);")
    return {"body": "\n".join(o), "nontrivial": True, "desc": f"values passed into a variant over {ixs}, indices {ixs[i]} and {ixs[j]}"}


def empty(t):
    fam = t.pick(list(FAM))
    v = t.range(0, 9)
    body = f"using V = dtl::integral_template_variant<{flit(fam, v)}, {flit(fam, v)}, {fam}>; SAME(typename V::underlying_type, std::variant<std::monostate>); V a; V b{{a}}; a = b; CHECK(a == b && !(a < b) && std::hash<V>{{}}(a) == std::hash<V>{{}}(b) && a.visit([](std::monostate) {{ return 7; }}) == 7);"
    return {"body": body, "nontrivial": False, "desc": f"empty variant at {v}"}


def bare(t):
    """elements that cannot be compared, copied, moved or default constructed: whatever does not need that still works"""
    fam = t.pick(["Nc", "Mo", "Eq", "Pin"])
    n = 1 + t.below(6)
    first = t.range(-40, 40)
    asc = t.flip()
    ixs = [first + i if asc else first - i for i in range(n)]
    V = f"dtl::integral_template_variant<{first}, {first + n if asc else first - n}, {fam}>"
    i, x = t.below(n), t.range(1, 99)
    o = [f"using V = {V}; V a(std::in_place_type<{fam}<{ixs[i]}>>, {x});"]
    model = (i, x)
    if fam != "Pin":
        o.append(f"V b; CHECK(b.index() == {ixs[0]} && b.template get<{ixs[0]}>().get() == 0);")
    for _ in range(1 + t.below(6)):
        i, x = t.below(n), t.range(1, 99)
        k = t.below(1 if fam == "Pin" else 4)
        if k == 0:
            o.append(f"CHECK(a.template emplace<{ixs[i]}>({x}).get() == {x});")
            model = (i, x)
        elif k == 1:
            o.append(f"a = V{{{fam}<{ixs[i]}>({x})}};")
            model = (i, x)
        elif k == 2:
            o.append("{ V c{std::move(a)}; b = std::move(c); a = std::move(b); }")
        elif fam != "Mo":
            o.append("b = std::as_const(a); { V c{std::as_const(b)}; CHECK(c.index() == a.index()); a = c; }")
        if fam == "Eq":
            o.append(f"{{ V e(std::in_place_type<{fam}<{ixs[i]}>>, {x}); CHECK((a == e) == {str((i, x) == model).lower()} && (e != a) == {str((i, x) != model).lower()}); }}")
        o.append(f"CHECK(a.index() == {ixs[model[0]]} && a.template holds_alternative<{ixs[model[0]]}>() && a.template get<{ixs[model[0]]}>().get() == {model[1]} && std::as_const(a).visit([](auto const &e) {{ return e.get(); }}) == {model[1]});")
    return {"body": "\n".join(o), "nontrivial": n > 1, "desc": f"{fam} over {ixs}"}


def constant(t):
    n = 1 + t.below(6)
    first = t.range(0, 100)
    asc = t.flip()
    if not asc:
        first = max(first, n)
    ixs = [first + i if asc else first - i for i in range(n)]
    i, j = t.below(n), t.below(n)
    a, b = t.range(0, 9), t.range(0, 9)
    fam = t.pick(["Y", "Z"])
    V = f"dtl::integral_template_variant<{flit(fam, first)}, {flit(fam, first + n if asc else first - n)}, {fam}>"
    body = f"""using V = {V};
constexpr auto f = [] {{ V v{{{fam}<{ixs[i]}>({a})}}; V w; w.template emplace<{ixs[j]}>({b}); bool less = v < w; V x{{w}}; w = v; v = std::move(x); return std::tuple{{less, static_cast<long>(v.index()), static_cast<long>(w.index()), v.visit([](auto const &e) {{ return e.get(); }}), w.template get<{ixs[i]}>().get(), v == w}}; }};
constexpr auto r = f();
CHECK(r == std::tuple{{{str((i, a) < (j, b)).lower()}, {ixs[j]}L, {ixs[i]}L, {b}, {a}, {str((i, a) == (j, b)).lower()}}});"""
    return {"body": body, "nontrivial": True, "desc": f"constant expression over {fam} {ixs}"}


KINDS = {"history": (itv, 6), "throwing": (throwing_emplace, 3), "passing": (passing, 4), "constant": (constant, 2), "bare": (bare, 2), "empty": (empty, 1)}
