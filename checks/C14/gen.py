COUNT = {"quick": 640, "thorough": 14000}
BATCH = 20
FLAGS = ["-O0"]
INCLUDES = """
#include <memory>
#include <dice/template-library/switch_cases.hpp>
namespace dtl = dice::template_library;
// what happened during one dispatch
inline int n_case, n_default;
inline long long seen;
inline void reset() { n_case = n_default = 0; seen = 0; }
struct MoveOnly { std::unique_ptr<long long> p; };
inline long long slots[64];
struct Throw { long long v; };
"""
TYPES = {
    "int": (-(2**31), 2**31 - 1), "long": (-(2**63), 2**63 - 1), "unsigned": (0, 2**32 - 1), "unsigned long": (0, 2**64 - 1), "short": (-(2**15), 2**15 - 1),
    "signed char": (-128, 127), "unsigned char": (0, 255), "unsigned short": (0, 65535), "long long": (-(2**63), 2**63 - 1), "char": (-128, 127), "char16_t": (0, 65535), "std::size_t": (0, 2**64 - 1),
}


def lit(ty, v):
    if v == -(2**63):
        return f"static_cast<{ty}>(-9223372036854775807LL - 1)"
    return f"static_cast<{ty}>({v}{'ULL' if v > 2**63 - 1 else 'LL'})"


# how the result is returned: (name, case expression, default expression, declared check of the result r for value v and whether it is inside)
def results(t, sz):
    k = t.below(6)
    return [
        ("value", "return static_cast<long long>(static_cast<unsigned long long>(i) * 3 + 1);", "return -77LL;", "SAME(decltype(CALL), long long);", "auto r = CALL; CHECK(r == (IN ? static_cast<long long>(static_cast<unsigned long long>(v) * 3 + 1) : -77));", "long long"),
        ("void", "", "", "SAME(decltype(CALL), void);", "CALL;", "void"),
        ("reference", "return (slots[static_cast<unsigned long long>(i) % 63]);", "return (slots[63]);", "SAME(decltype(CALL), long long &);", "auto &r = CALL; CHECK(&r == &slots[IN ? static_cast<unsigned long long>(v) % 63 : 63]);", "long long &"),
        ("move-only", "return MoveOnly{std::make_unique<long long>(static_cast<long long>(i))};", "return MoveOnly{};", "SAME(decltype(CALL), MoveOnly);", "auto r = CALL; CHECK((r.p == nullptr) == !IN); CHECK(!IN || *r.p == static_cast<long long>(v));", "MoveOnly"),
        ("rvalue reference", "return std::move(slots[static_cast<unsigned long long>(i) % 63]);", "return std::move(slots[63]);", "SAME(decltype(CALL), long long &&);", "auto &&r = CALL; CHECK(&r == &slots[IN ? static_cast<unsigned long long>(v) % 63 : 63]);", "long long &&"),
        ("const reference", "return std::as_const(slots[static_cast<unsigned long long>(i) % 63]);", "return std::as_const(slots[63]);", "SAME(decltype(CALL), long long const &);", "auto &r = CALL; CHECK(&r == &slots[IN ? static_cast<unsigned long long>(v) % 63 : 63]);", "long long const &"),
    ][k]


def callable_(t, name, body, rty, generic):
    """(declaration, expression to pass): a callable that only accepts the value category it is passed with"""
    k = t.below(5)
    # the constant must really be usable as one
    params = "C c" if generic else ""
    tmpl = "template<typename C> " if generic else ""
    count = "static constexpr auto i = C::value; ++n_case; seen = static_cast<long long>(i); static_assert(c == i);" if generic else "++n_default;"
    if k == 4:
        lam = f"[&]({'auto c' if generic else ''}) -> {rty} {{ " + (count.replace("C::value", "decltype(c)::value") if generic else count) + f" {body} }}"
        return "", lam
    q = ["&", "const &", "&&", "const"][k]
    decl = f"struct {name} {{ std::shared_ptr<int> guts = std::make_shared<int>(1); {'' if k != 2 else f'{name}() = default; {name}({name} &&) = default;'} {tmpl}{rty} operator()({params}) {q} {{ if (guts == nullptr || *guts != 1) std::abort(); {count} {body} }} }};"
    use = [f"{name.lower()}", f"std::as_const({name.lower()})", f"{name}{{}}", f"std::as_const({name.lower()})"][k]
    return decl, use


def cases(t):
    ty = t.pick(list(TYPES))
    lo, hi = TYPES[ty]
    n = [0, 1, 2, 3, 5, 8, 13, 20][t.below(8)]
    anchor = t.below(5)
    base = [0, lo, hi - n, t.range(-30, 30), t.range(0, 100)][anchor]
    base = max(lo, min(base, hi - n))
    a, b = base, base + n
    zero_form = t.below(3) == 2
    if zero_form:
        a, b = (0, n) if lo == 0 or t.flip() else (-n, 0)
    first, last = (a, b) if t.flip() else (b, a)
    if zero_form:
        first, last = 0, (b if a == 0 else a)
    name, case, dflt, typecheck, use, rty = results(t, n)
    decl_f, f = callable_(t, "F", case, rty, True)
    decl_d, d = callable_(t, "D", dflt, rty, False)
    has_default = t.below(4) != 3 or n == 0
    args = f"{lit(ty, last)}" if zero_form else f"{lit(ty, first)}, {lit(ty, last)}"
    call = f"dtl::switch_cases<{args}>(v, {f}{', ' + d if has_default else ''})"
    vals = {a, b, a - 1, b - 1, b + 1, a + 1, (a + b) // 2, lo, hi, 0, t.range(-40, 40), a + t.below(n + 1)}
    if n <= 8:
        vals |= set(range(a - 2, b + 2))
    vals = sorted(v for v in vals if lo <= v <= hi)
    if not has_default:
        vals = [v for v in vals if a <= v < b]
    body = [f"using V = {ty};", "[[maybe_unused]] F f;" if decl_f and f != "F{}" else "", "[[maybe_unused]] D d;" if decl_d and d != "D{}" else ""]
    body.append(f"auto call = [&](V v) -> decltype(auto) {{ return {call}; }};")
    call = "call(v)"
    body.append("V const vals[]{" + ", ".join([lit(ty, v) for v in vals] or ["0"]) + "};")
    body.append("for (V v : vals) {" + ("" if vals else " break;"))
    inside = f"({lit(ty, a)} <= v && v < {lit(ty, b)})" if n else "false"
    body.append(f"bool const IN = {inside}; reset();")
    body.append(typecheck.replace("CALL", call))
    body.append("CHECK(n_case == 0 && n_default == 0);")
    body.append(use.replace("CALL", call))
    body.append("CHECK(n_case == (IN ? 1 : 0) && n_default == (IN ? 0 : 1)); CHECK(!IN || seen == static_cast<long long>(v));")
    body.append("}")
    # at compile time
    if has_default and t.flip():
        body.append("constexpr auto pf = [](auto c) { return static_cast<__int128>(decltype(c)::value) + 5; }; constexpr auto pd = [] { return static_cast<__int128>(-1000); };")
        pure = f"dtl::switch_cases<{args}>(x, pf, pd)"
        for v in vals[:: max(1, len(vals) // 5)]:
            body.append(f"{{ constexpr V x = {lit(ty, v)}; constexpr __int128 r = {pure}; CHECK(r == {'static_cast<__int128>(x) + 5' if a <= v < b else '-1000'}); }}")
    return {"decl": decl_f + "\n" + decl_d, "body": "\n".join(body), "nontrivial": n > 1, "desc": f"switch over [{a}, {b}) of {ty} given as <{args}>, {name} results, {'with' if has_default else 'without'} default"}


def throwing(t):
    """exceptions of cases and default pass through; nothing else is called"""
    n = 2 + t.below(5)
    first = t.range(-4, 4)
    k = first + t.below(n)
    body = f"""
for (int v = {first} - 1; v <= {first + n}; ++v) {{
reset();
long long got = 0; bool thrown = false;
try {{
got = dtl::switch_cases<{first}, {first + n}>(v, [&](auto c) -> long long {{ ++n_case; if constexpr (c == {k}) throw Throw{{c}}; return c; }}, [&]() -> long long {{ ++n_default; throw Throw{{99}}; }});
}} catch (Throw const &x) {{ thrown = true; got = x.v; }}
bool const in = v >= {first} && v < {first + n};
CHECK(n_case == in && n_default == !in && thrown == (!in || v == {k}) && got == (in ? v : 99));
}}"""
    return {"body": body, "nontrivial": True, "desc": f"throwing case {k} of [{first}, {first + n})"}


def boolean(t):
    name, case, dflt, typecheck, use, rty = results(t, 2)
    decl_f, f = callable_(t, "F", case, rty, True)
    call = f"dtl::switch_bool(v, {f})"
    body = ["[[maybe_unused]] F f;" if decl_f and f != "F{}" else "", f"auto call = [&](bool v) -> decltype(auto) {{ return {call}; }};", "for (bool v : {false, true}) {", "bool const IN = true; reset();", typecheck.replace("CALL", "call(v)"), "CHECK(n_case == 0);", use.replace("CALL", "call(v)"),
            "CHECK(n_case == 1 && seen == (v ? 1 : 0));", "}",
            "constexpr bool at_compile_time = dtl::switch_bool(true, [](auto c) { return decltype(c)::value; }) && !dtl::switch_bool(false, [](auto c) { return decltype(c)::value; }); CHECK(at_compile_time);"]
    return {"decl": decl_f, "body": "\n".join(body), "nontrivial": True, "desc": f"switch_bool with {name} result, called as {f}"}


def nested(t):
    """switches inside cases"""
    a, b, c, d = t.range(-5, 5), t.range(-5, 5), t.range(0, 6), t.range(0, 6)
    body = f"""
for (int x = -7; x < 8; ++x) for (unsigned y = 0; y < 9; ++y) {{
int calls = 0;
auto r = dtl::switch_cases<{a}, {b}>(x, [&](auto i) {{
return dtl::switch_cases<{c}U, {d}U>(y, [&](auto j) {{ ++calls; return std::string{{"case "}} + std::to_string(i) + ' ' + std::to_string(j); }}, [&] {{ ++calls; return "inner " + std::to_string(i); }});
}}, [&] {{ ++calls; return std::string{{"outer"}}; }});
bool const in = x >= {min(a, b)} && x < {max(a, b)}, in2 = y >= {min(c, d)}U && y < {max(c, d)}U;
CHECK(calls == 1 && r == (!in ? std::string{{"outer"}} : !in2 ? "inner " + std::to_string(x) : "case " + std::to_string(x) + ' ' + std::to_string(y)));
}}"""
    return {"body": body, "nontrivial": a != b, "desc": f"nested switches over {a}..{b} and {c}..{d}"}


KINDS = {"cases": (cases, 8), "throwing": (throwing, 1), "boolean": (boolean, 2), "nested": (nested, 1)}
