COUNT = {"quick": 6000, "thorough": 60000}
BATCH = 120
FLAGS = ["-O0"]
INCLUDES = """
#include <array>
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>
#include <dice/template-library/stdint.hpp>
namespace dtl = dice::template_library;
using namespace dice::template_library::literals;
template<auto V> struct Val { static constexpr auto value = V; using type = decltype(V); };
// tells overloads apart by exact type
template<typename T> struct Exact { template<typename U> static constexpr bool is(U &&) { return std::is_same_v<std::remove_cvref_t<U>, T> && !std::is_reference_v<U>; } };
"""
# suffix: (type, bits of the largest value)
S = {
    "u8": ("std::uint8_t", 8), "i8": ("std::int8_t", 7), "u16": ("std::uint16_t", 16), "i16": ("std::int16_t", 15),
    "u32": ("std::uint32_t", 32), "i32": ("std::int32_t", 31), "u64": ("std::uint64_t", 64), "i64": ("std::int64_t", 63),
    "usize": ("std::size_t", 64), "isize": ("std::ptrdiff_t", 63), "uptr": ("std::uintptr_t", 64), "iptr": ("std::intptr_t", 63),
}


def value(t, bits):
    top = (1 << bits) - 1
    k = t.below(5)
    if k == 0:
        return t.below(min(top, 200) + 1)
    if k == 1:
        return top - t.below(min(top, 3) + 1)
    if k == 2:
        return max(0, min(top, (1 << t.below(bits)) + t.range(-1, 1)))
    if k == 3:
        return t.below((1 << t.range(1, bits)))
    return t.below(top + 1)


def separate(t, digits):
    if len(digits) < 2 or not t.flip():
        return digits
    out = digits[0]
    p = t.range(1, 4)
    for d in digits[1:]:
        if t.below(4) < p - 0 and t.below(5) < p:
            out += "'"
        out += d
    return out


def spell(t, v):
    k = t.below(5)
    if k <= 1:
        return separate(t, str(v)), k == 0 or v < 10
    if k == 2:
        d = "".join(c.upper() if t.flip() else c for c in format(v, "x"))
        return ("0x" if t.flip() else "0X") + separate(t, "0" * t.below(3) + d), False
    if k == 3:
        return "0" + (separate(t, "0" * t.below(2) + format(v, "o"))), False
    return ("0b" if t.flip() else "0B") + separate(t, "0" * t.below(3) + format(v, "b")), False


def exp(v):
    return f"{v}ull"


def lit(t, suffix=None):
    s = suffix or t.pick(list(S))
    ty, bits = S[s]
    v = value(t, bits)
    text, plain = spell(t, v)
    return s, ty, bits, v, f"{text}_{s}", v > 127 or not plain


def cmp(e, v):
    return f"static_cast<unsigned long long>({e}) == {exp(v)} && {e} >= 0"


def constant(t):
    s, ty, bits, v, l, nt = lit(t)
    return {"body": f"SAME(decltype({l}), {ty}); constexpr auto c = {l}; SAME(decltype(c), {ty} const); static_assert({cmp('c', v)}); CHECK({cmp(l, v)}); static_assert(noexcept({l}));", "nontrivial": nt, "desc": l}


def runtime(t):
    s, ty, bits, v, l, nt = lit(t)
    return {"body": f"{ty} x = {l}; auto y = {l}; {ty} volatile z = {l}; SAME(decltype(y), {ty}); CHECK({cmp('x', v)}); CHECK({cmp('y', v)}); CHECK(z == x); CHECK(Exact<{ty}>::is({l}));"
            f"{ty} list[]{{{l}, {l}}}; CHECK(list[0] == x && list[1] == x); CHECK(&y != nullptr); CHECK(!std::is_reference_v<decltype(({l}))>);", "nontrivial": nt, "desc": l}


def template_argument(t):
    s, ty, bits, v, l, nt = lit(t)
    return {"body": f"SAME(Val<{l}>::type, {ty}); CHECK({cmp(f'Val<{l}>::value', v)}); SAME(std::integral_constant<{ty}, {l}>, std::integral_constant<{ty}, static_cast<{ty}>({exp(v)})>);", "nontrivial": nt, "desc": l}


def positions(t):
    s, ty, bits, v, l, nt = lit(t)
    k = t.below(5)
    if k == 0:
        b = f"{ty} volatile x = static_cast<{ty}>({exp(v)}); int hit = 0; switch (x) {{ case {l}: hit = 1; break; default: hit = 2; }} CHECK(hit == 1);"
    elif k == 1:
        b = f"enum struct E : {ty} {{ a = {l} }}; CHECK({cmp(f'static_cast<{ty}>(E::a)', v)});"
    elif k == 2:
        n = v % 500 + 1
        b = f"int a[{n}_{s if n < (1 << bits) else 'u16'}]; CHECK(sizeof(a) / sizeof(a[0]) == {n}u);"
    elif k == 3:
        b = f"auto const f = []({ty} p = {l}) {{ return p; }}; CHECK({cmp('f()', v)}); CHECK({cmp(f'f({l})', v)});"
    else:
        b = f"struct M {{ {ty} m = {l}; {ty} w{{{l}}}; }} m; CHECK({cmp('m.m', v)}); CHECK({cmp('m.w', v)});"
    return {"body": b, "nontrivial": nt, "desc": l}


def negated(t):
    s = t.pick([k for k in S if k[0] == "i"])
    _, ty, bits, v, l, nt = lit(t, s)
    promoted = "int" if bits < 31 else ty
    return {"body": f"SAME(decltype(-{l}), {promoted}); constexpr auto n = -{l}; CHECK(-static_cast<__int128>({exp(v)}) == static_cast<__int128>(n)); {ty} const x = -{l}; CHECK(x == n); SAME(decltype(+{l}), {promoted});", "nontrivial": nt, "desc": "-" + l}


def mixed(t):
    a, b = lit(t), lit(t)
    return {"body": f"SAME(decltype({a[4]} + {b[4]}), decltype(std::declval<{a[1]}>() + std::declval<{b[1]}>())); CHECK(std::cmp_less({a[4]}, {b[4]}) == {str(a[3] < b[3]).lower()}); CHECK(std::cmp_equal({a[4]}, {b[4]}) == {str(a[3] == b[3]).lower()});"
            f"CHECK(static_cast<unsigned long long>({a[4]}) + static_cast<unsigned long long>({b[4]}) == {exp((a[3] + b[3]) % (1 << 64))});", "nontrivial": a[5] or b[5], "desc": a[4] + " " + b[4]}


def called(t):
    s, ty, bits, v, l, nt = lit(t)
    lo = min(v, (1 << bits) - 1)
    hi = min((1 << bits) - 1, lo + 300)
    form = t.below(3)
    pre, f = [("", f"dtl::literals::operator\"\"_{s}"), (f"using dtl::literals::operator\"\"_{s};", f"operator\"\"_{s}"), ("", f"operator\"\"_{s}")][form]
    return {"body": f"{pre} for (unsigned long long i = {exp(lo)}; ; ++i) {{ auto const got = {f}(i); SAME(decltype({f}(i)), {ty}); CHECK(static_cast<unsigned long long>(got) == i && got >= 0); if (i == {exp(hi)}) break; }}", "nontrivial": True, "desc": f"{f} {lo}..{hi}"}


def whole(t):
    s = t.pick(["u8", "i8", "u16", "i16"])
    ty, bits = S[s]
    return {"body": f"unsigned long long volatile top = {exp((1 << bits) - 1)}; unsigned long long n = 0; for (unsigned long long i = 0; i <= top; ++i) n += static_cast<unsigned long long>(dtl::literals::operator\"\"_{s}(i)) == i; CHECK(n == top + 1);", "nontrivial": True, "desc": f"all {s}"}


KINDS = {"constant": (constant, 5), "runtime": (runtime, 4), "template_argument": (template_argument, 3), "positions": (positions, 3), "negated": (negated, 3), "mixed": (mixed, 3), "called": (called, 3), "whole": (whole, 1)}
