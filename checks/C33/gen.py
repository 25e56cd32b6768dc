import os

COUNT = {"quick": 1500, "thorough": 12000}
BATCH = 60
FLAGS = ["-O0", "-DFMT_HEADER_ONLY", "-I", os.path.dirname(os.path.abspath(__file__))]
# two constant evaluators: where g++ accepts too much or gets it wrong, clang++ is right, and the other way round
COMPILERS = {"quick": ["clang++-18", "g++-14"], "thorough": ["clang++-18", "g++-14"]}
INCLUDES = """#include "progs.hpp"
template<auto f> concept constant = requires { typename std::bool_constant<(static_cast<void>(f()), true)>; };
"""

DYN = "std::dynamic_extent"
PROGS = {
    "flex_array": [f"flex_prog<{t}, {e}, {x}>" for t in ("int", "Box") for e, x in ((3, 3), (1, 1), (DYN, 5), (DYN, DYN))],
    "algorithms": ["algo_prog"],
    "range": ["range_prog<int, int>", "range_prog<unsigned, unsigned>", "range_prog<long, long>", "range_prog<signed char, signed char>", "range_prog<unsigned short, int>"],
    "next_to_range": ["next_prog"],
    "opt_minmax": ["opt_prog"],
    "ipow": ["ipow_prog<int, int>", "ipow_prog<signed char, int>", "ipow_prog<unsigned long, unsigned>", "ipow_prog<long, signed char>", "ipow_prog<unsigned char, unsigned short>", "ipow_prog<short, unsigned long>"],
    "integral_template_tuple": ["ituple_prog<0, 4>", "ituple_prog<2, -2>", "ituple_prog<-1, 0>"],
    "integral_template_variant": ["ivariant_prog<0, 4>", "ivariant_prog<2, -2>", "ivariant_prog<-1, 0>"],
    "tuples": ["tuple_prog"],
    "loops": ["loop_prog"],
    "pointer_tag_pair": ["tag_prog<std::uint8_t>", "tag_prog<Tag>", "tag_prog<std::uint64_t>"],
    "allocator": ["alloc_prog<dtl::polymorphic_allocator<int, std::allocator>>"],
}


def kind(name):
    def f(t):
        prog = t.pick(PROGS[name])
        data = [t.below(256) for _ in range(t.size(40, 1))]
        arr = ", ".join(map(str, data))
        cond = "1"
        if prog.startswith("flex_prog<Box") and not prog.endswith(f"<Box, {DYN}, {DYN}>"):
            cond = "defined(__clang__)"  # g++ 14 copies arrays of classes bitwise in constant evaluation
        elif prog == f"flex_prog<int, {DYN}, 5>" or prog.startswith(("next_", "range_")):
            cond = "!defined(__clang__)"  # copies elements behind the size, or a std::optional that was reset, which are indeterminate; g++ allows that
        return {
            "decl": f"constexpr std::uint8_t bytes[]{{{arr}}};\n#if {cond}\nconstexpr Out at_compile_time = {prog}(In{{bytes, {len(data)}}});\n#else\nOut const at_compile_time = {prog}(In{{bytes, {len(data)}}});\n#endif",
            "body": f"std::vector<std::uint8_t> copy(std::begin(bytes), std::end(bytes)); Out const at_run_time = {prog}(In{{copy.data(), copy.size()}});\n"
            "CHECK(at_run_time.bad == 0); CHECK(at_compile_time.bad == 0); CHECK(at_compile_time == at_run_time);",
            "nontrivial": len(data) >= 4,
            "desc": f"{prog} {data}",
        }

    return f




def power(b, e):
    return (1 if b == 1 or e % 2 == 0 else -1) if e < 0 and b in (1, -1) else 0 if e < 0 else b**e


def accepted(t):
    """expressions that are constant only if the operation is allowed: errors must be rejected, not swallowed"""
    k = t.below(7)
    if k == 0:
        ty, lo, hi = t.pick([("signed char", -128, 127), ("unsigned char", 0, 255), ("short", -(1 << 15), (1 << 15) - 1), ("unsigned short", 0, (1 << 16) - 1), ("int", -(1 << 31), (1 << 31) - 1), ("unsigned", 0, (1 << 32) - 1), ("long", -(1 << 63), (1 << 63) - 1), ("unsigned long", 0, (1 << 64) - 1)])
        b = t.range(-12 if lo else 0, 12)
        e = t.range(-3, 70)
        if b == 0 and e < 0:
            e = -e
        ok = lo <= power(b, e) <= hi
        expr = f"dtl::ipow(static_cast<{ty}>({b}), {e})"
        want = f"static_cast<{ty}>({power(b, e)}{'u' if hi >> 63 else ''})" if ok and power(b, e) != -(1 << 63) else None
    elif k == 1:
        e, x = t.pick([("3", "3"), ("1", "1"), (DYN, "4"), (DYN, DYN)])
        n = t.below(7)
        vals = [str(t.below(9)) for _ in range(n)]
        ok = (n == int(e)) if e != DYN else (x == DYN or n <= int(x))
        expr = f"dtl::flex_array<int, {e}, {x}>{{{', '.join(vals)}}}.size()" if n else f"dtl::flex_array<int, {e}, {x}>(std::initializer_list<int>{{}}).size()"
        want = f"{n}u"
    elif k == 2:
        n, m = t.below(5), t.range(1, 4)
        vals = ", ".join(str(t.below(9)) for _ in range(n))
        ok = n == m
        expr = f"dtl::flex_array<int, {m}>(dtl::flex_array<int, {DYN}, 4>(std::initializer_list<int>{{{vals}}})).size()"
        want = f"{n}u"
    elif k == 3:
        lo = t.range(-4, 3)
        hi = lo + t.range(1, 5)
        x = t.range(-7, 9)
        ok = lo <= x < hi
        expr = f"dtl::switch_cases<{lo}, {hi}>({x}, [](auto i) {{ return static_cast<int>(decltype(i)::value) * 3; }})"
        want = str(x * 3)
    elif k == 4:
        lo = t.range(-2, 2)
        at, get = t.below(4), t.below(4)
        ok = at == get
        expr = f"dtl::integral_template_variant<{lo}, {lo + 4}, Cell>(Cell<{lo + at}>{{7}}).get<{lo + get}>().v"
        want = "7"
    elif k == 5:
        vals = [str(t.below(9)) if t.flip() else "std::nullopt" for _ in range(t.range(1, 4))]
        f = t.pick(["min", "max"])
        have = [int(v) for v in vals if v[0] != "s"]
        ok = bool(have)
        expr = f"dtl::opt_{f}<int>({{{', '.join('std::optional<int>{' + v + '}' for v in vals)}}}).value()"
        want = str({"min": min, "max": max}[f](have)) if ok else None
    else:
        a, b = t.range(-5, 5), t.range(-5, 5)
        s = t.pick([1, 2, 3, -1, -2])
        vals = list(range(a, b, s))
        i = t.below(8)
        ok = i < len(vals)
        expr = f"dtl::range({a}, {b}, {s})[{i}]"
        want = str(vals[i]) if ok else None
    body = f"CHECK(constant<[] {{ return {expr}; }}> == {str(ok).lower()});"
    if ok and want is not None:
        body += f" constexpr auto v = {expr}; CHECK(v == {want});"
    return {"body": body, "nontrivial": True, "desc": expr}


KINDS = {"accepted": (accepted, 4), **{k: (kind(k), 3 if k in ("flex_array", "algorithms", "range") else 2) for k in PROGS}}
