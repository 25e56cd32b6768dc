COUNT = {"quick": 1100, "thorough": 12000}
BATCH = 40
FLAGS = ["-O0"]
INCLUDES = """
#include <vector>
#include <dice/template-library/for.hpp>
#include <dice/template-library/integral_sequence.hpp>
namespace dtl = dice::template_library;
enum struct En : unsigned char { a = 1, b = 7 };
struct St { int x; char y; bool operator==(St const &) const = default; };
struct A {}; struct Inc;
inline int globals[4];
// a function object which gives its state away when it is called as a temporary
struct Giving { int *calls, *bad; bool have = true; void hit(bool give) { ++*calls; *bad += !have; have = have && !give; }
	void operator()(auto &&) & { hit(false); } void operator()(auto &&) && { hit(true); }
	template<typename T> void operator()() & { hit(false); } template<typename T> void operator()() && { hit(true); } };
template<typename T> inline constexpr int id = -1;
""" + "".join(f"template<> inline constexpr int id<{x}> = {i};\n" for i, x in enumerate(["int", "int const", "int &", "char &&", "void", "A", "Inc", "int[3]", "void(int)", "A *", "std::tuple<int, A>", "unsigned"]))
TY = ["int", "int const", "int &", "char &&", "void", "A", "Inc", "int[3]", "void(int)", "A *", "std::tuple<int, A>", "unsigned"]
INTS = {
    "int": (-(2**31), 2**31 - 1), "long": (-(2**63), 2**63 - 1), "unsigned": (0, 2**32 - 1), "unsigned long": (0, 2**64 - 1), "short": (-(2**15), 2**15 - 1),
    "signed char": (-128, 127), "unsigned char": (0, 255), "unsigned short": (0, 65535), "long long": (-(2**63), 2**63 - 1), "std::size_t": (0, 2**64 - 1), "char16_t": (0, 65535),
}


def lit(ty, v):
    if v == -(2**63):
        return f"static_cast<{ty}>(-9223372036854775807LL - 1)"
    return f"static_cast<{ty}>({v}{'ULL' if v > 2**63 - 1 else 'LL'})"


def bounds(t, top=24):
    ty = t.pick(list(INTS))
    lo, hi = INTS[ty]
    n = t.size(top) if t.below(12) != 11 else t.range(60, 127)
    n = min(n, hi - lo)
    base = [0, lo, hi - n, t.range(-60, 60), t.range(0, 120)][t.below(5)]
    base = max(lo, min(base, hi - n))
    if t.flip():
        return ty, base, base + n, list(range(base, base + n))
    return ty, base + n, base, list(range(base + n, base, -1))


def for_range(t):
    ty, first, last, want = bounds(t)
    wide = ty not in ("short", "signed char", "unsigned char", "unsigned short", "char16_t")
    body = [f"using V = {ty};", "std::vector<__int128> seen; std::vector<__int128> const want{" + ", ".join(lit("__int128", v) for v in want) + "};"]
    form = t.below(4)
    rec = "static_assert(c == decltype(c)::value); seen.push_back(decltype(c)::value);" + (" static_assert(std::is_same_v<typename decltype(c)::value_type, V>);" if wide else "")
    if form == 0:
        body.append(f"dtl::for_range<{lit(ty, first)}, {lit(ty, last)}>([&](auto c) {{ {rec} }});")
    elif form == 1:
        body.append(f"int n = 0; auto f = [&, own = 0](auto c) mutable {{ {rec} ++own; n = own; }}; dtl::for_range<{lit(ty, first)}, {lit(ty, last)}>(f); CHECK(n == {len(want)});")
    elif form == 2:
        body.append(f"auto const f = [&](auto c) {{ {rec} }}; dtl::for_range<{lit(ty, first)}, {lit(ty, last)}>(f);")
    else:
        k = t.below(max(1, len(want)))
        body.append(f"bool caught = false; try {{ dtl::for_range<{lit(ty, first)}, {lit(ty, last)}>([&](auto c) noexcept(decltype(c)::value != {lit(ty, want[k] if want else 0)}) {{ if constexpr (decltype(c)::value == {lit(ty, want[k] if want else 0)}) {{ throw 5; }} {rec} }}); }} catch (int e) {{ caught = e == 5; }} CHECK(caught == {str(bool(want)).lower()}); for (size_t i = {k}; i < want.size(); ++i) {{ seen.push_back(want[i]); }}")
    body.append("CHECK(seen == want);")
    if len(want) <= 16:
        body.append(f"{{ int n = 0, bad = 0; dtl::for_range<{lit(ty, first)}, {lit(ty, last)}>(Giving{{&n, &bad}}); CHECK(n == {len(want)} && bad == 0); }}")
        body.append(f"constexpr unsigned long long h = [] {{ unsigned long long h = 1; dtl::for_range<{lit(ty, first)}, {lit(ty, last)}>([&](auto c) {{ h = h * 1000003 + static_cast<unsigned long long>(c); }}); return h; }}();")
        h = 1
        for v in want:
            h = (h * 1000003 + v) % 2**64
        body.append(f"CHECK(h == {h}ULL);")
    return {"body": "\n".join(body), "nontrivial": len(want) > 1, "desc": f"for_range from {first} to {last} of {ty}"}


def sequences(t):
    ty, first, last, want = bounds(t)
    seq = ", ".join([ty] + [lit(ty, v) for v in want])
    body = [f"using S = dtl::make_integer_sequence<{ty}, {lit(ty, first)}, {lit(ty, last)}>;", f"SAME(S, std::integer_sequence<{seq}>); CHECK(S::size() == {len(want)});",
            f"using LL = dtl::make_integral_constant_list<{ty}, {lit(ty, first)}, {lit(ty, last)}>;",
            f"SAME(LL, dtl::type_list::type_list<{', '.join(f'std::integral_constant<{ty}, {lit(ty, v)}>' for v in want)}>);"]
    a, b = t.size(20), t.size(20)
    ix = list(range(a, b)) if a <= b else list(range(a, b, -1))
    body.append(f"SAME(dtl::make_index_sequence<{a}, {b}>, std::index_sequence<{', '.join(map(str, ix))}>);")
    return {"body": "\n".join(body), "nontrivial": len(want) > 1, "desc": f"integer sequence from {first} to {last} of {ty}; index sequence {a} to {b}"}


def for_types(t):
    xs = [t.below(len(TY)) for _ in range(t.size(9))]
    args = ", ".join(TY[i] for i in xs)
    lead = f"<{args}>" if xs else ""
    body = [f"std::vector<int> seen; std::vector<int> const want{{{', '.join(map(str, xs))}}};"]
    call = f"dtl::for_types{lead}"
    form = t.below(4)
    if form == 3:
        # only one of the types makes the body throw, for the others it is noexcept
        k = t.below(max(1, len(xs)))
        bad = xs[k] if xs else -1
        k = xs.index(bad) if xs else 0
        body.append(f"auto f = [&]<typename T>() noexcept(id<T> != {bad}) {{ if constexpr (id<T> == {bad}) {{ throw 5; }} seen.push_back(id<T>); }}; int caught = 0; try {{ {call}(f); }} catch (int e) {{ caught = e; }}")
        body.append(f"CHECK(caught == {5 if xs else 0}); std::vector<int> w(want.begin(), want.begin() + {k}); CHECK(seen == w);")
    elif form == 0:
        body.append(f"{call}([&]<typename T>() {{ seen.push_back(id<T>); }});")
    elif form == 1:
        body.append(f"int own = 0; auto f = [&]<typename T>() mutable {{ seen.push_back(id<T>); ++own; }}; {call}(f); CHECK(own == {len(xs)});")
    else:
        k = t.below(max(1, len(xs)))
        body.append(f"auto f = [&]<typename T>() {{ if (seen.size() == {k}) throw 5; seen.push_back(id<T>); }}; int caught = 0; try {{ {call}(f); }} catch (int e) {{ caught = e; }}")
        body.append(f"CHECK(caught == {5 if xs else 0}); std::vector<int> w(want.begin(), want.begin() + {k if xs else 0}); CHECK(seen == w);")
    if form < 2:
        body.append("CHECK(seen == want);")
    h = 3
    for i in xs:
        h = (h * 31 + i) % 1000003
    body.append(f"constexpr int h = [] {{ int h = 3; {call}([&]<typename T>() {{ h = (h * 31 + id<T>) % 1000003; }}); return h; }}(); CHECK(h == {h});")
    body.append(f"{{ int n = 0, bad = 0; {call}(Giving{{&n, &bad}}); CHECK(n == {len(xs)} && bad == 0); }}")
    return {"body": "\n".join(body), "nontrivial": len(xs) > 1, "desc": f"for_types over {args}"}


def value(t):
    k = t.below(9)
    if k == 0:
        v = t.range(-100, 100)
        return str(v), "int"
    if k == 1:
        v = t.below(256)
        return f"static_cast<unsigned char>({v})", "unsigned char"
    if k == 2:
        return t.pick(["true", "false"]), "bool"
    if k == 3:
        return t.pick(["En::a", "En::b", "En{99}"]), "En"
    if k == 4:
        return f"&globals[{t.below(4)}]", "int *"
    if k == 5:
        return f"St{{{t.range(-9, 9)}, 'c'}}", "St"
    if k == 6:
        return f"{t.pick([0, 1, 2**63, 2**64 - 1])}ULL", "unsigned long long"
    if k == 7:
        return "nullptr", "std::nullptr_t"
    return f"{t.range(-5, 5)}L", "long"


def for_values(t):
    xs = [value(t) for _ in range(t.size(9))]
    vals = ", ".join(v for v, _ in xs)
    n = t.below(4)
    quiet = t.pick(["", " noexcept"])
    body = ["int ix = 0; int wrong = 0;"]
    stop, throws = len(xs), ""
    if n == 3 and xs:
        # only the elements of one type may throw
        stop = t.below(len(xs))
        quiet = f" noexcept(!std::is_same_v<std::remove_cv_t<typename decltype(c)::value_type>, {xs[stop][1]}>)"
        throws = f"if constexpr (std::is_same_v<T, {xs[stop][1]}>) {{ if (ix == {stop}) throw 5; }}\n"
    tests = "".join(f"if (ix == {i}) {{ if constexpr (std::is_same_v<T, {ty}>) {{ wrong += !(c.value == {v}) + !(decltype(c)::value == {v}); }} else {{ ++wrong; }} }}\n" for i, (v, ty) in enumerate(xs))
    lam = f"[&](auto c){quiet} {{ using T = std::remove_cv_t<typename decltype(c)::value_type>;\n{throws}{tests}++ix; }}"
    call = f"dtl::for_values<{vals}>"
    if n == 0:
        body.append(f"{call}({lam});")
    elif n == 3:
        body.append(f"int caught = 0; try {{ {call}({lam}); }} catch (int e) {{ caught = e; }} CHECK(caught == {5 if xs else 0});")
    elif n == 1:
        body.append(f"auto f = {lam}; {call}(f);")
    else:
        body.append(f"auto const f = {lam}; {call}(f); static_assert(std::is_void_v<decltype({call}(f))>);")
    body.append(f"CHECK(ix == {stop}); CHECK(wrong == 0);")
    body.append(f"{{ int n = 0, bad = 0; {call}(Giving{{&n, &bad}}); CHECK(n == {len(xs)} && bad == 0); }}")
    return {"body": "\n".join(body), "nontrivial": len(xs) > 1, "desc": f"for_values over {vals}"}


KINDS = {"for_range": (for_range, 3), "sequences": (sequences, 3), "for_types": (for_types, 2), "for_values": (for_values, 2)}
