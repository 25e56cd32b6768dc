COUNT = {"quick": 1800, "thorough": 16000}
BATCH = 60
FLAGS = ["-O0"]
# every third program sees the implementation for compilers without __type_pack_element
PREAMBLES = ["", "", """
#if __has_include(<dice/template-library/macro_util.hpp>)
#include <dice/template-library/macro_util.hpp>
#ifdef DICE_COMPILER_HAS_BUILTIN
#undef DICE_COMPILER_HAS_BUILTIN
#define DICE_COMPILER_HAS_BUILTIN(x) 0
#endif
#endif
"""]
POOL = ["int", "int const", "int &", "int &&", "char", "void", "int[3]", "int[]", "void(int)", "A", "Incomplete", "Abstract", "A *", "A const volatile", "tl<>", "tl<int>", "tl<int, int>",
        "std::tuple<>", "std::tuple<int, A>", "std::integral_constant<int, 0>", "std::nullptr_t", "long double", "L::nullopt", "std::type_identity<int>"]
N = len(POOL)
NEAR = [[POOL.index(x) for x in g] for g in (["int", "int const", "int &", "int &&"], ["A", "A const volatile", "A *"], ["int[3]", "int[]", "int *" if "int *" in POOL else "int"], ["tl<>", "tl<int>", "tl<int, int>", "std::tuple<>"], ["int", "std::type_identity<int>", "std::integral_constant<int, 0>"], ["void", "void(int)", "std::nullptr_t"])]
INCLUDES = """
#include <array>
#include <functional>
#include <memory>
#include <vector>
#include <variant>
#include <dice/template-library/type_list.hpp>
namespace L = dice::template_library::type_list;
template<typename ...Ts> using tl = L::type_list<Ts...>;
struct A {};
struct Incomplete;
struct Abstract { virtual void f() = 0; };
template<int> struct pool;
template<typename T> inline constexpr int id = -1;
""" + "".join(f"template<> struct pool<{i}> {{ using type = {t}; }};\ntemplate<> inline constexpr int id<{t}> = {i};\n" for i, t in enumerate(POOL)) + """
template<int i> using P = typename pool<i>::type;
template<int ...is> using PL = tl<P<is>...>;
template<unsigned long mask> inline constexpr auto in_mask = []<typename T>(std::type_identity<T>) { return ((mask >> id<T>) & 1) != 0; };
template<typename X> concept has_type = requires { typename X::type; };
template<typename X> concept has_value = requires { X::value; };
// a function object which gives its state away when it is called as a temporary
struct Giving { int *calls, *bad; bool have = true; void hit(bool give) { ++*calls; *bad += !have; have = have && !give; }
	void operator()(auto &&) & { hit(false); } void operator()(auto &&) && { hit(true); }
	template<typename T> void operator()() & { hit(false); } template<typename T> void operator()() && { hit(true); } };
struct GivingFold : Giving { template<typename A> A operator()(A a, auto &&) & { hit(false); return a; } template<typename A> A operator()(A a, auto &&) && { hit(true); return a; }
	template<typename T, typename A> A operator()(A a) & { hit(false); return a; } template<typename T, typename A> A operator()(A a) && { hit(true); return a; } };
struct Counter { int calls = 0, last = -1; template<typename T> void operator()(std::type_identity<T>) { ++calls; last = id<T>; } };
struct OnlyMove { int *k; explicit OnlyMove(int *p) : k{p} {} OnlyMove(OnlyMove &&) = default; template<typename T> void operator()(std::type_identity<T>) { ++*k; } };
struct Folder { int calls = 0; template<typename T> int operator()(int acc, std::type_identity<T>) { return acc + id<T> * ++calls; } };
struct Acc { static inline int copies = 0; int sum = 0; Acc() = default; Acc(Acc const &o) : sum{o.sum} { ++copies; } Acc(Acc &&) = default; Acc &operator=(Acc const &o) { sum = o.sum; ++copies; return *this; } Acc &operator=(Acc &&) = default; };
template<typename ...Ts> struct Holder {};
template<typename A0, typename ...Ts> struct Holder1 {};
"""


def ids(t, hi=8, lo=0):
    """a list of pool indexes, with duplicates made likely"""
    if t.below(4) == 3:  # types that are almost the same; one of them most of the time
        g = t.pick(NEAR)
        n = t.size(hi, lo)
        x = [g[0] if t.below(3) else t.pick(g)] * n
        for _ in range(t.below(3)):
            if n:
                x[t.below(n)] = t.pick(g)
        return x
    some = [t.below(N) for _ in range(1 + t.below(5))]
    return [t.pick(some) if t.flip() else t.below(N) for _ in range(t.size(hi, lo))]


def PL(x):
    return f"PL<{', '.join(map(str, x))}>"


def mask(t, x):
    """a predicate, biased so that it is neither always true nor always false on x"""
    m = 0
    for i in sorted(set(x)):
        if t.flip():
            m |= 1 << i
    for i in range(N):
        if i not in x and t.below(4) == 1:
            m |= 1 << i
    return m


def uniq(x):
    return list(dict.fromkeys(x))


def b(v):
    return "true" if v else "false"


def access(t):
    x = ids(t)
    out = [f"using X = {PL(x)};", f"CHECK(L::size_v<X> == {len(x)} && L::size<X>::value == {len(x)});"]
    if x:
        out += [f"SAME(L::first_t<X>, P<{x[0]}>);", f"SAME(L::last_t<X>, P<{x[-1]}>);", f"SAME(typename L::first<X>::type, L::opt_t<L::first<X>>);", "SAME(L::opt_t<L::last<X>>, L::last_t<X>);"]
    else:
        out += ["CHECK(!has_type<L::first<X>> && !has_type<L::last<X>>);", "SAME(L::opt_t<L::first<X>>, L::nullopt);", "SAME(L::opt_t<L::last<X>>, L::nullopt);"]
    for i in range(len(x)):
        out.append(f"SAME(L::nth_t<X, {i}>, P<{x[i]}>);")
        out.append(f"SAME(L::opt_t<L::nth<X, {i}>>, P<{x[i]}>);")
    k = len(x) + t.below(3)
    out.append(f"CHECK(!has_type<L::nth<X, {k}>>); SAME(L::opt_t<L::nth<X, {k}>>, L::nullopt);")
    k = t.below(len(x) + 1)
    out += [f"SAME(L::take_t<X, {k}>, {PL(x[:k])});", f"SAME(L::drop_t<X, {k}>, {PL(x[k:])});", f"SAME(L::concat_t<L::take_t<X, {k}>, L::drop_t<X, {k}>>, X);"]
    return {"body": "\n".join(out), "nontrivial": len(x) > 0, "desc": f"element access and slices of {x}"}


def search(t):
    x = ids(t)
    m = mask(t, x)
    needles = [t.below(N), t.pick(x) if x else 0]
    hits = [i for i, v in enumerate(x) if m >> v & 1]
    out = [f"using X = {PL(x)};", f"constexpr auto p = in_mask<{m}>;"]
    out.append(f"SAME(L::filter_t<X, p>, {PL([x[i] for i in hits])});")
    if hits:
        out += [f"SAME(L::find_if_t<X, p>, P<{x[hits[0]]}>);", f"CHECK(L::position_v<X, p> == {hits[0]});", f"CHECK(L::opt_v<L::position<X, p>> == {hits[0]}UL);", f"SAME(L::opt_t<L::find_if<X, p>>, P<{x[hits[0]]}>);"]
    else:
        out += ["CHECK(!has_type<L::find_if<X, p>> && !has_value<L::position<X, p>>);", "SAME(L::opt_t<L::find_if<X, p>>, L::nullopt);", "CHECK(L::opt_v<L::position<X, p>> == L::nullopt{});"]
    for n in needles:
        out += [f"CHECK(L::count_v<X, P<{n}>> == {x.count(n)});", f"CHECK(L::contains_v<X, P<{n}>> == {b(n in x)});"]
    out.append(f"CHECK(L::all_of_v<X, p> == {b(len(hits) == len(x))} && L::any_of_v<X, p> == {b(bool(hits))} && L::none_of_v<X, p> == {b(not hits)});")
    out.append(f"CHECK(L::all_same_v<X> == {b(len(set(x)) <= 1)} && L::all_distinct_v<X> == {b(len(set(x)) == len(x))});")
    out.append(f"SAME(L::unique_t<X>, {PL(uniq(x))});")
    return {"body": "\n".join(out), "nontrivial": len(x) > 1, "desc": f"search in {x} with predicate {m:b}"}


def mapping(t):
    x = ids(t)
    f = {i: t.below(N) for i in sorted(set(x))}
    table = ", ".join(str(f.get(i, 0)) for i in range(N))
    out = [f"using X = {PL(x)};", f"constexpr auto f = []<typename T>(std::type_identity<T>) {{ constexpr int m[]{{{table}}}; return pool<m[id<T>]>{{}}; }};",
           f"SAME(L::transform_t<X, f>, {PL([f[i] for i in x])});"]
    n = t.below(9)
    g = [t.below(N) for _ in range(n)]
    out += [f"constexpr auto g = [](auto ix) {{ constexpr int m[]{{{', '.join(map(str, g + [0]))}}}; return pool<m[decltype(ix)::value]>{{}}; }};", f"SAME(L::generate_t<{n}, g>, {PL(g)});"]
    # order sensitive fold and for_each, at run time and at compile time
    out += ["{ std::string s; L::for_each<X>([&]<typename T>(std::type_identity<T>) { s += std::to_string(id<T>) + ','; });",
            f"CHECK(s == \"{''.join(f'{i},' for i in x)}\");",
            "auto r = L::fold<X>(std::string{\">\"}, []<typename T>(std::string acc, std::type_identity<T>) { return '(' + acc + std::to_string(id<T>) + ')'; });",
            f"CHECK(r == \"{'(' * len(x)}>{''.join(f'{i})' for i in x)}\"); }}"]
    # function objects are called, not copied; the accumulator is moved from call to call
    out += ["{ Counter c; L::for_each<X>(c); CHECK(c.calls == %d && c.last == %d); Counter d; L::for_each<X>(std::ref(d)); CHECK(d.calls == %d); int k = 0; OnlyMove m{&k}; L::for_each<X>(std::move(m)); L::for_each<X>(OnlyMove{&k}); L::for_each<X>(m); CHECK(k == %d); }" % (len(x), x[-1] if x else -1, len(x), 3 * len(x)),
            "{ auto r = L::fold<X>(std::make_unique<int>(0), []<typename T>(std::unique_ptr<int> a, std::type_identity<T>) { *a += id<T> + 1; return a; }); CHECK(*r == %d); }" % sum(i + 1 for i in x),
            "{ Acc::copies = 0; Acc a; Acc r = L::fold<X>(std::move(a), []<typename T>(Acc x, std::type_identity<T>) { x.sum += id<T> + 1; return x; }); CHECK(Acc::copies == 0 && r.sum == %d); }" % sum(i + 1 for i in x),
            "{ Folder f; int r = L::fold<X>(0, f); CHECK(f.calls == %d && r == %d); r = L::fold<X>(0, Folder{}); CHECK(r == %d); }" % (len(x), sum(i * (k + 1) for k, i in enumerate(x)), sum(i * (k + 1) for k, i in enumerate(x)))]
    acc = 7
    for i in x:
        acc = (acc * 31 + i) % 1000003
    out.append(f"{{ int n = 0, bad = 0; L::for_each<X>(Giving{{&n, &bad}}); (void) L::fold<X>(0, GivingFold{{{{&n, &bad}}}}); CHECK(n == {2 * len(x)} && bad == 0); }}")
    out.append(f"constexpr int folded = L::fold<X>(7, []<typename T>(int acc, std::type_identity<T>) {{ return (acc * 31 + id<T>) % 1000003; }}); CHECK(folded == {acc});")
    return {"body": "\n".join(out), "nontrivial": len(x) > 1, "desc": f"transform, generate, fold over {x}"}


def lists(t):
    xs = [ids(t, 4) for _ in range(t.below(5))]
    flat = [i for x in xs for i in x]
    args = ", ".join(PL(x) for x in xs)
    out = [f"SAME(L::concat_t<{args}>, {PL(flat)});", f"SAME(L::flatten_t<tl<{args}>>, {PL(flat)});", f"SAME(L::apply_t<{PL(flat)}, Holder>, Holder<{', '.join(f'P<{i}>' for i in flat)}>);",
           f"SAME(L::unpack_t<Holder<{', '.join(f'P<{i}>' for i in flat)}>>, {PL(flat)});", f"SAME(L::unpack_t<{PL(flat)}>, {PL(flat)});"]
    if flat:
        out += [f"SAME(L::apply_t<{PL(flat)}, Holder1>, Holder1<{', '.join(f'P<{i}>' for i in flat)}>);", f"SAME(L::unpack_t<Holder1<{', '.join(f'P<{i}>' for i in flat)}>>, {PL(flat)});"]
    ok = [i for i in flat if POOL[i] in ("int", "char", "A", "A *", "int const", "std::tuple<int, A>", "std::nullptr_t", "long double", "int &", "tl<int>")]
    ps = ", ".join(f"P<{i}>" for i in ok)
    q = t.pick(["", " const"])
    if q:  # elements of a constant tuple are constant
        out.append(f"SAME(L::tuple_to_type_list_t<std::tuple<{ps}> const>, tl<{', '.join(f'std::add_const_t<P<{i}>>' for i in ok)}>);")
    else:
        out.append(f"SAME(L::tuple_to_type_list_t<std::tuple<{ps}>>, {PL(ok)});")
    out.append(f"SAME(L::unpack_t<std::tuple<{ps}>>, {PL(ok)}); SAME(L::apply_t<L::tuple_to_type_list_t<std::tuple<{ps}>>, std::tuple>, std::tuple<{ps}>);")
    if len(ok) >= 2:
        out.append(f"SAME(L::tuple_to_type_list_t<std::pair<P<{ok[0]}>, P<{ok[1]}>>>, {PL(ok[:2])});")
    k = t.below(5)
    out.append(f"SAME(L::tuple_to_type_list_t<std::array<short, {k}>>, tl<{', '.join(['short'] * k)}>);")
    ty = t.pick(["int", "unsigned char", "long", "bool", "char"])
    vals = [t.below(2 if ty == "bool" else 100) for _ in range(t.below(6))]
    out.append(f"SAME(L::integer_sequence_to_type_list_t<std::integer_sequence<{', '.join([ty] + [str(v) for v in vals])}>>, tl<{', '.join(f'std::integral_constant<{ty}, {v}>' for v in vals)}>);")
    return {"body": "\n".join(out), "nontrivial": len(flat) > 1, "desc": f"concatenation and conversion of {xs}"}


def chain(t):
    """a composition of operations"""
    x = ids(t, 8, 1)
    expr = PL(x)
    aux = []
    for k in range(2 + t.below(4)):
        op = t.below(7)
        if op == 0:
            n = t.below(len(x) + 1)
            expr, x = f"L::take_t<{expr}, {n}>", x[:n]
        elif op == 1:
            n = t.below(len(x) + 1)
            expr, x = f"L::drop_t<{expr}, {n}>", x[n:]
        elif op == 2:
            expr, x = f"L::unique_t<{expr}>", uniq(x)
        elif op == 3:
            m = mask(t, x)
            expr, x = f"L::filter_t<{expr}, in_mask<{m}UL>>", [i for i in x if m >> i & 1]
        elif op == 4 and len(x) < 9:
            y = ids(t, 3)
            expr, x = (f"L::concat_t<{PL(y)}, {expr}>", y + x) if t.flip() else (f"L::concat_t<{expr}, {PL(y)}>", x + y)
        elif op == 5:
            s = 1 + t.below(N - 1)
            expr, x = f"L::transform_t<{expr}, shift<{s}>>", [(i + s) % N for i in x]
        else:
            expr, x = f"L::unpack_t<L::apply_t<{expr}, Holder>>", x
    return {"decl": f"template<int s> inline constexpr auto shift = []<typename T>(std::type_identity<T>) {{ return pool<(id<T> + s) % {N}>{{}}; }};",
            "body": f"using X = {expr};\nSAME(X, {PL(x)});\nCHECK(L::size_v<X> == {len(x)});", "nontrivial": True, "desc": f"composition yielding {x}"}


KINDS = {"access": (access, 2), "search": (search, 3), "mapping": (mapping, 2), "lists": (lists, 2), "chain": (chain, 2)}
