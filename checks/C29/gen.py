COUNT = {"quick": 700, "thorough": 14000}
BATCH = 40
FLAGS = ["-O0", "-fsanitize=undefined", "-fno-sanitize-recover=all"]
INCLUDES = """
#include <array>
#include <functional>
#include <memory>
#include <ranges>
#include <variant>
#include <vector>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
namespace dtl = dice::template_library;
template<typename T> struct N {};
template<typename T> constexpr std::string_view nm() { return __PRETTY_FUNCTION__; }
struct Cls { int v; friend bool operator==(Cls const &, Cls const &) = default; };
struct MO { std::unique_ptr<int> p; MO(int v = 0) : p{std::make_unique<int>(v)} {} };
struct NoCopy { int v; explicit NoCopy(int x) : v{x} {} NoCopy(NoCopy const &) = delete; };
struct Track { int v = 0; int copies = 0; Track(int x = 0) : v{x} {} Track(Track const &o) : v{o.v}, copies{o.copies + 1} {} Track(Track &&o) noexcept : v{o.v}, copies{o.copies} {} Track &operator=(Track const &o) { v = o.v; copies = o.copies + 1; return *this; } Track &operator=(Track &&o) noexcept { v = o.v; copies = o.copies; return *this; } };
enum class En { a = 3 };
// a function object which gives its state away when it is called as a temporary
struct Giving { int *calls, *bad; bool have = true; Giving(int *c, int *b) : calls{c}, bad{b} {} Giving(Giving const &) = default; Giving(Giving &&o) : calls{o.calls}, bad{o.bad}, have{std::exchange(o.have, false)} {} void hit(bool give) { ++*calls; *bad += !have; have = have && !give; }
	void operator()(auto &&) & { hit(false); } void operator()(auto &&) && { hit(true); }
	template<typename T> void operator()() & { hit(false); } template<typename T> void operator()() && { hit(true); } };
struct GivingFold : Giving { template<typename A> A operator()(A a, auto &&) & { hit(false); return a; } template<typename A> A operator()(A a, auto &&) && { hit(true); return a; }
	template<typename T, typename A> A operator()(A a) & { hit(false); return a; } template<typename T, typename A> A operator()(A a) && { hit(true); return a; } };
inline int val(int x) { return x; } inline int val(long x) { return static_cast<int>(x); } inline int val(char x) { return x; } inline int val(double x) { return static_cast<int>(x); } inline int val(Cls const &c) { return c.v; } inline int val(MO const &m) { return m.p ? *m.p : -1; }
inline int val(NoCopy const &n) { return n.v; } inline int val(Track const &t) { return t.v + 1000 * t.copies; } inline int val(std::string const &s) { return static_cast<int>(s.size()); } inline int val(En e) { return static_cast<int>(e); }
inline void const *ad(auto const volatile &x) { return const_cast<char const *>(&reinterpret_cast<char const volatile &>(x)); }
// a tuple with a member get
template<typename A, typename B, typename C> struct Mem { A a; B b; C c;
	template<std::size_t i, typename Self> auto &&get(this Self &&self) noexcept { if constexpr (i == 0) return (std::forward<Self>(self).a); else if constexpr (i == 1) return (std::forward<Self>(self).b); else return (std::forward<Self>(self).c); } };
template<typename A, typename B, typename C> struct std::tuple_size<Mem<A, B, C>> : std::integral_constant<std::size_t, 3> {};
template<std::size_t i, typename A, typename B, typename C> struct std::tuple_element<i, Mem<A, B, C>> : std::tuple_element<i, std::tuple<A, B, C>> {};
// a tuple with a get found by ADL
namespace adl {
	// one with both, which disagree: the member is the tuple interface, as for structured bindings
	template<typename A, typename B, typename C> struct Both { A a; B b; C c;
		template<std::size_t i, typename Self> auto &&get(this Self &&self) noexcept { if constexpr (i == 0) return (std::forward<Self>(self).a); else if constexpr (i == 1) return (std::forward<Self>(self).b); else return (std::forward<Self>(self).c); } };
	inline int not_an_element = 777;
	template<std::size_t i, typename A, typename B, typename C> int &get(Both<A, B, C> const &) { return not_an_element; }
	template<typename A, typename B> struct Two { A first_; B second_; };
	template<std::size_t i, typename A, typename B> auto &get(Two<A, B> &t) { if constexpr (i == 0) return (t.second_); else return (t.first_); }
	template<std::size_t i, typename A, typename B> auto const &get(Two<A, B> const &t) { if constexpr (i == 0) return (t.second_); else return (t.first_); }
}
template<typename A, typename B, typename C> struct std::tuple_size<adl::Both<A, B, C>> : std::integral_constant<std::size_t, 3> {};
template<std::size_t i, typename A, typename B, typename C> struct std::tuple_element<i, adl::Both<A, B, C>> : std::tuple_element<i, std::tuple<A, B, C>> {};
template<typename A, typename B> struct std::tuple_size<adl::Two<A, B>> : std::integral_constant<std::size_t, 2> {};
template<typename A, typename B> struct std::tuple_element<0, adl::Two<A, B>> { using type = B; };
template<typename A, typename B> struct std::tuple_element<1, adl::Two<A, B>> { using type = A; };
struct Seen { std::string_view type; int value; void const *at; bool operator==(Seen const &) const = default; };
inline std::vector<Seen> seen;
inline int g0 = 11, g1 = 12, g2 = 13;

"""
EL = [("int", "{v}"), ("char", "'\\x0{v}'"), ("double", "{v}.0"), ("Cls", "Cls{{{v}}}"), ("MO", "MO{{{v}}}"), ("Track", "Track{{{v}}}"), ("std::string", "std::string({v}, 'x')"), ("long", "{v}L"), ("En", "En::a"), ("int &", "g{i}"), ("int const &", "g{i}")]


def tup(t, refs=True, least=0, kinds=("tuple", "pair", "array", "slt", "mem", "adl", "both")):
    """(declaration of x, list of element types in index order, values, get expression for index i of x, type)"""
    k = t.pick([k for k in kinds for _ in range(3 if k == "tuple" else 1)])
    n = {"tuple": t.size(8, least), "pair": 2, "array": t.size(6, least), "slt": t.size(6, max(1, least)), "mem": 3, "both": 3, "adl": 2}[k]
    pool = [e for e in EL if (refs and k in ("tuple", "pair")) or "&" not in e[0]]
    els = [t.pick(pool) for _ in range(n)]
    if k == "array":
        els = [els[0]] * n if n else []
    vals, inits, tys = [], [], []
    for i, (ty, f) in enumerate(els):
        v = t.range(1, 9)
        g = i % 3
        vals.append(f"g{g}" if "&" in ty else "3" if ty == "En" else str(v))
        inits.append(f.format(v=v, i=g))
        tys.append(ty)
    if k == "tuple":
        T = f"std::tuple<{', '.join(tys)}>"
        decl = f"{T} x{{{', '.join(inits)}}};" if n else f"{T} x{{}};"
    elif k == "pair":
        T = f"std::pair<{', '.join(tys)}>"
        decl = f"{T} x{{{', '.join(inits)}}};"
    elif k == "array":
        ty = tys[0] if n else t.pick([e[0] for e in pool])
        T = f"std::array<{ty}, {n}>"
        decl = f"{T} x{{{', '.join(inits)}}};"
    elif k == "slt":
        T = f"dtl::standard_layout_tuple<{', '.join(tys)}>"
        decl = f"{T} x{{{', '.join(inits)}}};"
    elif k in ("mem", "both"):
        T = f"{'Mem' if k == 'mem' else 'adl::Both'}<{', '.join(tys)}>"
        decl = f"{T} x{{{', '.join(inits)}}};"
    else:
        T = f"adl::Two<{tys[1]}, {tys[0]}>"  # reversed on purpose
        decl = f"{T} x{{{inits[1]}, {inits[0]}}};"
    get = {"tuple": "std::get<{}>(x)", "pair": "std::get<{}>(x)", "array": "std::get<{}>(x)", "slt": "x.template get<{}>()", "mem": "x.template get<{}>()", "both": "x.template get<{}>()", "adl": "get<{}>(x)"}[k]
    return decl, tys, vals, get, T


def expect_list(tys, vals, get, const):
    out = []
    for i, (ty, v) in enumerate(zip(tys, vals)):
        c = " const" if const and "&" not in ty else ""
        base = ty.replace(" &", "") if "&" in ty else ty
        ref = f"{base}{c} &"
        out.append(f"Seen{{nm<N<{ref}>>(), {v}, ad({get.format(i)})}}")
    return "std::vector<Seen>{" + ", ".join(out) + "}"


def callable_(t, params, body, ret="", tmpl=""):
    """(declarations, expression): the same function as temporary, named object, constant object or function object that cannot be copied"""
    k = t.below(4)
    lam = f"[&]{tmpl}({params}){ret} {{ {body} }}"
    if k == 0:
        return "", lam
    if k == 1:
        return f"auto fn = {lam};", "fn"
    if k == 2:
        return f"auto const fn = {lam};", "fn"
    # move-only function objects can be passed as temporaries
    return "", f"[&, only = std::make_unique<int>(1)]{tmpl}({params}) mutable{ret} {{ if (!only || *only != 1) std::abort(); {body} }}"


def for_each(t):
    decl, tys, vals, get, T = tup(t, least=1 if t.below(6) else 0)
    n = len(tys)
    self_ = t.pick(["x", "std::as_const(x)", "std::move(x)", "std::move(std::as_const(x))"])
    const = "as_const" in self_
    if "Two<" in T and self_ == "std::move(x)":
        self_ = "x"
    kind = t.below(5)
    o = [decl, "seen.clear();"]
    rec = "seen.push_back({nm<N<decltype(e)>>(), val(e), ad(e)});"
    if kind == 0 or n == 0:
        d, f = callable_(t, "auto &&e", rec)
        o.append(f"{d} dtl::tuple_for_each({self_}, {f}); SAME(decltype(dtl::tuple_for_each({self_}, {f})), void);")
    elif kind == 1:
        # the result is the one of the last call, category included
        last = tys[-1]
        d, f = callable_(t, "auto &&e", rec + " return (e);", " -> decltype(auto)")
        base = last.replace(" &", "") if "&" in last else last
        c = " const" if const and "&" not in last else ""
        o.append(f"{d} decltype(auto) r = dtl::tuple_for_each({self_}, {f}); SAME(decltype(r), {base}{c} &); CHECK(ad(r) == ad({get.format(n - 1)}));")
    elif kind == 2:
        d, f = callable_(t, "auto &&e", rec + " return MO{static_cast<int>(seen.size())};")
        o.append(f"{d} auto r = dtl::tuple_for_each({self_}, {f}); SAME(decltype(r), MO); CHECK(val(r) == {n});")
    elif kind == 3:
        # an exception stops the walk and reaches the caller
        stop = t.below(n)
        d, f = callable_(t, "auto &&e", f"if (seen.size() == {stop}) throw {stop}; " + rec)
        o.append(f"{d} int c = -1; try {{ dtl::tuple_for_each({self_}, {f}); }} catch (int i) {{ c = i; }} CHECK(c == {stop});")
        o.append(f"auto const want = {expect_list(tys, vals, get, const)}; CHECK((std::vector<Seen>(want.begin(), want.begin() + {stop}) == seen));")
        return {"body": "\n".join(o), "nontrivial": n > 1, "desc": f"tuple_for_each over {T}, throwing at {stop}"}
    else:
        # a state kept in the callable lives through all calls
        o.append(f"int total = 0; dtl::tuple_for_each({self_}, [&, k = 1](auto &&e) mutable {{ {rec} total += k * k; ++k; }}); CHECK(total == {sum(i * i for i in range(1, n + 1))});")
    o.append(f"CHECK((seen == {expect_list(tys, vals, get, const)}));")
    if n and not const and kind == 0 and "std::move" not in self_:
        # the elements themselves are passed: writing to them
        if all(ty in ("int", "double", "long", "char") for ty in tys):
            o.append("dtl::tuple_for_each(x, [](auto &e) { e = static_cast<std::remove_reference_t<decltype(e)>>(e + 1); });")
            o += [f"CHECK(val({get.format(i)}) == {v} + 1);" for i, v in enumerate(vals)]
    o.append(f"{{ int calls = 0, bad = 0; dtl::tuple_for_each({self_}, Giving{{&calls, &bad}}); CHECK(calls == {n} && bad == 0); Giving own{{&calls, &bad}}; dtl::tuple_for_each({self_}, own); CHECK(calls == 2 * {n} && bad == 0 && own.have); }}")
    return {"body": "\n".join(o), "nontrivial": n > 1, "desc": f"tuple_for_each over {T} as {self_}"}


def fold(t):
    decl, tys, vals, get, T = tup(t, least=1 if t.below(6) else 0)
    n = len(tys)
    self_ = t.pick(["x", "std::as_const(x)", "std::move(x)"])
    o = [decl, "seen.clear();"]
    rec = "seen.push_back({nm<N<decltype(e)>>(), val(e), ad(e)});"
    k = t.below(6)
    m = t.range(2, 40)
    a = t.range(0, 9)
    if k == 0:
        # not commutative, not associative
        d, f = callable_(t, "long acc, auto &&e", rec + f" return (acc * {m} - val(e)) % 1000003;", " -> long")
        o.append(f"{d} auto r = dtl::tuple_fold({self_}, {a}L, {f}); SAME(decltype(r), long); long want = {a}; {' '.join(f'want = (want * {m} - {v}) % 1000003;' for v in vals)} CHECK(r == want);")
    elif k == 1:
        d, f = callable_(t, "std::string acc, auto &&e", rec + " return acc + '<' + std::to_string(val(e)) + '>';", " -> std::string")
        init = t.pick(['std::string{"s"}', "s0", "std::as_const(s0)", "std::move(s0)"])
        o.append(f'std::string s0 = "s"; {d} auto r = dtl::tuple_fold({self_}, {init}, {f}); SAME(decltype(dtl::tuple_fold({self_}, {init}, {f})), std::string); std::string want = "s"; {" ".join(f"""want += "<" + std::to_string({v}) + ">";""" for v in vals)} CHECK(r == want);')
        if "move" not in init:
            o.append('CHECK(s0 == "s");')
    elif k == 2:
        # accumulators that can only be moved
        d, f = callable_(t, "MO acc, auto &&e", rec + " return MO{val(acc) * 2 + val(e)};", " -> MO")
        o.append(f"{d} auto r = dtl::tuple_fold({self_}, MO{{{a}}}, {f}); SAME(decltype(r), MO); int want = {a}; {' '.join(f'want = want * 2 + {v};' for v in vals)} CHECK(val(r) == want);")
    elif k == 3:
        # the accumulator is handed on without copies
        d, f = callable_(t, "Track acc, auto &&e", rec + " acc.v = acc.v * 3 + val(e); return acc;", " -> Track")
        lv = t.flip()
        o.append(f"Track t0{{{a}}}; {d} auto r = dtl::tuple_fold({self_}, {'t0' if lv else 'std::move(t0)'}, {f}); int want = {a}; {' '.join(f'want = want * 3 + {v};' for v in vals)} CHECK(r.v == want && r.copies == {1 if lv else 0} && t0.v == {a} && t0.copies == 0);")
    elif k == 4:
        # accumulators passed by reference
        d, f = callable_(t, "std::vector<int> &&acc, auto &&e", rec + " acc.push_back(val(e)); return std::move(acc);", " -> std::vector<int>")
        o.append(f"{d} auto r = dtl::tuple_fold({self_}, std::vector<int>{{{a}}}, {f}); CHECK((r == std::vector<int>{{{', '.join([str(a), *vals])}}}));")
    else:
        # arrays decay like any other argument passed by value
        d, f = callable_(t, "char const *acc, auto &&e", rec + " return acc + 1;", " -> char const *")
        o.append(f'char const text[] = "0123456789"; {d} auto r = dtl::tuple_fold({self_}, text, {f}); SAME(decltype(r), char const *); CHECK(r == text + {n});')
    o.append(f"CHECK((seen == {expect_list(tys, vals, get, True)}));")
    o.append(f"{{ int calls = 0, bad = 0; (void) dtl::tuple_fold({self_}, 0, GivingFold{{{{&calls, &bad}}}}); CHECK(calls == {n} && bad == 0); GivingFold own{{{{&calls, &bad}}}}; (void) dtl::tuple_fold({self_}, 0, own); CHECK(calls == 2 * {n} && bad == 0 && own.have); }}")
    return {"body": "\n".join(o), "nontrivial": n > 1, "desc": f"tuple_fold over {T}"}


TYPES = ["int", "int &", "int const", "int const &", "int &&", "Cls", "NoCopy", "MO", "std::string const &", "void", "Cls *", "int[3]", "void(int)", "N<int>", "NoCopy &", "volatile char", "std::tuple<int>", "Inc"]


def type_list_of(t, least=0):
    k = t.below(4)
    if k == 3:
        n = t.size(6, least)
        ty = t.pick(["int", "Cls", "NoCopy", "MO", "N<int>"])
        return f"std::array<{ty}, {n}>", [ty] * n
    if k == 2:
        tys = [t.pick(TYPES[:9]) for _ in range(2)]
        return f"std::pair<{', '.join(tys)}>", tys
    tys = [t.pick(TYPES) for _ in range(t.size(9, least))]
    if k == 1:
        return f"Types<{', '.join(tys)}>", tys
    return f"std::tuple<{', '.join(tys)}>", tys


INCLUDES += """struct Inc; template<typename... T> struct Types;
template<typename... T> struct std::tuple_size<Types<T...>> : std::integral_constant<std::size_t, sizeof...(T)> {};
template<std::size_t i, typename... T> struct std::tuple_element<i, Types<T...>> { using type = typename std::tuple_element<i, std::tuple<std::type_identity<T>...>>::type::type; };
"""


def names(tys):
    return "std::vector<std::string_view>{" + ", ".join(f"nm<N<{x}>>()" for x in tys) + "}"


def type_for_each(t):
    T, tys = type_list_of(t, 1 if t.below(6) else 0)
    n = len(tys)
    k = t.below(4) if n else 0
    rec = "got.push_back(nm<N<E>>());"
    o = ["std::vector<std::string_view> got;"]
    if k == 0:
        d, f = callable_(t, "", rec, "", "<typename E>")
        o.append(f"{d} dtl::tuple_type_for_each<{T}>({f}); SAME(decltype(dtl::tuple_type_for_each<{T}>({f})), void);")
    elif k == 1:
        d, f = callable_(t, "", rec + " return std::string{nm<N<E>>()};", "", "<typename E>")
        o.append(f"{d} auto r = dtl::tuple_type_for_each<{T}>({f}); SAME(decltype(r), std::string); CHECK(r == nm<N<{tys[-1]}>>());")
    elif k == 2:
        stop = t.below(n)
        d, f = callable_(t, "", f"if (got.size() == {stop}) throw {stop}; " + rec, "", "<typename E>")
        o.append(f"{d} int c = -1; try {{ dtl::tuple_type_for_each<{T}>({f}); }} catch (int i) {{ c = i; }} CHECK(c == {stop} && (got == {names(tys[:stop])}));")
        return {"body": "\n".join(o), "nontrivial": n > 1, "desc": f"tuple_type_for_each over {T}, throwing at {stop}"}
    else:
        d, f = callable_(t, "", rec + " return (g1);", " -> int &", "<typename E>")
        o.append(f"{d} auto &r = dtl::tuple_type_for_each<{T}>({f}); CHECK(&r == &g1);")
    o.append(f"CHECK((got == {names(tys)}));")
    o.append(f"{{ int calls = 0, bad = 0; dtl::tuple_type_for_each<{T}>(Giving{{&calls, &bad}}); CHECK(calls == {n} && bad == 0); Giving own{{&calls, &bad}}; dtl::tuple_type_for_each<{T}>(own); CHECK(calls == 2 * {n} && bad == 0 && own.have); }}")
    return {"body": "\n".join(o), "nontrivial": n > 1, "desc": f"tuple_type_for_each over {T}"}


def type_fold(t):
    T, tys = type_list_of(t)
    k = t.below(3)
    a = t.range(0, 9)
    o = []
    if k == 0:
        d, f = callable_(t, "std::vector<std::string_view> acc", "acc.push_back(nm<N<E>>()); return acc;", "", "<typename E>")
        o.append(f"{d} auto r = dtl::tuple_type_fold<{T}>(std::vector<std::string_view>{{}}, {f}); CHECK((r == {names(tys)}));")
    elif k == 1:
        d, f = callable_(t, "MO acc", "return MO{val(acc) * 3 + (std::is_reference_v<E> ? 1 : std::is_class_v<E> ? 2 : 0)};", " -> MO", "<typename E>")
        w = a
        cls = ("Cls", "NoCopy", "MO", "N<int>", "std::tuple<int>", "Inc", "std::string")
        o.append(f"{d} auto r = dtl::tuple_type_fold<{T}>(MO{{{a}}}, {f}); SAME(decltype(r), MO); int want = {a}; {' '.join(f'want = want * 3 + (std::is_reference_v<{x}> ? 1 : std::is_class_v<{x}> ? 2 : 0);' for x in tys)} CHECK(val(r) == want);")
    else:
        d, f = callable_(t, "Track acc", "acc.v = acc.v * 2 + 1; return acc;", " -> Track", "<typename E>")
        w = a
        for _ in tys:
            w = w * 2 + 1
        lv = t.flip()
        o.append(f"Track t0{{{a}}}; {d} auto r = dtl::tuple_type_fold<{T}>({'t0' if lv else 'std::move(t0)'}, {f}); CHECK(r.v == {w} && r.copies == {int(lv)} && t0.v == {a} && t0.copies == 0);")
    o.append(f"{{ int calls = 0, bad = 0; (void) dtl::tuple_type_fold<{T}>(0, GivingFold{{{{&calls, &bad}}}}); CHECK(calls == {len(tys)} && bad == 0); GivingFold own{{{{&calls, &bad}}}}; (void) dtl::tuple_type_fold<{T}>(0, own); CHECK(calls == 2 * {len(tys)} && bad == 0 && own.have); }}")
    return {"body": "\n".join(o), "nontrivial": len(tys) > 1, "desc": f"tuple_type_fold over {T}"}


def constant(t):
    """type folds and walks in constant expressions"""
    T, tys = type_list_of(t, 1)
    m = t.range(2, 9)
    body = f"""constexpr long r = dtl::tuple_type_fold<{T}>({m}L, []<typename E>(long acc) {{ return acc * {m} + std::is_reference_v<E> + 2 * std::is_const_v<E>; }});
long want = {m}; {' '.join(f'want = want * {m} + std::is_reference_v<{x}> + 2 * std::is_const_v<{x}>;' for x in tys)} CHECK(r == want);
constexpr long s = [] {{ long total = 1; dtl::tuple_type_for_each<{T}>([&]<typename E> {{ total = total * {m} + std::is_reference_v<E>; }}); return total; }}();
want = 1; {' '.join(f'want = want * {m} + std::is_reference_v<{x}>;' for x in tys)} CHECK(s == want);"""
    if len(tys) > 15:
        body = ""
    return {"body": body, "nontrivial": len(tys) > 1, "desc": f"constant expressions over {T}"}


KINDS = {"for_each": (for_each, 5), "fold": (fold, 5), "type_for_each": (type_for_each, 2), "type_fold": (type_fold, 2), "constant": (constant, 1)}
