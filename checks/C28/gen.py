COUNT = {"quick": 300, "thorough": 12000}
BATCH = 25
FLAGS = ["-O0", "-Wno-non-pod-varargs", "-fsanitize=undefined", "-fno-sanitize-recover=all"]
INCLUDES = """
#include <functional>
#include <memory>
#include <ranges>
#include <variant>
#include <vector>
#include <dice/template-library/functional.hpp>
#include <dice/template-library/memfn.hpp>
#include <dice/template-library/overloaded.hpp>
#include <dice/template-library/variant2.hpp>
namespace dtl = dice::template_library;
template<typename T> struct N {};
template<typename T> constexpr std::string_view nm() { return __PRETTY_FUNCTION__; }
// what a call received
struct Arg { std::string_view type; long value; void const *lv; bool operator==(Arg const &) const = default; };
inline std::vector<Arg> seen;
inline int calls;
// counts what happens to it
struct Track { long v = 0; int copies = 0, moves = 0; Track(long x = 0) : v{x} {} Track(Track const &o) : v{o.v}, copies{o.copies + 1}, moves{o.moves} {} Track(Track &&o) noexcept : v{o.v}, copies{o.copies}, moves{o.moves + 1} { o.v = -1; } Track &operator=(Track const &) = default;
	long code() const { return v + 1000 * copies + 100000 * moves; } friend bool operator==(Track const &a, Track const &b) { return a.v == b.v; } };
struct MO { std::unique_ptr<long> p; MO(long x = 0) : p{std::make_unique<long>(x)} {} };
inline long val(Track const &t) { return t.code(); }
inline long val(MO const &m) { return m.p ? *m.p : -1; }
inline long val(std::string const &s) { return static_cast<long>(s.size()); }
inline long val(char const *s) { return static_cast<long>(s[0]); }
template<typename T> requires std::is_arithmetic_v<T> long val(T x) { return static_cast<long>(x); }
inline long val(int *p) { return *p; }
template<typename T> long val(std::reference_wrapper<T> const &r) { return val(r.get()); }
template<typename A> void note(A &&a, bool bound) {
	seen.push_back(Arg{nm<N<A &&>>(), val(std::as_const(a)), std::is_lvalue_reference_v<A> && !bound ? static_cast<void const *>(&a) : nullptr});
}
inline long sink = 5;
inline long const csink = 6;
// how many leading arguments are bound (their addresses differ between binders)
inline int n_bound;
template<int mode, bool eat> struct Fn {
	template<typename... A> static void rec(A &&...a) {
		++calls;
		int i = 0;
		(note<A>(static_cast<A &&>(a), i++ < n_bound), ...);
		if constexpr (eat) (..., [](auto &&x) { if constexpr (!std::is_lvalue_reference_v<decltype(x)> && !std::is_const_v<std::remove_reference_t<decltype(x)>>) { [[maybe_unused]] auto taken = std::move(x); } }(static_cast<A &&>(a)));
	}
	template<typename... A> decltype(auto) operator()(A &&...a) const noexcept(mode % 2 == 0) {
		rec(static_cast<A &&>(a)...);
		if constexpr (mode == 0) return (sink); else if constexpr (mode == 1) return (csink); else if constexpr (mode == 2) return std::move(sink); else if constexpr (mode == 3) return Track{7};
		else if constexpr (mode == 4) return; else if constexpr (mode == 5) return MO{9}; else return static_cast<char>('x');
	}
};
// bound and call argument categories the target insists on
struct Obj {
	int field = 3;
	int id;
	Obj(int i = 0) : id{i} {}
	long get(int a) { return id * 100 + a; }
	long cget(int a, int b) const noexcept { return id * 100 + a * 10 + b; }
	long rget() && { return id + 7; }
	long lget() & { return id + 8; }
	long &ref(long &r) { return r; }
	virtual long virt(int x) const { return x; }
	virtual ~Obj() = default;
};
struct Der : Obj { using Obj::Obj; long virt(int x) const override { return x * 2 + id; } };
inline long free3(int a, long &b, MO &&c) { b += a; return val(c) + b; }
inline long freen(int a, int b) noexcept { return a - b; }
inline Track ft(Track a, Track const &b, Track &&c) { return Track{a.v * 100 + b.v * 10 + c.v}; }
constexpr int cx(int a, int b, int c) { return a * 100 + b * 10 + c; }
// alternatives and parameter types for overload sets
struct B0 { int x; }; struct D0 : B0 {}; struct FromInt { int v; FromInt(int i) : v{i} {} }; struct ToInt { operator int() const { return 4; } }; enum Un : short { un = 2 }; enum class Sc { a, b };
template<int i> struct Tag { static constexpr int value = i; };
template<typename F, typename... A> constexpr int chosen() { if constexpr (std::is_invocable_v<F, A...>) return std::invoke_result_t<F, A...>::value; else return -1; }
"""
VALS = [  # (declaration of a fresh object named {n} with value {v}, type, copyable, literal-like prvalue)
    ("int", "int {n} = {v};", "int({v})", True),
    ("Track", "Track {n}{{{v}}};", "Track{{{v}}}", True),
    ("MO", "MO {n}{{{v}}};", "MO{{{v}}}", False),
    ("std::string", "std::string {n}({v}, 'x');", "std::string({v}, 'y')", True),
    ("double", "double {n} = {v};", "double({v})", True),
    ("char const *", 'char const *{n} = "{v}";', '"{v}"', True),
    ("std::reference_wrapper<long>", "long r{n} = {v}; auto {n} = std::ref(r{n});", "std::ref(sink)", True),
    ("int *", "int q{n} = {v}; int *{n} = &q{n};", "nullptr", True),
]


def arg(t, name, copyable_from_lvalue):
    """(declarations, expression): an argument of some type and value category"""
    ty, decl, pr, copyable = t.pick(VALS[:7])
    v = t.range(1, 9)
    k = t.below(5)
    d = decl.format(n=name, v=v)
    if k == 0:
        return "", pr.format(v=v)
    if k == 1 and (copyable or not copyable_from_lvalue):
        return d, name
    if k == 2 and (copyable or not copyable_from_lvalue):
        return d, f"std::as_const({name})"
    if k == 4 and copyable:
        return d, f"std::move(std::as_const({name}))"
    return d, f"std::move({name})"


def bind(t):
    """against std::bind_front with a recording target"""
    mode, eat = t.below(7), t.flip()
    nb, nr = t.size(4), t.size(4)
    bound = [arg(t, f"b{i}", True) for i in range(nb)]
    ncalls = 1 + t.below(3)
    fn = f"Fn<{mode}, {str(eat).lower()}>{{}}"
    o = []

    def side(std):
        o = ["{"]
        if std:
            o[0] += "seen.clear(); calls = 0;"
        o += [d for d, _ in bound]
        b = ", ".join(e for _, e in bound)
        o.append(f"auto f = {'std::bind_front(' + fn + (', ' + b if b else '') + ')' if std else 'dtl::bind_front<' + fn + '>(' + b + ')'};")
        return o

    rest = [[arg(t, f"r{c}_{i}", False) for i in range(nr)] for c in range(ncalls)]
    selfs = [t.pick(["f", "std::as_const(f)", "std::move(f)", "std::move(std::as_const(f))"]) for _ in range(ncalls)]
    o.append(f"n_bound = {nb};")
    # the call arguments are shared, so that their addresses can be compared; they are rebuilt for every call
    decls = []
    o.append("std::vector<Arg> log[2]; int made[2]; std::vector<std::string_view> types[2]; std::vector<bool> nx[2]; std::vector<long> res[2];")
    o.append("auto go = [&]<typename F>(int which, F &f) { calls = 0;")
    for c in range(ncalls):
        args = ", ".join(e for _, e in rest[c])
        call = f"{selfs[c]}({args})"
        o.append("{ seen.clear();")
        o += [d for d, _ in rest[c]]
        o.append(f"static std::byte frame; (void) frame; types[which].push_back(nm<N<decltype({call})>>()); nx[which].push_back(noexcept({call}));")
        if mode == 4:
            o.append(f"{call};")
        else:
            o.append(f"decltype(auto) r = {call}; res[which].push_back(val(r)); {'res[which].push_back(&r == &sink);' if mode in (0, 2) else 'res[which].push_back(&r == &csink);' if mode == 1 else ''}")
        # addresses of call arguments: relative to the arguments themselves
        lv = [e.removeprefix("std::as_const(").rstrip(")") for _, e in rest[c]]
        o.append("for (std::size_t i = 0; i != seen.size(); ++i) { if (seen[i].lv != nullptr) {")
        for i, (d, e) in enumerate(rest[c]):
            if d and "std::move" not in e:
                o.append(f"if (i == {nb + i}) {{ CHECK(seen[i].lv == &{lv[i]}); }}")
        o.append("seen[i].lv = nullptr; } } log[which].insert(log[which].end(), seen.begin(), seen.end()); }")
    o.append("made[which] = calls; };")
    for std in (True, False):
        o += side(std)
        o.append(f"go({0 if std else 1}, f); }}")
    o.append(f"CHECK(made[1] == {ncalls} && made[0] == {ncalls}); CHECK(log[0].size() == {ncalls * (nb + nr)} && log[0] == log[1]); CHECK(types[0] == types[1]); CHECK(nx[0] == nx[1]); CHECK(res[0] == res[1]);")
    return {"body": "\n".join(o), "nontrivial": nb > 0, "desc": f"bind_front with {nb} bound and {nr} call arguments, called as {', '.join(selfs)}"}


def bind_known(t):
    """functions, member functions, member data, virtual dispatch, constant expressions"""
    a, b, c = t.range(-9, 9), t.range(-9, 9), t.range(0, 9)
    k = t.below(12)
    body = [
        f"long x = {b}; auto f = dtl::bind_front<&free3>({a}); SAME(decltype(f(x, MO{{1}})), long); CHECK(f(x, MO{{{c}}}) == {c} + {a} + {b} && x == {a} + {b}); CHECK(!noexcept(f(x, MO{{1}})));",
        f"long x = {b}; auto f = dtl::bind_front<&free3>({a}, std::ref(x)); CHECK(f(MO{{{c}}}) == {c} + {a} + {b} && x == {a} + {b}); CHECK(std::as_const(f)(MO{{{c}}}) == {c} + {a} + {a} + {b});",
        f"auto f = dtl::bind_front<&freen>({a}); CHECK(f({b}) == {a} - {b} && noexcept(f(1))); auto g = dtl::bind_front<freen>({a}, {b}); CHECK(g() == {a} - {b}); auto h = dtl::bind_front<&freen>(); CHECK(h({a}, {b}) == {a} - {b});",
        f"Obj o{{{c}}}; auto f = dtl::bind_front<&Obj::get>(&o); CHECK(f({a}) == {c * 100 + a}); auto g = dtl::bind_front<&Obj::get>(std::ref(o), {a}); o.id = {b}; CHECK(g() == {b * 100 + a} && f({c}) == {b * 100 + c}); CHECK(!noexcept(f(1)));",
        f"auto f = dtl::bind_front<&Obj::cget>(Obj{{{c}}}, {a}); CHECK(f({b}) == {c * 100 + a * 10 + b} && noexcept(f(1)) && std::as_const(f)({b}) == f({b}) && std::move(f)({b}) == {c * 100 + a * 10 + b});",
        f"auto f = dtl::bind_front<&Obj::rget>(Obj{{{c}}}); CHECK(std::move(f)() == {c + 7}); auto g = dtl::bind_front<&Obj::lget>(Obj{{{c}}}); CHECK(g() == {c + 8});",
        f"Obj o{{{c}}}; auto f = dtl::bind_front<&Obj::field>(&o); f() = {a}; CHECK(o.field == {a}); SAME(decltype(f()), int &); auto g = dtl::bind_front<&Obj::field>(); SAME(decltype(g(std::as_const(o))), int const &); CHECK(&g(o) == &o.field); SAME(decltype(g(Obj{{}})), int &&);",
        f"Der d{{{c}}}; auto f = dtl::bind_front<&Obj::virt>(static_cast<Obj const *>(&d)); CHECK(f({a}) == {a * 2 + c}); auto g = dtl::bind_front<&Obj::virt>(d); CHECK(g({a}) == {a * 2 + c}); long x = 1; auto h = dtl::bind_front<&Obj::ref>(&d); CHECK(&h(x) == &x);",
        f"Track x{{{c}}}; Track y{{2}}; auto f = dtl::bind_front<&ft>(x, std::ref(y)); Track z{{3}}; CHECK(f(std::move(z)).v == {c} * 100 + 23); CHECK(x.v == {c}); y.v = 4; CHECK(f(Track{{5}}).v == {c} * 100 + 45); CHECK(std::move(f)(Track{{6}}).v == {c} * 100 + 46);",
        f"constexpr auto f = dtl::bind_front<&cx>({a}, {b}); constexpr int r = f({c}); CHECK(r == {a * 100 + b * 10 + c}); constexpr int s = dtl::bind_front<[](int x, int y) {{ return x * 7 - y; }}>({a})({b}); CHECK(s == {a * 7 - b});",
        f"std::vector<int> const v{{{a}, {b}, {c}}}; std::vector<int> got; for (int x : v | std::views::transform(dtl::bind_front<&cx>(1, {c}))) got.push_back(x); CHECK((got == std::vector<int>{{{100 + c * 10 + a}, {100 + c * 10 + b}, {100 + c * 11}}}));",
        f"auto f = dtl::bind_front<[](MO a, MO &&b, std::unique_ptr<int> &c) {{ *c += 1; return val(a) * 10 + val(b); }}>(MO{{{c}}}, MO{{{c + 1}}}); auto u = std::make_unique<int>({a}); auto g = std::move(f); CHECK(std::move(g)(u) == {c * 10 + c + 1} && *u == {a + 1}); "
        f"auto thrower = dtl::bind_front<[](int x, int y) -> int {{ throw x + y; }}>({a}); int e = 0; try {{ thrower({b}); }} catch (int x) {{ e = x; }} CHECK(e == {a + b} && !noexcept(thrower(1)));",
    ][k]
    return {"body": body, "nontrivial": True, "desc": f"bind_front of a known target {k}"}


def noexc(t):
    """noexcept mirrors the call that is made"""
    q = [t.pick(["", "const", "&", "const &", "&&", "const &&"]) for _ in range(2)]
    fs = []
    done = set()
    for _ in range(1 + t.below(4)):
        par = t.pick(["Track &", "Track const &", "Track &&", "Track const &&", "Track"])
        if par in done or (par == "Track" and done) or "Track" in done:
            continue
        done.add(par)
        fs.append(f"int operator()({par}) const {t.pick(['', 'noexcept'])} {{ return {len(fs) + 1}; }}")
        if t.below(3) == 2:
            fs.append(f"int operator()({par}) {t.pick(['', 'noexcept'])} {{ return {len(fs) + 10}; }}")
    # the target is called as a constant lvalue: compare with calling it by hand
    lines = []
    for cat, s in (("Track &", "b"), ("Track const &", "std::as_const(b)"), ("Track &&", "std::move(b)"), ("Track const &&", "std::move(std::as_const(b))")):
        lines.append(f"if constexpr (std::is_invocable_v<F const &, {cat}>) {{ CHECK(noexcept({s}()) == std::is_nothrow_invocable_v<F const &, {cat}>); CHECK({s}() == std::invoke(static_cast<F const &>(f_), static_cast<{cat}>(x))); }}")
    return {"decl": f"struct F {{ {' '.join(fs)} }}; static F f_; template<typename T = int> static void g() {{ using D = std::conditional_t<true, F, T>; Track x{{1}}; auto b = dtl::bind_front<D{{}}>(Track{{1}}); {' '.join(lines).replace('F const &', 'D const &')} }}", "body": "g();", "nontrivial": True, "desc": "noexcept of the bound call"}


PARAMS = ["int", "long", "double", "char", "bool", "unsigned", "short", "char const *", "std::string", "std::string_view", "B0 const &", "D0 const &", "B0 &", "D0 &&", "D0 *", "B0 *", "void *", "std::nullptr_t", "FromInt", "ToInt", "Un", "Sc", "int &", "int const &", "int &&", "MO", "MO const &", "MO &&", "float", "auto", "auto &", "auto const &", "auto *", "T<std::vector>", "..."]
ARGS = ["int", "int &", "int const &", "long", "unsigned long", "double", "float", "char", "bool", "short &", "char const *", "char const (&)[4]", "std::string", "std::string &", "std::string_view", "B0 &", "B0 const &", "B0", "D0", "D0 &", "D0 const &", "D0 *", "B0 *", "B0 const *", "std::nullptr_t", "ToInt", "Un", "Sc", "FromInt &", "MO", "MO &", "MO const &",
        "std::vector<int>", "std::vector<int> const &", "void *", "int *", "Tag<0>"]


def sig(t, used):
    for _ in range(20):
        n = [1, 1, 1, 1, 2, 0][t.below(6)]
        p = [t.pick(PARAMS) for _ in range(n)]
        if "..." in p and n > 1:
            continue
        key = tuple(x.replace(" const &", "&c") for x in p)
        # two overloads with the same parameter list cannot be declared in one class, nor inherited into one
        if any(k == key for k in used):
            continue
        used.append(key)
        return p
    return None


def fn_decl(p, i, q, name="operator()", ne=""):
    ps, tmpl = [], ""
    for x in p:
        if x == "T<std::vector>":
            ps.append("std::vector<X> const &")
            tmpl = "template<typename X> "
        else:
            ps.append(x)
    return f"{tmpl}Tag<{i}> {name}({', '.join(ps)}) {q} {{ last = {i}; ++calls; return {{}}; }}"


def overload(t):
    """resolution of an overload set against the same functions declared in one class"""
    used, decl, ref, parts, objs = [], [], [], [], []
    n = t.size(6, 1)
    for i in range(n):
        p = sig(t, used)
        if p is None:
            break
        q = t.pick(["const", "const", "", "&", "const &", "&&"]) if t.below(3) == 2 else "const"
        ref.append((p, i, q))
    # ref-qualified and unqualified overloads of the same parameters do not occur (parameter lists differ)
    out = ["static int last;"]
    for p, i, q in ref:
        lam = q in ("const", "") and "T<std::vector>" not in p and t.flip()
        if lam:
            objs.append(f"[no_conversion = 0]({', '.join(p)}) {'mutable ' if q == '' else ''}{{ last = {i}; ++calls; return Tag<{i}>{{}}; }}")
        else:
            out.append(f"struct P{i} {{ {fn_decl(p, i, q)} }};")
            objs.append(f"P{i}{{}}")
    out.append("struct R { " + " ".join(fn_decl(p, i, q) for p, i, q in ref) + " };")
    out.append(f"static auto make() {{ return dtl::overloaded{{{', '.join(objs)}}}; }} using O = decltype(make());")
    body = []
    for qual in t.shuffle(["", " &", " const &", " const"])[:2]:
        args = {t.pick(ARGS) for _ in range(10)}
        for a in sorted(args):
            body.append(f"CHECK((std::is_invocable_v<O{qual}, {a}> == std::is_invocable_v<R{qual}, {a}>) && (chosen<O{qual}, {a}>() == chosen<R{qual}, {a}>()));")
        two = [(t.pick(ARGS), t.pick(ARGS)) for _ in range(3)]
        for a, b in two:
            body.append(f"CHECK((chosen<O{qual}, {a}, {b}>() == chosen<R{qual}, {a}, {b}>()));")
        body.append(f"CHECK((chosen<O{qual}>() == chosen<R{qual}>()));")
    for v in ("5", "'c'", "2.5", "x", "std::as_const(x)", '"abc"', "std::string{}", "d", "std::as_const(d)", "&d", "nullptr", "Sc::a", "un"):
        if t.flip() and not (v == "std::string{}" and any("..." in p for p, _, _ in ref)):
            body.append(f"if constexpr (requires {{ o({v}); r({v}); }}) {{ calls = 0; last = -1; o({v}); int const got = last; r({v}); CHECK(got == last && calls == 2); }}")
    return {"decl": "\n".join(out) + "\ntemplate<typename O_, typename R_> static void run(O_ o, R_ r) { int x = 3; D0 d{}; (void) x; (void) d; " + "\n".join(b for b in body if b.startswith("if")) + " }",
            "body": "\n".join(b for b in body if not b.startswith("if")) + "\nrun(make(), R{});", "nontrivial": len(ref) > 1, "desc": f"overload set of {len(ref)} functions"}


ALTS = [("int", "{v}"), ("double", "{v}.5"), ("std::string", "std::string({v}, 'a')"), ("B0", "B0{{{v}}}"), ("D0", "D0{{{v}}}"), ("Sc", "Sc::b"), ("char", "'c'"), ("long", "{v}L"), ("MO", "MO{{{v}}}"), ("Track", "Track{{{v}}}")]


def match(t):
    """exactly the branch ordinary overload resolution picks for the active alternative, with the alternative itself"""
    two = t.flip()
    alts = t.shuffle(ALTS)[: 2 if two else t.size(5, 1)]
    V = f"dtl::variant2<{', '.join(a for a, _ in alts)}>" if two else f"std::variant<{', '.join(a for a, _ in alts)}>"
    self_ = t.pick(["v", "std::as_const(v)", "std::move(v)", "std::move(std::as_const(v))"])
    const, rv = "as_const" in self_, "move" in self_
    # one branch per alternative (in another order), each taking the alternative in a way that binds to what is passed; perhaps one generic branch for several
    generic = t.below(3) == 2 and len(alts) > 1
    order = t.shuffle(range(len(alts)))
    if generic:
        keep = order[: t.below(len(alts))]
    else:
        keep = order
    ret = t.pick(["long", "long &", "void", "std::string"])
    rexpr = {"long": "return {c}L;", "long &": "return (sinks[{c}]);", "void": "", "std::string": "return std::string({c}, 'r');"}[ret]
    rty = "" if ret != "long &" else " -> long &"
    brs = []
    state = t.flip()
    cap = "&"
    for i in keep:
        a = alts[i][0]
        forms = [f"{a} const &"]
        if not const:
            forms.append(f"{a} &&" if rv else f"{a} &")
        if const and rv:
            forms.append(f"{a} const &&")
        f = t.pick(forms)
        brs.append(f"[{cap}, token = std::make_unique<int>({i})]({f} x){rty} {{ hit.push_back({i}); at = &x; ok = *token == {i}; {rexpr.format(c=i)} }}")
    # the generic branch must not be the better match for the others: it takes a constant lvalue reference to anything, or a forwarding reference if it is the only one
    if generic:
        hide = " && ".join(f"!std::is_same_v<X, {alts[i][0]}>" for i in keep) or "true"
        brs.insert(t.below(len(brs) + 1), f"[{cap}]<typename X>(X const &x){rty} requires ({hide}) {{ hit.push_back(100); at = &x; ok = true; {rexpr.format(c=9)} }}")
    body = ["std::vector<int> hit; void const *at = nullptr; bool ok = false;"]
    for i, (a, init) in enumerate(alts):
        v = t.range(1, 9)
        body.append(f"{{ hit.clear(); at = nullptr; ok = false; {V} v{{std::in_place_type<{a}>, {init.format(v=v)}}};")
        where = f"&{'dtl' if two else 'std'}::get<{a}>(v)"
        code = i if i in keep else 9
        call = f"dtl::match({self_}, {', '.join(brs)})"
        if ret == "void":
            body.append(f"{call};")
        elif ret == "long &":
            body.append(f"decltype(auto) r = {call}; SAME(decltype(r), long &); CHECK(&r == &sinks[{code}]);")
        elif ret == "long":
            body.append(f"decltype(auto) r = {call}; SAME(decltype(r), long); CHECK(r == {code});")
        else:
            body.append(f"decltype(auto) r = {call}; SAME(decltype(r), std::string); CHECK(r.size() == {code});")
        body.append(f"CHECK((hit == std::vector<int>{{{i if i in keep else 100}}}) && at == {where} && ok); }}")
    return {"decl": "static long sinks[10];", "body": "\n".join(body), "nontrivial": len(alts) > 1, "desc": f"match over {V} as {self_}"}


def match_more(t):
    """exceptions of branches, valueless variants, callables by reference and function objects with qualified call operators"""
    k = t.below(6)
    v = t.range(1, 9)
    body = [
        f"std::variant<int, std::string> v{{{v}}}; int e = 0; try {{ dtl::match(v, [](int x) {{ throw x; }}, [](std::string const &) {{}}); }} catch (int x) {{ e = x; }} CHECK(e == {v}); dtl::variant2<int, std::string> w{{{v}}}; e = 0; try {{ dtl::match(w, [](int x) {{ throw x; }}, [](std::string const &) {{}}); }} catch (int x) {{ e = x; }} CHECK(e == {v});",
        f"struct Bad {{ Bad() = default; Bad(Bad const &) {{ throw 1; }} Bad &operator=(Bad const &) {{ throw 1; }} }}; std::variant<int, Bad> v{{{v}}}; Bad b; try {{ v.emplace<Bad>(b); }} catch (int) {{}} CHECK(v.valueless_by_exception()); int n = 0; bool bad = false; try {{ dtl::match(v, [&](int) {{ ++n; }}, [&](Bad const &) {{ ++n; }}); }} catch (std::bad_variant_access const &) {{ bad = true; }} CHECK(bad && n == 0);",
        f"int n = 0; auto f = [&n](int x) {{ n += x; }}; auto const g = [&n](std::string const &s) {{ n += static_cast<int>(s.size()) * 100; }}; std::variant<int, std::string> v{{{v}}}; dtl::match(v, f, g); CHECK(n == {v}); v = std::string(3, 'x'); dtl::match(v, f, g); CHECK(n == {v} + 300); f(1); CHECK(n == {v} + 301);",
        f"auto f = [text = std::string(40, 'x')](int x) {{ return text.size() + x; }}; auto g = [text = std::string(50, 'y')](std::string const &s) {{ return text.size() + s.size(); }}; std::variant<int, std::string> v{{{v}}}; for (int i = 0; i < 2; ++i) {{ CHECK(dtl::match(v, f, g) == 40u + {v}); }} v = std::string(3, 'x'); for (int i = 0; i < 2; ++i) {{ CHECK(dtl::match(v, f, g) == 53 && dtl::match(v, [](int) {{ return std::size_t{{}}; }}, g) == 53); }} CHECK(std::get<std::string>(v) == \"xxx\");",
        f"std::variant<MO, int> v{{MO{{{v}}}}}; MO got = dtl::match(std::move(v), [](MO &&m) {{ return std::move(m); }}, [](int i) {{ return MO{{i}}; }}); CHECK(val(got) == {v}); dtl::variant2<MO, int> w{{MO{{{v}}}}}; MO got2 = dtl::match(std::move(w), [](MO &&m) {{ return std::move(m); }}, [](int i) {{ return MO{{i}}; }}); CHECK(val(got2) == {v});",
        f"std::variant<int, long, std::string> v{{{v}L}}; v = {v}L; auto s = dtl::match(v, [](auto x) {{ return sizeof(x); }}, [](std::string const &) {{ return std::size_t{{0}}; }}); CHECK(s == sizeof(long)); dtl::match(v, [](int &) {{}}, [](long &x) {{ x = {v + 1}; }}, [](std::string &) {{}}); CHECK(std::get<long>(v) == {v + 1});",
    ][k]
    return {"body": body, "nontrivial": True, "desc": f"match, special situation {k}"}


def memfn(t):
    """against the call written by hand"""
    nb, nr = t.size(3), t.size(3)
    ret = t.below(5)
    const_this = t.flip()
    rets = ["", " -> long &", " -> long", " -> Track", " -> MO"]
    rex = ["", "return own;", "return own;", "return Track{own};", "return MO{own};"][ret]
    R = ["void", "long &", "long", "Track", "MO"][ret]
    kinds = []
    bound_decl, bound_expr = [], []
    for i in range(nb):
        k = t.below(4)
        v = t.range(1, 9)
        bound_decl.append([f"int b{i} = {v};", f"Track b{i}{{{v}}};", f"std::string b{i}({v}, 'x');", ""][k])
        bound_expr.append([f"b{i}", f"b{i}", f"std::as_const(b{i})", f"{v}"][k])
    rest = [arg(t, f"r{i}", False) for i in range(nr)]
    args_b = ", ".join(bound_expr)
    args_r = ", ".join(e for _, e in rest)
    mac = f"DICE_MEMFN(target{', ' + args_b if nb else ''})"
    hand = f"this->target({', '.join(x for x in (args_b, args_r) if x)})"
    this_c = "const" if const_this else ""
    decl = f"""struct C {{
	mutable long own = {t.range(1, 9)};
	template<typename... A> {R} target(A &&...a) {this_c} {{ who = this; ++calls; (note<A>(static_cast<A &&>(a), false), ...); {rex} }}
	mutable void const *who = nullptr;
	void run() {this_c} {{
		n_bound = 0;
		{' '.join(bound_decl)}
		auto const f = {mac};
		std::vector<Arg> one;
		{{ {' '.join(d for d, _ in rest)} seen.clear(); calls = 0; who = nullptr; SAME(decltype(f({args_r})), decltype({hand}));
		{'decltype(auto) r = f(' + args_r + '); CHECK(val(r) == own);' if ret else 'f(' + args_r + ');'} {'CHECK(&r == &own);' if ret == 1 else ''} CHECK(calls == 1 && who == this); one = seen;
		std::size_t i = {nb}; {' '.join((f'CHECK(one[i].lv == static_cast<void const *>(&{e.removeprefix("std::as_const(").rstrip(")")}));' if d and 'std::move' not in e else '') + '++i;' for d, e in rest)}
		{' '.join(f'CHECK(one[{i}].lv == static_cast<void const *>(&b{i}));' if d else '' for i, d in enumerate(bound_decl))}
		for (auto &x : one) x.lv = nullptr; }}
		{{ {' '.join(d for d, _ in rest)} seen.clear(); {hand}; for (auto &x : seen) x.lv = nullptr; CHECK(one == seen && one.size() == {nb + nr}); }}
	}}
}};"""
    return {"decl": decl, "body": "C c; c.run();", "nontrivial": nb + nr > 0, "desc": f"DICE_MEMFN with {nb} bound and {nr} call arguments"}


def memfn_use(t):
    """as callables of algorithms and views; exceptions"""
    xs = [t.range(-9, 9) for _ in range(t.size(6))]
    k, m = t.range(-5, 5), t.range(1, 4)
    decl = f"""struct C {{ int k = {k}; int n = 0;
	int add(int m, int x) {{ ++n; return k * m + x; }}
	bool big(int x) const {{ return x > k; }}
	int thrower(int x) {{ if (x == {xs[len(xs) // 2] if xs else 0}) throw x; return x; }}
	void run() {{
		std::vector<int> const v{{{', '.join(map(str, xs))}}};
		std::vector<int> got; for (int x : v | std::views::filter(DICE_MEMFN(big)) | std::views::transform(DICE_MEMFN(add, {m}))) got.push_back(x);
		CHECK((got == std::vector<int>{{{', '.join(str(k * m + x) for x in xs if x > k)}}}) && n == {sum(x > k for x in xs)});
		int e = 1000; try {{ for (int x : v) (void) DICE_MEMFN(thrower)(x); }} catch (int x) {{ e = x; }} CHECK(e == {xs[len(xs) // 2] if xs else 1000});
		int later = 1; auto f = DICE_MEMFN(add, later); later = {m}; CHECK(f({k}) == {k * m + k});
	}} }};"""
    return {"decl": decl, "body": "C c; c.run();", "nontrivial": len(xs) > 1, "desc": f"DICE_MEMFN in range pipelines over {xs}"}


KINDS = {"bind": (bind, 5), "bind_known": (bind_known, 2), "noexcept": (noexc, 2), "overload": (overload, 6), "match": (match, 5), "match_more": (match_more, 1), "memfn": (memfn, 3), "memfn_use": (memfn_use, 1)}
