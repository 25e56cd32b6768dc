COUNT = {"quick": 4000, "thorough": 40000}
BATCH = 50
FLAGS = ["-O0"]
INCLUDES = """
#include <dice/template-library/lazy_conditional.hpp>
namespace dtl = dice::template_library;
template<int i> struct Tag {};
template<int i> struct Ok { using type = Tag<i>; };
// instantiating any of these, or asking them for ::type, is an error
template<typename T> struct Poison { static_assert(sizeof(T) == 0, "instantiated"); using type = T; };
template<typename T> struct Deep { using type = typename T::value_type::does_not_exist; };
template<typename T> struct NoType { using value = T; };
template<typename T> struct Incomplete;
template<typename T> struct Endless { using type = typename Endless<T *>::type; };
template<typename T> struct Base : T {};
template<typename T> struct BadBase : Base<T *> { using type = T; };
class Private { using type = int; };
// ::type that is a reference, const, an array, a function, void, incomplete
struct Fwd;
template<int i> struct Odd;
template<> struct Odd<0> { using type = int &; };
template<> struct Odd<1> { using type = void; };
template<> struct Odd<2> { using type = int const[3]; };
template<> struct Odd<3> { using type = void(int) const; };
template<> struct Odd<4> { using type = Fwd; };
template<> struct Odd<5> { using type = double const volatile &&; };
template<> struct Odd<6> { struct type { struct inner {}; }; };
struct Inherits : Ok<900> {};
struct Cond { static constexpr int condition = 1; using provider = int; };
struct NoCond { using provider = int; };
struct NoProvider { static constexpr bool condition = true; };
struct WrongCond { struct X {}; static constexpr X condition{}; using provider = int; };
struct ConvCond { struct X { constexpr operator bool() const { return true; } }; static constexpr X condition{}; using provider = int; };
"""
ODD = ["int &", "void", "int const[3]", "void(int) const", "Fwd", "double const volatile &&", "Odd<6>::type"]
POISON = ["Poison<{}>", "Deep<{}>", "NoType<{}>", "Incomplete<{}>", "Endless<{}>", "BadBase<{}>", "int", "void", "Private", "dtl::lazy_switch<dtl::case_<false, Poison<{}>>>", "dtl::lazy_switch<>", "dtl::lazy_conditional<true, Poison<{}>, Ok<1>>",
          "dtl::lazy_switch_default<Poison<{}>>", "int(char)", "int &"]


class G:
    def __init__(self, t):
        self.t, self.n, self.p = t, 0, 0

    def poison(self):
        self.p += 1
        return self.t.pick(POISON).format(f"Tag<{1000 + self.p}>")

    def good(self, depth):
        """(provider, resulting type)"""
        t = self.t
        k = t.below(8 if depth > 0 else 4)
        if k < 2:
            self.n += 1
            return f"Ok<{self.n}>", f"Tag<{self.n}>"
        if k == 2:
            i = t.below(len(ODD))
            return f"Odd<{i}>", ODD[i]
        if k == 3:
            self.n += 1
            return t.pick([(f"std::type_identity<Tag<{self.n}> const &>", f"Tag<{self.n}> const &"), ("Inherits", "Tag<900>")])
        if k == 4:
            return self.cond(depth - 1)
        if k == 5:
            return self.switch(depth - 1)
        return self.switch_default(depth - 1)

    def other(self, depth):
        """a provider that is not selected: mostly one that must not be looked at"""
        return self.good(0)[0] if self.t.below(3) == 0 else self.poison()

    def boolean(self, v):
        if self.t.flip():
            return str(v).lower()
        return self.t.pick(["(sizeof(Tag<1>) == 1)", "std::is_class_v<Tag<3>>", "(3 > 2)"] if v else ["(sizeof(Tag<1>) == 2)", "std::is_class_v<int>", "(3 < 2)", "(not true)"])

    def cond(self, depth):
        v = self.t.flip()
        g, ty = self.good(depth)
        o = self.other(depth)
        a, b = (g, o) if v else (o, g)
        return f"dtl::lazy_conditional<{self.boolean(v)}, {a}, {b}>", ty

    def cases(self, n, sel, depth):
        """n cases; the first whose condition holds is sel (None: none)"""
        out, ty = [], None
        for i in range(n):
            if sel is None or i < sel:
                out.append(f"dtl::case_<{self.boolean(False)}, {self.other(depth)}>")
            elif i == sel:
                g, ty = self.good(depth)
                out.append(f"dtl::case_<{self.boolean(True)}, {g}>")
            else:
                out.append(f"dtl::case_<{self.boolean(self.t.flip())}, {self.other(depth)}>")
        return out, ty

    def switch(self, depth):
        n = self.t.size(9, 1)
        cs, ty = self.cases(n, self.t.below(n), depth)
        return f"dtl::lazy_switch<{', '.join(cs)}>", ty

    def switch_default(self, depth):
        n = self.t.size(9, 0)
        sel = self.t.below(n + 1)
        if sel == n:
            g, ty = self.good(depth)
            cs, _ = self.cases(n, None, depth)
            return f"dtl::lazy_switch_default<{', '.join([g, *cs])}>", ty
        cs, ty = self.cases(n, sel, depth)
        return f"dtl::lazy_switch_default<{', '.join([self.poison(), *cs])}>", ty


def selection(t):
    g = G(t)
    f = [g.cond, g.switch, g.switch_default][t.below(3)]
    e, ty = f(t.below(4))
    name = e.split("<")[0]
    body = [f"SAME(typename {e}::type, {ty});"]
    args = e[len(name):]
    body.append(f"SAME({name}_t{args}, {ty});")
    # dependent context
    return {"decl": f"template<typename Dep> struct D {{ using type = typename {e}::type; }};", "body": "\n".join(body + [f"SAME(typename D<int>::type, {ty}); CHECK(dtl::type_provider<{e}>);"]), "nontrivial": g.p > 0, "desc": f"{name} yielding {ty}"}


def dependent(t):
    """conditions that depend on a template parameter: one definition, several outcomes"""
    n = t.size(7, 1)
    which = [t.below(n + 1) for _ in range(3)]
    dflt = t.flip()
    # provider i is well formed only for types with index i
    cs = ", ".join(f"dtl::case_<(T::ix == {i}), Only<{i}, T>>" for i in range(n))
    decl = f"""
template<int i> struct At {{ static constexpr int ix = i; }};
template<int i, typename T> struct Only {{ static_assert(T::ix == i, "instantiated for another case"); using type = Tag<i>; }};
template<typename T> struct Dflt {{ static_assert(T::ix >= {n}, "default instantiated although a case holds"); using type = Tag<777>; }};
template<typename T> using pick = dtl::{'lazy_switch_default_t<Dflt<T>, ' if dflt else 'lazy_switch_t<'}{cs}>;
template<typename T> struct Rec {{ using type = typename dtl::lazy_conditional<(T::ix == 0), Ok<0>, Rec<At<T::ix - 1>>>::type; }};
"""
    body = []
    for w in which:
        if w == n and not dflt:
            w = n - 1
        body.append(f"SAME(pick<At<{w}>>, Tag<{777 if w == n else w}>);")
    body.append(f"SAME(typename Rec<At<{t.below(30)}>>::type, Tag<0>);")
    return {"decl": decl, "body": "\n".join(body), "nontrivial": True, "desc": f"dependent switch over {n} cases"}


def concepts(t):
    g = G(t)
    k = t.below(3)
    if k == 0:
        e, ty = g.good(1)
        body = f"CHECK(dtl::type_provider<{e}>); CHECK(dtl::type_provider<{e} const>);"
    elif k == 1:
        e = t.pick(["NoType<int>", "int", "void", "Private", "int &", "int(char)", "Tag<3>", "Tag<3> *", "Ok<3> &"])
        body = f"CHECK(!dtl::type_provider<{e}>);"
    else:
        e, yes = t.pick([("Cond", True), ("NoCond", False), ("NoProvider", False), ("WrongCond", False), ("ConvCond", True), ("int", False), (f"dtl::case_<true, {g.poison()}>", True), (f"dtl::case_<false, {g.poison()}>", True)])
        body = f"CHECK(dtl::lazy_case<{e}> == {str(yes).lower()});"
        if e.startswith("dtl::case_"):
            body += f"SAME(typename {e}::provider, {e.split(', ', 1)[1][:-1]}); CHECK({e}::condition == {'true' if 'true' in e.split(',')[0] else 'false'});"
    return {"body": body, "nontrivial": False, "desc": f"concept on {e}"}


KINDS = {"selection": (selection, 8), "dependent": (dependent, 1), "concepts": (concepts, 1)}
