COUNT = {"quick": 4500, "thorough": 40000}
BATCH = 80
FLAGS = ["-O0"]
INCLUDES = """
#include <array>
#include <functional>
#include <memory>
#include <variant>
#include <vector>
#include <dice/template-library/type_traits.hpp>
namespace dtl = dice::template_library;
template<typename T> using ID = T;
template<typename R, typename F, typename... A> constexpr bool exactly() { if constexpr (std::is_invocable_v<F, A...>) return std::is_same_v<std::invoke_result_t<F, A...>, R>; return false; }
#ifdef __clang__ // cannot compile libstdc++'s forward_like here
#define LIKE_STD(...)
#else
#define LIKE_STD(a, b) SAME(decltype(a), decltype(b))
#endif
struct Cls { int v; }; struct Abs { virtual void f() = 0; }; union Uni { int a; char b; }; enum Enu : short { enumerator }; enum class Ecl {}; struct Inc; struct E0 {}; struct E1 {}; struct E2 final {}; template<typename...> struct Tp {}; struct alignas(8) Ea {}; struct alignas(16) Eb {}; struct alignas(64) Ec {}; struct alignas(32) Na { char c; };
// counts what is done to it
struct Track { int copies = 0, moves = 0; Track() = default; Track(Track const &o) : copies{o.copies + 1}, moves{o.moves} {} Track(Track &&o) : copies{o.copies}, moves{o.moves + 1} { o.moves = 1000; }
	Track(Track const &&o) : copies{o.copies + 1}, moves{o.moves} {} };
"""
BASES = ["int", "char const *", "Cls", "Abs", "Uni", "Enu", "Ecl", "int[3]", "Cls[2][5]", "int[]", "int(char)", "void", "Inc", "int Cls::*", "void (Cls::*)() const", "std::nullptr_t", "Tp<int const, Cls &>", "std::unique_ptr<Cls>", "bool", "long double", "int (*)(char)", "int const (*)[2]"]


class Ty:
    """a C++ type: base, cv, reference"""

    def __init__(self, base, c=False, v=False, r=""):
        self.base, self.c, self.v, self.r = base, c, v, r
        if base.endswith(")") and "(*)" not in base and "::*" not in base:  # functions have no cv
            self.c = self.v = False

    def __str__(self):
        s = f"ID<{self.base}>"
        # a member pointer type, pointer ... all spelled through the alias
        return s + (" const" if self.c else "") + (" volatile" if self.v else "") + (" " + self.r if self.r else "")

    def with_(self, **kw):
        d = {"base": self.base, "c": self.c, "v": self.v, "r": self.r, **kw}
        return Ty(**d)


def ty(t, void=True):
    b = t.pick(BASES)
    c, v, r = t.flip(), t.below(3) == 2, ["", "", "&", "&&"][t.below(4)]
    if b == "void":
        r = ""
        if not void:
            b = "int"
    return Ty(b, c, v, r)


def add_cv(x, c, v):
    return x if x.r else x.with_(c=x.c or c, v=x.v or v)


def add_ref(x, r):
    if not r or x.base == "void":
        return x
    return x.with_(r="&" if "&" in (r, x.r) else "&&")


def copying(t):
    f = ty(t)
    to = ty(t)
    if f.r and to.base == "void":
        to = to.with_(base="int")
    fc, fv = (f.c, f.v) if not f.r else (False, False)
    o = []
    want = {
        "copy_const": add_cv(to, fc, False),
        "copy_volatile": add_cv(to, False, fv),
        "copy_cv": add_cv(to, fc, fv),
        "copy_reference": add_ref(to, f.r),
        "copy_cvref": add_ref(add_cv(to, f.c, f.v), f.r),
    }
    for n, w in want.items():
        o.append(f"SAME(dtl::{n}_t<{f}, {to}>, {w}); SAME(typename dtl::{n}<{f}, {to}>::type, {w});")
    return {"body": "\n".join(o), "nontrivial": bool(f.c or f.v or f.r), "desc": f"copy qualifiers from {f} to {to}"}


def fwd_like(t):
    f = Ty(t.pick(["int", "Cls", "Abs", "Inc", "std::unique_ptr<Cls>", "int[3]"]), t.flip(), t.below(4) == 3, ["", "&", "&&"][t.below(3)])
    u, mk = t.pick([("int", "int x = 5;"), ("std::unique_ptr<int>", "std::unique_ptr<int> x;"), ("Cls", "Cls x{4};"), ("int[3]", "int x[3]{1, 2, 3};"), ("int const", "int const x = 6;"), ("Cls const", "Cls const x{4};"), ("int volatile", "int volatile x = 3;")])
    lvalue_ref, const = f.r == "&", f.c
    via = t.below(3)
    expr = ["x", "(*p)", "s.m"][via]
    if via == 2 and u == "int[3]":
        expr, via = "x", 0
    pre = [mk, f"{mk} auto *p = &x;", f"{mk} struct S {{ {'decltype(x) &'} m; }} s{{x}};"][via]
    base = u.replace(" const", "")
    res = f"ID<{base}>{' const' if const or 'const' in u else ''} {'&' if lvalue_ref else '&&'}"
    call = f"dtl::forward_like<{f}>({expr})"
    body = f"{pre} SAME(decltype({call}), {res}); auto &&r = {call}; CHECK(static_cast<void const volatile *>(&reinterpret_cast<char const volatile &>(r)) == static_cast<void const volatile *>(&reinterpret_cast<char const volatile &>(x))); CHECK(noexcept({call}));"
    if not f.v:
        body += f" LIKE_STD({call}, std::forward_like<{f}>({expr}));"
    return {"body": body, "nontrivial": True, "desc": f"forward_like<{f}> of {u}"}


class Zst:
    def __init__(self, t):
        self.t, self.decl, self.n = t, [], 0

    def cls(self, depth):
        """(name, empty?, final?)"""
        t = self.t
        if depth == 0 or t.below(4) == 0:
            return t.pick([("E0", True, False), ("E1", True, False), ("E2", True, True), ("Ea", True, False), ("Eb", True, False), ("Ec", True, False), ("Na", False, False), ("std::monostate", True, False), ("std::allocator<int>", True, False), ("std::less<>", True, False), ("Tp<int, int>", True, False), ("std::tuple<>", True, False),
                           ("Cls", False, False), ("std::array<int, 2>", False, False), ("std::vector<int>", False, False), ("std::unique_ptr<int>", False, False), ("std::array<char, 1>", False, False), ("std::function<void()>", False, False)])
        name = f"K{self.n}"
        self.n += 1
        empty = True
        bases, mem = [], []
        seen = set()
        for _ in range(t.below(3)):
            b, e, f = self.cls(depth - 1)
            if f or b in seen:
                continue
            seen.add(b)
            virt = t.below(8) == 7
            bases.append(f"{t.pick(['public ', 'private ', 'protected ', ''])}{'virtual ' if virt else ''}{b}")
            empty = empty and e and not virt
        for i in range(t.below(4)):
            k = t.below(11)
            if k == 0:
                mem.append(f"static inline int s{i} = 3;")
            elif k == 1:
                mem.append(f"void f{i}() {{}}")
            elif k == 2:
                mem.append(f"using T{i} = int; enum {{ e{i} }};")
            elif k == 3:
                b, e, f = self.cls(depth - 1)
                mem.append(f"[[no_unique_address]] {b} m{i};" if b not in seen else "")
                if b not in seen:
                    empty = empty and e
                seen.add(b)
            elif k == 4:
                b, e, f = self.cls(depth - 1)
                mem.append(f"{b} m{i};")
                empty = False
            elif k == 5:
                mem.append(t.pick([f"int m{i};", f"char m{i};", f"E0 m{i}[2];", f"int &m{i};", f"int m{i} : 3;", f"void (*m{i})();"]))
                empty = False
            elif k == 6:
                mem.append(f"template<typename T> T g{i}(T x) {{ return x; }}")
            elif k == 7:
                mem.append(f"{name}(int);" if f"{name}(int)" not in " ".join(mem) else "")
            elif k == 8:
                mem.append(f"virtual void v{i}() {{}}")
                empty = False
            elif k == 9:
                mem.append(f"{name}({name} const &) = delete;" if "delete" not in " ".join(mem) else "")
            else:
                mem.append(f"friend int h(int);")
        final = t.below(5) == 4
        self.decl.append(f"struct {name}{' final' if final else ''}{' : ' + ', '.join(bases) if bases else ''} {{ {' '.join(mem)} }};")
        return name, empty, final


def zst(t):
    z = Zst(t)
    k = t.below(6)
    if k < 4:
        n, e, f = z.cls(1 + t.below(3))
        q = t.pick(["", "", " const"])
        # the other way to profit from emptiness: as a base class (ambiguous duplicates aside)
        return {"decl": "\n".join(z.decl), "body": f"CHECK(dtl::is_zst_v<{n}{q}> == {str(e).lower()} && dtl::is_zst<{n}{q}>::value == {str(e).lower()});", "nontrivial": bool(z.decl), "desc": f"is_zst of generated {n}"}
    if k == 4:
        e, yes, pre = t.pick([("decltype(l)", True, "auto l = [](int x) { return x; };"), ("decltype(l)", False, "int a = 1; auto l = [a](int x) { return x + a; };"), ("decltype(l)", False, "int a = 1; auto l = [&a](int x) { return x + a; };"), ("decltype(l)", True, "auto l = [](auto &&...) mutable {};"),
                            ("decltype(l)", True, "int a = 1; auto l = [e = E0{}] {};" if False else "auto l = []<typename T>(T) {};")])
        return {"body": f"{pre} CHECK(dtl::is_zst_v<{e}> == {str(yes).lower()}); (void) l;", "nontrivial": True, "desc": "is_zst of a closure"}
    x = t.pick(["int", "char", "void", "int &", "E0 &", "E0 &&", "Cls const &", "E0 *", "E0[2]", "int[4]", "Enu", "Ecl", "std::nullptr_t", "bool", "int Cls::*", "void (Cls::*)()", "Uni", "long double", "int(&)(char)"])
    return {"body": f"CHECK(!dtl::is_zst_v<{x}> && !dtl::is_zst<{x}>::value);", "nontrivial": False, "desc": f"is_zst of {x}"}


def mv(t):
    """DICE_MOVE_IF_VALUE on something declared with a given type"""
    c, r = t.flip(), ["", "&", "&&"][t.below(3)]
    base = t.pick(["Track", "Track", "Track", "int", "std::unique_ptr<int>"])
    if base == "std::unique_ptr<int>" and c and not r:
        c = False  # the documented result, a copy, does not exist
    moves = r != "&" and not c
    decl = f"{base}{' const' if c else ''} {r}"
    where = t.below(4)
    res = f"{base} &&" if moves else "int" if base == "int" and not r else decl
    chk = f"SAME(decltype(DICE_MOVE_IF_VALUE(X)), {res});"
    if base == "Track":
        use = f"Track y{{DICE_MOVE_IF_VALUE(X)}}; CHECK(y.moves == {1 if moves else 0} && y.copies == {0 if moves else 1} && Y.moves == {1000 if moves else 0} && Y.copies == 0);"
    elif base == "int":
        use = "int y{DICE_MOVE_IF_VALUE(X)}; CHECK(y == 5 && Y == 5);"
    else:
        use = "std::unique_ptr<int> y{DICE_MOVE_IF_VALUE(X)}; CHECK(y != nullptr && *y == 5 && X == nullptr);" if moves else "auto &&y = DICE_MOVE_IF_VALUE(X); CHECK(&y == &X && *X == 5);"
    if (r and base != "std::unique_ptr<int>") or (moves and base == "Track"):
        use += " { auto &&z = DICE_MOVE_IF_VALUE(X); CHECK(&z == &X); }"
    init = {"Track": "Track o;", "int": "int o = 5;", "std::unique_ptr<int>": "auto o = std::make_unique<int>(5);"}[base]
    src = "o" if r == "&" or base == "int" and not r or base == "Track" and False else "std::move(o)"
    if r == "&&":
        src = f"static_cast<{decl}>(o)"
    elif not r:
        src = {"Track": "", "int": "5", "std::unique_ptr<int>": "std::make_unique<int>(5)"}[base]
    if where == 0 or (where == 3 and not r):
        body = f"{init} {decl} x{{{src}}}; {(chk + use).replace('X', 'x').replace('Y', 'x')}"
        dcl = ""
    elif where == 1:
        # a parameter; a by-value Track parameter is constructed in place
        dcl = f"static void par({decl} x) {{ {(chk + use).replace('X', 'x').replace('Y', 'x')} }}"
        body = f"{init} par({src if src else base + '{}'});"
    elif where == 2:
        # a member named through an object; decltype is the member's declared type
        dcl = f"struct Mem {{ {decl} m; }};"
        body = f"{init} Mem x{{{src if src else base + '{}'}}}; {(chk + use).replace('X', 'x.m').replace('Y', 'x.m')}"
    else:
        dcl = f"template<typename T> static void fwd(T &&x) {{ SAME(T &&, {decl}); {(chk + use).replace('X', 'x').replace('Y', 'x')} }}"
        body = f"{init} fwd(static_cast<{decl}>(o));"
    return {"decl": dcl, "body": body, "nontrivial": True, "desc": f"DICE_MOVE_IF_VALUE of {decl} ({['variable', 'parameter', 'member', 'forwarding reference'][where]})"}


def strict(t):
    """is_strict_invocable_r: callable types and arguments with all categories; the result type must be exactly R"""
    rets = ["void", "int", "int &", "int const &", "int &&", "long", "Cls", "Cls const", "std::unique_ptr<int>", "double", "short", "Cls &", "Inc &", "int const *"]
    ret = t.pick(rets)
    args = [t.pick(["int", "int &", "int const &", "int &&", "Cls", "Cls &", "std::unique_ptr<int>", "std::unique_ptr<int> &&", "double"]) for _ in range(t.below(4))]
    passed = [a if t.below(3) else t.pick(["int", "int &", "int const &", "int &&", "int const", "Cls", "Cls &", "Cls const &", "std::unique_ptr<int>", "std::unique_ptr<int> &", "long"]) for a in args]
    if t.below(6) == 5:
        passed = passed[:-1] if passed and t.flip() else passed + ["int"]
    params = ", ".join(args)
    q = ""
    kind = t.below(5)
    decl = ""
    if kind == 0:
        f, fq = f"ID<{ret}(*)({params})>", t.pick(["", " &", " const &", " &&", " const"])
    elif kind == 1:
        f, fq = f"ID<{ret}({params})>", t.pick(["", " &"])
    else:
        q = ["", "const", "&", "const &", "&&", "const &&"][t.below(6)]
        ne = " noexcept" if t.flip() else ""
        decl = f"struct F {{ {ret} operator()({params}) {q}{ne}; }};" if kind != 4 else f"struct F {{ {ret} operator()({params}) {'&' if '&' not in q else q}; char16_t operator()({params}) {'&&' if q not in ('&&', 'const &&') else '&'}; }};"
        f, fq = "F", t.pick(["", " &", " const &", " &&", " const"])
    alist = ", ".join(passed)
    want = t.pick([ret, ret, t.pick(rets), f"ID<{ret}> const" if ret in ("int", "Cls") else ret])
    F = f + fq
    more = f", {alist}" if alist else ""
    # oracle: invocable with exactly these categories, result exactly R
    body = f"""constexpr bool exact = exactly<{want}, {F}{more}>();
CHECK((dtl::is_strict_invocable_r_v<{want}, {F}{more}>) == exact && (dtl::is_strict_invocable_r<{want}, {F}{more}>::value) == exact);"""
    if alist == params and kind < 2 and want == ret:
        body += "CHECK(exact);" if ret not in ("Cls const",) else ""
    return {"decl": decl, "body": body, "nontrivial": True, "desc": f"is_strict_invocable_r<{want}, {F}{more}> for {ret}({params}) {q}"}


def member(t):
    """members as callables"""
    F, args, R = t.pick([
        ("int Cls::*", "Cls &", "int &"), ("int Cls::*", "Cls const &", "int const &"), ("int Cls::*", "Cls", "int &&"), ("int Cls::*", "Cls *", "int &"), ("int Cls::*", "std::unique_ptr<Cls>", "int &"), ("int Cls::*", "std::reference_wrapper<Cls>", "int &"),
        ("void (Cls::*)(int) const", "Cls const &, int", "void"), ("long (Cls::*)() &&", "Cls", "long"), ("long (Cls::*)() &&", "Cls &", None), ("long (Cls::*)() &", "Cls &", "long"), ("long (Cls::*)() &", "Cls", None), ("void (Cls::*)(int)", "Cls const &, int", None),
    ])
    want = R if R and t.flip() else t.pick(["int", "int &", "void", "long", "int &&", "int const &"])
    return {"body": f"CHECK((dtl::is_strict_invocable_r_v<{want}, {F}, {args}>) == {str(want == R).lower()});", "nontrivial": True, "desc": f"is_strict_invocable_r<{want}, {F}, {args}>"}


KINDS = {"copying": (copying, 8), "forward_like": (fwd_like, 4), "zst": (zst, 6), "move_if_value": (mv, 4), "strict_invocable": (strict, 8), "member": (member, 1)}
