COUNT = {"quick": 280, "thorough": 7000}
BATCH = 18
FLAGS = ["-O0", "-fsanitize=undefined", "-fno-sanitize-recover=all"]
INCLUDES = """
#include <compare>
#include <memory>
#include <vector>
#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
namespace dtl = dice::template_library;
struct Empty { friend constexpr bool operator==(Empty, Empty) { return true; } friend constexpr std::strong_ordering operator<=>(Empty, Empty) { return std::strong_ordering::equal; } };
struct S { int a; char b; constexpr S() : a{}, b{} {} constexpr S(int v) : a{v}, b{'s'} {} auto operator<=>(S const &) const = default; };
struct alignas(32) Wide { long v; constexpr Wide() : v{} {} constexpr Wide(int x) : v{x} {} auto operator<=>(Wide const &) const = default; };
struct Arr { short v[3]; constexpr Arr() : v{} {} constexpr Arr(int x) : v{static_cast<short>(x), 2, 3} {} auto operator<=>(Arr const &) const = default; };
// converts to numbers, once if it is an rvalue
struct Arg {
	int v;
	bool gone = false;
	template<typename N> requires (std::is_arithmetic_v<N>) operator N() const & { return static_cast<N>(gone ? -1 : v); }
	template<typename N> requires (std::is_arithmetic_v<N>) operator N() && { int const r = gone ? -1 : v; gone = true; return static_cast<N>(r); }
};
// owns memory, counts itself
inline int alive;
struct Own {
	int *p;
	Own() : p{new int(0)} { ++alive; }
	Own(int v) : p{new int(v)} { ++alive; }
	Own(Own const &o) : p{new int(o.get())} { ++alive; }
	Own(Own &&o) noexcept : p{std::exchange(o.p, nullptr)} { ++alive; }
	Own &operator=(Own const &o) { return *this = Own{o}; }
	Own &operator=(Own &&o) noexcept { std::swap(p, o.p); return *this; }
	~Own() { --alive; delete p; }
	int get() const { if (!p) std::abort(); return *p; }
	friend auto operator<=>(Own const &a, Own const &b) { return a.get() <=> b.get(); }
	friend bool operator==(Own const &a, Own const &b) { return a.get() == b.get(); }
};
template<typename T> T mk(int v) { if constexpr (std::is_same_v<T, Empty>) return {}; else return T(v); }
template<typename T> int val(T const &t) {
	if constexpr (std::is_same_v<T, S>) return t.a; else if constexpr (std::is_same_v<T, Wide>) return static_cast<int>(t.v); else if constexpr (std::is_same_v<T, Arr>) return t.v[0];
	else if constexpr (std::is_same_v<T, Own>) return t.get(); else if constexpr (std::is_same_v<T, Empty>) return 0; else return static_cast<int>(t);
}
// instantiations of different sizes
template<int ix> struct X { int v; char pad[(ix % 5 + 5) % 5 + 1]; constexpr X() : v{}, pad{} {} constexpr X(int x) : v{x}, pad{} {} static constexpr int index = ix; auto operator<=>(X const &) const = default; };
template<unsigned long ix> struct Y { double v; constexpr Y() : v{} {} constexpr Y(int x) : v(x) {} static constexpr unsigned long index = ix; auto operator<=>(Y const &) const = default; };
template<int ix> int val(X<ix> const &x) { return x.v; }
template<unsigned long ix> int val(Y<ix> const &x) { return static_cast<int>(x.v); }
inline uintptr_t at(void const volatile *p) { return reinterpret_cast<uintptr_t>(p); }
template<typename T> uintptr_t addr(T const &t) { return at(&reinterpret_cast<char const volatile &>(t)); }
"""
TY = ["int", "char", "double", "Empty", "S", "Wide", "Arr", "long", "unsigned char", "Own"]


# the elements are nested: first element, then the tuple of the others
SZ = {"int": (4, 4), "char": (1, 1), "double": (8, 8), "Empty": (1, 1), "S": (8, 4), "Wide": (32, 32), "Arr": (6, 2), "long": (8, 8), "unsigned char": (1, 1), "Own": (8, 8)}


def offsets(types):
    out, at = [], 0
    for i, ty in enumerate(types):
        a = max(SZ[x][1] for x in types[i:])
        at = (at + a - 1) // a * a
        out.append(at)
        at += SZ[ty][0]
    return out


def compatible(types, off, cnt):
    """do the kept elements stay where they are? (otherwise: the recorded finding subtuple-drops-wider-element)"""
    rest = types[off:]
    return offsets(rest)[:cnt] == offsets(rest[:cnt])


KNOWN = [
    {"key": "subtuple-drops-wider-element", "body": "dtl::standard_layout_tuple<int, int, long> t{1, 2, 3L}; auto &s = t.subtuple<0, 2>(); CHECK(addr(s.get<1>()) == addr(t.get<1>()));"},
    {"key": "integral-subtuple-drops-wider-element", "decl": "template<int ix> struct Z { int v; }; template<> struct Z<2> { long v; };",
     "body": "dtl::integral_template_tuple<0, 3, Z> t; auto &s = t.subtuple<0, 2>(); CHECK(addr(s.template get<1>()) == addr(t.get<1>()));"},
]


def expect(tup, vals, types, get="get<{}>()"):
    return " ".join(f"CHECK(val({tup}.template {get.format(i)}) == {0 if types[i] == 'Empty' else v});" for i, v in enumerate(vals))


def newval(t):
    return t.range(0, 100)


def slt(t):
    types = [t.pick(TY) for _ in range(t.size(6, 1))]
    n = len(types)
    owns = "Own" in types
    T = f"dtl::standard_layout_tuple<{', '.join(types)}>"
    o = [f"using T = {T};", f"CHECK(T::size() == {n} && std::tuple_size_v<T> == {n} && std::is_standard_layout_v<T>);"]
    for i in range(n):
        o.append(f"SAME(std::tuple_element_t<{i}, T>, {types[i]}); SAME(std::tuple_element_t<{i}, T const>, {types[i]} const);")
    o.append("int const before = alive; {")
    model = {}
    names = []

    def create():
        name = f"t{len(names)}"
        k = t.below(5)
        vals = [newval(t) for _ in types]
        args = ", ".join(f"mk<{ty}>({v})" for ty, v in zip(types, vals))
        if k == 0 or (k in (2,) and "Empty" in types):
            o.append(f"T {name}{{{args}}};")
        elif k == 1:
            if t.flip():
                # some arguments as lvalues
                lv = [t.flip() for _ in types]
                pre = [f"{ty} l{name}_{i} = mk<{ty}>({v});" for i, (ty, v) in enumerate(zip(types, vals)) if lv[i]]
                args = ", ".join(f"l{name}_{i}" if lv[i] else f"mk<{ty}>({v})" for i, (ty, v) in enumerate(zip(types, vals)))
                ind = "dtl::individual_construct, " if t.flip() or "Empty" in types else ""
                o.append(" ".join(pre) + f" T {name}{{{ind}{args}}};")
                o.extend(f"CHECK(val(l{name}_{i}) == {0 if types[i] == 'Empty' else v});" for i, v in enumerate(vals) if lv[i])
            else:
                o.append(f"T {name}{{dtl::individual_construct, {args}}};")
        elif k == 2:
            v = newval(t)
            vals = [v] * n
            if "Empty" not in types and t.flip():
                if t.flip():
                    o.append(f"T {name}{{dtl::uniform_construct, Arg{{{v}}}}};")
                else:
                    o.append(f"Arg u{name}{{{v}}}; T {name}{{dtl::uniform_construct, u{name}}}; CHECK(!u{name}.gone);")
                names.append(name)
                model[name] = vals
                return
            bad = any(ty in ("char", "unsigned char", "int", "long", "double") for ty in types)
            if bad:  # list initialization of arithmetic elements: no narrowing, so they must all be of one type
                same = all(ty == types[0] for ty in types)
                if same:
                    o.append(f"T {name}{{dtl::uniform_construct, static_cast<{types[0]}>({v})}};")
                else:
                    vals = [0] * n
                    o.append(f"T {name}{{dtl::uniform_construct}};")
            else:
                o.append(f"T {name}{{dtl::uniform_construct, {v}}};")
        elif k == 3 and names:
            src = t.pick(names)
            vals = list(model[src])
            o.append(f"T {name}{{{src}}};")
        else:
            # a moved temporary
            o.append(f"T {name}{{T{{{args}}}}};")
        names.append(name)
        model[name] = vals

    def uniq_types():
        return [i for i in range(n) if types.count(types[i]) == 1]

    create()
    create()
    for _ in range(3 + t.below(8)):
        k = t.below(9)
        a = t.pick(names)
        i = t.below(n)
        if k == 0:
            create()
        elif k == 1:
            v = newval(t)
            o.append(f"{a}.get<{i}>() = mk<{types[i]}>({v});")
            model[a][i] = v
        elif k == 2 and uniq_types():
            i = t.pick(uniq_types())
            v = newval(t)
            o.append(f"{a}.get<{types[i]}>() = mk<{types[i]}>({v}); CHECK(addr({a}.get<{types[i]}>()) == addr({a}.get<{i}>())); SAME(decltype(std::as_const({a}).get<{types[i]}>()), {types[i]} const &);")
            model[a][i] = v
        elif k == 3:
            b = t.pick(names)
            o.append(f"{a} = {b};" if a != b else f"{a} = std::as_const({b});")
            model[a] = list(model[b])
        elif k == 4:
            vals = [newval(t) for _ in types]
            o.append(f"{a} = T{{{', '.join(f'mk<{ty}>({v})' for ty, v in zip(types, vals))}}};")
            model[a] = vals
        elif k == 5:
            off = t.below(n)
            cnt = n if off == 0 and t.below(3) == 2 else t.below(n - off + 1)
            while not compatible(types, off, cnt):
                cnt -= 1
            sub = f"sub{len(o)}"
            dflt = off == 0 and cnt == n
            o.append(f"{{ auto &{sub} = {a}.subtuple<{off}{'' if dflt else f', {cnt}'}>(); SAME(decltype({sub}), dtl::standard_layout_tuple<{', '.join(types[off:off + cnt])}> &);")
            o.append(f"SAME(decltype(std::as_const({a}).subtuple<{off}, {cnt}>()), dtl::standard_layout_tuple<{', '.join(types[off:off + cnt])}> const &);")
            o.append(f"SAME(decltype(std::move({a}).subtuple<{off}, {cnt}>()), dtl::standard_layout_tuple<{', '.join(types[off:off + cnt])}> &&);")
            for j in range(cnt):
                o.append(f"CHECK(addr({sub}.get<{j}>()) == addr({a}.get<{off + j}>())); CHECK(val(std::as_const({a}).subtuple<{off}, {cnt}>().get<{j}>()) == {0 if types[off + j] == 'Empty' else model[a][off + j]});")
            if cnt:
                j = t.below(cnt)
                v = newval(t)
                o.append(f"{sub}.get<{j}>() = mk<{types[off + j]}>({v});")
                model[a][off + j] = v
            o.append("}")
        elif k == 6:
            vs = ", ".join(f"e{j}" for j in range(n))
            q = t.pick(["auto &", "auto const &", "auto &&"])
            o.append(f"{{ {q}[{vs}] = {a};")
            for j in range(n):
                o.append(f"CHECK(addr(e{j}) == addr({a}.get<{j}>()));")
            if q == "auto &":
                v = newval(t)
                o.append(f"e{i} = mk<{types[i]}>({v});")
                model[a][i] = v
            o.append("}")
        elif k == 7:
            o.append(f"SAME(decltype({a}.get<{i}>()), {types[i]} &); SAME(decltype(std::as_const({a}).get<{i}>()), {types[i]} const &); SAME(decltype(std::move({a}).get<{i}>()), {types[i]} &&); SAME(decltype(std::move(std::as_const({a})).get<{i}>()), {types[i]} const &&);")
            o.append(f"{{ auto taken = std::move({a}).get<{i}>(); CHECK(val(taken) == {0 if types[i] == 'Empty' else model[a][i]}); {a}.get<{i}>() = std::move(taken); }}")
        else:
            b = t.pick(names)
            ma = [0 if ty == "Empty" else v for ty, v in zip(types, model[a])]
            mb = [0 if ty == "Empty" else v for ty, v in zip(types, model[b])]
            o.append(f"CHECK(({a} == {b}) == {str(ma == mb).lower()} && ({a} != {b}) == {str(ma != mb).lower()} && ({a} < {b}) == {str(ma < mb).lower()} && ({a} >= {b}) == {str(ma >= mb).lower()});")
            if t.flip():
                j = t.below(n)
                o.append(f"{{ T c{{{a}}}; CHECK(c == {a}); c.get<{j}>() = mk<{types[j]}>({ma[j]} + 1); CHECK((c == {a}) == {str(types[j] == 'Empty').lower()} && (c > {a}) == {str(types[j] != 'Empty').lower()}); }}")
        for x in names:
            o.append(expect(x, model[x], types))
    # order of addresses, no overlap
    a = names[0]
    for i in range(n):
        for j in range(i + 1, n):
            if "Empty" not in (types[i], types[j]):
                o.append(f"CHECK(addr({a}.get<{i}>()) + sizeof({types[i]}) <= addr({a}.get<{j}>()));")
        o.append(f"CHECK(addr({a}.get<{i}>()) % alignof({types[i]}) == 0 && addr({a}.get<{i}>()) >= addr({a}) && addr({a}.get<{i}>()) + sizeof({types[i]}) <= addr({a}) + sizeof(T));")
    if types[0] != "Empty":
        o.append(f"CHECK(addr({a}) == addr({a}.get<0>()));")
    o.append("} CHECK(alive == before);")
    return {"body": "\n".join(o), "nontrivial": n > 1, "desc": f"standard_layout_tuple of {', '.join(types)}"}


def itt(t):
    wide = t.below(3) == 2
    name = "Y" if wide else "X"
    n = t.size(7)
    if wide:
        base = [0, 1, 2**64 - 1 - n, t.range(0, 50)][t.below(4)]
    else:
        base = [0, 1, -(2**31), 2**31 - 1 - n, t.range(-20, 20)][t.below(5)]
    asc = t.flip()
    first, last = (base, base + n) if asc else (base + n, base)

    def lit(v):
        return f"{v}UL" if wide else (f"({v} )" if v > -(2**31) else "(-2147483647 - 1)")

    ixs = list(range(first, last)) if asc else list(range(first, last, -1))
    T = f"dtl::integral_template_tuple<{lit(first)}, {lit(last)}, {name}>"
    o = [f"using T = {T};", f"CHECK(T::size() == {n} && std::is_standard_layout_v<T>);", f"SAME(typename T::index_type, {'unsigned long' if wide else 'int'});"]
    if n == 0:
        o.append("T a; T b; CHECK(a == b && !(a < b) && T{a} == b);")
        return {"body": "\n".join(o), "nontrivial": False, "desc": f"empty integral_template_tuple at {first}"}
    model, names = {}, []

    def E(i):
        return f"{name}<{lit(ixs[i])}>"

    def create():
        nm = f"t{len(names)}"
        k = t.below(4)
        vals = [newval(t) for _ in ixs]
        if k == 0:
            o.append(f"T {nm}{{{', '.join(f'{E(i)}({v})' for i, v in enumerate(vals))}}};")
        elif k == 1:
            vals = [newval(t)] * n
            o.append(f"T {nm}{{dtl::uniform_construct, {t.pick([vals[0], f'Arg{{{vals[0]}}}'])}}};")
        elif k == 2 and names:
            src = t.pick(names)
            vals = list(model[src])
            o.append(f"T {nm}{{{src}}};")
        elif k == 3:
            vals = [0] * n
            o.append(f"T {nm};")
        else:
            o.append(f"T {nm}{{dtl::individual_construct, {', '.join(f'{E(i)}({v})' for i, v in enumerate(vals))}}};")
        names.append(nm)
        model[nm] = vals

    create()
    create()
    for _ in range(3 + t.below(7)):
        k = t.below(7)
        a, b, i = t.pick(names), t.pick(names), t.below(n)
        if k == 0:
            create()
        elif k == 1:
            v = newval(t)
            o.append(f"{a}.get<{lit(ixs[i])}>() = {E(i)}({v});")
            model[a][i] = v
        elif k == 2:
            o.append(f"{a} = std::as_const({b});")
            model[a] = list(model[b])
        elif k == 3:
            lo = t.below(n)
            cnt = t.below(n - lo + 1)
            nf, nl = ixs[lo], (ixs[lo] + cnt if asc else ixs[lo] - cnt)
            o.append(f"{{ auto &s = {a}.subtuple<{lit(nf)}, {lit(nl)}>(); SAME(decltype(s), dtl::integral_template_tuple<{lit(nf)}, {lit(nl)}, {name}> &); SAME(decltype(std::as_const({a}).subtuple<{lit(nf)}, {lit(nl)}>()), dtl::integral_template_tuple<{lit(nf)}, {lit(nl)}, {name}> const &);")
            for j in range(lo, lo + cnt):
                o.append(f"CHECK(addr(s.template get<{lit(ixs[j])}>()) == addr({a}.get<{lit(ixs[j])}>()) && val(std::as_const({a}).subtuple<{lit(nf)}, {lit(nl)}>().template get<{lit(ixs[j])}>()) == {model[a][j]});")
            if cnt:
                j = lo + t.below(cnt)
                v = newval(t)
                o.append(f"s.template get<{lit(ixs[j])}>() = {E(j)}({v});")
                model[a][j] = v
            o.append("}")
        elif k == 4:
            # visit: every element once, the result is the one of the last call
            o.append(f"{{ std::vector<std::pair<__int128, int>> seen; int calls = 0; auto r = {t.pick([a, f'std::as_const({a})'])}.visit([&](auto &e) {{ seen.emplace_back(e.index, val(e)); return ++calls; }}); CHECK(r == {n} && calls == {n} && seen.size() == {n});")
            o.append(f"std::vector<std::pair<__int128, int>> want{{{', '.join(f'{{{lit(ix)}, {v}}}' for ix, v in zip(ixs, model[a]))}}}; for (auto const &w : want) {{ int c = 0; for (auto const &s : seen) c += s == w; CHECK(c == 1); }} }}")
            if n > 0:
                o.append(f"{{ int box[{n}]{{}}; int k = 0; SAME(decltype({a}.visit([&](auto &) -> int & {{ return box[0]; }})), int &); CHECK(&{a}.visit([&](auto &) -> int & {{ return box[k++]; }}) == &box[{n - 1}] && *std::as_const({a}).visit([](auto const &) {{ return std::make_unique<int>(3); }}) == 3); }}")
            if t.flip():
                o.append(f"{{ int calls = 0; auto visitor = [&calls, own = Own{{7}}](auto &) {{ calls += own.get() == 7; }}; {a}.visit(visitor); {a}.visit(visitor); CHECK(calls == {2 * n}); }}")
            if t.flip():
                d = 1 + t.below(5)
                o.append(f"{a}.visit([](auto &e) {{ e.v += {d}; }});")
                model[a] = [v + d for v in model[a]]
        elif k == 5:
            o.append(f"SAME(decltype({a}.get<{lit(ixs[i])}>()), {E(i)} &); SAME(decltype(std::as_const({a}).get<{lit(ixs[i])}>()), {E(i)} const &); SAME(decltype(std::move({a}).get<{lit(ixs[i])}>()), {E(i)} &&); SAME(typename T::template value_type<{lit(ixs[i])}>, {E(i)});")
        else:
            ma, mb = model[a], model[b]
            o.append(f"CHECK(({a} == {b}) == {str(ma == mb).lower()} && ({a} < {b}) == {str(ma < mb).lower()} && ({a} > {b}) == {str(ma > mb).lower()} && ({a} != {b}) == {str(ma != mb).lower()});")
        for x in names:
            o.append(" ".join(f"CHECK(val(std::as_const({x}).get<{lit(ix)}>()) == {v});" for ix, v in zip(ixs, model[x])))
    a = names[0]
    for i in range(n - 1):
        o.append(f"CHECK(addr({a}.get<{lit(ixs[i])}>()) + sizeof({E(i)}) <= addr({a}.get<{lit(ixs[i + 1])}>()));")
    o.append(f"CHECK(addr({a}) == addr({a}.get<{lit(ixs[0])}>()));")
    return {"body": "\n".join(o), "nontrivial": n > 1, "desc": f"integral_template_tuple from {first} to {last}"}


KINDS = {"standard_layout_tuple": (slt, 3), "integral_template_tuple": (itt, 2)}
