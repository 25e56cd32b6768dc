// Histories of variant2 operations against a hand written model of "which alternative, which value".
#ifndef VERIF_VARIANT2_DRIVER_HPP
#define VERIF_VARIANT2_DRIVER_HPP

#include "life.hpp"

#include <dice/template-library/variant2.hpp>

#include <any>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <vector>

namespace v2 {
	namespace dtl = dice::template_library;
	using life::world;

	// A type for which list-initialisation and direct-initialisation select different constructors.
	struct Listy {
		int value = 0;
		bool via_list = false;
		Listy() = default;
		Listy(int v) : value{v} {}
		Listy(std::initializer_list<Listy> il) : value{static_cast<int>(il.size()) + 100000}, via_list{true} {}
		Listy(Listy const &) = default;
		Listy(Listy &&) = default;
		Listy &operator=(Listy const &) = default;
		Listy &operator=(Listy &&) = default;
		~Listy() { value = -5; }
	};

	// A type that has its own idea of new, and of its address.
	struct Proud {
		int value = 0;
		Proud() = default;
		explicit Proud(int v) : value{v} {}
		Proud(Proud const &o) : value{o.value} {}
		Proud(Proud &&o) noexcept : value{o.value} {}
		Proud &operator=(Proud const &o) { value = o.value; return *this; }
		Proud &operator=(Proud &&o) noexcept { value = o.value; return *this; }
		~Proud() { value = -5; }
		static void *operator new(std::size_t) = delete;
		static void operator delete(void *) {}
		void operator&() const = delete;
	};

	template<typename T>
	struct Access {
		static T make(int v) { return T(v); }
		static long value(T const &t) {
			if constexpr (life::instrumented<T>) {
				t.use();
				return t.value;
			} else {
				return static_cast<long>(t);
			}
		}
		static constexpr bool copyable = std::is_copy_constructible_v<T>;
		// value of the source after a move: -1 unspecified, 0 unchanged, 1 moved_value
		static constexpr int after_move = [] {
			if constexpr (requires { T::resets_on_move; }) {
				return T::resets_on_move ? 1 : 0;
			} else {
				return std::is_trivially_copyable_v<T> ? 0 : -1;
			}
		}();
		template<typename V, typename Tag>
		static V in_place(Tag t, int v) { return V(t, v); }
	};

	template<>
	struct Access<Listy> {
		static Listy make(int v) { return Listy(v); }
		static long value(Listy const &t) { return t.via_list ? -100000 : t.value; }
		static constexpr bool copyable = true;
		static constexpr int after_move = 0;
	};

	template<>
	struct Access<Proud> {
		static Proud make(int v) { return Proud(v); }
		static long value(Proud const &t) { return t.value; }
		static constexpr bool copyable = true;
		static constexpr int after_move = 0;
	};

	template<>
	struct Access<std::string> {
		static std::string make(int v) { return std::string(static_cast<size_t>(v % 40 + 1), 'x') + std::to_string(v); }
		static long value(std::string const &t) {
			auto const p = t.find_first_not_of('x');
			return p == std::string::npos ? -1 : std::stol(t.substr(p));
		}
		static constexpr bool copyable = true;
		static constexpr int after_move = -1;
	};

	template<>
	struct Access<std::vector<std::any>> {
		static std::vector<std::any> make(int v) {
			std::vector<std::any> r;
			r.emplace_back(v);
			r.emplace_back(std::string("second"));
			return r;
		}
		static long value(std::vector<std::any> const &t) {
			if (t.size() != 2 || t[0].type() != typeid(int)) {
				return -12345;
			}
			return std::any_cast<int>(t[0]);
		}
		static constexpr bool copyable = true;
		static constexpr int after_move = -1;
	};

	template<>
	struct Access<std::unique_ptr<int>> {
		static std::unique_ptr<int> make(int v) { return std::make_unique<int>(v); }
		static long value(std::unique_ptr<int> const &t) { return t ? *t : life::moved_value; }
		static constexpr bool copyable = false;
		static constexpr int after_move = 1;
	};

	struct M {
		int idx = -1; // -1 valueless
		long val = 0;
		bool known = true; // value specified?
	};

	template<typename T, typename U>
	struct Driver {
		using V = dtl::variant2<T, U>;
		using AT = Access<T>;
		using AU = Access<U>;
		static constexpr bool copyable = AT::copyable && AU::copyable;
		static constexpr int nslots = 3;

		struct Slot {
			alignas(V) unsigned char buf[sizeof(V)];
			bool alive = false;
			V &v() { return *std::launder(reinterpret_cast<V *>(buf)); }
			template<typename... A>
			void make(A &&...a) {
				std::memset(buf, 0xAB, sizeof buf);
				new (buf) V(std::forward<A>(a)...);
				alive = true;
			}
			void destroy() {
				alive = false;
				v().~V();
			}
		};

		pbt::Ctx &ctx;
		Slot s[nslots];
		M m[nslots];
		int next = 1;
		unsigned done = 0;
		unsigned faults = 0;
		unsigned switches = 0;
		unsigned rot = 0;

		explicit Driver(pbt::Ctx &c) : ctx{c} {}

		~Driver() {
			world.disarm();
			for (auto &x : s) {
				if (x.alive) {
					x.destroy();
				}
			}
		}

		template<typename X>
		static long value_of(X const &x) { return Access<X>::value(x); }

		static M observe(V &v) {
			M r;
			if (v.valueless_by_exception()) {
				r.idx = -1;
			} else if (v.index() == 0) {
				r.idx = 0;
				r.val = AT::value(dtl::get<0>(v));
			} else {
				r.idx = 1;
				r.val = AU::value(dtl::get<1>(v));
			}
			return r;
		}

		// f must return `addr` if act, throw bad_variant_access otherwise
		static void expect(bool act, void const *addr, pbt::fref<void const *()> f) {
			void const *got;
			try {
				got = f();
			} catch (std::bad_variant_access const &) {
				PBT_CHECK(!act);
				return;
			}
			PBT_CHECK(act);
			PBT_CHECK(got == addr);
		}

		template<size_t ix, typename X>
		void verify_alt(V &v, V const &c, M const &mm) {
			bool const act = mm.idx == static_cast<int>(ix);
			PBT_CHECK(dtl::holds_alternative<X>(c) == act);
			X *pi = dtl::get_if<ix>(&v);
			X const *pci = dtl::get_if<ix>(&c);
			X *pt = dtl::get_if<X>(&v);
			X const *pct = dtl::get_if<X>(&c);
			PBT_CHECK((pi != nullptr) == act);
			PBT_CHECK(pi == pci && pi == pt && pi == pct);
			PBT_CHECK(dtl::get_if<ix>(static_cast<V *>(nullptr)) == nullptr);
			PBT_CHECK(dtl::get_if<X>(static_cast<V const *>(nullptr)) == nullptr);
			// a failing access throws, which is slow: one form of access per step in that case
			unsigned const form = act ? 8 : (rot++ % 8);
			auto want = [&](unsigned k) { return form == 8 || form == k; };
			if (want(0)) { expect(act, pi, [&]() -> void const * { X &r = dtl::get<ix>(v); return std::addressof(r); }); }
			if (want(1)) { expect(act, pi, [&]() -> void const * { X const &r = dtl::get<ix>(c); return std::addressof(r); }); }
			if (want(2)) { expect(act, pi, [&]() -> void const * { X &r = dtl::get<X>(v); return std::addressof(r); }); }
			if (want(3)) { expect(act, pi, [&]() -> void const * { X const &r = dtl::get<X>(c); return std::addressof(r); }); }
			if (want(4)) { expect(act, pi, [&]() -> void const * { X &&r = dtl::get<ix>(std::move(v)); return std::addressof(r); }); }
			if (want(5)) { expect(act, pi, [&]() -> void const * { X const &&r = dtl::get<ix>(std::move(c)); return std::addressof(r); }); }
			if (want(6)) { expect(act, pi, [&]() -> void const * { X &&r = dtl::get<X>(std::move(v)); return std::addressof(r); }); }
			if (want(7)) { expect(act, pi, [&]() -> void const * { X const &&r = dtl::get<X>(std::move(c)); return std::addressof(r); }); }
			if (act) {
				auto const *b = reinterpret_cast<unsigned char const *>(pi);
				auto const *o = reinterpret_cast<unsigned char const *>(&v);
				PBT_CHECK_MSG(b >= o && b + sizeof(X) <= o + sizeof(V), "value lies outside of the variant");
				PBT_CHECK(reinterpret_cast<uintptr_t>(pi) % alignof(X) == 0);
				if (mm.known) {
					PBT_CHECK_MSG(value_of(*pi) == mm.val, "contained value is " << value_of(*pi) << ", expected " << mm.val);
				} else {
					(void) value_of(*pi);
				}
			}
		}

		void verify_slot(int i) {
			if (!s[i].alive) {
				return;
			}
			V &v = s[i].v();
			V const &c = v;
			M const &mm = m[i];
			PBT_CHECK_MSG(c.valueless_by_exception() == (mm.idx < 0), "slot " << i << " expected index " << mm.idx);
			PBT_CHECK_MSG(c.index() == (mm.idx < 0 ? std::variant_npos : static_cast<size_t>(mm.idx)), "slot " << i << " has index " << c.index() << ", expected " << mm.idx);
			verify_alt<0, T>(v, c, mm);
			verify_alt<1, U>(v, c, mm);
			int calls = 0;
			auto vis = [&](auto &x) -> int {
				++calls;
				using X = std::remove_cvref_t<decltype(x)>;
				return std::is_same_v<X, T> ? 0 : 1;
			};
			try {
				int const r = dtl::visit(vis, c);
				PBT_CHECK(mm.idx >= 0 && r == mm.idx && calls == 1);
			} catch (std::bad_variant_access const &) {
				PBT_CHECK(mm.idx < 0 && calls == 0);
			}
		}

		void verify_all() {
			world.verify();
			for (int i = 0; i < nslots; ++i) {
				verify_slot(i);
			}
			world.verify();
		}

		// `want` is the state of the target if the operation succeeds, `src` the slot that may be moved from (-1: none)
		void apply(int target, M want, int src, M src_after, bool is_new, pbt::fref<void()> f) {
			M const old = m[target];
			bool const armed = ctx.chance(1, 3);
			long const at = armed ? static_cast<long>(ctx.below(3)) : -1;
			if (armed) {
				world.arm(at);
			}
			bool threw = false;
			try {
				f();
			} catch (life::Injected const &e) {
				threw = true;
				PBT_CHECK(e.magic == 0x1137);
			}
			bool const fired = world.fired;
			world.disarm();
			world.fired = false;
			PBT_CHECK_MSG(!(fired && !threw), "the exception of the element operation was swallowed");
			PBT_CHECK_MSG(!(threw && !fired), "exception without cause");
			if (!threw) {
				if (src >= 0) {
					m[src] = src_after;
				}
				m[target] = want;
				if (!is_new && old.idx != want.idx) {
					++switches;
				}
				return;
			}
			++faults;
			PBT_LOG("   -> exception");
			if (is_new) {
				s[target].alive = false;
			} else {
				M const now = observe(s[target].v());
				bool const is_old = now.idx == old.idx && (old.idx < 0 || !old.known || now.val == old.val);
				bool const is_want = now.idx == want.idx && (want.idx < 0 || !want.known || now.val == want.val);
				PBT_CHECK_MSG(is_old || is_want || now.idx == -1, "after an exception the variant has index " << now.idx << " value " << now.val << "; before it was " << old.idx << "/" << old.val << ", should have become " << want.idx << "/" << want.val);
				if (now.idx == -1) {
					ctx.label("valueless by exception");
				}
				m[target] = now;
				m[target].known = now.idx < 0 || is_old ? old.known || now.idx < 0 : want.known;
			}
			if (src >= 0 && src != target) {
				M const now = observe(s[src].v());
				M const &o = m[src];
				PBT_CHECK_MSG(now.idx == o.idx, "after a failed move the source changed from index " << o.idx << " to " << now.idx);
				bool const known = o.known && (now.idx < 0 || (src_after.known && (now.val == o.val || now.val == src_after.val)));
				PBT_CHECK(!(o.known && src_after.known) || known);
				m[src] = now;
				m[src].known = known;
			}
		}

		static M moved(M x) {
			if (x.idx < 0) {
				return x;
			}
			int const am = x.idx == 0 ? AT::after_move : AU::after_move;
			if (am == 1) {
				x.val = life::moved_value;
				x.known = true;
			} else if (am < 0) {
				x.known = false;
			}
			return x;
		}

		int pick_alive() { // -1 if none
			int list[nslots];
			int n = 0;
			for (int i = 0; i < nslots; ++i) {
				if (s[i].alive) {
					list[n++] = i;
				}
			}
			if (n == 0) {
				return -1;
			}
			return list[ctx.below(static_cast<size_t>(n))];
		}
		int pick_other(int not_this) {
			int list[nslots];
			int n = 0;
			for (int i = 0; i < nslots; ++i) {
				if (s[i].alive && i != not_this) {
					list[n++] = i;
				}
			}
			if (n == 0) {
				return -1;
			}
			return list[ctx.below(static_cast<size_t>(n))];
		}

		// create the variant in a dead slot
		template<size_t ix, typename X>
		void construct_value(int t) {
			int const val = next++;
			M const want{static_cast<int>(ix), val};
			switch (ctx.below(4)) {
				case 0: {
					PBT_LOG("slot" << t << " = V(X" << ix << "&& " << val << ")");
					X x = Access<X>::make(val);
					apply(t, want, -1, {}, true, [&] { s[t].make(std::move(x)); });
					break;
				}
				case 1: {
					if constexpr (Access<X>::copyable) {
						PBT_LOG("slot" << t << " = V(X" << ix << " const& " << val << ")");
						X const x = Access<X>::make(val);
						apply(t, want, -1, {}, true, [&] { s[t].make(x); });
						PBT_CHECK(value_of(x) == val);
					}
					break;
				}
				case 2: {
					PBT_LOG("slot" << t << " = V(in_place_type<X" << ix << ">, " << val << ")");
					if constexpr (life::instrumented<X>) {
						if (ctx.flip()) {
							with_args(val, 3, [&](auto &&l, auto &&r) { apply(t, {static_cast<int>(ix), val * 1000 + 3}, -1, {}, true, [&] { s[t].make(std::in_place_type<X>, l, std::move(r)); }); });
						} else {
							apply(t, want, -1, {}, true, [&] { s[t].make(std::in_place_type<X>, val); });
						}
					} else if constexpr (std::is_same_v<X, std::unique_ptr<int>>) {
						apply(t, want, -1, {}, true, [&] { s[t].make(std::in_place_type<X>, new int(val)); });
					} else if constexpr (std::is_same_v<X, std::string>) {
						apply(t, want, -1, {}, true, [&] { s[t].make(std::in_place_type<X>, std::to_string(val)); });
					} else if constexpr (std::is_same_v<X, Proud>) {
						apply(t, want, -1, {}, true, [&] { s[t].make(std::in_place_type<X>, val); });
					} else if constexpr (std::is_arithmetic_v<X>) {
						apply(t, want, -1, {}, true, [&] { s[t].make(std::in_place_type<X>, static_cast<X>(val)); });
					}
					break;
				}
				default: {
					PBT_LOG("slot" << t << " = V(in_place_index<" << ix << ">, " << val << ")");
					if constexpr (life::instrumented<X>) {
						if (ctx.flip()) {
							with_args(val, 4, [&](auto &&l, auto &&r) { apply(t, {static_cast<int>(ix), val * 1000 + 4}, -1, {}, true, [&] { s[t].make(std::in_place_index<ix>, l, std::move(r)); }); });
							break;
						}
						apply(t, want, -1, {}, true, [&] { s[t].make(std::in_place_index<ix>, val); });
					} else if constexpr (std::is_same_v<X, std::unique_ptr<int>>) {
						apply(t, want, -1, {}, true, [&] { s[t].make(std::in_place_index<ix>, new int(val)); });
					} else if constexpr (std::is_same_v<X, std::string>) {
						apply(t, want, -1, {}, true, [&] { s[t].make(std::in_place_index<ix>, std::to_string(val)); });
					} else if constexpr (std::is_same_v<X, Proud>) {
						apply(t, want, -1, {}, true, [&] { s[t].make(std::in_place_index<ix>, val); });
					} else if constexpr (std::is_arithmetic_v<X>) {
						apply(t, want, -1, {}, true, [&] { s[t].make(std::in_place_index<ix>, static_cast<X>(val)); });
					}
					break;
				}
			}
		}

		template<size_t ix, typename X>
		void assign_value(int t) {
			int const val = next++;
			M const want{static_cast<int>(ix), val};
			bool const lv = ctx.flip();
			if (lv) {
				if constexpr (Access<X>::copyable) {
					PBT_LOG("slot" << t << " = X" << ix << " const& " << val);
					X const x = Access<X>::make(val);
					apply(t, want, -1, {}, false, [&] { PBT_CHECK(&(s[t].v() = x) == &s[t].v()); });
					PBT_CHECK(value_of(x) == val);
					return;
				}
			}
			PBT_LOG("slot" << t << " = X" << ix << "&& " << val);
			X x = Access<X>::make(val);
			apply(t, want, -1, {}, false, [&] { PBT_CHECK(&(s[t].v() = std::move(x)) == &s[t].v()); });
		}

		// arguments for a constructor, one passed as lvalue and one as temporary
		template<typename F>
		static void with_args(int a, int b, F f) {
			life::Args x{{a}, {b}};
			f(x.l, x.r);
			x.check(true);
		}

		template<size_t ix, typename X>
		void emplace_value(int t) {
			int const val = next++;
			M want{static_cast<int>(ix), val};
			bool const by_type = ctx.flip();
			PBT_LOG("slot" << t << ".emplace<" << (by_type ? "type " : "index ") << ix << ">(" << val << ")");
			V &v = s[t].v();
			X *ret = nullptr;
			auto emp = [&]<typename... A>(A &&...a) {
				apply(t, want, -1, {}, false, [&] {
					if (by_type) {
						ret = std::addressof(v.template emplace<X>(std::forward<A>(a)...));
					} else {
						ret = std::addressof(v.template emplace<ix>(std::forward<A>(a)...));
					}
				});
			};
			if constexpr (life::instrumented<X>) {
				switch (ctx.below(3)) {
					case 0: emp(val); break;
					case 1:
						want.val = val * 1000 + 7;
						with_args(val, 7, [&](auto &&l, auto &&r) { emp(l, std::move(r)); });
						break;
					default:
						want.val = 0;
						emp();
						break;
				}
			} else if constexpr (std::is_same_v<X, std::unique_ptr<int>>) {
				auto up = std::make_unique<int>(val);
				emp(std::move(up));
			} else {
				X x = Access<X>::make(val);
				if constexpr (std::is_same_v<X, Listy> || std::is_same_v<X, std::vector<std::any>>) {
					// brace initialisation is documented for emplace: use a constructor it agrees with
					want.val = std::is_same_v<X, Listy> ? 0 : -12345;
					emp();
				} else {
					emp(std::move(x));
				}
			}
			if (ret != nullptr) {
				PBT_CHECK(ret == dtl::get_if<ix>(&v));
			}
		}

		void step() {
			size_t const op = ctx.below(14);
			++done;
			switch (op) {
				case 0:
				case 1: { // construct into a dead slot (destroy a live one first)
					int const t = static_cast<int>(ctx.below(nslots));
					if (s[t].alive) {
						PBT_LOG("destroy slot" << t);
						s[t].destroy();
						world.verify();
					}
					if (ctx.flip()) {
						construct_value<1, U>(t);
					} else {
						construct_value<0, T>(t);
					}
					break;
				}
				case 2: { // default / copy / move construct
					int const t = static_cast<int>(ctx.below(nslots));
					if (s[t].alive) {
						PBT_LOG("destroy slot" << t);
						s[t].destroy();
						world.verify();
					}
					int const o = pick_other(t);
					size_t const kind = ctx.below(3);
					if (o < 0 || kind == 0) {
						if constexpr (std::is_default_constructible_v<T>) {
							PBT_LOG("slot" << t << " = V()");
							T probe{};
							long const dv = value_of(probe);
							apply(t, {0, dv}, -1, {}, true, [&] { s[t].make(); });
						}
					} else if (kind == 1) {
						if constexpr (copyable) {
							PBT_LOG("slot" << t << " = V(slot" << o << ")");
							apply(t, m[o], o, m[o], true, [&] { s[t].make(std::as_const(s[o].v())); });
						}
					} else {
						PBT_LOG("slot" << t << " = V(move(slot" << o << "))");
						apply(t, m[o], o, moved(m[o]), true, [&] { s[t].make(std::move(s[o].v())); });
					}
					break;
				}
				case 3:
				case 4: { // copy assign (also to itself)
					int const t = pick_alive();
					if (t < 0) {
						break;
					}
					int const o = pick_alive();
					if constexpr (copyable) {
						PBT_LOG("slot" << t << " = slot" << o);
						apply(t, m[o], o == t ? -1 : o, m[o], false, [&] { PBT_CHECK(&(s[t].v() = std::as_const(s[o].v())) == &s[t].v()); });
					}
					break;
				}
				case 5:
				case 6: {
					int const t = pick_alive();
					if (t < 0) {
						break;
					}
					int const o = pick_other(t);
					if (o < 0) {
						break;
					}
					PBT_LOG("slot" << t << " = move(slot" << o << ")");
					apply(t, m[o], o, moved(m[o]), false, [&] { PBT_CHECK(&(s[t].v() = std::move(s[o].v())) == &s[t].v()); });
					break;
				}
				case 7:
				case 8: {
					int const t = pick_alive();
					if (t < 0) {
						break;
					}
					if (ctx.flip()) {
						assign_value<1, U>(t);
					} else {
						assign_value<0, T>(t);
					}
					break;
				}
				case 9:
				case 10: {
					int const t = pick_alive();
					if (t < 0) {
						break;
					}
					if (ctx.flip()) {
						emplace_value<1, U>(t);
					} else {
						emplace_value<0, T>(t);
					}
					break;
				}
				case 11: { // swap (also with itself)
					int const t = pick_alive();
					if (t < 0) {
						break;
					}
					int const o = pick_alive();
					PBT_LOG("swap(slot" << t << ", slot" << o << ")");
					bool const armed = ctx.chance(1, 4);
					if (armed) {
						world.arm(static_cast<long>(ctx.below(6)));
					}
					bool threw = false;
					try {
						swap(s[t].v(), s[o].v());
					} catch (life::Injected const &) {
						threw = true;
					}
					bool const fired = world.fired;
					world.disarm();
					world.fired = false;
					PBT_CHECK(fired == threw);
					if (!threw) {
						std::swap(m[t], m[o]);
					} else {
						++faults;
						for (int i : {t, o}) {
							bool const nk = false;
							m[i] = observe(s[i].v());
							m[i].known = nk;
						}
					}
					break;
				}
				case 12: { // assign an element of another (or the same) variant
					int const t = pick_alive();
					if (t < 0) {
						break;
					}
					int const o = pick_alive();
					if (m[o].idx < 0 || (t == o && m[t].idx != m[o].idx)) {
						break;
					}
					bool const mv = t != o && ctx.flip();
					PBT_LOG("slot" << t << " = get<" << m[o].idx << ">(" << (mv ? "move " : "") << "slot" << o << ")");
					auto doit = [&]<size_t ix>(std::integral_constant<size_t, ix>) {
						using X = std::variant_alternative_t<ix, V>;
						if (mv) {
							apply(t, m[o], o, moved(m[o]), false, [&] { s[t].v() = dtl::get<ix>(std::move(s[o].v())); });
						} else if constexpr (Access<X>::copyable) {
							apply(t, m[o], o == t ? -1 : o, m[o], false, [&] { s[t].v() = std::as_const(dtl::get<ix>(s[o].v())); });
						}
					};
					if (m[o].idx == 0) {
						doit(std::integral_constant<size_t, 0>{});
					} else {
						doit(std::integral_constant<size_t, 1>{});
					}
					break;
				}
				default: { // write through a reference
					int const t = pick_alive();
					if (t < 0 || m[t].idx < 0) {
						break;
					}
					int const val = next++;
					PBT_LOG("write " << val << " through visit of slot" << t);
					dtl::visit([&]<typename X>(X &x) { x = Access<X>::make(val); }, s[t].v());
					m[t].val = val;
					m[t].known = true;
					break;
				}
			}
		}

		void run() {
			world.reset();
			int n = 0;
			while (n < 60 && ctx.more(14)) {
				step();
				verify_all();
				++n;
			}
			world.disarm();
			for (int i = 0; i < nslots; ++i) {
				if (s[i].alive) {
					s[i].destroy();
					world.verify();
				}
			}
			PBT_CHECK_MSG(world.live.empty(), world.live.size() << " objects were never destroyed");
			PBT_CHECK(world.constructed == world.destroyed);
			if (done >= 3 && (faults > 0 || switches > 0)) {
				ctx.nontrivial();
			}
			if (faults > 0) {
				ctx.label("with injected exception");
			}
			if (switches > 1) {
				ctx.label("alternative switched more than once");
			}
		}
	};

	template<typename T, typename U>
	void run(pbt::Ctx &ctx) {
		world.reset();
		{
			Driver<T, U> d{ctx};
			d.run();
		}
		world.live.shrink_to_fit();
		world.error.shrink_to_fit();
	}
} // namespace v2
#endif
