#include "life.hpp"

#include <dice/template-library/flex_array.hpp>

#include <list>
#include <span>
#include <stdexcept>

namespace c13 {
	namespace dtl = dice::template_library;
	using life::world;
	using dtl::dynamic_extent;

	// element with an explicit-free int conversion so that it can be assigned from generated ints
	template<int Tag>
	struct Elem : life::Obj<Tag, 0> {
		using base = life::Obj<Tag, 0>;
		Elem() = default;
		Elem(int v) : base{v} {}
		Elem(Elem const &) = default;
		Elem(Elem &&) = default;
		Elem &operator=(Elem const &) = default;
		Elem &operator=(Elem &&) = default;
		friend bool operator==(Elem const &a, Elem const &b) { return static_cast<base const &>(a) == static_cast<base const &>(b); }
		friend std::strong_ordering operator<=>(Elem const &a, Elem const &b) { return static_cast<base const &>(a) <=> static_cast<base const &>(b); }
	};

	template<typename T>
	struct Conv { // plain integers
		static T to(int v) { return static_cast<T>(v); }
		static int from(T const &t) { return static_cast<int>(t); }
	};
	template<>
	struct Conv<double> {
		static double to(int v) { return v == 7 ? std::numeric_limits<double>::quiet_NaN() : v; }
		static int from(double d) { return d != d ? 7 : static_cast<int>(d); }
	};
	template<int Tag>
	struct Conv<Elem<Tag>> {
		static Elem<Tag> to(int v) { return Elem<Tag>{v}; }
		static int from(Elem<Tag> const &t) {
			t.use();
			return t.value;
		}
	};

	using M = std::vector<int>;

	// single pass input iterator producing T
	template<typename T>
	struct In {
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		M const *src = nullptr;
		size_t *pos = nullptr;
		T operator*() const { return Conv<T>::to((*src)[*pos]); }
		In &operator++() {
			++*pos;
			return *this;
		}
		struct Proxy {
			T v;
			T &operator*() { return v; }
		};
		Proxy operator++(int) {
			Proxy p{**this};
			++*pos;
			return p;
		}
		friend bool operator==(In const &a, std::default_sentinel_t) { return *a.pos == a.src->size(); }
	};

	// the same, but move-only, and incrementing yields nothing (all std::input_iterator asks for)
	template<typename T>
	struct MoveIn {
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		M const *src = nullptr;
		size_t *pos = nullptr;
		MoveIn(M const *m, size_t *p) : src{m}, pos{p} {}
		MoveIn(MoveIn &&) = default;
		MoveIn &operator=(MoveIn &&) = default;
		T operator*() const { return Conv<T>::to((*src)[*pos]); }
		MoveIn &operator++() {
			++*pos;
			return *this;
		}
		void operator++(int) { ++*pos; }
		friend bool operator==(MoveIn const &a, std::default_sentinel_t) { return *a.pos == a.src->size(); }
	};

	enum Kind { Static, Limited, Dynamic };

	// a pool of arrays of one type
	template<typename T, size_t E, size_t X>
	struct Pool {
		using F = dtl::flex_array<T, E, X>;
		static constexpr Kind kind = X == dynamic_extent ? Dynamic : E != dynamic_extent ? Static : Limited;
		static constexpr size_t max = kind == Static ? E : X;
		static constexpr int n = 2;
		static constexpr bool throwing = requires (T const &t) { t.use(); };

		pbt::Ctx &ctx;
		char const *name;
		struct Slot {
			alignas(F) unsigned char buf[sizeof(F)];
			bool alive = false;
			M model;
			F &v() { return *std::launder(reinterpret_cast<F *>(buf)); }
			template<typename... A>
			void make(A &&...a) {
				std::memset(buf, 0x11, sizeof buf);
				new (buf) F(std::forward<A>(a)...);
				alive = true;
			}
			void destroy() {
				alive = false;
				v().~F();
			}
		};
		Slot s[n];
		unsigned faults = 0, rejected = 0, changes = 0;

		Pool(pbt::Ctx &c, char const *nm) : ctx{c}, name{nm} {}
		~Pool() {
			world.disarm();
			for (auto &x : s) {
				if (x.alive) {
					x.destroy();
				}
			}
		}
		M values() {
			size_t len;
			if constexpr (kind == Dynamic) {
				len = ctx.size(20);
			} else {
				switch (ctx.below(4)) {
					case 0: len = max; break;
					case 1: len = max + 1 + ctx.below(3); break;
					case 2: len = max - (max ? ctx.below(2) : 0); break;
					default: len = ctx.below(max + 1); break;
				}
			}
			M m;
			for (size_t i = 0; i < len; ++i) {
				m.push_back(static_cast<int>(ctx.below(9)));
			}
			return m;
		}
		static bool fits(M const &m) {
			return kind == Dynamic || (kind == Limited ? m.size() <= max : m.size() == max);
		}
		static M read(F const &f) {
			M m;
			for (size_t i = 0; i < f.size(); ++i) {
				m.push_back(Conv<T>::from(f.data()[i]));
			}
			return m;
		}
		void observe(int i) {
			PBT_CHECK(s[i].v().size() <= F::max_size());
			s[i].model = read(s[i].v());
		}

		void verify() {
			world.verify();
			for (int i = 0; i < n; ++i) {
				if (!s[i].alive) {
					continue;
				}
				F &v = s[i].v();
				F const &c = v;
				M const &m = s[i].model;
				PBT_CHECK_MSG(c.size() == m.size(), name << i << " has size " << c.size() << ", expected " << m.size());
				PBT_CHECK(c.empty() == m.empty());
				PBT_CHECK(c.size() <= F::max_size());
				PBT_CHECK(F::max_size() == (kind == Dynamic ? dynamic_extent : max));
				T const *p = c.data();
				PBT_CHECK(v.data() == p && v.begin() == p && c.begin() == p && c.cbegin() == p);
				auto const len = static_cast<std::ptrdiff_t>(m.size());
				PBT_CHECK(v.end() - p == len && c.end() - p == len && c.cend() - p == len);
				PBT_CHECK(v.rend() - v.rbegin() == len && c.rend() - c.rbegin() == len && c.crend() - c.crbegin() == len);
				for (size_t k = 0; k < m.size(); ++k) {
					PBT_CHECK_MSG(Conv<T>::from(c[k]) == m[k], name << i << "[" << k << "] is " << Conv<T>::from(c[k]) << ", expected " << m[k]);
					PBT_CHECK(&v[k] == p + k && &c[k] == p + k);
				}
				if (len > 0) {
					PBT_CHECK(&*v.rbegin() == p + (len - 1) && &*c.rbegin() == p + (len - 1) && &*c.crbegin() == p + (len - 1));
				}
				std::span<T, kind == Static ? E : dynamic_extent> sp = v;
				std::span<T const, kind == Static ? E : dynamic_extent> csp = c;
				PBT_CHECK((m.empty() || sp.data() == p) && sp.size() == m.size() && (m.empty() || csp.data() == p) && csp.size() == m.size());
			}
			world.verify();
		}

		int alive(int except = -1) {
			int l[n], k = 0;
			for (int i = 0; i < n; ++i) {
				if (s[i].alive && i != except) {
					l[k++] = i;
				}
			}
			return k == 0 ? -1 : l[ctx.below(static_cast<size_t>(k))];
		}
		void drop(int t) {
			if (s[t].alive) {
				s[t].destroy();
				s[t].model.clear();
				verify();
			}
		}
		enum Outcome { Ok, Rejected, Faulted };
		Outcome attempt(pbt::fref<void()> f) {
			if (throwing && ctx.chance(1, 5)) {
				world.arm(static_cast<long>(ctx.below(5)));
			}
			Outcome o = Ok;
			try {
				f();
			} catch (life::Injected const &) {
				o = Faulted;
				++faults;
				PBT_LOG("  -> element operation threw");
			} catch (std::logic_error const &e) {
				// length_error from constructors, invalid_argument from resize
				o = Rejected;
				++rejected;
				PBT_LOG("  -> rejected: " << e.what());
			}
			PBT_CHECK((o == Faulted) == world.fired);
			world.disarm();
			world.fired = false;
			return o;
		}

		template<typename V, typename Mk>
		void construct(int t, M const &m, char const *how, Mk mk) {
			PBT_LOG(name << t << " = F(" << how << " with " << m.size() << " elements)");
			auto const o = attempt([&] { mk(); });
			if (o == Faulted) {
				return;
			}
			bool const want = fits(m);
			PBT_CHECK_MSG((o == Ok) == want, how << ": construction from " << m.size() << " elements was " << (o == Ok ? "accepted" : "rejected"));
			if (o == Ok) {
				s[t].model = m;
			}
		}

		void build(int t) {
			drop(t);
			M m = values();
			switch (ctx.below(6)) {
				case 5: {
					if (kind == Static) {
						break;
					}
					PBT_LOG(name << t << " = F");
					std::memset(s[t].buf, 0x11, sizeof s[t].buf);
					auto const o = attempt([&] {
						new (s[t].buf) F;
						s[t].alive = true;
					});
					PBT_CHECK(o != Rejected);
					break;
				}
				case 0: {
					// initializer lists of different lengths
					m.resize(4, 3);
					size_t const len = ctx.below(6);
					if (ctx.flip()) {
						m.resize(len < m.size() ? len : m.size());
					}
					auto go = [&](auto... ix) {
						construct<void>(t, m, "initializer list", [&] { s[t].make(std::initializer_list<T>{Conv<T>::to(m[static_cast<size_t>(ix)])...}); });
					};
					switch (m.size()) {
						case 0: go(); break;
						case 1: go(0); break;
						case 2: go(0, 1); break;
						case 3: go(0, 1, 2); break;
						default: go(0, 1, 2, 3); break;
					}
					break;
				}
				case 1: {
					std::vector<T> src;
					for (int v : m) {
						src.push_back(Conv<T>::to(v));
					}
					if (kind == Static && m.size() < max) {
						m.resize(max, 1);
						while (src.size() < max) {
							src.push_back(Conv<T>::to(1));
						}
					}
					if (ctx.flip()) {
						construct<void>(t, m, "random access iterators", [&] { s[t].make(src.begin(), src.end()); });
					} else {
						construct<void>(t, m, "counted iterators", [&] { s[t].make(std::counted_iterator(src.begin(), static_cast<std::ptrdiff_t>(src.size())), std::default_sentinel); });
					}
					break;
				}
				case 2: {
					if (kind == Static && m.size() < max) {
						m.resize(max, 1);
					}
					std::list<T> src;
					for (int v : m) {
						src.push_back(Conv<T>::to(v));
					}
					construct<void>(t, m, "bidirectional iterators", [&] { s[t].make(src.cbegin(), src.cend()); });
					break;
				}
				case 3: {
					if (kind == Static && m.size() < max) {
						m.resize(max, 1);
					}
					size_t pos = 0;
					if (ctx.flip()) {
						construct<void>(t, m, "input iterators", [&] { s[t].make(In<T>{&m, &pos}, std::default_sentinel); });
					} else {
						construct<void>(t, m, "move-only input iterators", [&] { s[t].make(MoveIn<T>{&m, &pos}, std::default_sentinel); });
					}
					break;
				}
				default:
					if (int const o = alive(t); o >= 0) {
						bool const mv = ctx.flip();
						PBT_LOG(name << t << " = F(" << (mv ? "move " : "") << name << o << ")");
						auto const r = attempt([&] {
							if (mv) {
								s[t].make(std::move(s[o].v()));
							} else {
								s[t].make(std::as_const(s[o].v()));
							}
						});
						PBT_CHECK(r != Rejected);
						if (r == Ok) {
							s[t].model = s[o].model;
						}
						if (mv) {
							observe(o);
						}
						++changes;
					}
					break;
			}
		}

		static int ord(auto o) {
			return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2;
		}

		void step() {
			switch (ctx.below(8)) {
				case 0:
				case 1: build(static_cast<int>(ctx.below(n))); break;
				case 2: {
					int const t = alive();
					if (t < 0) {
						break;
					}
					int const o = alive();
					PBT_LOG(name << t << " = " << name << o);
					++changes;
					auto const r = attempt([&] { PBT_CHECK(&(s[t].v() = std::as_const(s[o].v())) == &s[t].v()); });
					PBT_CHECK(r != Rejected);
					if (r == Ok) {
						s[t].model = s[o].model;
					} else {
						observe(t);
					}
					break;
				}
				case 3: {
					int const t = alive();
					int const o = t < 0 ? -1 : alive(t);
					if (o < 0) {
						break;
					}
					PBT_LOG(name << t << " = move(" << name << o << ")");
					++changes;
					auto const r = attempt([&] { PBT_CHECK(&(s[t].v() = std::move(s[o].v())) == &s[t].v()); });
					PBT_CHECK(r != Rejected);
					if (r == Ok) {
						s[t].model = s[o].model;
					} else {
						observe(t);
					}
					observe(o);
					break;
				}
				case 4: {
					int const t = alive();
					int const o = t < 0 ? -1 : alive(t);
					if (o < 0) {
						break;
					}
					PBT_LOG("swap(" << name << t << ", " << name << o << ")");
					++changes;
					swap(s[t].v(), s[o].v());
					std::swap(s[t].model, s[o].model);
					break;
				}
				case 5: {
					int const t = alive();
					if (t < 0) {
						break;
					}
					if constexpr (kind != Static) {
						size_t const now = s[t].model.size();
						size_t len;
						if constexpr (kind == Limited) {
							len = ctx.chance(1, 3) ? max + 1 + ctx.size(3) : ctx.below(max + 1);
							if (ctx.chance(1, 20)) {
								len = ~size_t{0} - ctx.below(3);
							}
						} else {
							len = ctx.chance(1, 20) ? ~size_t{0} - ctx.below(3) : ctx.size(24);
						}
						PBT_LOG(name << t << ".resize(" << len << ")");
						auto const r = attempt([&] { s[t].v().resize(len); });
						bool const want = kind == Limited ? len <= max : len < 1000;
						if (r == Faulted) {
							observe(t);
							break;
						}
						PBT_CHECK_MSG((r == Ok) == want, "resize(" << len << ") was " << (r == Ok ? "accepted" : "rejected"));
						if (r == Ok) {
							++changes;
							M before = s[t].model;
							PBT_CHECK(s[t].v().size() == len);
							s[t].model.resize(len, 0);
							if (kind == Limited && len > now) {
								// the values of the new elements are not specified
								for (size_t i = now; i < len; ++i) {
									s[t].v()[i] = Conv<T>::to(s[t].model[i]);
								}
							}
						}
					}
					break;
				}
				case 6: {
					int const t = alive();
					if (t < 0 || s[t].model.empty()) {
						break;
					}
					size_t const ix = ctx.below(s[t].model.size());
					int const val = static_cast<int>(ctx.below(9));
					PBT_LOG(name << t << "[" << ix << "] = " << val);
					switch (ctx.below(4)) {
						case 0: s[t].v()[ix] = Conv<T>::to(val); break;
						case 1: s[t].v().data()[ix] = Conv<T>::to(val); break;
						case 2: *(s[t].v().begin() + static_cast<std::ptrdiff_t>(ix)) = Conv<T>::to(val); break;
						default: s[t].v().rbegin()[static_cast<std::ptrdiff_t>(s[t].model.size() - 1 - ix)] = Conv<T>::to(val); break;
					}
					s[t].model[ix] = val;
					break;
				}
				default: {
					int const t = alive();
					if (t < 0) {
						break;
					}
					int const o = alive();
					F const &a = s[t].v();
					F const &b = s[o].v();
					std::vector<T> x, y;
					for (int v : s[t].model) {
						x.push_back(Conv<T>::to(v));
					}
					for (int v : s[o].model) {
						y.push_back(Conv<T>::to(v));
					}
					bool const eq = x == y;
					int const od = ord(x <=> y);
					PBT_LOG("compare " << name << t << " with " << name << o << ": eq " << eq << " order " << od);
					PBT_CHECK((a == b) == eq && (a != b) == !eq);
					PBT_CHECK(ord(a <=> b) == od && (a < b) == (od == -1) && (a > b) == (od == 1) && (a <= b) == (od == -1 || od == 0) && (a >= b) == (od == 1 || od == 0));
					break;
				}
			}
		}
	};

	// dynamic with a small buffer
	template<typename T, size_t N>
	void run_small_buffer(pbt::Ctx &ctx) {
		world.reset();
		{
			Pool<T, N, dynamic_extent> sb{ctx, "small buffer"};
			static_assert(decltype(sb)::F::mode == dtl::flex_array_mode::sbo_dynamic_size);
			int k = 0;
			while (k < 40 && ctx.more(14)) {
				++k;
				sb.step();
				sb.verify();
			}
			if (k >= 3 && sb.changes > 0) ctx.nontrivial();
		}
		world.verify();
		PBT_CHECK_MSG(world.live.empty(), world.live.size() << " elements were never destroyed");
	}

	template<typename T, size_t N, size_t Max>
	void run(pbt::Ctx &ctx) {
		world.reset();
		{
			Pool<T, N, N> st{ctx, "static"};
			Pool<T, dynamic_extent, Max> li{ctx, "limited"};
			Pool<T, dynamic_extent, dynamic_extent> dy{ctx, "dynamic"};
			int k = 0;
			unsigned conv = 0;
			while (k < 60 && ctx.more(18)) {
				++k;
				switch (ctx.below(8)) {
					case 0:
					case 1: st.step(); break;
					case 2:
					case 3: li.step(); break;
					case 4:
					case 5: dy.step(); break;
					default: {
						// conversions between modes; fresh object, then moved into the pool
						size_t const how = ctx.below(4);
						auto convert = [&](auto &to, auto &from, bool exact) {
							int const o = from.alive();
							if (o < 0) {
								return;
							}
							int const t = static_cast<int>(ctx.below(2));
							to.drop(t);
							PBT_LOG(to.name << t << " = F(" << from.name << o << ")");
							++conv;
							auto const r = to.attempt([&] { to.s[t].make(std::as_const(from.s[o].v())); });
							if (r == to.Faulted) {
								return;
							}
							bool const want = !exact || from.s[o].model.size() == N;
							PBT_CHECK((r == to.Ok) == want);
							if (r == to.Ok) {
								to.s[t].model = from.s[o].model;
							}
						};
						switch (how) {
							case 0: convert(st, li, true); break;
							case 1: convert(st, dy, true); break;
							case 2: convert(li, st, false); break;
							default: convert(dy, st, false); break;
						}
						break;
					}
				}
				st.verify();
				li.verify();
				dy.verify();
			}
			if (st.faults + li.faults + dy.faults) {
				ctx.label("element operation threw");
			}
			if (st.rejected + li.rejected + dy.rejected) {
				ctx.label("request beyond the limit");
			}
			if (conv) {
				ctx.label("conversion between modes");
			}
			if (k >= 3 && st.changes + li.changes + dy.changes + conv > 0) {
				ctx.nontrivial();
			}
		}
		world.verify();
		PBT_CHECK_MSG(world.live.empty(), world.live.size() << " elements were never destroyed");
		world.live.shrink_to_fit();
		world.error.shrink_to_fit();
	}
} // namespace c13
