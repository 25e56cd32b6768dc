#include "life.hpp"

#include <dice/template-library/inplace_polymorphic.hpp>

#include <memory>
#include <new>
#include <string>
#include <typeinfo>

namespace c04 {
	namespace dtl = dice::template_library;
	using life::world;

	// --- copyable and movable, everything may throw
	struct Base {
		virtual ~Base() = default;
		virtual int id() const = 0;
		virtual long value() const = 0;
		virtual void set(long v) = 0;
		virtual void copy_to(Base *dst) const = 0;
		virtual void move_to(Base *dst) = 0;
		virtual size_t align() const = 0;
		virtual void const *address() const = 0;
		virtual void use() const = 0;
	};

	template<typename B, int Id, size_t Align, size_t Extra, unsigned F>
	struct alignas(Align) Derived : B {
		static constexpr int tag = Id;
		life::Obj<100 + Id, F> obj;
		unsigned char extra[Extra + 1];

		void fill() {
			for (size_t i = 0; i <= Extra; ++i) {
				extra[i] = static_cast<unsigned char>(Id * 7 + i);
			}
		}
		Derived() noexcept(false) { fill(); }
		explicit Derived(int v) : obj{v} { fill(); }
		Derived(int a, int b) : obj{a, b} { fill(); }
		Derived(Derived const &) = default;
		Derived(Derived &&) = default;
		int id() const override { return Id; }
		long value() const override {
			use();
			return obj.value;
		}
		void set(long v) override {
			use();
			obj.value = static_cast<int>(v);
		}
		void copy_to(B *dst) const override { new (dst) Derived(*this); }
		void move_to(B *dst) override { new (dst) Derived(std::move(*this)); }
		size_t align() const override { return Align; }
		void const *address() const override { return this; }
		void use() const override {
			obj.use();
			for (size_t i = 0; i <= Extra; ++i) {
				if (extra[i] != static_cast<unsigned char>(Id * 7 + i)) {
					world.err("contained object was overwritten");
				}
			}
		}
	};

	// --- noexcept copy_to / move_to
	struct NBase {
		virtual ~NBase() = default;
		virtual int id() const = 0;
		virtual long value() const = 0;
		virtual void set(long v) = 0;
		virtual void copy_to(NBase *dst) const noexcept = 0;
		virtual void move_to(NBase *dst) noexcept = 0;
		virtual size_t align() const = 0;
		virtual void const *address() const = 0;
		virtual void use() const = 0;
	};
	template<int Id, size_t Align, size_t Extra>
	struct alignas(Align) NDerived : NBase {
		static constexpr int tag = Id;
		life::Obj<100 + Id, life::NothrowAll> obj;
		unsigned char extra[Extra + 1]{};
		NDerived() = default;
		explicit NDerived(int v) : obj{v} {}
		NDerived(int a, int b) : obj{a, b} {}
		NDerived(NDerived const &) = default;
		NDerived(NDerived &&) = default;
		int id() const override { return Id; }
		long value() const override {
			use();
			return obj.value;
		}
		void set(long v) override { obj.value = static_cast<int>(v); }
		void copy_to(NBase *dst) const noexcept override { new (dst) NDerived(*this); }
		void move_to(NBase *dst) noexcept override { new (dst) NDerived(std::move(*this)); }
		size_t align() const override { return Align; }
		void const *address() const override { return this; }
		void use() const override { obj.use(); }
	};

	// --- trivially destructible, no virtual destructor
	struct TBase {
		virtual int id() const = 0;
		virtual long value() const = 0;
		virtual void set(long v) = 0;
		virtual void copy_to(TBase *dst) const = 0;
		virtual void move_to(TBase *dst) = 0;
		virtual size_t align() const = 0;
		virtual void const *address() const = 0;
		virtual void use() const = 0;
	};
	template<int Id, size_t Align, size_t Extra>
	struct alignas(Align) TDerived : TBase {
		static constexpr int tag = Id;
		int v = 0;
		unsigned char extra[Extra + 1]{};
		TDerived() { world.tick(); }
		explicit TDerived(int x) : v{x} { world.tick(); }
		TDerived(int a, int b) : v{a * 1000 + b} { world.tick(); }
		TDerived(TDerived const &o) : v{o.v} { world.tick(); }
		TDerived(TDerived &&o) : v{o.v} {
			world.tick();
			o.v = life::moved_value;
		}
		int id() const override { return Id; }
		long value() const override { return v; }
		void set(long x) override { v = static_cast<int>(x); }
		void copy_to(TBase *dst) const override { new (dst) TDerived(*this); }
		void move_to(TBase *dst) override { new (dst) TDerived(std::move(*this)); }
		size_t align() const override { return Align; }
		void const *address() const override { return this; }
		void use() const override {}
	};

	// --- move only / neither
	struct MBase {
		virtual ~MBase() = default;
		virtual int id() const = 0;
		virtual long value() const = 0;
		virtual void set(long v) = 0;
		virtual void move_to(MBase *dst) = 0;
		virtual size_t align() const = 0;
		virtual void const *address() const = 0;
		virtual void use() const = 0;
	};
	template<int Id, size_t Align, size_t Extra>
	struct alignas(Align) MDerived : MBase {
		static constexpr int tag = Id;
		life::Obj<100 + Id, life::NoCopy> obj;
		std::string text;
		unsigned char extra[Extra + 1]{};
		MDerived() : text(40, 'd') {}
		explicit MDerived(int v) : obj{v}, text(40, 'm') {}
		MDerived(int a, int b) : obj{a, b}, text(40, 'm') {}
		MDerived(MDerived &&) = default;
		int id() const override { return Id; }
		long value() const override {
			use();
			return obj.value;
		}
		void set(long v) override { obj.value = static_cast<int>(v); }
		void move_to(MBase *dst) override { new (dst) MDerived(std::move(*this)); }
		size_t align() const override { return Align; }
		void const *address() const override { return this; }
		void use() const override { obj.use(); }
	};

	struct M {
		int id = -1; // -1 empty
		long val = 0;
	};

	template<typename B, typename... Ds>
	struct Driver {
		using P = dtl::inplace_polymorphic<B, Ds...>;
		static constexpr bool can_copy = requires (B const &b, B *d) { b.copy_to(d); };
		static constexpr int n = 3;
		static constexpr size_t nd = sizeof...(Ds);
		static constexpr int ids[] = {Ds::tag...};

		struct Slot {
			alignas(P) unsigned char buf[sizeof(P)];
			bool alive = false;
			P &v() { return *std::launder(reinterpret_cast<P *>(buf)); }
			template<typename... A>
			void make(A &&...a) {
				std::memset(buf, 0xAB, sizeof buf);
				new (buf) P(std::forward<A>(a)...);
				alive = true;
			}
			void make_default() {
				std::memset(buf, 0xAB, sizeof buf);
				new (buf) P();
				alive = true;
			}
			void destroy() {
				alive = false;
				v().~P();
			}
		};

		pbt::Ctx &ctx;
		Slot s[n];
		M m[n];
		int next = 1;
		unsigned done = 0, faults = 0, changes = 0;

		explicit Driver(pbt::Ctx &c) : ctx{c} {}
		~Driver() {
			world.disarm();
			for (auto &x : s) {
				if (x.alive) {
					x.destroy();
				}
			}
		}

		M observe(int i) {
			if (s[i].v().valueless_by_exception()) {
				return {};
			}
			return {s[i].v().get().id(), s[i].v().get().value()};
		}

		void verify() {
			world.verify();
			for (int i = 0; i < n; ++i) {
				if (!s[i].alive) {
					continue;
				}
				P &v = s[i].v();
				P const &c = v;
				PBT_CHECK_MSG(c.valueless_by_exception() == (m[i].id < 0), "slot " << i << " expected type " << m[i].id);
				if (m[i].id < 0) {
					int thrown = 0;
					try { (void) v.get(); } catch (std::bad_variant_access const &) { ++thrown; }
					try { (void) c.get(); } catch (std::bad_variant_access const &) { ++thrown; }
					try { (void) *v; } catch (std::bad_variant_access const &) { ++thrown; }
					try { (void) c.operator->(); } catch (std::bad_variant_access const &) { ++thrown; }
					PBT_CHECK(thrown == 4);
					continue;
				}
				B &b = v.get();
				PBT_CHECK(&b == &c.get() && &b == &*v && &b == v.operator->() && &b == c.operator->() && &b == &*c);
				b.use();
				world.verify();
				PBT_CHECK_MSG(b.id() == m[i].id, "slot " << i << " holds type " << b.id() << ", expected " << m[i].id);
				PBT_CHECK_MSG(b.value() == m[i].val, "slot " << i << " holds value " << b.value() << ", expected " << m[i].val);
				auto const *p = static_cast<unsigned char const *>(b.address());
				PBT_CHECK(p >= s[i].buf && p < s[i].buf + sizeof(P));
				PBT_CHECK(reinterpret_cast<uintptr_t>(p) % b.align() == 0);
				bool right = false;
				((Ds::tag == m[i].id && dynamic_cast_ok<Ds>(b) ? right = true : false), ...);
				PBT_CHECK(right);
			}
			world.verify();
		}

		template<typename D>
		static bool dynamic_cast_ok(B &b) { return typeid(b) == typeid(D); }

		void apply(int t, M want, int src, bool moves, bool is_new, pbt::fref<void()> f) {
			M const old = m[t];
			if (ctx.chance(1, 3)) {
				world.arm(static_cast<long>(ctx.below(2)));
			}
			bool threw = false;
			try {
				f();
			} catch (life::Injected const &) {
				threw = true;
			}
			bool const fired = world.fired;
			world.disarm();
			world.fired = false;
			PBT_CHECK(fired == threw);
			if (!threw) {
				m[t] = want;
				if (src >= 0 && src != t && moves && m[src].id >= 0) {
					m[src].val = life::moved_value;
				}
				if (!is_new && old.id != want.id) {
					++changes;
				}
				return;
			}
			++faults;
			PBT_LOG("   -> exception");
			if (is_new) {
				s[t].alive = false;
				return;
			}
			M const now = observe(t);
			PBT_CHECK_MSG(now.id < 0 || (now.id == old.id && now.val == old.val), "after an exception the holder contains type " << now.id << " value " << now.val);
			m[t] = now;
		}

		int alive(int except = -1) {
			int l[n], k = 0;
			for (int i = 0; i < n; ++i) {
				if (s[i].alive && i != except) {
					l[k++] = i;
				}
			}
			return k == 0 ? -1 : l[ctx.below(static_cast<size_t>(k))];
		}

		// calls f.template operator()<D>() for the d-th type
		template<typename F>
		void with_type(size_t d, F &&f) {
			size_t i = 0;
			((i++ == d ? f.template operator()<Ds>() : void()), ...);
		}

		void step() {
			++done;
			switch (ctx.below(9)) {
				case 0:
				case 1: {
					int const t = static_cast<int>(ctx.below(n));
					if (s[t].alive) {
						PBT_LOG("destroy slot" << t);
						s[t].destroy();
						world.verify();
					}
					size_t const d = ctx.below(nd);
					int const val = next++;
					with_type(d, [&]<typename D>() {
						switch (ctx.below(3)) {
							case 0:
								PBT_LOG("slot" << t << " = P(in_place_type<D" << D::tag << ">, " << val << ")");
								apply(t, {D::tag, val}, -1, false, true, [&] { s[t].make(std::in_place_type<D>, val); });
								break;
							case 1:
								PBT_LOG("slot" << t << " = P(in_place_type<D" << D::tag << ">, " << val << ", 5)");
								apply(t, {D::tag, val * 1000 + 5}, -1, false, true, [&] { life::Args x{{val}, {5}}; s[t].make(std::in_place_type<D>, x.l, std::move(x.r)); x.check(true); });
								break;
							default:
								PBT_LOG("slot" << t << " = P()");
								apply(t, {ids[0], 0}, -1, false, true, [&] { s[t].make_default(); });
								break;
						}
					});
					break;
				}
				case 2: {
					int const t = static_cast<int>(ctx.below(n));
					if (s[t].alive) {
						PBT_LOG("destroy slot" << t);
						s[t].destroy();
						world.verify();
					}
					int const o = alive(t);
					if (o < 0) {
						break;
					}
					if (ctx.flip()) {
						if constexpr (can_copy) {
							PBT_LOG("slot" << t << " = P(slot" << o << ")");
							apply(t, m[o], o, false, true, [&] { s[t].make(std::as_const(s[o].v())); });
						}
					} else {
						PBT_LOG("slot" << t << " = P(move(slot" << o << "))");
						apply(t, m[o], o, true, true, [&] { s[t].make(std::move(s[o].v())); });
					}
					break;
				}
				case 3:
				case 4: {
					int const t = alive();
					if (t < 0) {
						break;
					}
					int const o = alive();
					if constexpr (can_copy) {
						PBT_LOG("slot" << t << " = slot" << o);
						apply(t, m[o], o, false, false, [&] { PBT_CHECK(&(s[t].v() = std::as_const(s[o].v())) == &s[t].v()); });
					}
					break;
				}
				case 5: {
					int const t = alive();
					int const o = t < 0 ? -1 : alive(t);
					if (o < 0) {
						break;
					}
					PBT_LOG("slot" << t << " = move(slot" << o << ")");
					apply(t, m[o], o, true, false, [&] { PBT_CHECK(&(s[t].v() = std::move(s[o].v())) == &s[t].v()); });
					break;
				}
				case 6:
				case 7: {
					int const t = alive();
					if (t < 0) {
						break;
					}
					size_t const d = ctx.below(nd);
					int const val = next++;
					with_type(d, [&]<typename D>() {
						switch (ctx.below(3)) {
							case 0:
								PBT_LOG("slot" << t << ".emplace<D" << D::tag << ">(" << val << ")");
								apply(t, {D::tag, val}, -1, false, false, [&] { s[t].v().template emplace<D>(val); });
								break;
							case 1:
								PBT_LOG("slot" << t << ".emplace<D" << D::tag << ">(" << val << ", 6)");
								apply(t, {D::tag, val * 1000 + 6}, -1, false, false, [&] { life::Args x{{val}, {6}}; s[t].v().template emplace<D>(x.l, std::move(x.r)); x.check(true); });
								break;
							default:
								PBT_LOG("slot" << t << ".emplace<D" << D::tag << ">()");
								apply(t, {D::tag, 0}, -1, false, false, [&] { s[t].v().template emplace<D>(); });
								break;
						}
					});
					break;
				}
				default: {
					int const t = alive();
					if (t < 0 || m[t].id < 0) {
						break;
					}
					int const val = next++;
					PBT_LOG("slot" << t << "->set(" << val << ")");
					s[t].v()->set(val);
					m[t].val = val;
					break;
				}
			}
		}

		void run() {
			int k = 0;
			while (k < 60 && ctx.more(18)) {
				step();
				verify();
				++k;
			}
			world.disarm();
			for (auto &x : s) {
				if (x.alive) {
					x.destroy();
					world.verify();
				}
			}
			PBT_CHECK_MSG(world.live.empty(), world.live.size() << " contained objects were never destroyed");
			if (done >= 3 && (faults > 0 || changes > 0)) {
				ctx.nontrivial();
			}
			if (faults) {
				ctx.label("with injected exception");
			}
			if (changes > 1) {
				ctx.label("type changed more than once");
			}
		}
	};

	template<typename... A>
	void run(pbt::Ctx &ctx) {
		world.reset();
		{
			Driver<A...> d{ctx};
			d.run();
		}
		world.live.shrink_to_fit();
		world.error.shrink_to_fit();
	}
} // namespace c04
