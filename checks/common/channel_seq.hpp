// Histories of operations of one thread on channels and their iterators; element operations may throw.
// KIND 0: channel, 1: exchange_channel
#include "life.hpp"
#include <deque>
#include <memory>
#include <optional>
#include <string>
#include <utility>

namespace cs {
	using life::world;

	template<typename T>
	struct Item {
		static constexpr bool copyable = T::copyable;
		static T make(int v) { return T(v); }
		static long value(T const &t) {
			t.use();
			return t.value;
		}
		static constexpr bool resets = T::resets_on_move;
		static constexpr bool two = true;
	};
	template<>
	struct Item<std::string> {
		static constexpr bool copyable = true, resets = false, two = false;
		static std::string make(int v) { return std::string(20, 'x') + std::to_string(v); }
		static long value(std::string const &t) { return t.size() < 20 ? -1 : std::stol(t.substr(20)); }
	};
	template<>
	struct Item<std::unique_ptr<int>> {
		static constexpr bool copyable = false, resets = false, two = false;
		static std::unique_ptr<int> make(int v) { return std::make_unique<int>(v); }
		static long value(std::unique_ptr<int> const &t) { return t ? *t : life::moved_value; }
	};

	// has its own idea of its address
	struct Addressless {
		int v;
		explicit Addressless(int x) : v{x} {}
		void operator&() const = delete;
	};
	template<>
	struct Item<Addressless> {
		static constexpr bool copyable = true, resets = false, two = false;
		static Addressless make(int v) { return Addressless{v}; }
		static long value(Addressless const &t) { return t.v; }
	};

	template<int KIND, typename Channel, typename T>
	struct Driver {
		using It = typename Channel::iterator;
		using I = Item<T>;
		static constexpr bool copyable = I::copyable;
		struct MC {
			std::deque<long> q;
			bool closed = false;
		};
		struct MI {
			bool alive = false;
			int chan = 0;
			std::optional<long> v;
			bool known = true; // moved-from otherwise
		};
		pbt::Ctx &ctx;
		size_t cap[2] = {1, 1};
		std::optional<Channel> ch[2];
		MC m[2];
		std::optional<It> it[3];
		MI mi[3];
		int next = 1;
		unsigned faults = 0, done = 0;

		void open(int c) {
			for (int i = 0; i < 3; ++i) {
				if (mi[i].alive && mi[i].chan == c) {
					it[i].reset();
					mi[i] = {};
				}
			}
			if constexpr (KIND == 0) {
				cap[c] = 1 + ctx.below(3);
				ch[c].emplace(cap[c]);
			} else {
				ch[c].emplace();
			}
			m[c] = {};
		}

		// takes everything that is left in the channel and compares it with the model; one element may be missing
		void drain(int c, bool may_miss_one) {
			world.disarm();
			std::deque<long> got;
			while (auto r = ch[c]->try_pop()) got.push_back(I::value(*r));
			bool same = got == m[c].q;
			if (!same && may_miss_one && !m[c].q.empty()) {
				auto q = m[c].q;
				q.pop_front();
				same = got == q;
			}
			PBT_CHECK_MSG(same, "channel holds " << got.size() << " elements or others than expected, expected " << m[c].q.size());
			PBT_CHECK(ch[c]->closed() == m[c].closed);
			m[c].q.clear();
		}
		// runs f with a fault armed; true if it threw
		template<typename F>
		bool attempt(F f) {
			bool threw = false;
			if (ctx.chance(1, 3)) world.arm(static_cast<long>(ctx.below(3)));
			try {
				f();
			} catch (life::Injected const &) {
				threw = true;
				++faults;
			}
			PBT_CHECK_MSG(threw == world.fired, "an exception of an element was swallowed");
			world.disarm();
			world.fired = false;
			world.verify();
			++done;
			return threw;
		}

		void push(int c) {
			bool const full = KIND == 0 && m[c].q.size() >= cap[c];
			bool const ok = !m[c].closed && !full;
			bool const blocking = m[c].closed || !full ? (KIND == 1 || ctx.flip()) : false; // never blocks here
			int const form = static_cast<int>(ctx.below(I::two ? 5 : 3));
			int const v = next++ % 997;
			long expect = v;
			bool r = !ok, threw;
			PBT_LOG((blocking ? "push" : "try_push") << " form " << form << " value " << v << " into channel " << c);
			auto const with = [&](auto &&f_push, auto &&f_emplace) {
				if (form == 0 && copyable) {
					if constexpr (copyable) {
						T src = I::make(v);
						threw = attempt([&] { r = f_push(std::as_const(src)); });
						PBT_CHECK_MSG(I::value(src) == v, "the source of push(T const &) was changed");
					}
				} else if (form <= 1) {
					T src = I::make(v);
					threw = attempt([&] { r = f_push(std::move(src)); });
					if (threw || !ok) {
						PBT_CHECK_MSG(I::value(src) == v, "push that fails changed its source");
					} else if constexpr (I::resets) {
						PBT_CHECK_MSG(I::value(src) == life::moved_value, "push(T &&) did not move");
					}
				} else if constexpr (I::two) {
					if (form == 2) threw = attempt([&] { r = f_emplace(v); });
					else if (form == 3) {
						expect = 0;
						threw = attempt([&] { r = f_emplace(); });
					} else {
						expect = v * 1000 + 7;
						life::Args a{{v}, {7}};
						threw = attempt([&] { r = f_emplace(a.l, std::move(a.r)); });
						a.check(!threw && r && ok);
					}
				} else {
					threw = attempt([&] { r = f_emplace(I::make(v)); });
				}
			};
			if (blocking) {
				with([&](auto &&x) { return ch[c]->push(std::forward<decltype(x)>(x)); }, [&](auto &&...a) { return ch[c]->emplace(std::forward<decltype(a)>(a)...); });
			} else if constexpr (KIND == 0) {
				with([&](auto &&x) { return ch[c]->try_push(std::forward<decltype(x)>(x)); }, [&](auto &&...a) { return ch[c]->try_emplace(std::forward<decltype(a)>(a)...); });
			}
			if (threw) {
				PBT_CHECK_MSG(ok, "a refused push constructed an element");
				if constexpr (KIND == 1) {
					drain(c, true); // the old value may be lost
				}
				return;
			}
			PBT_CHECK_MSG(r == ok, "push returned " << r);
			if (!ok) return;
			if (KIND == 1) m[c].q.clear();
			m[c].q.push_back(expect);
		}

		void pop(int c) {
			bool const blocking = (!m[c].q.empty() || m[c].closed) && ctx.flip();
			PBT_LOG((blocking ? "pop" : "try_pop") << " from channel " << c);
			std::optional<T> r;
			if (attempt([&] {
					// no move that is not the channel's
					if (blocking) take(ch[c]->pop(), c);
					else take(ch[c]->try_pop(), c);
				})) {
				return; // the element is still there, later operations notice
			}
		}
		void take(std::optional<T> const &r, int c) {
			PBT_CHECK_MSG(r.has_value() == !m[c].q.empty(), "pop returned " << (r ? "an element" : "nothing"));
			if (r) {
				PBT_CHECK_MSG(I::value(*r) == m[c].q.front(), "pop returned " << I::value(*r) << ", expected " << m[c].q.front());
				m[c].q.pop_front();
			}
		}

		bool usable(int c) const { return !m[c].q.empty() || m[c].closed; }
		void kill(int i) {
			it[i].reset();
			mi[i] = {};
			world.verify();
		}
		void view(int i) {
			if (!mi[i].alive || !mi[i].known) return;
			auto const &k = std::as_const(*it[i]);
			auto const end = std::as_const(*ch[mi[i].chan]).end();
			bool const at_end = !mi[i].v;
			PBT_CHECK((k == end) == at_end && (end == *it[i]) == at_end && (k != end) == !at_end);
			if (!at_end) {
				long const a = I::value(**it[i]), b = I::value(*k), d = I::value(*it[i]->operator->()), e = I::value(*k.operator->());
				PBT_CHECK_MSG(a == *mi[i].v && b == a && d == a && e == a, "iterator refers to " << a << ", expected " << *mi[i].v);
			}
		}
		// after an exception in an operation that takes elements from channel c
		void resync(int c) {
			drain(c, false); // nothing is lost
			open(c);
		}
		void advance(int i) {
			int const c = mi[i].chan;
			bool const post = ctx.flip();
			PBT_LOG("++iterator " << i);
			if (attempt([&] {
					if (post) (*it[i])++;
					else PBT_CHECK(&++*it[i] == &*it[i]);
				})) {
				kill(i);
				resync(c);
				return;
			}
			fetched(i, c);
		}
		void fetched(int i, int c) {
			if (m[c].q.empty()) {
				mi[i].v.reset();
			} else {
				mi[i].v = m[c].q.front();
				m[c].q.pop_front();
			}
			mi[i].known = true;
		}
		void begin(int i, int c) {
			PBT_LOG("iterator " << i << " = begin of channel " << c);
			kill(i);
			bool const direct = ctx.flip();
			if (attempt([&] {
					if (direct) it[i].emplace(&*ch[c]);
					else make(i, c);
				})) {
				kill(i);
				resync(c);
				return;
			}
			mi[i] = {true, c, {}, true};
			fetched(i, c);
		}
		struct Maker {
			Channel &c;
			operator It() const { return c.begin(); }
		};
		void make(int i, int c) { it[i].emplace(Maker{*ch[c]}); }

		void transfer(int i, int j) {
			// i from j
			int const form = static_cast<int>(ctx.below(4));
			if (i == j && form != 2) return; // only self copy assignment is meaningful
			MI const want = mi[j];
			PBT_LOG("iterator " << i << (form >= 2 ? " assigned from " : " made from ") << j << (form % 2 ? " (move)" : " (copy)"));
			bool threw = false;
			switch (form) {
				case 0:
					if constexpr (copyable) {
						kill(i);
						threw = attempt([&] { it[i].emplace(std::as_const(*it[j])); });
						break;
					}
					return;
				case 1:
					kill(i);
					threw = attempt([&] { it[i].emplace(std::move(*it[j])); });
					break;
				case 2:
					if constexpr (copyable) {
						if (!mi[i].alive) return;
						threw = attempt([&] { PBT_CHECK(&(*it[i] = std::as_const(*it[j])) == &*it[i]); });
						break;
					}
					return;
				default:
					if (!mi[i].alive) return;
					threw = attempt([&] { PBT_CHECK(&(*it[i] = std::move(*it[j])) == &*it[i]); });
			}
			if (form % 2) {
				mi[j].known = false; // moved-from
				if (threw) kill(j);
			}
			if (threw) {
				kill(i);
				return;
			}
			mi[i] = want;
		}

		void run() {
			open(0);
			open(1);
			while (ctx.more(14)) {
				int const c = static_cast<int>(ctx.below(2));
				int const i = static_cast<int>(ctx.below(3));
				switch (ctx.below(12)) {
					case 0:
					case 1:
					case 2:
					case 3: push(c); break;
					case 4:
					case 5: pop(c); break;
					case 6:
						if (usable(c)) begin(i, c);
						break;
					case 7:
						if (mi[i].alive && mi[i].known && mi[i].v && usable(mi[i].chan)) advance(i);
						break;
					case 8:
					case 9: {
						int const j = static_cast<int>(ctx.below(3));
						if (mi[j].alive && mi[j].known) transfer(i, j);
						break;
					}
					case 10:
						if (ctx.flip()) {
							ch[c]->close();
							m[c].closed = true;
						}
						break;
					default:
						if (mi[i].alive) kill(i);
						else if (ctx.flip()) {
							drain(c, false);
							open(c);
						}
				}
				for (int k = 0; k < 2; ++k) PBT_CHECK(std::as_const(*ch[k]).closed() == m[k].closed);
				for (int k = 0; k < 3; ++k) view(k);
				world.verify();
			}
			world.disarm();
			for (int k = 0; k < 3; ++k) kill(k);
			drain(0, false);
			drain(1, false);
			for (auto &x : ch) x.reset();
			world.verify();
			PBT_CHECK_MSG(world.live.empty(), world.live.size() << " elements are alive after the channels");
			if (done >= 4) ctx.nontrivial();
			if (faults) ctx.label("fault");
		}
	};

	template<int KIND, typename Channel, typename T>
	void go(pbt::Ctx &ctx) {
		world.reset();
		{
			auto d = std::make_unique<Driver<KIND, Channel, T>>(ctx);
			d->run();
		}
		world.verify();
	}
	template<int Tag, unsigned F>
	using But = life::Obj<Tag, life::NothrowEverything & ~F>;
} // namespace cs

#define CS_PROP(name, n, K, ...) PBT_PROP(name, n) { cs::go<K, CS_CHANNEL<__VA_ARGS__>, __VA_ARGS__>(ctx); }
#define CS_ALL(K) \
	CS_PROP(all_may_throw, 8000, K, life::Obj<1, 0>) \
	CS_PROP(none_may_throw, 4000, K, cs::But<1, 0>) \
	CS_PROP(copy_ctor_may_throw, 6000, K, cs::But<1, life::NothrowCopyCtor>) \
	CS_PROP(move_ctor_may_throw, 6000, K, cs::But<1, life::NothrowMoveCtor>) \
	CS_PROP(copy_assignment_may_throw, 6000, K, cs::But<1, life::NothrowCopyAsn>) \
	CS_PROP(move_assignment_may_throw, 6000, K, cs::But<1, life::NothrowMoveAsn>) \
	CS_PROP(default_may_throw, 4000, K, cs::But<1, life::NothrowDefault>) \
	CS_PROP(value_may_throw, 4000, K, cs::But<1, life::NothrowValue>) \
	CS_PROP(two_may_throw, 4000, K, cs::But<1, life::NothrowTwo>) \
	CS_PROP(copy_only, 4000, K, life::Obj<1, life::NoMoveOps>) \
	CS_PROP(move_only, 4000, K, life::Obj<1, life::NoCopy>) \
	CS_PROP(strings, 2000, K, std::string) \
	CS_PROP(addressless, 1000, K, cs::Addressless) \
	CS_PROP(pointers, 2000, K, std::unique_ptr<int>)
