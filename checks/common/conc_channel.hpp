// Generated programs for several threads on one channel / exchange_channel under generated schedules.
// CHANNEL: 0 channel, 1 exchange_channel. SAFETY / LIVENESS: which statements are decided.
#include "linear.hpp"
#include "sched.hpp"
#include <algorithm>
#include <deque>
#include <iterator>
#include <memory>
#include <optional>
#include <vector>

namespace cc {
	struct Thrown { int id; };

	inline int live = 0;
	inline int next_throw[sched::max_threads]; // 1: the next construction of an element by the thread throws, ...

	inline bool throws_now() {
		int &n = next_throw[sched::self()];
		return n > 0 && --n == 0;
	}

	// an element: an id and memory of its own
	template<bool copyable, bool throwing>
	struct Elem {
		int id;
		int *payload;

		explicit Elem(int i) noexcept(!throwing) : id{i} {
			if constexpr (throwing) {
				if (throws_now()) throw Thrown{i};
			}
			payload = new int{i};
			sched::Quiet q;
			++live;
		}
		Elem(Elem const &o) noexcept(!throwing) requires copyable : id{o.id} {
			if constexpr (throwing) {
				if (throws_now()) throw Thrown{id};
			}
			payload = new int{*o.payload};
			sched::Quiet q;
			++live;
		}
		Elem(Elem &&o) noexcept(!throwing) : id{o.id} {
			if constexpr (throwing) {
				if (throws_now()) throw Thrown{id};
			}
			payload = std::exchange(o.payload, nullptr);
			o.id = -1;
			sched::Quiet q;
			++live;
		}
		Elem &operator=(Elem const &o) noexcept requires copyable {
			if (this != &o) {
				delete payload;
				payload = o.payload ? new int{*o.payload} : nullptr;
				id = o.id;
			}
			return *this;
		}
		Elem &operator=(Elem &&o) noexcept {
			std::swap(id, o.id);
			std::swap(payload, o.payload);
			return *this;
		}
		~Elem() {
			delete payload;
			sched::Quiet q;
			--live;
		}
		// what is read from it
		int value() const { return payload && *payload == id ? id : -2; }
	};
	template<typename E>
	struct elem_traits;
	template<bool c, bool t>
	struct elem_traits<Elem<c, t>> {
		static constexpr bool copyable = c, throwing = t;
	};

	enum struct K { push_copy, push_move, emplace, try_push_copy, try_push_move, try_emplace, pop, try_pop, iterate, close, closed };
	constexpr char const *names[] = {"push(const &)", "push(&&)", "emplace", "try_push(const &)", "try_push(&&)", "try_emplace", "pop", "try_pop", "iterate", "close", "closed"};
	inline bool is_push(K k) { return k <= K::try_emplace; }
	inline bool is_try_push(K k) { return k >= K::try_push_copy && k <= K::try_emplace; }

	struct Cmd {
		K k;
		int id = 0;     // pushed element
		int count = 0;  // iterate: steps
		int thrown = 0; // the n-th element constructed throws
		int form = 0;
	};
	struct Rec {
		K k;
		int thread;
		int id;                 // pushed element
		bool threw = false;
		bool ok = false;        // pushes, closed
		std::optional<int> got; // pops
		linear::Span at;
	};

	struct Model {
		std::vector<int> q;
		bool closed = false;
		std::string key() const {
			std::string s(1, closed ? 'c' : 'o');
			for (int x : q) s += static_cast<char>(x);
			return s;
		}
	};

	// performs r on the model; false if its result is impossible there
	template<int kind>
	bool step(Model &m, Rec const &r, size_t cap, int variant) {
		if (r.threw) {
			// no effect; an exchange channel may have dropped the value that was to be replaced
			if (variant == 0) return true;
			if (kind == 0 || !is_push(r.k) || m.closed || m.q.empty()) return false;
			m.q.clear();
			return true;
		}
		if (variant != 0) return false;
		switch (r.k) {
			case K::push_copy:
			case K::push_move:
			case K::emplace:
				if (!r.ok) return m.closed;
				if (m.closed) return false;
				if constexpr (kind == 1) {
					m.q.assign(1, r.id);
					return true;
				}
				if (m.q.size() >= cap) return false;
				m.q.push_back(r.id);
				return true;
			case K::try_push_copy:
			case K::try_push_move:
			case K::try_emplace:
				if (!r.ok) return m.closed || m.q.size() >= cap;
				if (m.closed || m.q.size() >= cap) return false;
				m.q.push_back(r.id);
				return true;
			case K::pop:
				if (!r.got) return m.closed && m.q.empty();
				[[fallthrough]];
			case K::try_pop:
				if (!r.got) return m.q.empty();
				if (m.q.empty() || m.q.front() != *r.got) return false;
				m.q.erase(m.q.begin());
				return true;
			case K::close: m.closed = true; return true;
			case K::closed: return m.closed == r.ok;
			default: return false;
		}
	}
	// could the blocked operation go on?
	template<int kind>
	bool enabled(Model const &m, Rec const &r, size_t cap) {
		if (is_push(r.k)) return kind == 1 || m.closed || m.q.size() < cap;
		return m.closed || !m.q.empty();
	}

	inline std::string show(Rec const &r) {
		std::string s = "T" + std::to_string(r.thread) + " [" + std::to_string(r.at.inv) + "," + (r.at.complete ? std::to_string(r.at.res) : std::string{"-"}) + "] " + names[static_cast<int>(r.k)];
		if (is_push(r.k)) s += "(" + std::to_string(r.id) + ")";
		if (!r.at.complete) return s + " blocked";
		if (r.threw) return s + " threw";
		if (is_push(r.k) || r.k == K::closed) return s + (r.ok ? " -> true" : " -> false");
		if (r.k == K::pop || r.k == K::try_pop) return s + " -> " + (r.got ? std::to_string(*r.got) : std::string{"nullopt"});
		return s;
	}

	template<int kind, typename Channel, typename E>
	struct World {
		Channel &ch;
		std::vector<Rec> h;
		int published = 0;       // written before the only close()
		bool check_published = false;
		bool never_full = false; // there are not more pushes than fit: a failing try_push saw the channel closed
		std::vector<int> bad;    // elements that arrived damaged

		// records an operation
		template<typename F>
		void op(K k, int id, F f) {
			size_t i;
			{
				sched::Quiet q;
				i = h.size();
				h.push_back(Rec{.k = k, .thread = sched::self(), .id = id});
				h[i].at.inv = sched::now();
			}
			bool ok = false, threw = false;
			std::optional<int> got;
			try {
				f(ok, got);
			} catch (Thrown const &) {
				threw = true;
			}
			bool const closing = (is_push(k) && (never_full || !is_try_push(k)) && !ok && !threw) || (k == K::closed && ok) || (k == K::pop && !got && !threw);
			{
				sched::Quiet q;
				h[i].at.res = sched::now();
				h[i].at.complete = true;
				h[i].ok = ok;
				h[i].got = got;
				h[i].threw = threw;
			}
			// what happened before close() is visible to everybody who sees the channel closed
			if (check_published && closing && published != 7) {
				sched::Quiet q;
				bad.push_back(-7);
			}
		}
		void took(std::optional<int> &got, E const &e) {
			got = e.value();
			if (*got != e.id || *got <= 0) {
				sched::Quiet q;
				bad.push_back(e.id);
			}
		}

		// goes on with another iterator of the same state
		void hand_over(std::optional<typename Channel::iterator> &it, int form) {
			using It = typename Channel::iterator;
			constexpr bool copyable = elem_traits<E>::copyable;
			int const id = (**it).value();
			// an iterator at the end of another channel
			std::optional<Channel> other;
			std::optional<It> j;
			if (form == 2 || form == 3) {
				if constexpr (kind == 0) other.emplace(1);
				else other.emplace();
				other->close();
				j.emplace(other->begin());
			}
			switch (form) {
				case 1: {
					It k{std::move(*it)};
					it.emplace(std::move(k));
					break;
				}
				case 2:
					*j = std::move(*it);
					it.emplace(std::move(*j));
					break;
				case 3:
					if constexpr (copyable) {
						*j = std::as_const(*it);
						if ((**it).value() != id) bad.push_back(id);
						it.emplace(std::as_const(*j));
					}
					break;
				case 4:
					if constexpr (copyable) {
						It const k{std::as_const(*it)};
						*it = k;
						if ((*k).value() != id) bad.push_back(id);
					}
					break;
				default: break;
			}
			if (*it == ch.end() || (**it).value() != id) {
				sched::Quiet q;
				bad.push_back(id);
			}
		}

		struct Begin { // the iterator is made in place: no move that is not the channel's
			Channel &ch;
			operator typename Channel::iterator() const { return ch.begin(); }
		};
		void run(Cmd const &c) {
			next_throw[sched::self()] = c.thrown;
			constexpr bool copyable = elem_traits<E>::copyable;
			auto const make = [&](auto f) {
				// the element itself is made outside of the operation
				int const t = std::exchange(next_throw[sched::self()], 0);
				E e{c.id};
				next_throw[sched::self()] = t;
				f(e);
				next_throw[sched::self()] = 0;
			};
			switch (c.k) {
				case K::push_copy:
					if constexpr (copyable) {
						make([&](E &e) { op(c.k, c.id, [&](bool &ok, auto &) { ok = ch.push(std::as_const(e)); }); });
						break;
					}
					[[fallthrough]];
				case K::push_move: make([&](E &e) { op(c.k, c.id, [&](bool &ok, auto &) { ok = ch.push(std::move(e)); }); }); break;
				case K::emplace: op(c.k, c.id, [&](bool &ok, auto &) { ok = ch.emplace(c.id); }); break;
				case K::try_push_copy:
					if constexpr (kind == 0 && copyable) {
						make([&](E &e) { op(c.k, c.id, [&](bool &ok, auto &) { ok = ch.try_push(std::as_const(e)); }); });
						break;
					}
					[[fallthrough]];
				case K::try_push_move:
					if constexpr (kind == 0) make([&](E &e) { op(c.k, c.id, [&](bool &ok, auto &) { ok = ch.try_push(std::move(e)); }); });
					break;
				case K::try_emplace:
					if constexpr (kind == 0) op(c.k, c.id, [&](bool &ok, auto &) { ok = ch.try_emplace(c.id); });
					break;
				case K::pop:
					op(c.k, 0, [&](bool &, auto &got) {
						auto r = ch.pop();
						if (r) took(got, *r);
					});
					break;
				case K::try_pop:
					op(c.k, 0, [&](bool &, auto &got) {
						auto r = ch.try_pop();
						if (r) took(got, *r);
					});
					break;
				case K::iterate: {
					std::optional<typename Channel::iterator> it;
					op(K::pop, 0, [&](bool &, auto &got) {
						it.emplace(Begin{ch});
						if (*it != ch.end()) took(got, **it);
					});
					for (int k = 1; k < c.count && it && *it != ch.end(); ++k) {
						if constexpr (!elem_traits<E>::throwing) hand_over(it, c.form / 2);
						op(K::pop, 0, [&](bool &, auto &got) {
							if (c.form % 2) ++*it;
							else (*it)++;
							if (*it != ch.end()) took(got, *(*it).operator->());
						});
					}
					break;
				}
				case K::close:
					if (check_published) published = 7;
					op(c.k, 0, [&](bool &, auto &) { ch.close(); });
					break;
				case K::closed: op(c.k, 0, [&](bool &ok, auto &) { ok = ch.closed(); }); break;
			}
			next_throw[sched::self()] = 0;
		}
	};

	// threads: programs of up to four threads
	template<int kind, bool liveness, typename Channel, typename E>
	void execute(pbt::Ctx &ctx, std::vector<std::vector<Cmd>> const &programs, size_t cap, Channel &ch) {
		using W = World<kind, Channel, E>;
		size_t closes = 0, pushes = 0;
		for (size_t t = 0; t < programs.size(); ++t) {
			for (auto const &c : programs[t]) {
				closes += c.k == K::close;
				pushes += is_push(c.k);
				PBT_LOG("thread " << t + 1 << ": " << names[static_cast<int>(c.k)] << " " << c.id << (c.thrown ? " (throws)" : ""));
			}
		}
		std::fill_n(next_throw, sched::max_threads, 0);
		W w{ch};
		w.h.reserve(64);
		w.check_published = closes == 1;
		w.never_full = kind == 0 && pushes <= cap;
		bool was_stuck = false;
		sched::Stats stats;
		{
			sched::Run run{ctx};
			for (auto const &p : programs) {
				run.spawn([&w, &p] {
					for (auto const &c : p) w.run(c);
				});
			}
			auto st = run.go();
			auto const history = [&] {
				std::string s;
				for (auto const &r : w.h) s += "\n  " + show(r);
				return s;
			};
			auto const explained = [&](bool with_blocked, bool &any) {
				std::vector<linear::Span> spans;
				for (auto const &r : w.h) spans.push_back(r.at);
				any = false;
				return linear::explain(
						spans, Model{}, [&](Model &m, size_t i, int v) { return step<kind>(m, w.h[i], cap, v); },
						[&](Model const &m) {
							if (with_blocked) {
								for (auto const &r : w.h) {
									if (!r.at.complete && enabled<kind>(m, r, cap)) return false;
								}
							}
							return true;
						},
						&any);
			};
			if (ctx.tracing) PBT_LOG((st == sched::Status::stuck ? "all threads left are blocked" : "all threads ended") << history());
			// an implementation may wait by polling
			if (st != sched::Status::done) {
				was_stuck = true;
				bool any;
				bool const ok = explained(true, any);
				if (liveness) PBT_CHECK_MSG(ok || !any, "a blocked thread could go on but sleeps forever" << history());
				// closing the channel ends every wait
				w.check_published = false;
				run.spawn([&w] { w.run(Cmd{.k = K::close}); });
				st = run.go();
				PBT_CHECK_MSG(st == sched::Status::done, "threads are blocked although the channel is closed" << history());
			}
			// what is left, seen by the harness
			if (ctx.flip()) w.run(Cmd{.k = K::closed});
			bool const close_first = ctx.flip();
			if (close_first) w.run(Cmd{.k = K::close});
			for (;;) {
				w.run(Cmd{.k = K::try_pop});
				if (!w.h.back().got || w.h.size() > 60) break;
			}
			if (!close_first) w.run(Cmd{.k = K::close});
			w.run(Cmd{.k = K::emplace, .id = 99});
			w.run(Cmd{.k = K::pop});
			w.run(Cmd{.k = K::iterate, .count = 1});
			if (!liveness) {
				PBT_CHECK_MSG(w.bad.empty(), (w.bad[0] == -7 ? "what happened before close() is not visible" : "an element arrived damaged") << history());
				bool any;
				if (w.h.size() <= 60) PBT_CHECK_MSG(explained(false, any), "no sequential execution explains" << history());
			}
			stats = run.stats();
		}
		if (programs.size() > 1 && (was_stuck || stats.preemptions > 0 || stats.blocks > 0)) ctx.nontrivial();
		if (was_stuck) ctx.label("stuck until closed");
		if (stats.spurious) ctx.label("spurious wakeup");
		if (stats.blocks) ctx.label("blocking operation");
		if (stats.preemptions) ctx.label("preempted");
	}

	template<int kind>
	std::vector<std::vector<Cmd>> gen(pbt::Ctx &ctx, bool throwing, bool liveness) {
		std::vector<std::vector<Cmd>> ps(2 + ctx.below(3));
		int id = 1;
		size_t const style = ctx.below(4);
		size_t total = 0;
		for (size_t t = 0; t < ps.size(); ++t) {
			size_t const n = 1 + ctx.below(style == 3 ? 5 : 3);
			for (size_t i = 0; i < n && total < 14; ++i, ++total) {
				Cmd c{.k = K::push_copy};
				size_t const role = style == 0 ? ctx.below(2) : style == 1 ? t % 2 : ctx.below(3);
				bool const nb = kind == 0 && ctx.chance(1, liveness ? 6 : 3);
				if (role == 0) c.k = static_cast<K>(static_cast<int>(nb ? K::try_push_copy : K::push_copy) + static_cast<int>(ctx.below(3)));
				else if (role == 1) c.k = ctx.chance(1, liveness ? 8 : 4) ? K::try_pop : ctx.chance(1, 5) ? K::iterate : K::pop;
				else c.k = ctx.pick({K::close, K::closed, K::pop, K::push_move, K::iterate});
				if (is_push(c.k)) c.id = id++;
				if (c.k == K::iterate) {
					c.count = 1 + static_cast<int>(ctx.below(3));
					c.form = static_cast<int>(ctx.below(10));
				}
				if (throwing && ctx.chance(1, 4)) c.thrown = 1 + static_cast<int>(ctx.below(c.k == K::pop || c.k == K::try_pop || c.k == K::iterate ? 3 : 1));
				ps[t].push_back(c);
			}
		}
		if (ctx.chance(1, 3)) ps[ctx.below(ps.size())].push_back({.k = K::close});
		return ps;
	}
}// namespace cc
