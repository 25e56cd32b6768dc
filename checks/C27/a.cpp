#include "pbt.hpp"

#include <exception>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include <dice/template-library/defer.hpp>

namespace {
	namespace dtl = dice::template_library;
	using dtl::ScopeExitPolicy;

	enum Kind : uint8_t { event, block, guard, raise, try_catch, object, loop };
	struct Node {
		Kind kind = event;
		int id = 0;
		uint8_t pol = 0;   // guard: always / fail / success
		uint8_t form = 0;  // guard: how it is created; raise: which type; try: which types are caught
		bool rethrow = false;
		std::vector<Node> a, b;
	};
	struct Ex1 {
		int v;
	};
	struct Ex2 : std::exception {
		int v;
		explicit Ex2(int x) : v{x} {}
	};

	using Prog = std::vector<Node>;
	struct Exec {
		std::vector<int> events;
	};
	void run(Exec &e, Prog const &p, size_t i);
	void contained(Exec &e, Prog const &p) noexcept {
		try {
			run(e, p, 0);
		} catch (...) {
			e.events.push_back(-1);
		}
	}
	void act(Exec &e, Node const &n) {
		e.events.push_back(n.id);
		if (n.pol == 2) {
			run(e, n.a, 0); // success guards may throw
		} else {
			contained(e, n.a);
		}
		e.events.push_back(-n.id - 10);
	}
	struct Act { // functor that notices being called when it is not alive, more than once, or through a copy of the wrong value
		Exec *e;
		Node const *n;
		std::shared_ptr<int> calls;
		Act(Exec &ex, Node const &node) : e{&ex}, n{&node}, calls{std::make_shared<int>(0)} {}
		void operator()() {
			if (!calls) pbt::die("guard function called after it was moved from");
			++*calls;
			act(*e, *n);
		}
	};
	struct MoveAct {
		Exec *e;
		Node const *n;
		std::unique_ptr<int> alive = std::make_unique<int>(1);
		void operator()() const {
			if (!alive) pbt::die("guard function called after it was moved from");
			act(*e, *n);
		}
	};
	struct OnDestroy {
		Exec &e;
		Prog const &p;
		~OnDestroy() { contained(e, p); }
	};

	void run(Exec &e, Prog const &p, size_t i) {
		for (; i < p.size(); ++i) {
			Node const &n = p[i];
			switch (n.kind) {
				case event: e.events.push_back(n.id); break;
				case block: run(e, n.a, 0); break;
				case loop: // left by break, continue and falling through, with guards
					for (int k = 0; k < 3; ++k) {
						e.events.push_back(n.id + k);
						DICE_DEFER { e.events.push_back(-1000 - k); };
						DICE_DEFER_TO_FAIL { e.events.push_back(-2000 - k); };
						DICE_DEFER_TO_SUCCESS { e.events.push_back(-3000 - k); };
						if (k == n.form) continue;
						if (k == n.pol) break;
						run(e, n.a, 0);
					}
					break;
				case raise:
					if (n.form == 0) throw Ex1{n.id};
					throw Ex2{n.id};
				case try_catch:
					try {
						run(e, n.a, 0);
					} catch (Ex1 const &x) {
						e.events.push_back(x.v);
						run(e, n.b, 0);
						if (n.rethrow) throw;
					} catch (Ex2 const &x) {
						if (n.form == 0) throw;
						e.events.push_back(x.v);
						run(e, n.b, 0);
						if (n.rethrow) throw;
					}
					break;
				case object: {
					OnDestroy const o{e, n.a};
					run(e, p, i + 1);
					return;
				}
				case guard:
					switch (n.pol * 5 + n.form) {
						case 0: { DICE_DEFER { act(e, n); }; run(e, p, i + 1); return; }
						case 1: { auto g = dtl::make_scope_exit_guard(Act{e, n}); run(e, p, i + 1); return; }
						case 2: { Act const f{e, n}; auto g = dtl::make_scope_exit_guard(f); run(e, p, i + 1); return; }
						case 3: { auto g = dtl::make_scope_exit_guard(MoveAct{&e, &n}); run(e, p, i + 1); return; }
						case 4: { std::function<void()> f = [&] { act(e, n); }; dtl::ScopeExitGuard<ScopeExitPolicy::Always, std::function<void()>> const g{f}; f = nullptr; run(e, p, i + 1); return; }
						case 5: { DICE_DEFER_TO_FAIL { act(e, n); }; run(e, p, i + 1); return; }
						case 6: { auto g = dtl::make_scope_fail_guard(Act{e, n}); run(e, p, i + 1); return; }
						case 7: { Act f{e, n}; auto g = dtl::make_scope_fail_guard(f); run(e, p, i + 1); return; }
						case 8: { auto g = dtl::make_scope_fail_guard(MoveAct{&e, &n}); run(e, p, i + 1); return; }
						case 9: { std::function<void()> f = [&] { act(e, n); }; dtl::ScopeExitGuard<ScopeExitPolicy::OnFail, std::function<void()>> const g{std::move(f)}; run(e, p, i + 1); return; }
						case 10: { DICE_DEFER_TO_SUCCESS { act(e, n); }; run(e, p, i + 1); return; }
						case 11: { auto g = dtl::make_scope_success_guard(Act{e, n}); run(e, p, i + 1); return; }
						case 12: { Act const f{e, n}; auto g = dtl::make_scope_success_guard(f); run(e, p, i + 1); return; }
						case 13: { auto g = dtl::make_scope_success_guard(MoveAct{&e, &n}); run(e, p, i + 1); return; }
						default: { std::function<void()> f = [&] { act(e, n); }; dtl::ScopeExitGuard<ScopeExitPolicy::OnSuccess, std::function<void()>> const g{f}; run(e, p, i + 1); return; }
					}
			}
		}
	}

	// the model does not use exceptions or destructors: an outcome is 0 (normal) or the exception, as 2 * id + type
	struct Model {
		std::vector<int> events;
		size_t n_fail = 0, n_success = 0, n_nested = 0;
		bool too_big = false;
		int unwinding = 0;

		void contained(Prog const &p) {
			if (run(p, 0) != 0) events.push_back(-1);
		}
		int act(Node const &n) {
			if (unwinding > 0) ++n_nested;
			events.push_back(n.id);
			if (n.pol == 2) {
				if (int const r = run(n.a, 0); r != 0) return r;
			} else {
				contained(n.a);
			}
			events.push_back(-n.id - 10);
			return 0;
		}
		int run(Prog const &p, size_t i) {
			if (events.size() > 3000) {
				too_big = true;
				return 0;
			}
			for (; i < p.size(); ++i) {
				Node const &n = p[i];
				int r = 0;
				switch (n.kind) {
					case event: events.push_back(n.id); break;
					case block: r = run(n.a, 0); break;
					case loop:
						for (int k = 0; k < 3; ++k) {
							events.push_back(n.id + k);
							bool const cont = k == n.form, brk = !cont && k == n.pol;
							if (!cont && !brk) r = run(n.a, 0);
							events.push_back((r == 0 ? -3000 : -2000) - k);
							events.push_back(-1000 - k);
							if (brk || r != 0) break;
						}
						break;
					case raise: return 2 * n.id + (n.form == 0 ? 0 : 1);
					case try_catch:
						r = run(n.a, 0);
						if (r != 0 && (r % 2 == 0 || n.form != 0)) {
							int const caught = r;
							events.push_back(caught / 2);
							int const saved = unwinding;
							r = run(n.b, 0);
							unwinding = saved;
							if (r == 0 && n.rethrow) r = caught;
						}
						break;
					case object:
						r = run(p, i + 1);
						unwinding += r != 0;
						contained(n.a);
						unwinding -= r != 0;
						return r;
					case guard:
						r = run(p, i + 1);
						if (n.pol == 1 && r != 0) ++n_fail;
						if (n.pol == 2 && r == 0) ++n_success;
						if (n.pol == 0 || (n.pol == 1) == (r != 0)) {
							unwinding += r != 0;
							int const r2 = act(n);
							unwinding -= r != 0;
							if (r2 != 0) r = r2;
						}
						return r;
				}
				if (r != 0) return r;
			}
			return 0;
		}
	};

	Prog gen(pbt::Ctx &ctx, int depth, int &budget, int &id, bool top) {
		Prog p;
		size_t const n = top ? 1 + ctx.below(5) : ctx.below(4);
		for (size_t i = 0; i < n && budget > 0; ++i) {
			--budget;
			Node x;
			x.id = ++id * 100;
			size_t k = ctx.below(12);
			if (depth <= 0 && (k == 1 || k >= 8)) k = 0;
			switch (k) {
				case 0: x.kind = event; break;
				case 1: x.kind = block; x.a = gen(ctx, depth - 1, budget, id, false); break;
				case 2: case 3: case 4: case 5:
					x.kind = guard;
					x.pol = static_cast<uint8_t>(ctx.below(3));
					x.form = static_cast<uint8_t>(ctx.below(5));
					if (depth > 0 && ctx.chance(1, 3)) x.a = gen(ctx, depth - 1, budget, id, false);
					break;
				case 6: case 7: x.kind = raise; x.form = static_cast<uint8_t>(ctx.below(2)); break;
				case 8: case 9:
					x.kind = try_catch;
					x.form = static_cast<uint8_t>(ctx.below(2));
					x.rethrow = ctx.chance(1, 3);
					x.a = gen(ctx, depth - 1, budget, id, true);
					if (ctx.flip()) x.b = gen(ctx, depth - 1, budget, id, false);
					break;
				case 10: x.kind = object; x.a = gen(ctx, depth - 1, budget, id, true); break;
				default:
					x.kind = loop;
					x.form = static_cast<uint8_t>(ctx.below(4));
					x.pol = static_cast<uint8_t>(ctx.below(4));
					x.a = gen(ctx, depth - 1, budget, id, false);
					break;
			}
			p.push_back(std::move(x));
		}
		return p;
	}
	void show(std::string &s, Prog const &p, int ind) {
		static char const *const names[]{"event", "block", "guard", "throw", "try", "object whose destructor runs", "loop"};
		static char const *const pols[]{"always", "on failure", "on success"};
		for (Node const &n : p) {
			s += std::string(static_cast<size_t>(ind) * 2, ' ') + names[n.kind] + " " + std::to_string(n.id);
			if (n.kind == guard) s += std::string(" ") + pols[n.pol] + " form " + std::to_string(n.form);
			if (n.kind == raise) s += n.form == 0 ? " Ex1" : " Ex2";
			if (n.kind == try_catch) s += std::string(n.form == 0 ? " (catches Ex1)" : " (catches both)") + (n.rethrow ? " rethrows" : "");
			if (n.kind == loop) s += " continue at " + std::to_string(n.form) + " break at " + std::to_string(n.pol);
			s += "\n";
			show(s, n.a, ind + 1);
			if (!n.b.empty()) {
				s += std::string(static_cast<size_t>(ind) * 2, ' ') + "catch\n";
				show(s, n.b, ind + 1);
			}
		}
	}
	std::string show(std::vector<int> const &v) {
		std::string s;
		for (int x : v) s += std::to_string(x) + " ";
		return s;
	}

	void scope_case(pbt::Ctx &ctx, int depth, int budget) {
		int id = 0;
		Prog const p = gen(ctx, depth, budget, id, true);
		Model m;
		int const want = m.run(p, 0);
		if (m.too_big) return;
		if (ctx.tracing) {
			std::string s;
			show(s, p, 0);
			ctx.log(s);
		}
		Exec e;
		int got = 0;
		int const before = std::uncaught_exceptions();
		try {
			run(e, p, 0);
		} catch (Ex1 const &x) {
			got = 2 * x.v;
		} catch (Ex2 const &x) {
			got = 2 * x.v + 1;
		}
		PBT_CHECK_MSG(e.events == m.events, "events " << show(e.events) << "expected " << show(m.events));
		PBT_CHECK_MSG(got == want, "left with " << got << ", expected " << want);
		PBT_CHECK(std::uncaught_exceptions() == before);
		if (m.n_fail > 0) ctx.label("fail guard ran");
		if (m.n_success > 0) ctx.label("success guard ran");
		if (m.n_nested > 0) ctx.label("guard during unwinding");
		if (m.n_fail + m.n_success > 0) ctx.nontrivial();
	}
} // namespace

PBT_PROP(scopes, 40000) { scope_case(ctx, 3, 14); }
PBT_PROP(deep_scopes, 20000) { scope_case(ctx, 6, 30); }

// a guard without a function does nothing
PBT_PROP(empty_guards, 200) {
	bool const thrown = ctx.flip();
	int caught = 0;
	try {
		dtl::ScopeExitGuard<ScopeExitPolicy::Always, void (*)()> a;
		dtl::ScopeExitGuard<ScopeExitPolicy::OnFail, void (*)()> b;
		dtl::ScopeExitGuard<ScopeExitPolicy::OnSuccess, void (*)()> c;
		if (thrown) throw Ex1{1};
	} catch (Ex1 const &) {
		caught = 1;
	}
	PBT_CHECK(caught == thrown);
}

namespace {
	int counter[3];
	void f0() { ++counter[0]; }
	void f1() { ++counter[1]; }
	void f2() { ++counter[2]; }
} // namespace
// function pointers and reference wrappers as actions; member initialization that fails
PBT_PROP(function_pointers, 2000) {
	counter[0] = counter[1] = counter[2] = 0;
	bool const thrown = ctx.flip();
	int by_ref = 0;
	auto lam = [&] { ++by_ref; };
	try {
		auto a = dtl::make_scope_exit_guard(&f0);
		void (*p)() = &f1;
		auto b = dtl::make_scope_fail_guard(p);
		void (*const q)() = &f2;
		auto c = dtl::make_scope_success_guard(q);
		auto d = dtl::make_scope_exit_guard(std::ref(lam));
		if (thrown) throw Ex1{1};
	} catch (Ex1 const &) {
	}
	PBT_CHECK(counter[0] == 1 && counter[1] == thrown && counter[2] == !thrown && by_ref == 1);
}

// function objects passed as lvalues stay as they are
PBT_PROP(lvalue_functions, 1500) {
	int calls = 0;
	std::function<void()> f = [&calls, text = std::string(40, 'x')] { calls += text.size() == 40; };
	int want = 0;
	int k = 0;
	while (k++ < 6 && ctx.more(3)) {
		size_t const pol = ctx.below(3);
		{
			auto const guarded = [&](auto const &) { PBT_CHECK_MSG(static_cast<bool>(f), "a function object passed as lvalue was moved from"); };
			if (pol == 0) guarded(dtl::make_scope_exit_guard(f));
			else if (pol == 1) guarded(dtl::make_scope_fail_guard(f));
			else guarded(dtl::make_scope_success_guard(f));
		}
		want += pol != 1;
		PBT_CHECK(f && calls == want);
		ctx.nontrivial();
	}
}

// Guards whose lifetime is not tied to a block: made and destroyed at any depth of unwinding. The scope of such a guard fails
// if more exceptions are in flight when it is destroyed than when it was made.
namespace {
	struct Detached {
		template<ScopeExitPolicy P>
		using G = dtl::ScopeExitGuard<P, std::function<void()>>;
		struct Slot {
			std::unique_ptr<G<ScopeExitPolicy::Always>> a;
			std::unique_ptr<G<ScopeExitPolicy::OnFail>> f;
			std::unique_ptr<G<ScopeExitPolicy::OnSuccess>> s;
			bool has_function = true;
			int depth = 0;
			bool used() const { return a || f || s; }
			void reset() {
				a.reset();
				f.reset();
				s.reset();
			}
		};
		pbt::Ctx &ctx;
		Slot slots[4];
		int calls[4]{};
		unsigned differing = 0;

		void destroy(int i, int depth, bool elsewhere) {
			Slot &s = slots[i];
			bool const failed = (elsewhere ? 0 : depth) > s.depth;
			int const want = calls[i] + (s.has_function && (s.a || (s.f && failed) || (s.s && !failed)) ? 1 : 0);
			PBT_LOG("destroy guard " << i << " with " << depth << " exceptions in flight, made with " << s.depth << (elsewhere ? ", by another thread" : ""));
			if (depth != s.depth) ++differing;
			if (elsewhere) {
				std::thread{[&] { s.reset(); }}.join();
			} else {
				s.reset();
			}
			PBT_CHECK_MSG(calls[i] == want, "function of guard " << i << " was called " << calls[i] << " times, expected " << want);
		}
		void level(int depth) {
			struct Deeper {
				Detached &d;
				int depth;
				~Deeper() { d.level(depth + 1); }
			};
			int k = 0;
			while (k++ < 12 && ctx.more(6)) {
				PBT_CHECK(std::uncaught_exceptions() == depth);
				int const i = static_cast<int>(ctx.below(4));
				Slot &s = slots[i];
				if (depth < 3 && ctx.chance(1, 3)) {
					PBT_LOG("throw");
					try {
						Deeper const x{*this, depth};
						throw Ex1{1};
					} catch (Ex1 const &) {
						PBT_LOG("caught");
					}
				} else if (s.used()) {
					destroy(i, depth, ctx.chance(1, 24));
				} else {
					s.depth = depth;
					s.has_function = !ctx.chance(1, 8);
					size_t const pol = ctx.below(3);
					PBT_LOG("guard " << i << " (" << (pol == 0 ? "always" : pol == 1 ? "fail" : "success") << (s.has_function ? ")" : ", without function)"));
					auto make = [&]<ScopeExitPolicy P>(std::unique_ptr<G<P>> &p) {
						if (s.has_function) {
							p = std::make_unique<G<P>>(std::function<void()>{[this, i] { ++calls[i]; }});
						} else {
							p = std::make_unique<G<P>>();
						}
					};
					if (pol == 0) make(s.a);
					else if (pol == 1) make(s.f);
					else make(s.s);
				}
			}
		}
	};
} // namespace
PBT_PROP(detached, 20000) {
	Detached d{ctx};
	d.level(0);
	for (int i = 0; i < 4; ++i) {
		if (d.slots[i].used()) d.destroy(i, 0, false);
	}
	if (d.differing > 0) ctx.nontrivial();
}
