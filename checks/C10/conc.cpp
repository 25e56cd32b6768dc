// Threads sharing one limit under generated schedules.
#include "../../engine/sched.hpp"
#include "../common/linear.hpp"
#include <cstdlib>
#include <dice/template-library/limit_allocator.hpp>
#include <memory>
#include <new>
#include <optional>
#include <vector>
namespace dtl = dice::template_library;

namespace {
	struct UpFailed : std::bad_alloc {};

	// what the upstream allocators saw
	struct Up {
		size_t live = 0, limit = 0, worst = 0;
		std::string error;
		uint64_t asked[sched::max_threads]{}; // when the upstream was asked the last time
		bool fail[sched::max_threads]{};
	};
	Up up;

	template<typename T>
	struct Inner {
		using value_type = T;
		Inner() = default;
		template<typename U>
		Inner(Inner<U> const &) {}
		T *allocate(size_t n) {
			sched::point();
			{
				sched::Quiet q;
				up.asked[sched::self()] = sched::now();
				if (!up.fail[sched::self()]) {
					up.live += n * sizeof(T);
					if (up.live > up.worst) up.worst = up.live;
				}
			}
			sched::point();
			if (up.fail[sched::self()]) throw UpFailed{};
			sched::Quiet q;
			return static_cast<T *>(std::malloc(n * sizeof(T) + 1));
		}
		void deallocate(T *p, size_t n) {
			sched::point();
			{
				sched::Quiet q;
				up.live -= n * sizeof(T);
				std::free(p);
			}
			sched::point();
		}
		friend bool operator==(Inner const &, Inner const &) { return true; }
	};
	struct Four { char b[4]; };
	template<typename T>
	using A = dtl::limit_allocator<T, Inner, dtl::limit_allocator_syncness::sync>;

	enum struct K { alloc, dealloc, copy, drop };
	struct Cmd {
		K k;
		size_t n = 0;   // elements; dealloc: which
		bool four = false, fail = false;
	};
	struct Rec {
		bool give; // deallocation
		int thread;
		size_t bytes;
		bool refused = false;
		linear::Span at;
	};
	struct Budget {
		size_t left;
		std::string key() const { return std::to_string(left); }
	};

	struct World {
		std::vector<Rec> h;
		unsigned refused = 0, failed = 0;
		std::string error;

		size_t begin(bool give, size_t bytes) {
			sched::Quiet q;
			h.push_back({give, sched::self(), bytes, false, {sched::now(), 0, false}});
			return h.size() - 1;
		}
		struct Block {
			void *p;
			size_t n;
			bool four;
		};
		template<typename T>
		void alloc(A<char> &a, Cmd const &c, std::vector<Block> &blocks) {
			size_t const i = begin(false, c.n * sizeof(T));
			up.fail[sched::self()] = c.fail;
			bool refused = false, failed = false;
			T *p = nullptr;
			try {
				if constexpr (sizeof(T) == 1) {
					p = a.allocate(c.n);
				} else {
					A<T> b{a};
					p = b.allocate(c.n);
				}
			} catch (UpFailed const &) {
				failed = true;
			} catch (std::bad_alloc const &) {
				refused = true;
			}
			up.fail[sched::self()] = false;
			sched::Quiet q;
			h[i].at.res = sched::now();
			h[i].at.complete = true;
			h[i].refused = refused;
			if (refused) ++this->refused;
			if (failed) {
				// taken before the upstream was asked, given back afterwards
				++this->failed;
				uint64_t const t = up.asked[sched::self()];
				h.push_back({true, h[i].thread, h[i].bytes, false, {t, h[i].at.res, true}});
				h[i].at.res = t;
			}
			if (failed != (c.fail && !refused)) error = "the failure of the upstream is not reported";
			if (!refused && !failed) blocks.push_back({p, c.n, c.four});
		}
		template<typename T>
		void dealloc(A<char> &a, Block b) {
			size_t const i = begin(true, b.n * sizeof(T));
			if constexpr (sizeof(T) == 1) a.deallocate(static_cast<char *>(b.p), b.n);
			else A<T>{a}.deallocate(static_cast<T *>(b.p), b.n);
			sched::Quiet q;
			h[i].at.res = sched::now();
			h[i].at.complete = true;
		}
		void thread(A<char> mine, std::vector<Cmd> const &p) {
			std::vector<Block> blocks;
			std::vector<A<char>> more;
			for (auto const &c : p) {
				A<char> &a = more.empty() ? mine : more.back();
				switch (c.k) {
					case K::alloc:
						if (c.four) alloc<Four>(a, c, blocks);
						else alloc<char>(a, c, blocks);
						break;
					case K::dealloc: {
						if (blocks.empty()) break;
						size_t const k = c.n % blocks.size();
						Block const b = blocks[k];
						blocks.erase(blocks.begin() + static_cast<std::ptrdiff_t>(k));
						if (b.four) dealloc<Four>(a, b);
						else dealloc<char>(a, b);
						break;
					}
					case K::copy: more.push_back(c.four ? A<char>{A<Four>{a}} : A<char>{a}); break;
					case K::drop:
						if (!more.empty()) more.pop_back();
						break;
				}
			}
			for (auto const &b : blocks) {
				if (b.four) dealloc<Four>(mine, b);
				else dealloc<char>(mine, b);
			}
		}
	};
} // namespace

PBT_PROP(threads, 60000) {
	size_t const limit = ctx.below(13);
	std::vector<std::vector<Cmd>> ps(2 + ctx.below(3));
	size_t total = 0;
	PBT_LOG("limit " << limit);
	bool const aggressive = ctx.flip();
	for (size_t t = 0; t < ps.size(); ++t) {
		size_t const n = 1 + ctx.below(4);
		for (size_t i = 0; i < n && total < 12; ++i, ++total) {
			Cmd c{.k = ctx.pick({K::alloc, K::alloc, K::alloc, K::dealloc, K::copy, K::drop})};
			c.four = ctx.chance(1, 3);
			c.n = ctx.below((aggressive ? limit : limit / 2 + 1) / (c.four && c.k == K::alloc ? 4 : 1) + 2);
			c.fail = c.k == K::alloc && ctx.chance(1, 5);
			ps[t].push_back(c);
			PBT_LOG("thread " << t + 1 << ": " << (c.k == K::alloc ? "allocate " : c.k == K::dealloc ? "deallocate block " : c.k == K::copy ? "copy " : "drop ") << c.n << (c.four ? " x 4" : "") << (c.fail ? ", upstream fails" : ""));
		}
	}
	up = Up{};
	up.limit = limit;
	World w;
	w.h.reserve(128);
	sched::Stats st;
	bool const keep = ctx.flip(); // the harness keeps an allocator
	{
		sched::Run run{ctx};
		std::optional<A<char>> a{std::in_place, limit};
		for (auto const &p : ps) {
			auto own = std::make_shared<std::optional<A<char>>>(*a);
			run.spawn([&w, &p, own] {
				A<char> x = std::move(**own);
				own->reset();
				w.thread(std::move(x), p);
			});
		}
		if (!keep) a.reset();
		PBT_CHECK(run.go() == sched::Status::done);
		auto const history = [&] {
			std::string s;
			for (auto const &r : w.h) {
				s += "\n  T" + std::to_string(r.thread) + " [" + std::to_string(r.at.inv) + "," + std::to_string(r.at.res) + "] " + (r.give ? "gives back " : r.refused ? "is refused " : "takes ") + std::to_string(r.bytes);
			}
			return s;
		};
		PBT_CHECK_MSG(w.error.empty(), w.error);
		PBT_CHECK_MSG(up.worst <= limit, up.worst << " bytes were live with a limit of " << limit << history());
		PBT_CHECK_MSG(up.live == 0, up.live << " bytes are live at the end" << history());
		std::vector<linear::Span> spans;
		for (auto const &r : w.h) spans.push_back(r.at);
		if (spans.size() <= 60) {
			bool const ok = linear::explain(
					spans, Budget{limit},
					[&](Budget &b, size_t i, int variant) {
						Rec const &r = w.h[i];
						if (variant) return false;
						if (r.give) {
							b.left += r.bytes;
							return true;
						}
						if (r.refused) return b.left < r.bytes;
						if (b.left < r.bytes) return false;
						b.left -= r.bytes;
						return true;
					},
					[&](Budget const &b) { return b.left == limit; });
			PBT_CHECK_MSG(ok, "no sequential accounting explains" << history());
		}
		if (keep) {
			// everything is there again, and no more
			bool more = true;
			try {
				char *p = a->allocate(limit);
				try {
					a->deallocate(a->allocate(1), 1);
				} catch (std::bad_alloc const &) {
					more = false;
				}
				a->deallocate(p, limit);
			} catch (std::bad_alloc const &) {
				PBT_CHECK_MSG(false, "the budget of " << limit << " bytes is not available again" << history());
			}
			PBT_CHECK_MSG(!more, "there is more budget than the limit of " << limit << " bytes" << history());
		}
		st = run.stats();
	}
	if (st.preemptions > 0 && w.h.size() >= 3) ctx.nontrivial();
	if (w.refused) ctx.label("refused");
	if (w.failed) ctx.label("upstream failed");
	if (st.cas_failures) ctx.label("spurious compare-exchange failure");
}
