#include "pbt.hpp"

#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <ranges>
#include <string>
#include <vector>

#include <dice/template-library/next_to_range.hpp>

namespace c23 {
	namespace dtl = dice::template_library;

	enum Caps : unsigned { Back = 1, Nth = 2, NthBack = 4, Sized = 8, MoveOnly = 16 };

	// element which can only be moved; a moved-from one equals nothing
	struct Tok {
		size_t v;
		bool live = true;
		explicit Tok(size_t x) : v{x} {}
		Tok(Tok &&o) noexcept : v{o.v}, live{std::exchange(o.live, false)} {}
		Tok &operator=(Tok &&o) noexcept {
			v = o.v;
			live = std::exchange(o.live, false);
			return *this;
		}
		void operator&() const = delete;
		bool operator==(Tok const &o) const { return live && o.live && v == o.v; }
	};

	template<typename T>
	T element(size_t i) {
		if constexpr (std::is_same_v<T, std::string>) {
			return std::string(i % 3 == 0 ? 2 : 30, static_cast<char>('a' + i % 26)) + static_cast<char>('0' + i % 10);
		} else {
			return static_cast<T>(i * 3 + 1);
		}
	}

	// constructor argument which is worthless once it was moved from
	struct Bound {
		size_t v;
		Bound(size_t x) : v{x} {}
		Bound(Bound const &) = default;
		Bound(Bound &&o) noexcept : v{o.v} { o.v = 1'000'000'007; }
	};

	// elements [lo, hi), fused
	template<typename T, unsigned C>
	struct Producer {
		using value_type = T;
		size_t lo = 0, hi = 0;
		std::unique_ptr<int> only_if_move_only;

		Producer(Bound l, Bound h) : lo{l.v}, hi{h.v} {}
		Producer(Producer const &o) requires ((C & MoveOnly) == 0) : lo{o.lo}, hi{o.hi} {}
		Producer(Producer &&o) : lo{o.lo}, hi{o.hi} {}
		Producer &operator=(Producer const &o) requires ((C & MoveOnly) == 0) {
			lo = o.lo;
			hi = o.hi;
			return *this;
		}
		Producer &operator=(Producer &&o) {
			lo = o.lo;
			hi = o.hi;
			return *this;
		}

		std::optional<T> next() {
			if (lo == hi) {
				return std::nullopt;
			}
			return element<T>(lo++);
		}
		std::optional<T> next_back() requires ((C & Back) != 0) {
			if (lo == hi) {
				return std::nullopt;
			}
			return element<T>(--hi);
		}
		std::optional<T> nth(size_t off) requires ((C & Nth) != 0) {
			lo = off >= hi - lo ? hi : lo + off;
			return next();
		}
		std::optional<T> nth_back(size_t off) requires ((C & NthBack) != 0) {
			hi = off >= hi - lo ? lo : hi - off;
			return next_back();
		}
		size_t remaining() const requires ((C & Sized) != 0) { return hi - lo; }
	};

	// iterators over [lo, hi) walking forward or backward
	template<typename It, bool backward>
	struct Walk {
		using T = typename It::value_type;
		static constexpr bool copyable = std::is_copy_constructible_v<It>;
		struct M {
			size_t pos;           // number of elements before the current one (in walking direction)
			bool peeked = false;
			bool changed = false; // value was written through the iterator
		};
		pbt::Ctx &ctx;
		size_t lo, n;
		std::vector<It> its;
		std::vector<M> ms;
		unsigned copies = 0, peeks = 0, jumps = 0;

		T at(size_t pos) const { return element<T>(backward ? lo + n - 1 - pos : lo + pos); }

		void verify() {
			for (size_t i = 0; i < its.size(); ++i) {
				It &it = its[i];
				It const &c = it;
				M const &m = ms[i];
				bool const end = m.pos >= n;
				PBT_CHECK_MSG((it == std::default_sentinel) == end && (std::default_sentinel == c) == end && (c != std::default_sentinel) == !end, "iterator " << i << " at " << m.pos << " of " << n << " end " << end);
				if (!end) {
					PBT_CHECK_MSG(*c == (m.changed ? element<T>(9) : at(m.pos)), "iterator " << i << " at " << m.pos << " has the wrong element");
					PBT_CHECK(std::addressof(*c) == std::addressof(*it) && c.operator->() == std::addressof(*c));
				}
				// the producer is exactly one element ahead, two if the next one was peeked
				size_t const ahead = std::min(m.pos + 1 + (m.peeked ? 1 : 0), n);
				size_t const consumed = backward ? lo + n - it.hi : it.lo - lo;
				PBT_CHECK_MSG(consumed == ahead, "iterator " << i << " at " << m.pos << " consumed " << consumed << " elements");
				PBT_CHECK(backward ? it.lo == lo : it.hi == lo + n);
			}
		}
		void step(pbt::fref<It()> fresh) {
			if (its.empty() || (its.size() < 5 && ctx.chance(1, 6))) {
				PBT_LOG("iterator " << its.size() << " = begin");
				its.push_back(fresh());
				ms.push_back({0});
				return;
			}
			size_t const i = ctx.below(its.size());
			M &m = ms[i];
			bool const end = m.pos >= n;
			switch (ctx.below(9)) {
				case 0:
				case 1:
					if (!end) {
						PBT_LOG("++iterator " << i);
						PBT_CHECK(&++its[i] == &its[i]);
						m = {m.pos + 1};
					}
					break;
				case 2:
					if (!end) {
						PBT_LOG("iterator " << i << "++");
						if constexpr (copyable) {
							T const before = *its[i];
							It old = its[i]++;
							PBT_CHECK(*old == before);
							if (ctx.flip()) {
								// the copy continues on its own
								++old;
								PBT_CHECK((old == std::default_sentinel) == (m.pos + 1 >= n));
								if (m.pos + 1 < n) {
									PBT_CHECK(*old == at(m.pos + 1));
								}
							}
							++copies;
						} else {
							its[i]++;
						}
						m = {m.pos + 1};
					}
					break;
				case 3: {
					PBT_LOG("peek iterator " << i);
					++peeks;
					auto const &p = its[i].peek();
					PBT_CHECK(p.has_value() == (m.pos + 1 < n));
					if (p.has_value()) {
						PBT_CHECK(*p == at(m.pos + 1));
					}
					m.peeked = true;
					break;
				}
				case 4:
				case 5:
					if constexpr (copyable) {
						if (its.size() < 6) {
							++copies;
							size_t const how = ctx.below(2);
							PBT_LOG("iterator " << its.size() << " = copy of " << i);
							if (how == 0) {
								its.push_back(std::as_const(its[i]));
							} else {
								It x(its[i]);
								its.push_back(std::move(x));
							}
							ms.push_back(M{ms[i]});
						} else {
							size_t const j = ctx.below(its.size());
							PBT_LOG("iterator " << i << " = iterator " << j);
							++copies;
							its[i] = std::as_const(its[j]);
							ms[i] = M{ms[j]};
						}
					}
					break;
				case 6:
				case 7:
					if constexpr (requires { its[i] += size_t{1}; }) {
						size_t const left = n - std::min(n, m.pos);
						size_t const off = ctx.chance(1, 12) ? ctx.edge<size_t>() : ctx.below(left + 3);
						++jumps;
						bool const past = off >= left;
						if (end) {
							break;
						}
						bool plus = false;
						if constexpr (copyable) {
							plus = ctx.flip();
							if (plus) {
								PBT_LOG("iterator " << i << " + " << off);
								It r = its[i] + off;
								PBT_CHECK((r == std::default_sentinel) == past);
								if (!past) {
									PBT_CHECK(*r == (m.changed && off == 0 ? element<T>(9) : at(m.pos + off)));
								}
							}
						}
						if (!plus) {
							PBT_LOG("iterator " << i << " += " << off);
							PBT_CHECK(&(its[i] += off) == &its[i]);
							if (off > 0) {
								m = {past ? n : m.pos + off};
							}
						}
					}
					break;
				default:
					if (!end) {
						PBT_LOG("write through iterator " << i);
						*its[i] = element<T>(9);
						m.changed = true;
					}
					break;
			}
		}
	};

	template<bool backward, typename R>
	void walk(pbt::Ctx &ctx, R const &r, size_t lo, size_t n, bool &nontrivial) {
		auto fresh = [&] {
			if constexpr (backward) {
				return ctx.flip() ? r.rbegin() : r.crbegin();
			} else {
				return ctx.flip() ? r.begin() : r.cbegin();
			}
		};
		Walk<decltype(fresh()), backward> w{ctx, lo, n, {}, {}};
		w.its.reserve(16);
		int k = 0;
		while (k++ < 60 && ctx.more(16)) {
			w.step(fresh);
			w.verify();
		}
		if (k > 4 && n > 1 && (w.copies || w.peeks || w.jumps)) {
			nontrivial = true;
		}
	}

	template<typename T, unsigned C, bool view>
	void run(pbt::Ctx &ctx) {
		using P = Producer<T, C>;
		using R = typename std::conditional_t<view && (C & MoveOnly) == 0, std::type_identity<int>, std::type_identity<long>>::type;
		size_t const lo = ctx.below(4), n = ctx.size(12);
		PBT_LOG("producer of elements [" << lo << ", " << lo + n << ")");
		auto go = [&](auto const &r) {
			bool nt = false;
			{
				size_t k = 0;
				for (auto &&x : r) {
					PBT_CHECK(k < n && x == element<T>(lo + k));
					++k;
				}
				PBT_CHECK(k == n);
			}
			walk<false>(ctx, r, lo, n, nt);
			if constexpr ((C & Back) != 0) {
				walk<true>(ctx, r, lo, n, nt);
				PBT_CHECK((r.rbegin() == r.rend()) == (n == 0) && (r.crbegin() == r.crend()) == (n == 0));
				size_t k = n;
				for (auto &&x : r.reversed()) {
					PBT_CHECK(k > 0);
					--k;
					PBT_CHECK(x == element<T>(lo + k));
				}
				PBT_CHECK(k == 0);
			}
			PBT_CHECK((r.begin() == r.end()) == (n == 0) && (r.cbegin() == r.cend()) == (n == 0));
			if constexpr ((C & Sized) != 0 && (C & MoveOnly) == 0) {
				PBT_CHECK(r.size() == n && r.empty() == (n == 0) && static_cast<bool>(r) == (n != 0));
			}
			if (nt) {
				ctx.nontrivial();
			}
		};
		(void) sizeof(R);
		if constexpr (view) {
			using V = dtl::next_to_view<P>;
			static_assert(std::ranges::view<V> && std::ranges::input_range<V>);
			Bound from{lo};
			V v{from, Bound{lo + n}};
			{
				typename V::iterator const it{from, Bound{lo + n}};
				PBT_CHECK((it == std::default_sentinel) == (n == 0) && (n == 0 || *it == element<T>(lo)));
			}
			PBT_CHECK_MSG(from.v == lo, "a constructor argument passed as lvalue was moved from");
			go(v);
			if (n > 0) {
				PBT_CHECK(v.front() == element<T>(lo));
				if constexpr ((C & Back) != 0) {
					PBT_CHECK(v.back() == element<T>(lo + n - 1));
				}
				if constexpr ((C & Nth) != 0) {
					size_t const i = ctx.below(n);
					PBT_CHECK(v[i] == element<T>(lo + i));
				}
			}
			if constexpr ((C & Nth) != 0) {
				V w = v;
				size_t const off = ctx.below(n + 3);
				PBT_LOG("advance view by " << off);
				PBT_CHECK(&w.advance(off) == &w);
				size_t k = off;
				for (auto &&x : w) {
					PBT_CHECK(k < n && x == element<T>(lo + k));
					++k;
				}
				PBT_CHECK(k == std::max(n, off));
			}
			if constexpr (std::is_copy_constructible_v<T>) {
				std::vector<T> got;
				for (auto &&x : v | std::views::drop(1) | std::views::take(3)) {
					got.push_back(x);
				}
				std::vector<T> want;
				for (size_t i = 1; i < std::min<size_t>(4, n); ++i) {
					want.push_back(element<T>(lo + i));
				}
				PBT_CHECK(got == want);
			}
			go(v);
		} else {
			using Rg = dtl::next_to_range<P>;
			static_assert(std::ranges::input_range<Rg>);
			Bound from{lo};
			Rg r{from, Bound{lo + n}};
			PBT_CHECK_MSG(from.v == lo, "a constructor argument passed as lvalue was moved from"); // producers that cannot be copied are made from these anew for each iteration
			go(r);
			Rg copy{std::as_const(r)};
			go(copy);
		}
	}
} // namespace c23
