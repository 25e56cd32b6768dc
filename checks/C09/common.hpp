#include "heap.hpp"

#include <memory>

#include <dice/template-library/pool_allocator.hpp>

namespace c09 {
	namespace dtl = dice::template_library;

	template<size_t Size, size_t Align>
	struct alignas(Align) Blob {
		unsigned char b[Size];
	};

	// Live regions with their fill pattern, and the expected use of each bucket
	struct Model {
		struct Region {
			unsigned char *p;
			size_t bytes;  // requested
			size_t bucket; // index or buckets.size()
			unsigned char fill;
			int pool;
			size_t count; // number of elements
			int type;
		};
		std::vector<size_t> buckets;
		std::vector<Region> live;
		std::vector<size_t> used[2], high[2];
		unsigned char next_fill = 1;
		unsigned recycled = 0, large = 0, failed = 0, total = 0, cross = 0;

		explicit Model(std::initializer_list<size_t> b) : buckets{b} {
			live.reserve(512);
			for (int i = 0; i < 2; ++i) {
				used[i].assign(buckets.size(), 0);
				high[i].assign(buckets.size(), 0);
			}
		}
		size_t bucket(size_t n) const {
			size_t i = 0;
			while (i < buckets.size() && n > buckets[i]) {
				++i;
			}
			return i;
		}
		void forget(int pool) {
			used[pool].assign(buckets.size(), 0);
			high[pool].assign(buckets.size(), 0);
		}

		void verify() {
			if (heap::error() != nullptr) {
				pbt::fail_at(heap::error());
			}
			for (auto const &r : live) {
				for (size_t i = 0; i < r.bytes; ++i) {
					PBT_CHECK_MSG(r.p[i] == r.fill, "byte " << i << " of a live region of " << r.bytes << " bytes was changed");
				}
			}
		}

		// f() allocates; returns pointer
		void allocate(pbt::Ctx &ctx, int pool, size_t bytes, size_t align, size_t count, int type, pbt::fref<void *()> f) {
			// over-aligned elements are not for the buckets
			size_t const b = align > alignof(std::max_align_t) ? buckets.size() : bucket(bytes);
			bool const fail = ctx.chance(1, 15);
			heap::fail_all(fail);
			unsigned long const before = heap::calls();
			size_t const blocks_before = heap::live();
			void *q = nullptr;
			bool threw = false;
			try {
				heap::Tracking t;
				q = f();
			} catch (std::bad_alloc const &) {
				threw = true;
			}
			heap::fail_all(false);
			unsigned long const calls = heap::calls() - before;
			bool const recyclable = b < buckets.size() && used[pool][b] < high[pool][b];
			if (threw) {
				PBT_CHECK_MSG(fail, "allocation of " << bytes << " bytes failed although memory is available");
				PBT_CHECK_MSG(!recyclable, "allocation of " << bytes << " bytes failed although a region of this bucket has been freed before");
				PBT_CHECK(heap::live() == blocks_before);
				++failed;
				PBT_LOG("  -> bad_alloc");
				return;
			}
			PBT_CHECK(q != nullptr);
			++total;
			auto *p = static_cast<unsigned char *>(q);
			PBT_CHECK_MSG(reinterpret_cast<uintptr_t>(p) % (bytes == 0 ? 1 : align) == 0, "region of " << bytes << " bytes is not aligned to " << align);
			for (auto const &r : live) {
				PBT_CHECK_MSG(p + bytes <= r.p || r.p + r.bytes <= p || bytes == 0 || r.bytes == 0, "region of " << bytes << " bytes overlaps a live region of " << r.bytes << " bytes");
				PBT_CHECK_MSG(p != r.p, "region handed out twice");
			}
			heap::Block blk{};
			PBT_CHECK(heap::containing(p, blk));
			PBT_CHECK_MSG(p + bytes <= blk.p + blk.bytes, "region of " << bytes << " bytes exceeds the underlying memory");
			if (b < buckets.size()) {
				PBT_CHECK_MSG(!recyclable || calls == 0, "allocation of " << bytes << " bytes took new memory although a region of its bucket has been freed before");
				PBT_CHECK_MSG(blk.bytes >= 2 * buckets[b], "allocation of " << bytes << " bytes fits into a bucket of " << buckets[b] << " but was not served from an arena");
				recycled += recyclable;
				++used[pool][b];
				high[pool][b] = high[pool][b] < used[pool][b] ? used[pool][b] : high[pool][b];
			} else {
				++large;
				PBT_CHECK_MSG(calls == 1 && blk.p == p && blk.bytes >= bytes && blk.bytes < bytes + 64, "allocation of " << bytes << " bytes fits no bucket but was not served by general purpose allocation");
			}
			unsigned char const fill = next_fill++;
			std::memset(p, fill, bytes);
			live.push_back({p, bytes, b, fill, pool, count, type});
		}

		void deallocate(size_t ix, pbt::fref<void()> f) {
			Region const r = live[ix];
			live[ix] = live.back();
			live.pop_back();
			size_t const before = heap::live();
			std::memset(r.p, 0xDD, r.bytes);
			{
				heap::Tracking t;
				f();
			}
			if (r.bucket < buckets.size()) {
				--used[r.pool][r.bucket];
				PBT_CHECK(heap::live() == before);
			} else {
				PBT_CHECK_MSG(heap::live() == before - 1, "a region of " << r.bytes << " bytes that fits no bucket was not given back");
			}
		}
	};

	inline size_t request(pbt::Ctx &ctx, std::vector<size_t> const &buckets) {
		switch (ctx.below(5)) {
			case 0: return ctx.below(9);
			case 1: {
				size_t const b = ctx.pick_from(buckets) + ctx.below(3);
				return b == 0 ? 0 : b - 1;
			}
			case 2: return ctx.pick_from(buckets);
			case 3: return ctx.below(buckets.back() + 1);
			default: return ctx.below(buckets.back() * 2 + 64);
		}
	}

	// raw pool
	template<size_t... B>
	void raw(pbt::Ctx &ctx) {
		heap::reset();
		{
			Model m{B...};
			alignas(dtl::pool<B...>) unsigned char buf[sizeof(dtl::pool<B...>)];
			auto *p = [&] {
				heap::Tracking t;
				return new (buf) dtl::pool<B...>;
			}();
			int k = 0;
			unsigned const avg = ctx.flip() ? 100 : 25;
			while (k < 400 && ctx.more(avg)) {
				++k;
				if (ctx.chance(3, 5) || m.live.empty()) {
					if (ctx.chance(1, 40)) {
						size_t const n = ~size_t{0} - ctx.below(3);
						bool threw = false;
						try {
							heap::Tracking t;
							heap::sink = p->allocate(n);
						} catch (std::bad_alloc const &) {
							threw = true;
						}
						PBT_CHECK_MSG(threw, "allocate(" << n << ") did not fail");
						m.verify();
						continue;
					}
					size_t const n = request(ctx, m.buckets);
					if (ctx.chance(1, 30)) {
						size_t const reps = 2 + ctx.below(80);
						PBT_LOG(reps << " times allocate and deallocate(" << n << ")");
						for (size_t i = 0; i < reps; ++i) {
							size_t const before = m.live.size();
							m.allocate(ctx, 0, n, 1, n, 0, [&]() -> void * { return p->allocate(n); });
							if (m.live.size() > before) {
								auto const r = m.live[before];
								m.deallocate(before, [&] { p->deallocate(r.p, r.bytes); });
							}
						}
						continue;
					}
					PBT_LOG("allocate(" << n << ")");
					size_t align = 16;
					while (align > 1 && n % align != 0) {
						align /= 2;
					}
					m.allocate(ctx, 0, n, n == 0 ? 1 : align, n, 0, [&]() -> void * { return p->allocate(n); });
				} else {
					size_t const ix = ctx.below(m.live.size());
					auto const r = m.live[ix];
					PBT_LOG("deallocate region " << ix << " of " << r.bytes << " bytes");
					m.deallocate(ix, [&] { p->deallocate(r.p, r.bytes); });
				}
				if (k % 4 == 0) {
					m.verify();
				}
			}
			m.verify();
			if (ctx.flip()) {
				while (!m.live.empty()) {
					auto const r = m.live.back();
					m.deallocate(m.live.size() - 1, [&] { p->deallocate(r.p, r.bytes); });
				}
			} else {
				for (size_t i = m.live.size(); i-- > 0;) {
					auto const r = m.live[i];
					if (r.bucket == m.buckets.size()) {
						m.deallocate(i, [&] { p->deallocate(r.p, r.bytes); });
					}
				}
			}
			{
				heap::Tracking t;
				p->~pool();
			}
			PBT_CHECK(heap::error() == nullptr);
			PBT_CHECK_MSG(heap::live() == 0, heap::live() << " blocks of memory were not given back");
			if (m.total >= 4 && m.recycled > 0) {
				ctx.nontrivial();
			}
			if (m.failed) {
				ctx.label("with failed general purpose allocation");
			}
			if (m.large) {
				ctx.label("with requests that fit no bucket");
			}
		}
	}
} // namespace c09
