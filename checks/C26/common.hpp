#include "pbt.hpp"

#include <compare>
#include <cstdint>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

#include <dice/template-library/pointer_tag_pair.hpp>

namespace c26 {
	namespace dtl = dice::template_library;

	struct alignas(64) A64 {
		int v;
	};
	struct Other {
		long pad[4];
	};
	struct Base {
		long v;
	};
	// Base lives at a non-zero offset
	struct Derived : Other, Base {
		long w;
	};
	struct alignas(16) Virt {
		virtual ~Virt() = default;
	};
	struct VirtDerived : Other, Virt {};

	enum struct E8 : uint8_t {};
	enum struct E16 : uint16_t {};
	enum E64 : uint64_t {};

	alignas(8192) inline unsigned char arena[1 << 15];

	// how to make a pointer of type T* for the case, and its plain conversion
	template<typename P>
	P aligned_ptr(pbt::Ctx &ctx, size_t align) {
		switch (ctx.below(4)) {
			case 0: return nullptr;
			case 1: // the very top of the address space
				return reinterpret_cast<P>(static_cast<uintptr_t>(0) - align * (1 + ctx.choice(3)));
			case 2: // any aligned address
				return reinterpret_cast<P>(static_cast<uintptr_t>(ctx.edge<uint64_t>()) / align * align);
			default:
				if (align > 4096) return reinterpret_cast<P>(align * (1 + ctx.choice(1000)));
				return reinterpret_cast<P>(arena + ctx.below(sizeof(arena) / 2 / align) * align);
		}
	}
	// pointers that may be converted to a base class must point to real objects (the conversion can look at them)
	template<typename P>
	P object_ptr(pbt::Ctx &ctx, std::vector<std::remove_pointer_t<P>> &objs) {
		size_t const i = ctx.below(objs.size() + 1);
		return i == 0 ? nullptr : &objs[i - 1];
	}

	template<typename T, typename Tag, unsigned Bits, typename PT>
	struct Slot {
		PT p;
		T *ptr = nullptr;
		uint64_t tag = 0;
	};

	template<typename PT, typename T, typename Tag>
	void expect(PT const &p, T *ptr, uint64_t tag) {
		PBT_CHECK_MSG(p.pointer() == ptr, "pointer is " << static_cast<void const volatile *>(p.pointer()) << ", expected " << static_cast<void const volatile *>(ptr));
		PBT_CHECK_MSG(static_cast<uint64_t>(p.tag()) == tag, "tag is " << static_cast<uint64_t>(p.tag()) << ", expected " << tag);
		auto const [a, b] = p;
		PBT_CHECK(a == ptr && static_cast<uint64_t>(b) == tag);
		PBT_CHECK(get<0>(p) == ptr && static_cast<uint64_t>(get<1>(p)) == tag);
	}

	// Conv: callback(ctx, tag) -> (pair, expected pointer) made through a converting pointer type
	template<typename T, typename Tag, typename PT, unsigned Avail, typename Conv>
	void history(pbt::Ctx &ctx, Conv conv) {
		constexpr unsigned bits = PT::bits_requested;
		static_assert(std::is_same_v<typename PT::pointer_type, T *> && std::is_same_v<typename PT::tag_type, Tag> && std::tuple_size_v<PT> == 2 && std::tuple_size_v<PT const> == 2);
		static_assert(std::is_same_v<std::tuple_element_t<0, PT>, T *> && std::is_same_v<std::tuple_element_t<1, PT const>, Tag>);
		constexpr size_t align = size_t{1} << bits;
		uint64_t max_tag = align - 1;
		if constexpr (sizeof(Tag) < 8) {
			uint64_t const lim = (uint64_t{1} << (8 * sizeof(Tag))) - 1;
			max_tag = max_tag < lim ? max_tag : lim;
		}
		constexpr size_t N = 4;
		struct Model {
			T *ptr = nullptr;
			uint64_t tag = 0;
		} m[N];
		PT p[N];
		for (size_t i = 0; i < N; ++i) expect<PT, T, Tag>(p[i], nullptr, 0);
		auto gtag = [&] {
			uint64_t const t = ctx.chance(1, 3) ? max_tag - ctx.choice(max_tag < 2 ? max_tag : 2) : ctx.choice(max_tag);
			return t;
		};
		size_t const steps = 1 + ctx.size(12);
		for (size_t s = 0; s < steps; ++s) {
			size_t const i = ctx.below(N), j = ctx.below(N);
			uint64_t const t = gtag();
			switch (ctx.below(10)) {
				case 0:
				case 1: {
					T *const ptr = aligned_ptr<T *>(ctx, align);
					PBT_LOG("slot " << i << " = overaligned " << reinterpret_cast<uintptr_t>(ptr) << " with tag " << t);
					p[i] = PT::template from_overaligned<(1U << bits)>(ptr, static_cast<Tag>(t));
					m[i] = {ptr, t};
					break;
				}
				case 2:
				case 3: {
					if constexpr (bits <= Avail) {
						T *const ptr = aligned_ptr<T *>(ctx, align);
						PBT_LOG("slot " << i << " = pair of " << reinterpret_cast<uintptr_t>(ptr) << " with tag " << t);
						p[i] = PT{ptr, static_cast<Tag>(t)};
						m[i] = {ptr, t};
					}
					break;
				}
				case 4:
					PBT_LOG("slot " << i << " = nullptr with tag " << t);
					if (ctx.flip()) {
						p[i] = PT{nullptr, static_cast<Tag>(t)};
						m[i] = {nullptr, t};
					} else {
						p[i] = nullptr;
						m[i] = {};
					}
					break;
				case 5: {
					PBT_LOG("slot " << i << " = raw form of slot " << j);
					auto const raw = p[j].tagged_pointer();
					static_assert(std::is_same_v<std::remove_const_t<decltype(raw)>, typename PT::tagged_pointer_type>);
					p[i] = PT::from_tagged(raw);
					m[i] = m[j];
					PBT_CHECK(p[i].tagged_pointer() == raw);
					break;
				}
				case 6:
					PBT_LOG("slot " << i << " = slot " << j);
					p[i] = p[j];
					m[i] = m[j];
					break;
				case 7:
					PBT_LOG("swap slots " << i << " and " << j);
					swap(p[i], p[j]);
					std::swap(m[i], m[j]);
					break;
				case 8: {
					auto [pr, ptr] = conv(ctx, static_cast<Tag>(t));
					PBT_LOG("slot " << i << " = converted " << reinterpret_cast<uintptr_t>(ptr) << " with tag " << t);
					p[i] = pr;
					m[i] = {ptr, t};
					break;
				}
				default: { // same pointer, other tag; or same tag, other pointer
					if (ctx.flip()) {
						PBT_LOG("slot " << i << " = pointer of slot " << j << " with tag " << t);
						p[i] = PT::template from_overaligned<(1U << bits)>(p[j].pointer(), static_cast<Tag>(t));
						m[i] = {m[j].ptr, t};
					} else {
						T *const ptr = aligned_ptr<T *>(ctx, align);
						PBT_LOG("slot " << i << " = " << reinterpret_cast<uintptr_t>(ptr) << " with tag of slot " << j);
						p[i] = PT::template from_overaligned<(1U << bits)>(ptr, p[j].tag());
						m[i] = {ptr, m[j].tag};
					}
					break;
				}
			}
			for (size_t k = 0; k < N; ++k) {
				expect<PT, T, Tag>(p[k], m[k].ptr, m[k].tag);
				if (m[k].ptr != nullptr && m[k].tag != 0) ctx.nontrivial();
			}
			for (size_t a = 0; a < N; ++a) {
				for (size_t b = 0; b < N; ++b) {
					bool const eq = m[a].ptr == m[b].ptr && m[a].tag == m[b].tag;
					auto const o = p[a] <=> p[b];
					PBT_CHECK((p[a] == p[b]) == eq && (p[a] != p[b]) == !eq && (o == 0) == eq);
					auto const back = p[b] <=> p[a];
					PBT_CHECK((o < 0) == (back > 0) && (p[a] < p[b]) == (o < 0) && (p[a] >= p[b]) == (o >= 0));
					for (size_t c = 0; c < N; ++c) {
						if (p[a] < p[b] && p[b] < p[c]) PBT_CHECK(p[a] < p[c]);
					}
				}
			}
		}
	}

	// conversion through T* itself, for types without bases
	template<typename PT>
	auto plain = [](pbt::Ctx &ctx, auto tag) {
		constexpr unsigned bits = PT::bits_requested;
		using T = std::remove_pointer_t<typename PT::pointer_type>;
		auto *const ptr = aligned_ptr<std::remove_cv_t<T> *>(ctx, size_t{1} << bits);
		return std::pair{PT::template from_overaligned<(1U << bits)>(ptr, tag), static_cast<T *>(ptr)};
	};
} // namespace c26
