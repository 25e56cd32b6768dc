#include "common.hpp"
using namespace c26;
template<typename T, typename Tag, unsigned Bits>
using P = dtl::pointer_tag_pair<T, Tag, Bits>;

PBT_PROP(base_class, 12000) {
	using PT = dtl::pointer_tag_pair<Base, uint16_t>;
	std::vector<Derived> objs(4);
	history<Base, uint16_t, PT, 3>(ctx, [&](pbt::Ctx &c, uint16_t tag) {
		Derived *const ptr = object_ptr<Derived *>(c, objs);
		Base *const want = ptr;
		if (c.flip()) return std::pair{PT{ptr, tag}, want};
		return std::pair{PT::template from_overaligned<8>(ptr, tag), want};
	});
}
PBT_PROP(base_class_const_virtual, 12000) {
	using PT = dtl::pointer_tag_pair<Virt const, uint64_t>;
	static_assert(PT::bits_requested == 4);
	std::vector<VirtDerived> objs(4);
	history<Virt const, uint64_t, PT, 4>(ctx, [&](pbt::Ctx &c, uint64_t tag) {
		VirtDerived *const ptr = object_ptr<VirtDerived *>(c, objs);
		Virt const *const want = ptr;
		if (c.flip()) return std::pair{PT{ptr, tag}, want};
		return std::pair{PT::template from_overaligned<16>(ptr, tag), want};
	});
}
PBT_PROP(void_overaligned, 12000) {
	history<void, E64, P<void, E64, 12>, 0>(ctx, [](pbt::Ctx &c, E64 tag) {
		auto *const ptr = aligned_ptr<char *>(c, 4096);
		return std::pair{P<void, E64, 12>::from_overaligned<8192>(reinterpret_cast<char *>(reinterpret_cast<uintptr_t>(ptr) & ~uintptr_t{8191}), tag), static_cast<void *>(reinterpret_cast<char *>(reinterpret_cast<uintptr_t>(ptr) & ~uintptr_t{8191}))};
	});
}
PBT_PROP(void_from_typed, 12000) {
	history<void const, unsigned short, P<void const, unsigned short, 6>, 0>(ctx, [](pbt::Ctx &c, unsigned short tag) {
		auto *const ptr = aligned_ptr<A64 *>(c, 64);
		return std::pair{P<void const, unsigned short, 6>{ptr, tag}, static_cast<void const *>(ptr)};
	});
}
PBT_PROP(char_no_bits, 5000) {
	using PT = dtl::pointer_tag_pair<char, unsigned>;
	static_assert(PT::bits_requested == 0);
	history<char, unsigned, PT, 0>(ctx, plain<PT>);
}
PBT_PROP(many_bits, 8000) { history<int volatile, uint64_t, P<int volatile, uint64_t, 31>, 2>(ctx, plain<P<int volatile, uint64_t, 31>>); }

// usable at compile time
constexpr dtl::pointer_tag_pair<int, unsigned> cnull{nullptr, 3U};
constexpr dtl::pointer_tag_pair<int, unsigned> cdefault{};
static constexpr auto cswapped = [] {
	auto a = cnull, b = cdefault;
	swap(a, b);
	return std::pair{a.tag(), b.tag()};
}();
PBT_PROP(compile_time, 10) {
	PBT_CHECK(cnull.tag() == 3 && cnull.pointer() == nullptr && cdefault.tag() == 0 && cdefault.pointer() == nullptr && cnull != cdefault && (cnull <=> cdefault) > 0 && cswapped == (std::pair{0U, 3U}));
}
