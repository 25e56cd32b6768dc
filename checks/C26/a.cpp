#include "common.hpp"
using namespace c26;
template<typename T, typename Tag, unsigned Bits>
using P = dtl::pointer_tag_pair<T, Tag, Bits>;

PBT_PROP(int_default_bits, 12000) {
	using PT = dtl::pointer_tag_pair<int, unsigned>;
	static_assert(PT::bits_requested == 2);
	history<int, unsigned, PT, 2>(ctx, plain<PT>);
}
PBT_PROP(const_long_u8, 12000) {
	using PT = dtl::pointer_tag_pair<long const, uint8_t>;
	static_assert(PT::bits_requested == 3);
	// non-const pointers convert
	history<long const, uint8_t, PT, 3>(ctx, [](pbt::Ctx &c, uint8_t tag) {
		long *const ptr = aligned_ptr<long *>(c, 8);
		return std::pair{PT{ptr, tag}, static_cast<long const *>(ptr)};
	});
}
PBT_PROP(a64_enum, 12000) {
	using PT = dtl::pointer_tag_pair<A64, E8>;
	static_assert(PT::bits_requested == 6);
	history<A64, E8, PT, 6>(ctx, plain<PT>);
}
PBT_PROP(a64_fewer_bits, 12000) { history<A64, E16, P<A64, E16, 2>, 6>(ctx, plain<P<A64, E16, 2>>); }
PBT_PROP(short_bool, 12000) {
	using PT = dtl::pointer_tag_pair<short, bool>;
	static_assert(PT::bits_requested == 1);
	history<short, bool, PT, 1>(ctx, plain<PT>);
}
