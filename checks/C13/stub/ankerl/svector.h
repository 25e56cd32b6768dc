// Stand-in for ankerl::svector, which is not installed here: makes the small-buffer mode of flex_array available.
#ifndef VERIF_STUB_SVECTOR
#define VERIF_STUB_SVECTOR
#include <cstddef>
#include <vector>
namespace ankerl {
	template<typename T, std::size_t N>
	struct svector : private std::vector<T> {
		using base = std::vector<T>;
		using base::base, base::data, base::size, base::resize, base::begin, base::end, base::cbegin, base::cend, base::operator[], base::empty, base::clear, base::reserve, base::push_back, base::emplace_back, base::assign;
		using typename base::value_type, typename base::iterator, typename base::const_iterator, typename base::size_type;
		friend bool operator==(svector const &a, svector const &b) { return static_cast<base const &>(a) == static_cast<base const &>(b); }
	};
}
#endif
