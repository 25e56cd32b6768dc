#include "common.hpp"
#include <algorithm>
using namespace c12;
PBT_PROP(char8_pocca_pocma, 40000) { run<char8_t, std::char_traits<char8_t>, Pocca | Pocma>(ctx); }
PBT_PROP(char_case_insensitive, 30000) { run<char, CiTraits<char>, Pocca | Pocs>(ctx); }

// with std::allocator (leaks and wrong sizes are found by the address sanitizer)
PBT_PROP(std_allocator, 30000) {
	std::vector<dtl::static_string> v;
	std::vector<std::string> m;
	int k = 0;
	while (k++ < 40 && ctx.more(12)) {
		switch (ctx.below(5)) {
			case 0: {
				std::string t(ctx.size(50), static_cast<char>('a' + ctx.below(26)));
				v.emplace_back(t);
				m.push_back(t);
				break;
			}
			case 1:
				if (!v.empty()) {
					auto i = ctx.below(v.size()), j = ctx.below(v.size());
					v[i] = std::as_const(v[j]);
					m[i] = m[j];
				}
				break;
			case 2:
				if (!v.empty()) {
					auto i = ctx.below(v.size()), j = ctx.below(v.size());
					if (i != j) {
						v[i] = std::move(v[j]);
						m[i] = m[j];
						v[j] = dtl::static_string{};
						m[j].clear();
						ctx.nontrivial();
					}
				}
				break;
			case 3:
				if (!v.empty()) {
					auto i = ctx.below(v.size());
					v.erase(v.begin() + static_cast<long>(i));
					m.erase(m.begin() + static_cast<long>(i));
				}
				break;
			default:
				std::sort(v.begin(), v.end());
				std::sort(m.begin(), m.end());
				break;
		}
		PBT_CHECK(v.size() == m.size());
		for (size_t i = 0; i < v.size(); ++i) {
			PBT_CHECK_MSG(v[i] == m[i] && m[i] == v[i], "element " << i << " is " << std::string_view{v[i]} << ", expected " << m[i]);
		}
	}
	if (k > 5) {
		ctx.nontrivial();
	}
}
