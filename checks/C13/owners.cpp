// elements that can be moved but not copied: every element is in one place at a time
#include "common.hpp"

#include <iterator>
#include <memory>

namespace {
	namespace dtl = dice::template_library;
	using dtl::dynamic_extent;
	using Own = std::unique_ptr<int>;
	using Mo = std::vector<int>; // 0: empty owner

	Own own(int v) { return v == 0 ? nullptr : std::make_unique<int>(v); }

	template<size_t E, size_t X>
	void history(pbt::Ctx &ctx) {
		using F = dtl::flex_array<Own, E, X>;
		constexpr bool fixed = X != dynamic_extent && E == X;
		constexpr size_t cap = X != dynamic_extent ? X : 6;
		constexpr int n = 3;
		std::unique_ptr<F> real[n];
		Mo model[n];
		bool known[n];
		auto fresh = [&](int i) {
			real[i] = std::make_unique<F>();
			model[i].assign(fixed ? cap : 0, 0);
			known[i] = true;
		};
		auto matches = [&](F const &f, Mo const &m, char const *what) {
			PBT_CHECK_MSG(f.size() == m.size(), what << ": size is " << f.size() << ", expected " << m.size());
			for (size_t k = 0; k < m.size(); ++k) {
				PBT_CHECK_MSG((f[k] ? *f[k] : 0) == m[k], what << ": element " << k << " is " << (f[k] ? *f[k] : 0) << ", expected " << m[k]);
			}
		};
		for (int i = 0; i < n; ++i) fresh(i);
		int value = 0, moves = 0, ops = 0;
		while (ops < 30 && ctx.more(10)) {
			++ops;
			int const i = static_cast<int>(ctx.range(0, n - 1));
			int const j = (i + 1 + static_cast<int>(ctx.range(0, n - 2))) % n;
			if (!known[i]) fresh(i);
			if (!known[j]) fresh(j);
			switch (ctx.range(0, 6)) {
				case 0: { // from a range whose elements are moved out
					Mo m;
					size_t const len = static_cast<size_t>(ctx.range(0, static_cast<int64_t>(cap)));
					for (size_t k = 0; k < len; ++k) m.push_back(ctx.chance(1, 5) ? 0 : ++value);
					std::vector<Own> src;
					for (int v : m) src.push_back(own(v));
					real[i] = std::make_unique<F>(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
					for (auto const &s : src) PBT_CHECK_MSG(!s, "an element of the range was not moved from");
					if (fixed) m.resize(cap, 0);
					model[i] = m;
					matches(*real[i], m, "construction from a range");
					break;
				}
				case 1: { // element write
					if (model[i].empty()) break;
					size_t const k = ctx.below(model[i].size());
					int const v = ++value;
					PBT_LOG(i << "[" << k << "] = " << v);
					if (ctx.chance(1, 2)) (*real[i])[k] = own(v);
					else *(real[i]->begin() + static_cast<std::ptrdiff_t>(k)) = own(v);
					model[i][k] = v;
					break;
				}
				case 2: { // move construction
					PBT_LOG("construct " << i << " from " << j);
					auto tmp = std::make_unique<F>(std::move(*real[j]));
					real[i] = std::move(tmp);
					model[i] = model[j];
					known[j] = false;
					++moves;
					break;
				}
				case 3: { // move assignment
					PBT_LOG(i << " = move(" << j << ")");
					F &r = (*real[i] = std::move(*real[j]));
					PBT_CHECK(&r == real[i].get());
					model[i] = model[j];
					known[j] = false;
					++moves;
					break;
				}
				case 4: {
					PBT_LOG("swap " << i << ", " << j);
					swap(*real[i], *real[j]);
					std::swap(model[i], model[j]);
					++moves;
					break;
				}
				case 5: { // growing keeps the elements (those that were cut off and come back are not specified)
					if constexpr (F::has_dynamic_extent) {
						size_t const len = static_cast<size_t>(ctx.range(0, static_cast<int64_t>(cap)));
						size_t const before = model[i].size();
						PBT_LOG("resize " << i << " to " << len);
						real[i]->resize(len);
						PBT_CHECK(real[i]->size() == len);
						model[i].resize(len, 0);
						for (size_t k = before; k < len; ++k) (*real[i])[k] = nullptr;
						++moves;
					}
					break;
				}
				case 6: { // element taken out
					if (model[i].empty()) break;
					size_t const k = ctx.below(model[i].size());
					Own o = std::move((*real[i])[k]);
					PBT_CHECK_MSG((o ? *o : 0) == model[i][k], "took out " << (o ? *o : 0) << ", expected " << model[i][k]);
					model[i][k] = 0;
					break;
				}
			}
			for (int k = 0; k < n; ++k) {
				if (!known[k]) continue;
				matches(*real[k], model[k], "contents");
				Mo back;
				for (auto it = real[k]->crbegin(); it != real[k]->crend(); ++it) back.push_back(*it ? **it : 0);
				std::reverse(back.begin(), back.end());
				PBT_CHECK_MSG(back == model[k], "reverse iteration disagrees");
			}
		}
		if (ops >= 3 && moves > 0) ctx.nontrivial();
	}
}
#if __has_include(<ankerl/svector.h>)
PBT_PROP(owners_small_buffer, 8000) { history<3, dynamic_extent>(ctx); }
#else
PBT_PROP(owners_static, 8000) { history<4, 4>(ctx); }
PBT_PROP(owners_limited, 8000) { history<dynamic_extent, 5>(ctx); }
PBT_PROP(owners_dynamic, 8000) { history<dynamic_extent, dynamic_extent>(ctx); }
#endif
