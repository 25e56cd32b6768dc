// Search for a sequential explanation of a concurrent history (linearizability, Wing & Gong with memoisation).
#ifndef VERIF_LINEAR_HPP
#define VERIF_LINEAR_HPP
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace linear {
	struct Span {
		uint64_t inv = 0, res = 0;
		bool complete = false;
	};

	// State: copyable, .key() -> std::string; step(State &, i, variant): performs operation i if the state allows its recorded result (variants 0 and 1 are tried);
	// final(State const &): is the state acceptable once all complete operations have been performed?
	template<typename State, typename Step, typename Final>
	bool explain(std::vector<Span> const &ops, State const &init, Step step, Final final_ok, bool *any = nullptr) {
		std::set<std::pair<uint64_t, std::string>> seen;
		uint64_t all = 0;
		for (size_t i = 0; i < ops.size(); ++i) if (ops[i].complete) all |= uint64_t{1} << i;
		std::function<bool(uint64_t, State const &)> const rec = [&](uint64_t done, State const &s) -> bool {
			if (done == all) {
				if (any) *any = true;
				return final_ok(s);
			}
			if (!seen.emplace(done, s.key()).second) return false;
			uint64_t first = ~uint64_t{0};
			for (size_t i = 0; i < ops.size(); ++i) {
				if (ops[i].complete && !(done >> i & 1) && ops[i].res < first) first = ops[i].res;
			}
			for (size_t i = 0; i < ops.size(); ++i) {
				if (!ops[i].complete || (done >> i & 1) || ops[i].inv > first) continue;
				for (int variant = 0; variant < 2; ++variant) {
					State n = s;
					if (step(n, i, variant) && rec(done | uint64_t{1} << i, n)) return true;
				}
			}
			return false;
		};
		return rec(0, init);
	}
}// namespace linear
#endif
