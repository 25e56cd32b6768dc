#include "common.hpp"
using namespace c21;
PBT_PROP(i64_i64, 40000) { run<int64_t, int64_t>(ctx); }
PBT_PROP(u64_i64, 30000) { run<uint64_t, int64_t>(ctx); }
PBT_PROP(short_u64, 10000) { run_short<uint64_t>(ctx); }
