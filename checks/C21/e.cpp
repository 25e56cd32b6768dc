#include "common.hpp"
using namespace c21;
PBT_PROP(u64_u64, 20000) { run<uint64_t, uint64_t>(ctx); }
PBT_PROP(i64_u64, 20000) { run<int64_t, uint64_t>(ctx); }
PBT_PROP(i32_i64, 20000) { run<int, int64_t>(ctx); }
