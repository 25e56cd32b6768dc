#include "common.hpp"
using namespace c21;
PBT_PROP(i32_i32, 40000) { run<int, int>(ctx); }
PBT_PROP(u32_i32, 40000) { run<unsigned, int>(ctx); }
PBT_PROP(short_i32, 10000) { run_short<int>(ctx); }
