#include "common.hpp"
using namespace c21;
PBT_PROP(i8_i8, 40000) { run<int8_t, int8_t>(ctx); }
PBT_PROP(u8_i8, 30000) { run<uint8_t, int8_t>(ctx); }
PBT_PROP(short_i8, 8000) { run_short<int8_t>(ctx); }
