#include "common.hpp"
using namespace c21;
PBT_PROP(u8_u8, 20000) { run<uint8_t, uint8_t>(ctx); }
PBT_PROP(i16_i64, 30000) { run<int16_t, int64_t>(ctx); }
PBT_PROP(short_u16, 8000) { run_short<uint16_t>(ctx); }
