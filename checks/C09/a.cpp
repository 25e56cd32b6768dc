#include "common.hpp"
using namespace c09;
PBT_PROP(raw_small, 12000) { raw<8, 16>(ctx); }
PBT_PROP(raw_odd, 12000) { raw<12, 20, 100>(ctx); }
PBT_PROP(raw_one, 8000) { raw<1>(ctx); }
PBT_PROP(raw_wide, 6000) { raw<4, 24, 40, 72, 1000>(ctx); }
