#include "common.hpp"
using namespace c11;
PBT_PROP(two, 25000) { run<AllT, AllU>(ctx); }
PBT_PROP(three, 25000) { run<AllT, None, AllV>(ctx); }
