#include "common.hpp"
using namespace c13;
PBT_PROP(ints, 50000) { run<int, 3, 5>(ctx); }
