#include "common.hpp"
using namespace c13;
PBT_PROP(doubles, 40000) { run<double, 4, 4>(ctx); }
