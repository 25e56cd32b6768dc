#include "common.hpp"
using namespace c23;
PBT_PROP(view_all, 30000) { run<int, Back | Nth | NthBack | Sized, true>(ctx); }
PBT_PROP(view_min, 20000) { run<std::string, 0, true>(ctx); }
