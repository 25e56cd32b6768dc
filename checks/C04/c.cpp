#include "common.hpp"
using namespace c04;
PBT_PROP(move_only, 40000) { run<MBase, MDerived<1, 8, 0>, MDerived<2, 64, 10>>(ctx); }
PBT_PROP(single, 30000) { run<Base, Derived<Base, 1, 16, 20, 0>>(ctx); }
