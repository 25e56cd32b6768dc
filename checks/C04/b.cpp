#include "common.hpp"
using namespace c04;
PBT_PROP(nothrow, 40000) { run<NBase, NDerived<1, 8, 0>, NDerived<2, 32, 50>>(ctx); }
PBT_PROP(trivial_dtor, 40000) { run<TBase, TDerived<1, 8, 0>, TDerived<2, 16, 60>, TDerived<3, 8, 3>>(ctx); }
