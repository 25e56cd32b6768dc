#include "common.hpp"
using namespace c11;
PBT_PROP(two_mixed, 25000) { run<NoCopyAsn, NoMoveAsn>(ctx); }
PBT_PROP(one, 25000) { run<NoMoveAsn>(ctx); }
