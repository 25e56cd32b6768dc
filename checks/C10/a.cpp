#include "common.hpp"
using namespace c10;
PBT_PROP(sync, 40000) { run<Inner, Sync::sync>(ctx); }
PBT_PROP(sync_nd, 30000) { run<NdInner, Sync::sync>(ctx); }
