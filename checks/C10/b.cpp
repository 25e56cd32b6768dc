#include "common.hpp"
using namespace c10;
PBT_PROP(unsync, 40000) { run<Inner, Sync::unsync>(ctx); }
