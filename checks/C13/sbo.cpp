// compiled with a stand-in for ankerl::svector
#include "common.hpp"
using namespace c13;
PBT_PROP(small_buffer_ints, 10000) { run_small_buffer<int, 3>(ctx); }
PBT_PROP(small_buffer_objects, 10000) { run_small_buffer<Elem<1>, 2>(ctx); }
PBT_PROP(small_buffer_doubles, 10000) { run_small_buffer<double, 1>(ctx); }
