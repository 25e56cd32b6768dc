#include "common.hpp"
using namespace c13;
PBT_PROP(objects, 50000) { run<Elem<1>, 2, 4>(ctx); }
