#include "common.hpp"
using namespace c03;
PBT_PROP(cmp_int_string, 60000) { run_compare<int, std::string>(ctx); }
PBT_PROP(cmp_string_double, 60000) { run_compare<std::string, double>(ctx); }
PBT_PROP(cmp_float_ll, 60000) { run_compare<float, long long>(ctx); }
