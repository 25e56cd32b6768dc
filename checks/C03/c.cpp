#include "common.hpp"
using namespace c03;
PBT_PROP(visit_int_string, 60000) { run_visit<int, std::string>(ctx); }
PBT_PROP(visit_moveonly_part, 60000) { run_visit<MoveOnly, Part>(ctx); }
PBT_PROP(cmp_string_moveonly, 60000) { run_compare<std::string, MoveOnly>(ctx); }
