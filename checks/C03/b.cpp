#include "common.hpp"
using namespace c03;
PBT_PROP(cmp_weak_int, 60000) { run_compare<Weak, int>(ctx); }
PBT_PROP(cmp_part_weak, 60000) { run_compare<Part, Weak>(ctx); }
PBT_PROP(cmp_moveonly_bool, 60000) { run_compare<MoveOnly, bool>(ctx); }
PBT_PROP(cmp_u8_i8, 60000) { run_compare<unsigned char, signed char>(ctx); }
