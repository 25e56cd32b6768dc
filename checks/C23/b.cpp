#include "common.hpp"
using namespace c23;
PBT_PROP(range_all, 20000) { run<std::string, Back | Nth | NthBack | Sized, false>(ctx); }
PBT_PROP(range_back, 20000) { run<int, Back | Sized, false>(ctx); }
PBT_PROP(view_move_only_elements, 20000) { run<Tok, Back | Nth | NthBack | Sized, true>(ctx); }
