#include "common.hpp"
using namespace c23;
PBT_PROP(range_move_only, 20000) { run<std::string, Back | Nth | MoveOnly, false>(ctx); }
PBT_PROP(view_nth, 20000) { run<long, Nth | Back, true>(ctx); }
PBT_PROP(range_move_only_elements, 20000) { run<Tok, Back | Nth, false>(ctx); }
PBT_PROP(range_move_only_all, 20000) { run<Tok, Back | Nth | NthBack | MoveOnly, false>(ctx); }
