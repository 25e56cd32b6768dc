#include "../common/variant2_driver.hpp"
using namespace life;
using Full2 = Obj<2, 0>;
using MoveOnly1 = Obj<12, NoCopy>;
PBT_PROP(listy_full, 12000) { v2::run<v2::Listy, Full2>(ctx); }
PBT_PROP(anyvec_listy, 9000) { v2::run<std::vector<std::any>, v2::Listy>(ctx); }
PBT_PROP(uptr_string, 9000) { v2::run<std::unique_ptr<int>, std::string>(ctx); }
PBT_PROP(moveonly_uptr, 9000) { v2::run<MoveOnly1, std::unique_ptr<int>>(ctx); }
PBT_PROP(full_proud, 6000) { v2::run<Full2, v2::Proud>(ctx); }
PBT_PROP(proud_nm, 6000) { v2::run<v2::Proud, Obj<4, NothrowMoveCtor | NothrowMoveAsn>>(ctx); }
