#include "../common/variant2_driver.hpp"
using namespace life;
using Full1 = Obj<1, 0>;
using Full2 = Obj<2, 0>;
using NM1 = Obj<3, NothrowMoveCtor | NothrowMoveAsn>;
using NM2 = Obj<4, NothrowMoveCtor | NothrowMoveAsn>;
using TA1 = TrivAssign<5>;
using TA2 = TrivAssign<6>;
using Triv1 = Triv<9>;
PBT_PROP(full_full, 24000) { v2::run<Full1, Full2>(ctx); }
PBT_PROP(nm_nm, 16000) { v2::run<NM1, NM2>(ctx); }
PBT_PROP(full_nm, 16000) { v2::run<Full1, NM2>(ctx); }
PBT_PROP(ta_ta, 16000) { v2::run<TA1, TA2>(ctx); }
PBT_PROP(triv_full, 16000) { v2::run<Triv1, Full2>(ctx); }
