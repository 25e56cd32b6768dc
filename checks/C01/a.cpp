#include "../common/variant2_driver.hpp"
using namespace life;
using Full1 = Obj<1, 0>;
using Full2 = Obj<2, 0>;
using NM2 = Obj<4, NothrowMoveCtor | NothrowMoveAsn>;
PBT_PROP(int_string, 12000) { v2::run<int, std::string>(ctx); }
PBT_PROP(string_full, 12000) { v2::run<std::string, Full2>(ctx); }
PBT_PROP(full_full, 24000) { v2::run<Full1, Full2>(ctx); }
PBT_PROP(full_nm, 16000) { v2::run<Full1, NM2>(ctx); }
PBT_PROP(int_char, 16000) { v2::run<int, short>(ctx); }
