#include "../common/variant2_driver.hpp"
using namespace life;
using A0 = Almost<20, 0>;
using A1 = Almost<21, 1>;
using A2 = Almost<22, 2>;
using A3 = Almost<23, 3>;
using A4 = Almost<24, 4>;
using Full1 = Obj<1, 0>;
using NM2 = Obj<4, NothrowMoveCtor | NothrowMoveAsn>;
using Triv2 = Triv<16>;
PBT_PROP(almost01, 9000) { v2::run<A0, A1>(ctx); }
PBT_PROP(almost23, 9000) { v2::run<A2, A3>(ctx); }
PBT_PROP(almost4_triv, 9000) { v2::run<A4, Triv2>(ctx); }
PBT_PROP(full_triv, 9000) { v2::run<Full1, Triv2>(ctx); }
PBT_PROP(almost1_nm, 9000) { v2::run<A1, NM2>(ctx); }
