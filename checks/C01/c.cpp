#include "../common/variant2_driver.hpp"
using namespace life;
using Triv1 = Triv<9>;
using Triv2 = Triv<16>;
using TA1 = TrivAssign<5>;
using CopyOnly1 = Obj<10, NoMoveOps>;
using A0 = Almost<20, 0>;
using A3 = Almost<23, 3>;
PBT_PROP(triv_triv, 9000) { v2::run<Triv1, Triv2>(ctx); }
PBT_PROP(ta_copyonly, 12000) { v2::run<TA1, CopyOnly1>(ctx); }
PBT_PROP(almost, 9000) { v2::run<A0, A3>(ctx); }
PBT_PROP(string_triv, 9000) { v2::run<std::string, Triv2>(ctx); }
