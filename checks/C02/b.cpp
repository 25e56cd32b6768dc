#include "../common/variant2_driver.hpp"
using namespace life;
using Full2 = Obj<2, 0>;
using CopyOnly1 = Obj<10, NoMoveOps>;
using CopyOnly2 = Obj<11, NoMoveOps>;
using MoveOnly1 = Obj<12, NoCopy>;
using MoveOnly2 = Obj<13, NoCopy | NothrowAll>;
using NC1 = Obj<14, NothrowAll>;
using NC2 = Obj<15, NothrowAll>;
using TA1 = TrivAssign<5>;
using Triv2 = Triv<16>;
using ThrowAsn1 = Obj<17, NothrowCopyCtor | NothrowMoveCtor>;
PBT_PROP(copyonly_copyonly, 16000) { v2::run<CopyOnly1, CopyOnly2>(ctx); }
PBT_PROP(moveonly_moveonly, 16000) { v2::run<MoveOnly1, MoveOnly2>(ctx); }
PBT_PROP(nothrow_nothrow, 16000) { v2::run<NC1, NC2>(ctx); }
PBT_PROP(ta_triv, 16000) { v2::run<TA1, Triv2>(ctx); }
PBT_PROP(throwasn_full, 16000) { v2::run<ThrowAsn1, Full2>(ctx); }
