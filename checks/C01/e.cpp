// exactly one element operation may throw: a noexcept specification that forgets it ends the program
#include "../common/variant2_driver.hpp"
using namespace life;
template<int Tag, unsigned F>
using But = Obj<Tag, NothrowEverything & ~F>;
PBT_PROP(only_copy_asn_1, 3000) { v2::run<But<1, NothrowCopyAsn>, But<2, 0>>(ctx); }
PBT_PROP(only_copy_asn_2, 3000) { v2::run<But<1, 0>, But<2, NothrowCopyAsn>>(ctx); }
PBT_PROP(only_move_asn_1, 3000) { v2::run<But<1, NothrowMoveAsn>, But<2, 0>>(ctx); }
PBT_PROP(only_move_asn_2, 3000) { v2::run<But<1, 0>, But<2, NothrowMoveAsn>>(ctx); }
PBT_PROP(only_value_two, 3000) { v2::run<But<1, NothrowValue>, But<2, NothrowTwo>>(ctx); }
