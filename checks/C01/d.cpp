// exactly one element operation may throw: a noexcept specification that forgets it ends the program
#include "../common/variant2_driver.hpp"
using namespace life;
template<int Tag, unsigned F>
using But = Obj<Tag, NothrowEverything & ~F>;
PBT_PROP(only_copy_ctor_1, 3000) { v2::run<But<1, NothrowCopyCtor>, But<2, 0>>(ctx); }
PBT_PROP(only_copy_ctor_2, 3000) { v2::run<But<1, 0>, But<2, NothrowCopyCtor>>(ctx); }
PBT_PROP(only_move_ctor_1, 3000) { v2::run<But<1, NothrowMoveCtor>, But<2, 0>>(ctx); }
PBT_PROP(only_move_ctor_2, 3000) { v2::run<But<1, 0>, But<2, NothrowMoveCtor>>(ctx); }
PBT_PROP(only_default_value, 3000) { v2::run<But<1, NothrowDefault>, But<2, NothrowValue>>(ctx); }
