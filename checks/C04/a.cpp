#include "common.hpp"
using namespace c04;
PBT_PROP(throwing, 60000) {
	run<Base, Derived<Base, 1, 16, 0, 0>, Derived<Base, 2, 64, 100, 0>, Derived<Base, 3, 16, 30, life::NothrowMoveCtor>>(ctx);
}
PBT_PROP(throwing_big_last, 40000) {
	run<Base, Derived<Base, 1, 8, 0, life::NothrowMoveCtor>, Derived<Base, 2, 8, 7, life::NothrowCopyCtor>, Derived<Base, 3, 32, 200, 0>>(ctx);
}
