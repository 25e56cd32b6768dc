#include "common.hpp"
using namespace c12;
PBT_PROP(char_pocca, 50000) { run<char, std::char_traits<char>, Pocca>(ctx); }
PBT_PROP(char_all_fancy, 40000) { run<char, std::char_traits<char>, Pocca | Pocma | Pocs | Fancy>(ctx); }
