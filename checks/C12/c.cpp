#include "common.hpp"
using namespace c12;
PBT_PROP(char16_pocma, 40000) { run<char16_t, std::char_traits<char16_t>, Pocma>(ctx); }
PBT_PROP(char32_pocs_fancy, 40000) { run<char32_t, std::char_traits<char32_t>, Pocs | Fancy>(ctx); }
