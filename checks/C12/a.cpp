#include <sstream>
#define C12_STREAM
#include "common.hpp"
using namespace c12;
PBT_PROP(char_plain, 60000) { run<char, std::char_traits<char>, 0>(ctx); }
PBT_PROP(wchar_stl, 40000) { run<wchar_t, std::char_traits<wchar_t>, Pocma | Always>(ctx); }
