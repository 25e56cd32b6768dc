#include <dice/template-library/channel.hpp>
#define CS_CHANNEL dice::template_library::channel
#include "../common/channel_seq.hpp"
CS_ALL(0)
