#include <dice/template-library/exchange_channel.hpp>
#define CS_CHANNEL dice::template_library::exchange_channel
#include "../common/channel_seq.hpp"
CS_ALL(1)
