#include "../common/conc_channel.hpp"
#include <dice/template-library/exchange_channel.hpp>
namespace dtl = dice::template_library;

template<bool liveness, typename E>
static void go(pbt::Ctx &ctx) {
	cc::live = 0;
	{
		auto const ps = cc::gen<1>(ctx, cc::elem_traits<E>::throwing, liveness);
		dtl::exchange_channel<E> ch;
		cc::execute<1, liveness, dtl::exchange_channel<E>, E>(ctx, ps, 1, ch);
	}
	PBT_CHECK_MSG(cc::live == 0, cc::live << " elements are alive after the channel");
}
PBT_PROP(copyable, 30000) { go<false, cc::Elem<true, false>>(ctx); }
PBT_PROP(move_only, 15000) { go<false, cc::Elem<false, false>>(ctx); }
PBT_PROP(throwing, 20000) { go<false, cc::Elem<true, true>>(ctx); }
PBT_PROP(wakeups, 30000) { go<true, cc::Elem<true, false>>(ctx); }
PBT_PROP(wakeups_throwing, 30000) { go<true, cc::Elem<false, true>>(ctx); }
