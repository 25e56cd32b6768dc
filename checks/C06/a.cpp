#include "../common/conc_channel.hpp"
#include <dice/template-library/channel.hpp>
namespace dtl = dice::template_library;

template<typename E>
static void go(pbt::Ctx &ctx) {
	cc::live = 0;
	{
		size_t const cap = 1 + ctx.below(3);
		PBT_LOG("capacity " << cap);
		auto const ps = cc::gen<0>(ctx, cc::elem_traits<E>::throwing, true);
		dtl::channel<E> ch{cap};
		cc::execute<0, true, dtl::channel<E>, E>(ctx, ps, cap, ch);
	}
	PBT_CHECK_MSG(cc::live == 0, cc::live << " elements are alive after the channel");
}
PBT_PROP(copyable, 40000) { go<cc::Elem<true, false>>(ctx); }
PBT_PROP(move_only, 20000) { go<cc::Elem<false, false>>(ctx); }
PBT_PROP(throwing, 20000) { go<cc::Elem<true, true>>(ctx); }
