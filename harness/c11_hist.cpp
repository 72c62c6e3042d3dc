// C11: bounded native stand-in for whole histories, erase and copy of subtrees (tree/tree.hpp, public interface only)
#include <cassert>
#include <stdexcept>
#include <array>
#include <vector>
#include <wordring/tree/tree.hpp>
#include "vp.h"
using namespace wordring;
using u32 = std::uint32_t;
#ifdef VP_NATIVE
#include "c11_hist.h"
#endif
VP_ENTRY(histories)
{
#ifdef VP_NATIVE
	run_history();
#endif
}
