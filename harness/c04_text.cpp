// C04, bounded: whole texts of every encoding, in pieces and at once
#include <array>
#include <cassert>
#include "vp.h"
#include "c04_text.h"
VP_ENTRY(texts)
{
#ifdef VP_NATIVE
	c04::any();
#endif
}
