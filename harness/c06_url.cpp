// C06, the classes that live in lib/whatwg/url/url.cpp
#include VP_URL_CPP
#include "vp.h"
static bool rng(std::uint32_t c, std::uint32_t a, std::uint32_t b) { return a <= c && c <= b; }
VP_ENTRY(url_code_point)
{
	std::uint32_t c = vp_range(0, 0x10FFFF);
	bool want = rng(c, '0', '9') | rng(c, 'A', 'Z') | rng(c, 'a', 'z') | (rng(c, 0xA0, 0x10FFFD) & !rng(c, 0xD800, 0xDFFF)
		& !rng(c, 0xFDD0, 0xFDEF) & ((c & 0xFFFE) != 0xFFFE));
	for (char const* s = "!$&'()*+,-./:;=?@_~"; *s != 0; ++s) want |= c == static_cast<std::uint32_t>(*s);
	vp_assert(wordring::whatwg::is_url_code_point(c) == want, "url_code_point is exactly the specified set");
}
