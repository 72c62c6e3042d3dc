// C19: escaping of text and attribute values, any length, each encoding form
// (whatwg/html/parsing/serializing.hpp, escape_string)
#include <cassert>
#include <array>
#include <string>
#include <string_view>
#include <wordring/html/html_defs.hpp>
#include <wordring/whatwg/html/parsing/serializing.hpp>
#include "ghost.h"
#include "c19_spec.h"

// a string of any length whose units are read from the ghost input
template <typename Unit>
struct text
{
	using value_type = Unit;
	g_iter<Unit> begin() const { return {}; }
	g_iter<Unit> end() const { return { g_n, 0 }; }
};
static bool g_attr;

// receives the units of the escaped text and checks each against the specification
template <typename Unit>
struct esc_sink
{
	using value_type = Unit;
	std::uint64_t i = 0;
	std::uint64_t k = 0;
	void push_back(Unit u)
	{
		vp_assert(i < g_n, "no more output than the specification allows");
		std::uint32_t c = g_at(i), v = static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<Unit>>(u)), kk = static_cast<std::uint32_t>(k);
		std::uint32_t el = esc_len(c, g_attr);
		if (el != 0)
		{
			vp_assert(v == esc_unit(c, kk), "the reference of an escaped character");
			if (k + 1 == el) { ++i; k = 0; } else ++k;
		}
		else
		{
			vp_assert(v == vpp_unit(sizeof(Unit), c, kk), "a character that needs no escape is passed through");
			if (k + 1 == vpp_len(sizeof(Unit), c)) { ++i; k = 0; } else ++k;
		}
	}
};
template <typename Unit, typename Out>
static void run()
{
	VP_NATIVE_POOL(70, '&', '<', '>', '"', '\'', 0xA0, 0xA1, 0x9F, 'a', ';', 0x10A0, 0x100A0, 0x1F600, 0x26, 0x2026);
	g_attr = vp_concretize(vp_range(0, 1)) != 0;
	g_input(24);
	esc_sink<Out> s;
	wordring::whatwg::html::detail::escape_string(text<Unit>(), std::back_inserter(s), g_attr);
	vp_assert((s.i == g_n) & (s.k == 0), "every character of the text is written, escaped or not");
	vp_cover("done");
}
VP_ENTRY(escape_8) { run<char8_t, char8_t>(); }
VP_ENTRY(escape_16) { run<char16_t, char16_t>(); }
VP_ENTRY(escape_32) { run<char32_t, char32_t>(); }
VP_ENTRY(escape_32_8) { run<char32_t, char8_t>(); }
VP_ENTRY(escape_8_32) { run<char8_t, char32_t>(); }
