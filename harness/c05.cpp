// C05: UTF-8/16/32 conversions of whatwg/infra/unicode.hpp
#include <wordring/whatwg/infra/unicode.hpp>
#include "ghost.h"
using namespace wordring::whatwg;

template <typename Unit>
static void encode_one()
{
	std::uint32_t c = vp_range(0, 0x10FFFF);
	vp_assume(vpp_scalar(c));
	g_rec<Unit> r;
	to_string(static_cast<char32_t>(c), std::back_inserter(r));
	vp_assert(r.n == vpp_len(sizeof(Unit), c), "to_string emits exactly the units of the code point");
	for (std::uint32_t k = 0; k < r.n; ++k)
		vp_assert(r.at(k) == vpp_unit(sizeof(Unit), c, k), "to_string unit equals the specified one");
	vp_cover("encoded");
}
VP_ENTRY(to_string_char) { encode_one<char>(); }
VP_ENTRY(to_string_char8) { encode_one<char8_t>(); }
VP_ENTRY(to_string_char16) { encode_one<char16_t>(); }
VP_ENTRY(to_string_char32) { encode_one<char32_t>(); }

template <typename Unit>
static void decode_one()
{
	g_input(6);
	vp_assume(g_n > 0);
	std::uint64_t j = vp_length(5);
	vp_assume(j < g_n);
	g_iter<Unit> a{ j, 0 }, b{ g_n, 0 };
	char32_t out = 0;
	auto r = to_code_point(a, b, out);
	vp_assert(static_cast<std::uint32_t>(out) == g_at(j), "to_code_point yields the encoded code point");
	vp_assert(r.i == j + 1 && r.k == 0, "to_code_point consumes exactly one code point");
	vp_cover("decoded");
}
VP_ENTRY(to_code_point_char) { decode_one<char>(); }
VP_ENTRY(to_code_point_char8) { decode_one<char8_t>(); }
VP_ENTRY(to_code_point_char16) { decode_one<char16_t>(); }
VP_ENTRY(to_code_point_char32) { decode_one<char32_t>(); }

template <typename In, typename Out>
static void cast_all()
{
	g_input(12);
	g_sink<Out> s;
	encoding_cast(g_iter<In>{ 0, 0 }, g_iter<In>{ g_n, 0 }, std::back_inserter(s));
	vp_assert(s.complete(), "encoding_cast converts the whole input");
	vp_cover("converted");
}
VP_ENTRY(cast_char_16) { cast_all<char, char16_t>(); }
VP_ENTRY(cast_char_32) { cast_all<char, char32_t>(); }
VP_ENTRY(cast_8_8) { cast_all<char8_t, char8_t>(); }
VP_ENTRY(cast_8_16) { cast_all<char8_t, char16_t>(); }
VP_ENTRY(cast_8_32) { cast_all<char8_t, char32_t>(); }
VP_ENTRY(cast_16_8) { cast_all<char16_t, char8_t>(); }
VP_ENTRY(cast_16_16) { cast_all<char16_t, char16_t>(); }
VP_ENTRY(cast_16_32) { cast_all<char16_t, char32_t>(); }
VP_ENTRY(cast_32_char) { cast_all<char32_t, char>(); }
VP_ENTRY(cast_32_8) { cast_all<char32_t, char8_t>(); }
VP_ENTRY(cast_32_16) { cast_all<char32_t, char16_t>(); }

#ifdef VP_NATIVE
#include <string>
#endif
VP_ENTRY(cast_strings) // the convenience overloads on std::string (bounded, native only)
{
#ifdef VP_NATIVE
	g_input(12);
	std::u32string s;
	for (std::uint64_t i = 0; i < g_n; ++i) s.push_back(static_cast<char32_t>(g_at(i)));
	std::u8string s8 = encoding_cast<std::u8string>(s);
	std::u16string s16 = encoding_cast<std::u16string>(s);
	std::uint64_t p8 = 0, p16 = 0;
	for (std::uint64_t i = 0; i < g_n; ++i)
	{
		for (std::uint32_t k = 0; k < vpp_len(1, g_at(i)); ++k, ++p8) vp_assert(p8 < s8.size() && s8[p8] == vpp_unit(1, g_at(i), k), "utf-8 string");
		for (std::uint32_t k = 0; k < vpp_len(2, g_at(i)); ++k, ++p16) vp_assert(p16 < s16.size() && s16[p16] == vpp_unit(2, g_at(i), k), "utf-16 string");
	}
	vp_assert(p8 == s8.size() && p16 == s16.size(), "lengths");
	vp_assert(encoding_cast<std::u32string>(s8) == s, "utf-8 round trip");
	vp_assert(encoding_cast<std::u32string>(s16) == s, "utf-16 round trip");
	vp_assert(encoding_cast<std::u16string>(s8) == s16, "utf-8 to utf-16");
	vp_assert(encoding_cast<std::u8string>(s16) == s8, "utf-16 to utf-8");
	vp_assert(encoding_cast<std::string>(s16) == std::string(s8.begin(), s8.end()), "char");
	vp_assert(encoding_cast<std::u32string>(s) == s, "identity");
	vp_assert(encoding_cast<std::u16string>(s8.c_str()) == std::u16string(s16.c_str()), "pointer");
#endif
}
