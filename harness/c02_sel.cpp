// C02: every encoding name selects its encoder (whatwg/encoding/encoding.hpp)
#include "enc.h"

template <typename D> static bool is(encoding_name n) { coder c = get_encoding_encoder(n); coder g = get_encoder(n); return std::holds_alternative<D>(c) && std::holds_alternative<D>(g); }
VP_ENTRY(selection)
{
	using e = encoding_name;
	vp_assert(is<UTF_8_encoder>(e::UTF_8) && is<GBK_encoder>(e::GBK) && is<gb18030_encoder>(e::gb18030) && is<Big5_encoder>(e::Big5), "encoder of UTF-8, GBK, gb18030, Big5");
	vp_assert(is<EUC_JP_encoder>(e::EUC_JP) && is<ISO_2022_JP_encoder>(e::ISO_2022_JP) && is<Shift_JIS_encoder>(e::Shift_JIS) && is<EUC_KR_encoder>(e::EUC_KR), "encoder of EUC-JP, ISO-2022-JP, Shift_JIS, EUC-KR");
	vp_assert(is<x_user_defined_encoder>(e::x_user_defined), "encoder of x-user-defined");
#define S(E, I) vp_assert(is<single_byte_encoder<index_pointer_##I##_0, index_pointer_##I##_1>>(e::E), "encoder of " #E);
	S(IBM866, ibm866) S(ISO_8859_2, iso_8859_2) S(ISO_8859_3, iso_8859_3) S(ISO_8859_4, iso_8859_4) S(ISO_8859_5, iso_8859_5) S(ISO_8859_6, iso_8859_6)
	S(ISO_8859_7, iso_8859_7) S(ISO_8859_8, iso_8859_8) S(ISO_8859_8_I, iso_8859_8) S(ISO_8859_10, iso_8859_10) S(ISO_8859_13, iso_8859_13)
	S(ISO_8859_14, iso_8859_14) S(ISO_8859_15, iso_8859_15) S(ISO_8859_16, iso_8859_16) S(KOI8_R, koi8_r) S(KOI8_U, koi8_u) S(macintosh, macintosh)
	S(windows_874, windows_874) S(windows_1250, windows_1250) S(windows_1251, windows_1251) S(windows_1252, windows_1252) S(windows_1253, windows_1253)
	S(windows_1254, windows_1254) S(windows_1255, windows_1255) S(windows_1256, windows_1256) S(windows_1257, windows_1257) S(windows_1258, windows_1258)
	S(x_mac_cyrillic, x_mac_cyrillic)
#undef S
	for (std::uint32_t n = 1; n <= static_cast<std::uint32_t>(e::x_user_defined); ++n)
	{
		e o = get_output_encoding_name(static_cast<e>(n));
		bool u = static_cast<e>(n) == e::replacement || static_cast<e>(n) == e::UTF_16BE || static_cast<e>(n) == e::UTF_16LE;
		vp_assert(o == (u ? e::UTF_8 : static_cast<e>(n)), "output encoding");
	}
	vp_cover("done");
}
