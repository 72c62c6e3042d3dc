// C01: every encoding name selects its decoder (whatwg/encoding/encoding.hpp)
#include "enc.h"

// every encoding name selects its decoder
template <typename D> static bool is(encoding_name n) { coder c = get_encoding_decoder(n); return std::holds_alternative<D>(c); }
VP_ENTRY(selection)
{
	using e = encoding_name;
	vp_assert(is<UTF_8_decoder>(e::UTF_8) && is<gb18030_decoder>(e::GBK) && is<gb18030_decoder>(e::gb18030) && is<Big5_decoder>(e::Big5), "decoder of UTF-8, GBK, gb18030, Big5");
	vp_assert(is<EUC_JP_decoder>(e::EUC_JP) && is<ISO_2022_JP_decoder>(e::ISO_2022_JP) && is<Shift_JIS_decoder>(e::Shift_JIS) && is<EUC_KR_decoder>(e::EUC_KR), "decoder of EUC-JP, ISO-2022-JP, Shift_JIS, EUC-KR");
	vp_assert(is<replacement_decoder>(e::replacement) && is<UTF_16BE_decoder>(e::UTF_16BE) && is<UTF_16LE_decoder>(e::UTF_16LE) && is<x_user_defined_decoder>(e::x_user_defined), "decoder of replacement, UTF-16, x-user-defined");
#define S(E, I) vp_assert(is<single_byte_decoder<index_code_point_##I>>(e::E), "decoder of " #E);
	S(IBM866, ibm866) S(ISO_8859_2, iso_8859_2) S(ISO_8859_3, iso_8859_3) S(ISO_8859_4, iso_8859_4) S(ISO_8859_5, iso_8859_5) S(ISO_8859_6, iso_8859_6)
	S(ISO_8859_7, iso_8859_7) S(ISO_8859_8, iso_8859_8) S(ISO_8859_8_I, iso_8859_8) S(ISO_8859_10, iso_8859_10) S(ISO_8859_13, iso_8859_13)
	S(ISO_8859_14, iso_8859_14) S(ISO_8859_15, iso_8859_15) S(ISO_8859_16, iso_8859_16) S(KOI8_R, koi8_r) S(KOI8_U, koi8_u) S(macintosh, macintosh)
	S(windows_874, windows_874) S(windows_1250, windows_1250) S(windows_1251, windows_1251) S(windows_1252, windows_1252) S(windows_1253, windows_1253)
	S(windows_1254, windows_1254) S(windows_1255, windows_1255) S(windows_1256, windows_1256) S(windows_1257, windows_1257) S(windows_1258, windows_1258)
	S(x_mac_cyrillic, x_mac_cyrillic)
#undef S
	vp_cover("done");
}

