// Names of the indexes of the Encoding Standard (order = id).
#pragma once
#define VP_MULTI_INDEXES(X) X(big5) X(euc_kr) X(gb18030) X(jis0208) X(jis0212) X(iso_2022_jp_katakana)
#define VP_SINGLE_INDEXES(X) X(ibm866) X(iso_8859_2) X(iso_8859_3) X(iso_8859_4) X(iso_8859_5) X(iso_8859_6) X(iso_8859_7) X(iso_8859_8) \
	X(iso_8859_10) X(iso_8859_13) X(iso_8859_14) X(iso_8859_15) X(iso_8859_16) X(koi8_r) X(koi8_u) X(macintosh) X(windows_874) X(windows_1250) \
	X(windows_1251) X(windows_1252) X(windows_1253) X(windows_1254) X(windows_1255) X(windows_1256) X(windows_1257) X(windows_1258) X(x_mac_cyrillic)
enum vp_index : unsigned
{
#define X(n) IX_##n,
	VP_MULTI_INDEXES(X) VP_SINGLE_INDEXES(X)
#undef X
	IX_count,
	// index Shift_JIS pointer, index Big5 pointer (with their exclusions) and the gb18030 ranges
	IX_shift_jis_ptr = 60, IX_big5_ptr, IX_gb_ranges_cp, IX_gb_ranges_ptr
};
// function ids for vp_uf32: index code point = id, index pointer = 64 + id
inline constexpr unsigned VP_PTR = 64;
inline constexpr std::uint32_t VP_NULL = 0xFFFFFFFFu;
