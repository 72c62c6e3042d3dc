// "Escaping a string", HTML standard 13.3: & and U+00A0 always; " in attribute values; < and > in text.
#pragma once
#include <cstdint>
static std::uint32_t esc_len(std::uint32_t c, bool attr)
{
	if (c == '&') return 5;
	if (c == 0xA0) return 6;
	if (c == '"') return attr ? 6 : 0;
	if (c == '<' || c == '>') return attr ? 0 : 4;
	return 0;
}
static std::uint32_t esc_unit(std::uint32_t c, std::uint32_t k)
{
	static char const* const a = "&amp;", * const n = "&nbsp;", * const q = "&quot;", * const l = "&lt;", * const g = "&gt;";
	return static_cast<unsigned char>((c == '&' ? a : c == 0xA0 ? n : c == '"' ? q : c == '<' ? l : g)[k]);
}
