// C06: every code-point class decides exactly the set its specification names.
// The sets below are transcribed from the Infra, URL and CSS Syntax standards.
#include <wordring/whatwg/infra/infra.hpp>
#include <wordring/whatwg/url/infra.hpp>
#include <wordring/whatwg/url/host.hpp>
#include <wordring/wwwc/css_syntax/tokenization.hpp>
#include "vp.h"

static bool in(std::uint32_t c, char const* s) // c is one of the ASCII characters listed
{
	bool r = false;
	for (; *s != 0; ++s) r |= c == static_cast<std::uint32_t>(static_cast<unsigned char>(*s));
	return r;
}
static bool rng(std::uint32_t c, std::uint32_t a, std::uint32_t b) { return a <= c && c <= b; }

#define CLASS(name, call, spec) VP_ENTRY(name) { std::uint32_t c = vp_range(0, 0x10FFFF); \
	bool got = call; bool want = spec; vp_assert(got == want, #name " is exactly the specified set"); }

namespace W = wordring::whatwg;
namespace C = wordring::wwwc::css;

static bool s_digit(std::uint32_t c) { return rng(c, '0', '9'); }
static bool s_upper(std::uint32_t c) { return rng(c, 'A', 'Z'); }
static bool s_lower(std::uint32_t c) { return rng(c, 'a', 'z'); }
static bool s_alpha(std::uint32_t c) { return s_upper(c) | s_lower(c); }
static bool s_c0(std::uint32_t c) { return c <= 0x1F; }
static bool s_surr(std::uint32_t c) { return rng(c, 0xD800, 0xDFFF); }

CLASS(surrogate, W::is_surrogate(c), s_surr(c))
CLASS(scalar_value, W::is_scalar_value(c), !s_surr(c))
CLASS(noncharacter, W::is_noncharacter(c), rng(c, 0xFDD0, 0xFDEF) | ((c & 0xFFFE) == 0xFFFE))
CLASS(ascii_code_point, W::is_ascii_code_point(c), c <= 0x7F)
CLASS(ascii_tab_or_newline, W::is_ascii_tab_or_newline(c), in(c, "\t\n\r"))
CLASS(ascii_white_space, W::is_ascii_white_space(c), in(c, "\t\n\f\r "))
CLASS(c0_control, W::is_c0_control(c), s_c0(c))
CLASS(c0_control_or_space, W::is_c0_control_or_space(c), s_c0(c) | c == ' ')
CLASS(control, W::is_control(c), s_c0(c) | rng(c, 0x7F, 0x9F))
CLASS(ascii_digit, W::is_ascii_digit(c), s_digit(c))
CLASS(ascii_upper_hex_digit, W::is_ascii_upper_hex_digit(c), s_digit(c) | rng(c, 'A', 'F'))
CLASS(ascii_lower_hex_digit, W::is_ascii_lower_hex_digit(c), s_digit(c) | rng(c, 'a', 'f'))
CLASS(ascii_hex_digit, W::is_ascii_hex_digit(c), s_digit(c) | rng(c, 'A', 'F') | rng(c, 'a', 'f'))
CLASS(ascii_upper_alpha, W::is_ascii_upper_alpha(c), s_upper(c))
CLASS(ascii_lower_alpha, W::is_ascii_lower_alpha(c), s_lower(c))
CLASS(ascii_alpha, W::is_ascii_alpha(c), s_alpha(c))
CLASS(ascii_alphanumeric, W::is_ascii_alphanumeric(c), s_alpha(c) | s_digit(c))
VP_ENTRY(ascii_byte) { std::uint8_t b = vp_nondet_u8(); vp_assert(W::is_ascii_byte(static_cast<char>(b)) == (b <= 0x7F), "ascii_byte is exactly the specified set"); }

// URL standard, 1.3
static bool s_pe_c0(std::uint32_t c) { return s_c0(c) | c > 0x7E; }
static bool s_pe_fragment(std::uint32_t c) { return s_pe_c0(c) | in(c, " \"<>`"); }
static bool s_pe_query(std::uint32_t c) { return s_pe_c0(c) | in(c, " \"#<>"); }
static bool s_pe_special_query(std::uint32_t c) { return s_pe_query(c) | in(c, "'"); }
static bool s_pe_path(std::uint32_t c) { return s_pe_query(c) | in(c, "?`{}"); }
static bool s_pe_userinfo(std::uint32_t c) { return s_pe_path(c) | in(c, "/:;=@[\\]^|"); }
static bool s_pe_component(std::uint32_t c) { return s_pe_userinfo(c) | in(c, "$%&+,"); }
static bool s_pe_form(std::uint32_t c) { return s_pe_component(c) | in(c, "!'()~"); }
CLASS(pe_c0_control, W::is_c0_control_percent_encode_set(c), s_pe_c0(c))
CLASS(pe_fragment, W::is_fragment_percent_encode_set(c), s_pe_fragment(c))
CLASS(pe_query, W::is_query_percent_encode_set(c), s_pe_query(c))
CLASS(pe_special_query, W::is_special_query_percent_encode_set(c), s_pe_special_query(c))
CLASS(pe_path, W::is_path_percent_encode_set(c), s_pe_path(c))
CLASS(pe_userinfo, W::is_userinfo_percent_encode_set(c), s_pe_userinfo(c))
CLASS(pe_component, W::is_component_percent_encode_set(c), s_pe_component(c))
CLASS(pe_form, W::application_x_www_form_urlencoded_percent_encode_set(c), s_pe_form(c))
CLASS(forbidden_host, W::is_forbidden_host_code_point(c), c == 0 | in(c, "\t\n\r #%/:?@[\\]"))

// CSS Syntax, 4.2
CLASS(css_digit, C::is_digit(c), s_digit(c))
CLASS(css_hex_digit, C::is_hex_digit(c), s_digit(c) | rng(c, 'A', 'F') | rng(c, 'a', 'f'))
CLASS(css_uppercase_letter, C::is_uppercase_letter(c), s_upper(c))
CLASS(css_lowercase_letter, C::is_lowercase_letter(c), s_lower(c))
CLASS(css_letter, C::is_letter(c), s_alpha(c))
CLASS(css_non_ascii, C::is_non_ascii_code_point(c), c >= 0x80)
CLASS(css_identifier_start, C::is_identifier_start_code_point(c), s_alpha(c) | c >= 0x80 | c == '_')
CLASS(css_identifier, C::is_identifier_code_point(c), s_alpha(c) | c >= 0x80 | in(c, "_-") | s_digit(c))
CLASS(css_non_printable, C::is_non_printable_code_point(c), rng(c, 0, 8) | c == 0xB | rng(c, 0xE, 0x1F) | c == 0x7F)
CLASS(css_newline, C::is_newline(c), c == '\n')
CLASS(css_whitespace, C::is_whitespace(c), in(c, "\n\t "))
