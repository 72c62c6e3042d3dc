// C07: percent-encoding and integer serialization of whatwg/url/infra.hpp
#include <wordring/whatwg/url/infra.hpp>
#include "ghost.h"
#include <iterator>
using namespace wordring::whatwg;

static bool s_hex(std::uint32_t c) { return ('0' <= c && c <= '9') | ('A' <= c && c <= 'F') | ('a' <= c && c <= 'f'); }
extern "C" std::uint32_t vpp_hexval(std::uint32_t c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
extern "C" std::uint32_t vpp_hexdig(std::uint32_t v) { return v < 10 ? '0' + v : 'A' + (v - 10); }

template <typename Ch>
static void encode_byte()
{
	std::uint8_t b = vp_nondet_u8();
	g_rec<Ch> r;
	percent_encode(b, std::back_inserter(r));
	vp_assert(r.n == 3 && r.at(0) == '%' && r.at(1) == vpp_hexdig(b >> 4) && r.at(2) == vpp_hexdig(b & 15), "percent_encode emits %XY with upper-case digits");
	char t[3] = { static_cast<char>(r.at(0)), static_cast<char>(r.at(1)), static_cast<char>(r.at(2)) };
	g_rec<char> d;
	percent_decode(t, t + 3, std::back_inserter(d));
	vp_assert(d.n == 1 && d.at(0) == b, "percent_decode inverts percent_encode");
}
VP_ENTRY(percent_encode_char) { encode_byte<char>(); }
VP_ENTRY(percent_encode_char32) { encode_byte<char32_t>(); }

// ---- decoding of an arbitrary byte sequence ----
static unsigned char const* d_in;
static std::uint64_t d_n, d_j;
struct d_sink
{
	using value_type = char;
	void push_back(char v)
	{
		vp_assert(d_j < d_n, "no more output than the specification allows");
		std::uint32_t c = d_in[d_j];
		bool esc = false;
		if (c == '%') if (d_n - d_j >= 3) esc = s_hex(d_in[d_j + 1]) & s_hex(d_in[d_j + 2]);
		std::uint32_t want = esc ? vpp_hexval(d_in[d_j + 1]) * 16 + vpp_hexval(d_in[d_j + 2]) : c;
		vp_assert(static_cast<unsigned char>(v) == want, "percent_decode byte equals the specified one");
		d_j += esc ? 3 : 1;
	}
};
template <typename Ch>
static void decode_all()
{
	VP_NATIVE_POOL(60, '%', '%', '2', 'a', 'F', 'g', '0', 0x80);
	d_n = vp_length(16);
	d_in = static_cast<unsigned char const*>(vp_new_array(d_n, 1));
	d_j = 0;
	d_sink s;
	Ch const* p = reinterpret_cast<Ch const*>(d_in);
	percent_decode(p, p + d_n, std::back_inserter(s));
	vp_assert(d_j == d_n, "percent_decode decodes the whole input");
	vp_cover("decoded");
}
VP_ENTRY(percent_decode_char) { decode_all<char>(); }
VP_ENTRY(percent_decode_char8) { decode_all<char8_t>(); }

template <typename Ch>
static void starts()
{
	VP_NATIVE_POOL(70, '%', '%', '2', 'a', 'F', 'g', '0', 0x80);
	std::uint64_t n = vp_length(5);
	Ch* p = static_cast<Ch*>(vp_new_array(n, sizeof(Ch)));
	bool esc = false;
	if (n >= 3) esc = (p[0] == '%') & s_hex(static_cast<std::uint32_t>(p[1])) & s_hex(static_cast<std::uint32_t>(p[2]));
	vp_assert(starts_with_percent_encoded_byte(p, p + n) == esc, "starts_with_percent_encoded_byte");
	vp_assert(is_percent_encoded_byte(p, p + n) == (esc && n == 3), "is_percent_encoded_byte");
}
VP_ENTRY(starts_with_char) { starts<char>(); }
VP_ENTRY(starts_with_char32) { starts<char32_t>(); }

// Proved for values up to 9999 by the verifier; natively every code point is evaluated
// (0 to 10FFFF completely), which is the whole domain of the function.
static void check_integer(std::uint32_t v)
{
	g_rec<char32_t> r;
	serialize_integer(static_cast<char32_t>(v), std::back_inserter(r));
	vp_assert(r.n >= 1 && r.n <= 10, "serialize_integer emits 1 to 10 digits");
	vp_assert(r.n == 1 || r.at(0) != '0', "serialize_integer emits no leading zero");
	std::uint32_t back = 0;
	for (std::uint32_t i = 0; i < r.n; ++i)
	{
		vp_assert('0' <= r.at(i) && r.at(i) <= '9', "serialize_integer emits digits");
		back = back * 10 + (r.at(i) - '0');
	}
	vp_assert(back == v, "serialize_integer denotes the integer");
}
VP_ENTRY(serialize_integer)
{
#ifdef VP_NATIVE
	for (std::uint32_t v = 0; v <= 0x10FFFF; ++v) check_integer(v);
#else
	check_integer(vp_range(0, 9999));
#endif
	vp_cover("serialized");
}

#ifdef VP_NATIVE
#include <string>
#include <vector>
static std::u32string spec_utf8_pe(std::u32string const& s, bool (*set)(char32_t), bool plus)
{
	std::u32string o;
	for (char32_t c : s)
		for (std::uint32_t k = 0; k < vpp_len(1, c); ++k)
		{
			std::uint32_t b = vpp_unit(1, c, k);
			if (plus && b == ' ') { o += U'+'; continue; }
			if (!set(b)) o += static_cast<char32_t>(b);
			else { o += U'%'; o += static_cast<char32_t>(vpp_hexdig(b >> 4)); o += static_cast<char32_t>(vpp_hexdig(b & 15)); }
		}
	return o;
}
#endif
VP_ENTRY(utf8_percent_encode) // bounded, native only: the std::deque based pipeline
{
#ifdef VP_NATIVE
	g_input(8);
	std::u32string s;
	for (std::uint64_t i = 0; i < g_n; ++i) s.push_back(static_cast<char32_t>(g_at(i)));
	bool (*sets[])(char32_t) = { is_c0_control_percent_encode_set, is_fragment_percent_encode_set, is_query_percent_encode_set,
		is_path_percent_encode_set, is_userinfo_percent_encode_set, is_component_percent_encode_set };
	auto set = sets[vp_range(0, 5)];
	bool plus = vp_nondet_bool();
	std::u32string e = percent_encode_after_encoding(encoding_name::UTF_8, s, set, plus);
	vp_assert(e == spec_utf8_pe(s, set, plus), "percent_encode_after_encoding (utf-8) equals the specified string");
	if (!s.empty()) vp_assert(utf8_percent_encode(s[0], set) == spec_utf8_pe(s.substr(0, 1), set, false), "utf8_percent_encode of a code point");
	vp_assert(utf8_percent_encode(s, set) == spec_utf8_pe(s, set, false), "utf8_percent_encode of a string");
	std::string d;
	string_percent_decode(s.begin(), s.end(), std::back_inserter(d));
	std::vector<unsigned char> u;
	for (char32_t c : s) for (std::uint32_t k = 0; k < vpp_len(1, c); ++k) u.push_back(static_cast<unsigned char>(vpp_unit(1, c, k)));
	std::string w;
	for (std::size_t i = 0; i < u.size();)
	{
		if (u[i] == '%' && u.size() - i >= 3 && s_hex(u[i + 1]) && s_hex(u[i + 2])) { w.push_back(static_cast<char>(vpp_hexval(u[i + 1]) * 16 + vpp_hexval(u[i + 2]))); i += 3; }
		else w.push_back(static_cast<char>(u[i++]));
	}
	vp_assert(d == w, "string_percent_decode");
	// what cannot be encoded becomes a numeric character reference
	std::u32string x = percent_encode_after_encoding(encoding_name::windows_1252, s, is_component_percent_encode_set, false);
	std::u32string y;
	for (char32_t c : s)
	{
		if (c < 0x80) y += spec_utf8_pe(std::u32string(1, c), is_component_percent_encode_set, false);
		else if (0xA0 <= c && c <= 0xFF) { y += U'%'; y += static_cast<char32_t>(vpp_hexdig(c >> 4)); y += static_cast<char32_t>(vpp_hexdig(c & 15)); }
		else if (c >= 0x3000) { y += U"%26%23"; for (char ch : std::to_string(static_cast<unsigned>(c))) y += static_cast<char32_t>(ch); y += U"%3B"; }
		else return;
	}
	vp_assert(x == y, "unencodable code points become %26%23N%3B");
#endif
}
