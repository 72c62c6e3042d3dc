// C21: the encoding a document is read in is chosen as the standards say
// (encoding labels, output encodings, BOM sniffing, <meta charset>, @charset)
#include <cassert>
#include <array>
#include <deque>
#include <string>
#include <vector>
#include <wordring/whatwg/encoding/encoding.hpp>
#include <wordring/whatwg/html/url.hpp>
#include <wordring/wwwc/css_syntax/input_stream.hpp>
#include "vp.h"
using namespace wordring::whatwg::encoding;
using u32 = std::uint32_t;
using N = encoding_name;

// Encoding Standard 4.2, names and labels (the edition the code cites)
struct row { N name; char const* labels; };
static row const table[] = {
	{ N::UTF_8, "unicode-1-1-utf-8 utf-8 utf8" },
	{ N::IBM866, "866 cp866 csibm866 ibm866" },
	{ N::ISO_8859_2, "csisolatin2 iso-8859-2 iso-ir-101 iso8859-2 iso88592 iso_8859-2 iso_8859-2:1987 l2 latin2" },
	{ N::ISO_8859_3, "csisolatin3 iso-8859-3 iso-ir-109 iso8859-3 iso88593 iso_8859-3 iso_8859-3:1988 l3 latin3" },
	{ N::ISO_8859_4, "csisolatin4 iso-8859-4 iso-ir-110 iso8859-4 iso88594 iso_8859-4 iso_8859-4:1988 l4 latin4" },
	{ N::ISO_8859_5, "csisolatincyrillic cyrillic iso-8859-5 iso-ir-144 iso8859-5 iso88595 iso_8859-5 iso_8859-5:1988" },
	{ N::ISO_8859_6, "arabic asmo-708 csiso88596e csiso88596i csisolatinarabic ecma-114 iso-8859-6 iso-8859-6-e iso-8859-6-i iso-ir-127 iso8859-6 iso88596 iso_8859-6 iso_8859-6:1987" },
	{ N::ISO_8859_7, "csisolatingreek ecma-118 elot_928 greek greek8 iso-8859-7 iso-ir-126 iso8859-7 iso88597 iso_8859-7 iso_8859-7:1987 sun_eu_greek" },
	{ N::ISO_8859_8, "csiso88598e csisolatinhebrew hebrew iso-8859-8 iso-8859-8-e iso-ir-138 iso8859-8 iso88598 iso_8859-8 iso_8859-8:1988 visual" },
	{ N::ISO_8859_8_I, "csiso88598i iso-8859-8-i logical" },
	{ N::ISO_8859_10, "csisolatin6 iso-8859-10 iso-ir-157 iso8859-10 iso885910 l6 latin6" },
	{ N::ISO_8859_13, "iso-8859-13 iso8859-13 iso885913" },
	{ N::ISO_8859_14, "iso-8859-14 iso8859-14 iso885914" },
	{ N::ISO_8859_15, "csisolatin9 iso-8859-15 iso8859-15 iso885915 iso_8859-15 l9" },
	{ N::ISO_8859_16, "iso-8859-16" },
	{ N::KOI8_R, "cskoi8r koi koi8 koi8-r koi8_r" },
	{ N::KOI8_U, "koi8-ru koi8-u" },
	{ N::macintosh, "csmacintosh mac macintosh x-mac-roman" },
	{ N::windows_874, "dos-874 iso-8859-11 iso8859-11 iso885911 tis-620 windows-874" },
	{ N::windows_1250, "cp1250 windows-1250 x-cp1250" },
	{ N::windows_1251, "cp1251 windows-1251 x-cp1251" },
	{ N::windows_1252, "ansi_x3.4-1968 ascii cp1252 cp819 csisolatin1 ibm819 iso-8859-1 iso-ir-100 iso8859-1 iso88591 iso_8859-1 iso_8859-1:1987 l1 latin1 us-ascii windows-1252 x-cp1252" },
	{ N::windows_1253, "cp1253 windows-1253 x-cp1253" },
	{ N::windows_1254, "cp1254 csisolatin5 iso-8859-9 iso-ir-148 iso8859-9 iso88599 iso_8859-9 iso_8859-9:1989 l5 latin5 windows-1254 x-cp1254" },
	{ N::windows_1255, "cp1255 windows-1255 x-cp1255" },
	{ N::windows_1256, "cp1256 windows-1256 x-cp1256" },
	{ N::windows_1257, "cp1257 windows-1257 x-cp1257" },
	{ N::windows_1258, "cp1258 windows-1258 x-cp1258" },
	{ N::x_mac_cyrillic, "x-mac-cyrillic x-mac-ukrainian" },
	{ N::GBK, "chinese csgb2312 csiso58gb231280 gb2312 gb_2312 gb_2312-80 gbk iso-ir-58 x-gbk" },
	{ N::gb18030, "gb18030" },
	{ N::Big5, "big5 big5-hkscs cn-big5 csbig5 x-x-big5" },
	{ N::EUC_JP, "cseucpkdfmtjapanese euc-jp x-euc-jp" },
	{ N::ISO_2022_JP, "csiso2022jp iso-2022-jp" },
	{ N::Shift_JIS, "csshiftjis ms932 ms_kanji shift-jis shift_jis sjis windows-31j x-sjis" },
	{ N::EUC_KR, "cseuckr csksc56011987 euc-kr iso-ir-149 korean ks_c_5601-1987 ks_c_5601-1989 ksc5601 ksc_5601 windows-949" },
	{ N::replacement, "csiso2022kr hz-gb-2312 iso-2022-cn iso-2022-cn-ext iso-2022-kr replacement" },
	{ N::UTF_16BE, "utf-16be" },
	{ N::UTF_16LE, "utf-16 utf-16le" },
	{ N::x_user_defined, "x-user-defined" },
};
// labels later editions added: not judged
static char const* const later = " unicode11utf8 unicode20utf8 x-unicode20utf8 csunicode iso-10646-ucs-2 ucs-2 unicode unicodefeff unicodefffe ";

#ifdef VP_NATIVE
#include <map>
#include <set>
#include <sstream>
static std::map<std::string, N> const& labels()
{
	static std::map<std::string, N> m;
	if (m.empty())
		for (auto const& r : table)
		{
			std::istringstream is(r.labels);
			std::string s;
			while (is >> s) m[s] = r.name;
		}
	return m;
}
static bool ws(char32_t c) { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
static N spec(std::u32string s, bool& judged)
{
	size_t b = 0, e = s.size();
	while (b < e && ws(s[b])) ++b;
	while (b < e && ws(s[e - 1])) --e;
	std::string t;
	judged = true;
	for (size_t i = b; i < e; ++i)
	{
		if (s[i] > 0x7E) return static_cast<N>(0);
		char c = static_cast<char>(s[i]);
		t += 'A' <= c && c <= 'Z' ? static_cast<char>(c + 32) : c;
	}
	auto it = labels().find(t);
	if (it != labels().end()) return it->second;
	if (!t.empty() && t.find(' ') == std::string::npos && std::string(later).find(" " + t + " ") != std::string::npos) judged = false;
	return static_cast<N>(0);
}
static void judge(std::u32string const& s, char const* what)
{
	bool j;
	N w = spec(s, j);
	if (j) vp_assert(get_encoding_name(s) == w, what);
}
static std::u32string u(std::string const& s) { return std::u32string(s.begin(), s.end()); }
#endif

VP_ENTRY(ground_labels)
{
#ifdef VP_NATIVE
	static char32_t const wsp[] = { 9, 10, 12, 13, 32 };
	for (auto const& [l, n] : labels())
	{
		std::u32string lo = u(l), up = lo, alt = lo;
		for (auto& c : up) if (U'a' <= c && c <= U'z') c -= 32;
		for (size_t i = 0; i < alt.size(); i += 2) if (U'a' <= alt[i] && alt[i] <= U'z') alt[i] -= 32;
		judge(lo, "every label selects its encoding");
		judge(up, "labels are matched without regard to case");
		judge(alt, "labels are matched without regard to case");
		vp_assert(get_encoding_name(l) == n && get_encoding_name(std::u16string(l.begin(), l.end())) == n && get_encoding_name(std::u8string(l.begin(), l.end())) == n, "labels are matched in every string type");
		vp_assert(wordring::whatwg::get_encoding_name(l) == n, "labels are matched in every string type");
		for (char32_t w : wsp)
		{
			judge(std::u32string(1, w) + lo, "leading white space is ignored");
			judge(up + w, "trailing white space is ignored");
			judge(std::u32string(2, w) + alt + std::u32string(3, w), "white space around a label is ignored");
		}
		for (char32_t c : { 0xBu, 0u, 0x85u, 0xA0u, 0x3000u, 0xFEFFu, 0x17Fu, 0x212Au })
		{
			judge(lo + c, "other characters are not white space");
			judge(std::u32string(1, c) + lo, "other characters are not white space");
		}
		// one edit away
		for (size_t i = 0; i < lo.size(); ++i)
		{
			std::u32string d = lo;
			d.erase(i, 1);
			judge(d, "a string that is no label selects nothing");
			for (char32_t c = 0x20; c < 0x7F; ++c)
			{
				std::u32string r = lo, k = lo;
				r[i] = c;
				judge(r, "a string that is no label selects nothing");
				k.insert(i, 1, c);
				judge(k, "a string that is no label selects nothing");
			}
			std::u32string r = lo;
			if (r[i] == U's') { r[i] = 0x17F; judge(r, "case is ignored in ASCII only"); }
			if (r[i] == U'k') { r[i] = 0x212A; judge(r, "case is ignored in ASCII only"); }
			r = lo; r[i] += 0x100; judge(r, "a string that is no label selects nothing");
			r = lo; r[i] += 0x10000; judge(r, "a string that is no label selects nothing");
		}
	}
	judge(U"", "the empty string selects nothing");
	judge(U"   ", "white space selects nothing");
	// the name an encoding reports is a label of that encoding
	for (auto const& r : table)
	{
		std::u32string l = get_encoding_label(r.name);
		vp_assert(get_encoding_name(l) == r.name, "an encoding reports a name that selects it");
		std::u32string low = l;
		vp_assert(std::string(" ").append(r.labels).append(" ").find(" " + std::string(low.begin(), low.end()) + " ") != std::string::npos, "an encoding reports one of its labels");
	}
#endif
}

VP_ENTRY(output_encoding)
{
	u32 n = vp_range(1, 40);
	N name = static_cast<N>(n), o = get_output_encoding_name(name);
	bool r = (name == N::replacement) | (name == N::UTF_16BE) | (name == N::UTF_16LE);
	vp_assert(o == (r ? N::UTF_8 : name), "output encoding: UTF-8 for replacement and UTF-16, else the encoding itself");
	vp_cover("done");
}

// ---------------------------------------------------------------- BOM
struct peekq
{
	using value_type = io_item<char>;
	using character_type = char;
	u32 n = 0, taken = 0;
	bool wait = false;
	char b[3];
	io_result<std::vector<value_type>> peek(u32 k)
	{
		vp_assert(k >= 2, "enough bytes are looked at");
		if (wait) return { {}, true };
		std::vector<value_type> v;
		for (u32 i = 0; i < n && i < k; ++i) v.push_back(value_type{ b[i], false });
		return { v, false };
	}
};
VP_ENTRY(bom)
{
	VP_NATIVE_POOL(80, 0xEF, 0xBB, 0xBF, 0xFE, 0xFF, 0xFFFFFFEF, 0);
	peekq q;
	q.n = static_cast<u32>(vp_concretize(vp_range(0, 3)));
	q.wait = vp_concretize(vp_range(0, 1)) != 0;
	u32 x[3] = { 256, 256, 256 };
	for (u32 i = 0; i < 3; ++i) q.b[i] = 0;
	for (u32 i = 0; i < q.n; ++i) { std::uint8_t c = vp_nondet_u8(); q.b[i] = static_cast<char>(c); x[i] = c; }
	auto r = bom_sniff(q);
	vp_assert(r.m_wait == q.wait, "sniffing waits exactly when the bytes are not there yet");
	bool u8 = (x[0] == 0xEF) & (x[1] == 0xBB) & (x[2] == 0xBF), be = (x[0] == 0xFE) & (x[1] == 0xFF), le = (x[0] == 0xFF) & (x[1] == 0xFE);
	N want = u8 ? N::UTF_8 : be ? N::UTF_16BE : le ? N::UTF_16LE : static_cast<N>(0);
	if (!q.wait) vp_assert(r.m_value == want, "the byte order mark selects the encoding");
	vp_cover("done");
}

// ---------------------------------------------------------------- <meta> and @charset
#ifdef VP_NATIVE
static std::string any_label()
{
	static std::vector<std::string> v;
	if (v.empty()) for (auto const& x : labels()) v.push_back(x.first);
	std::string s = vp_nondet_bool() ? v[vp_range(0, static_cast<u32>(v.size() - 1))] : vp_nondet_bool() ? "utf-16" : "nope";
	if (vp_nondet_bool()) for (auto& c : s) if ('a' <= c && c <= 'z' && vp_nondet_bool()) c = static_cast<char>(c - 32);
	return s;
}
static void blur(std::string& s) // now and then one or two small edits
{
	static char const* const bits[] = { "\"", "\"x", "\"\"", "'", ";", " ", "=", "\";", "\x80", "\x7F", "c", "\v", "\f", "charset", "A", std::string_view("\0", 1).data() };
	u32 n = vp_range(0, 5);
	if (n > 2) return;
	while (n--)
	{
		u32 at = vp_range(0, static_cast<u32>(s.size()));
		if (vp_range(0, 3) == 0 && at < s.size()) s.erase(at, 1);
		else s.insert(at, bits[vp_range(0, 15)]);
	}
}
static char const* pick(std::initializer_list<char const*> l) { return *(l.begin() + vp_range(0, static_cast<u32>(l.size() - 1))); }

#endif
// HTML 2.5.3, written over positions: the span of the label, false if there is none
static bool wsp(u32 c) { return (c == 9) | (c == 10) | (c == 12) | (c == 13) | (c == 32); }
static bool meta_span(char32_t const* s, u32 n, u32& b, u32& e)
{
	static char const* const w = "charset";
	u32 p = 0;
	for (;;)
	{
		bool found = false;
		for (; p + 7 <= n; ++p)
		{
			bool m = true;
			for (u32 k = 0; k < 7; ++k) m = m & ((s[p + k] == static_cast<u32>(w[k])) | (s[p + k] + 32 == static_cast<u32>(w[k])));
			if (m) { found = true; break; }
		}
		if (!found) return false;
		p += 7;
		while (p < n && wsp(s[p])) ++p;
		if (p < n && s[p] == U'=') { ++p; break; }
	}
	while (p < n && wsp(s[p])) ++p;
	if (p == n) return false;
	if ((s[p] == U'"') | (s[p] == U'\''))
	{
		b = e = p + 1;
		while (e < n && s[e] != s[p]) ++e;
		return e < n;
	}
	b = e = p;
	while (e < n && !((s[e] == U';') | wsp(s[e]))) ++e;
	return true;
}
// CSS Syntax 3.2: the span of the label, false if there is none
static bool css_span(unsigned char const* s, u32 n, u32& b, u32& e)
{
	static char const* const w = "@charset \"";
	if (n > 1024) n = 1024;
	if (n < 12) return false;
	for (u32 k = 0; k < 10; ++k) if (s[k] != static_cast<unsigned char>(w[k])) return false;
	b = e = 10;
	while (e < n && (s[e] < 0x80) & (s[e] != '"')) ++e;
	return e + 1 < n && s[e] == '"' && s[e + 1] == ';';
}
VP_ENTRY(meta)
{
#ifdef VP_NATIVE
	std::string s;
	u32 n = vp_range(1, 3);
	while (n--)
	{
		s += pick({ "", "text/html; ", "text/html;charset", "charse", "ccharset", " ", "charset ", "=" });
		s += pick({ "charset", "CHARSET", "chaRset", "charset charset", "char set", "" });
		s += pick({ "", " ", "\t", "\n\f\r ", "\v" });
		s += pick({ "=", "=", "=", "", "==", ":" });
		s += pick({ "", "", " ", "\f ", "\v" });
		s += pick({ "\"", "'", "", "", "\"'", "" });
		s += any_label();
		s += pick({ "\"", "'", "", ";", " ", "\f", "\v", "'\"", "," });
	}
	blur(s);
	bool j = true;
	std::u32string t = u(s);
	u32 b = 0, e = 0;
	N w = meta_span(t.data(), static_cast<u32>(t.size()), b, e) ? spec(t.substr(b, e - b), j) : static_cast<N>(0);
	N g = wordring::whatwg::html::extract_character_encoding_from_meta_element(u(s));
	if (j) vp_assert(g == w, "the encoding named in a meta element");
#endif
}
VP_ENTRY(css_charset)
{
#ifdef VP_NATIVE
	std::string s = pick({ "@charset \"", "@charset \"", "@charset \"", "@charset \"", "@charset '", "@CHARSET \"", "@charset  \"", " @charset \"", "@charset", "" });
	static u32 const pads[] = { 0, 0, 0, 1, 5, 1000, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012 };
	std::string l = any_label();
	u32 pad = pads[vp_range(0, 15)];
	if (pad >= 1000) pad -= static_cast<u32>(l.size()) % 12;
	u32 left = vp_nondet_bool() ? pad : vp_range(0, pad);
	blur(l);
	s += std::string(left, ' ') + l + std::string(pad - left, ' ');
	s += pick({ "\";", "\";", "\";", "\"", "';", "\" ;", ";", "\x80\";", "\"\";", "\xE9\";" });
	s += pick({ "", "a{}", "\";", "\xFF" });
	N fb = vp_nondet_bool() || vp_nondet_bool() ? static_cast<N>(0) : static_cast<N>(vp_range(1, 40));
	// CSS Syntax 3.2
	N w = fb;
	bool j = true;
	if (fb == static_cast<N>(0))
	{
		w = N::UTF_8;
		u32 b = 0, e = 0;
		if (css_span(reinterpret_cast<unsigned char const*>(s.data()), static_cast<u32>(s.size()), b, e))
		{
			N x = spec(u(s.substr(b, e - b)), j);
			if (x == N::UTF_16BE || x == N::UTF_16LE) x = N::UTF_8;
			if (x != static_cast<N>(0)) w = x;
		}
	}
	N g = wordring::wwwc::determine_fallback_encoding(s.begin(), s.end(), fb);
	if (j) vp_assert(g == w, "the encoding of a style sheet");
#endif
}

// For the verifier: arbitrary short texts, the label lookup replaced by its contract
// (any result; which string is looked up is what these contracts are about).
static char32_t g_text[24];
static unsigned char g_bytes[24];
static u32 g_b, g_e, g_asked;
static bool g_found;
static N g_answer;
extern "C" N vps_lookup32(std::u32string* label)
{
	vp_assert(g_found, "no encoding is looked up when none is named");
	vp_assert(label->size() == g_e - g_b, "the whole label is looked up");
	for (u32 i = 0; i < label->size(); ++i)
	{
		u32 c = g_text[g_b + i], l = (*label)[i];
		vp_assert((l == c) | ((c >= 'A') & (c <= 'Z') & (l == c + 32)), "the label is looked up as it is written");
	}
	++g_asked;
	return g_answer;
}
extern "C" N vps_lookup8(std::string* label)
{
	bool quote = false;
	for (u32 i = 0; i < label->size(); ++i) quote = quote | ((*label)[i] == '"');
	vp_assert(g_found | quote, "no encoding is looked up when none is named");
	if (!g_found) return static_cast<N>(0);         // no label contains a quotation mark
	vp_assert(label->size() == g_e - g_b, "the whole label is looked up");
	for (u32 i = 0; i < label->size(); ++i) vp_assert(static_cast<unsigned char>((*label)[i]) == g_bytes[g_b + i], "the label is looked up as it is written");
	++g_asked;
	return g_answer;
}
VP_ENTRY(meta_text)
{
#ifndef VP_NATIVE
	static char const* const w = "charset";
	u32 before = static_cast<u32>(vp_concretize(vp_range(0, 1))), after = static_cast<u32>(vp_concretize(vp_range(0, 4)));
	u32 n = 0;
	for (u32 i = 0; i < before; ++i) g_text[n++] = static_cast<char32_t>(vp_range(0, 0x10FFFF));
	for (u32 i = 0; i < 7; ++i) g_text[n++] = static_cast<unsigned char>(w[i]);
	for (u32 i = 0; i < after; ++i) g_text[n++] = static_cast<char32_t>(vp_range(0, 0x10FFFF));
	g_asked = 0;
	g_answer = static_cast<N>(vp_range(0, 40));
	g_found = meta_span(g_text, n, g_b, g_e);
	std::u32string s(g_text, g_text + n);
	N r = wordring::whatwg::html::extract_character_encoding_from_meta_element(s);
	vp_assert(r == (g_found ? g_answer : static_cast<N>(0)), "the encoding named in a meta element");
	if (g_found) vp_cover("named");
	else vp_cover("none");
#endif
}
VP_ENTRY(css_text)
{
#ifndef VP_NATIVE
	static char const* const w = "@charset \"";
	u32 head = static_cast<u32>(vp_concretize(vp_range(0, 10))), n = 0, tail = head == 10 ? static_cast<u32>(vp_concretize(vp_range(0, 6))) : 1;
	for (u32 i = 0; i < head; ++i) g_bytes[n++] = static_cast<unsigned char>(w[i]);
	for (u32 i = 0; i < tail; ++i) g_bytes[n++] = vp_nondet_u8();
	N fb = static_cast<N>(vp_range(0, 40));
	g_asked = 0;
	g_answer = static_cast<N>(vp_range(0, 40));
	g_found = css_span(g_bytes, n, g_b, g_e);
	N x = (g_answer == N::UTF_16BE) | (g_answer == N::UTF_16LE) ? N::UTF_8 : g_answer;
	N want = fb != static_cast<N>(0) ? fb : g_found & (g_answer != static_cast<N>(0)) ? x : N::UTF_8;
	vp_assert(wordring::wwwc::determine_fallback_encoding(g_bytes, g_bytes + n, fb) == want, "the encoding of a style sheet");
	vp_cover("done");
#endif
}
