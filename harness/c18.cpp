// C18: input preprocessing: HTML newline normalisation and the input buffer
// (whatwg/html/parsing/input_stream.hpp), CSS code point filter (wwwc/css_syntax/input_stream.hpp)
#include <cassert>
#include <array>
#include <deque>
#include <vector>
#include <wordring/whatwg/html/parsing/input_stream.hpp>
#include <wordring/wwwc/css_syntax/input_stream.hpp>
#include "vp.h"
using namespace wordring;
using u32 = std::uint32_t;
using namespace wordring::whatwg::html::parsing;

extern "C" bool vpp_surrogate(u32 c) { return (0xD800 <= c) & (c <= 0xDFFF); }
extern "C" bool vpp_nonchar(u32 c) { return ((0xFDD0 <= c) & (c <= 0xFDEF)) | ((c <= 0x10FFFF) & ((c & 0xFFFE) == 0xFFFE)); }
extern "C" bool vpp_control_error(u32 c)
{
	bool ctl = (c <= 0x1F) | ((0x7F <= c) & (c <= 0x9F));
	bool ws = (c == 9) | (c == 0xA) | (c == 0xC) | (c == 0xD) | (c == 0x20);
	return ctl & !ws & (c != 0);
}

// ---------------------------------------------------------------- HTML
struct strm : input_stream<strm>
{
	u32 got[16];
	u32 n = 0;
	bool ended = false;
	u32 sur = 0, non = 0, ctl = 0, other = 0;
	bool take = true;
	void on_report_error(error_name e)
	{
		if (e == error_name::surrogate_in_input_stream) ++sur;
		else if (e == error_name::noncharacter_in_input_stream) ++non;
		else if (e == error_name::control_character_in_input_stream) ++ctl;
		else ++other;
	}
	void on_emit_code_point()
	{
		if (!take) return;
		char32_t c = consume();
		if (eof()) { vp_assert(!ended, "the end is signalled once"); ended = true; return; }
		vp_assert(c == current_input_character(), "the consumed character is the current one");
		vp_assert(n < 16, "no more characters than were pushed");
		got[n++] = c;
	}
};
// newline normalisation written as a transducer over the whole input
struct norm
{
	u32 want[16];
	u32 n = 0;
	bool cr = false;
	void feed(u32 c)
	{
		if (c == 0xD) { want[n++] = 0xA; cr = true; }
		else if (c == 0xA) { if (!cr) want[n++] = 0xA; cr = false; }
		else { want[n++] = c; cr = false; }
	}
};
template <u32 N>
static void newlines()
{
	strm s;
	norm w;
	u32 sur = 0, non = 0, ctl = 0;
	for (u32 i = 0; i < N; ++i)
	{
		u32 c = vp_range(0, 0x10FFFF);
		if (N == 3) vp_assume(!(vpp_surrogate(c) | vpp_nonchar(c) | vpp_control_error(c)));
		s.push_code_point(c);
		w.feed(c);
		sur += vpp_surrogate(c);
		non += vpp_nonchar(c);
		ctl += vpp_control_error(c);
		vp_assert(s.n == w.n || (w.cr && s.n + 1 == w.n), "only a newline that may still be followed by LF is held back");
		vp_assert(!s.ended, "the end is not signalled before it is pushed");
	}
	s.push_eof();
	vp_assert(s.n == w.n, "as many characters as the standard produces");
	for (u32 i = 0; i < N; ++i) if (i < w.n && i < s.n) vp_assert(s.got[i] == w.want[i], "CR LF and CR become LF, everything else is passed through in order");
	vp_assert(s.ended && s.eof(), "the end is signalled");
	vp_assert(s.sur == sur && s.non == non && s.ctl == ctl && s.other == 0, "surrogates, noncharacters and control characters are reported");
	vp_cover("done");
}
VP_ENTRY(html_newlines_1) { VP_NATIVE_POOL(70, 13, 10, 12, 'a', 0, 0xFFFE, 0xFDD0, 0xD800, 0x85); newlines<1>(); }
VP_ENTRY(html_newlines_2) { VP_NATIVE_POOL(70, 13, 10, 12, 'a', 0, 0xFFFE, 0xFDD0, 0xD800, 0x85); newlines<2>(); }
VP_ENTRY(html_newlines_3) { VP_NATIVE_POOL(80, 13, 10, 12, 'a', 0, 0xFFFE, 0xFDD0, 0xD800, 0x85); newlines<3>(); }
VP_ENTRY(html_newlines_14)
{
#ifdef VP_NATIVE
	VP_NATIVE_POOL(85, 13, 13, 10, 10, 12, 'a');
	newlines<14>();
#endif
}

// the buffer: consume, reconsume, match
VP_ENTRY(html_buffer)
{
	strm s;
	s.take = false;
	u32 n = static_cast<u32>(vp_concretize(vp_range(1, 4)));
	u32 v[4];
	for (u32 i = 0; i < n; ++i) { v[i] = vp_range(0, 0x10FFFF); vp_assume(!((v[i] == 0xD) | vpp_surrogate(v[i]) | vpp_nonchar(v[i]) | vpp_control_error(v[i]))); s.push_code_point(v[i]); }
	vp_assert(s.next_input_character() == v[0], "the next character is the first unconsumed one");
	u32 k = static_cast<u32>(vp_concretize(vp_range(1, n)));
	if (vp_nondet_bool()) for (u32 i = 0; i < k; ++i) vp_assert(s.consume() == v[i], "characters are consumed in order");
	else s.consume(k);
	vp_assert(s.current_input_character() == v[k - 1], "the consumed character is the current one");
	s.reconsume();
	vp_assert(s.next_input_character() == v[k - 1], "reconsume puts the current character back");
	for (u32 i = k - 1; i < n; ++i) vp_assert(s.consume() == v[i], "characters are consumed in order after reconsume");
	vp_assert(!s.eof(), "an empty buffer is not the end");
	s.push_eof();
	s.consume();
	vp_assert(s.eof(), "the end is reached after the last character");
	s.reconsume();
	vp_assert(!s.eof(), "reconsume takes the end back");
	s.consume();
	vp_assert(s.eof() && s.current_input_character() == v[n - 1], "consuming the end keeps the current character");
	s.clear();
	vp_assert(!s.eof() && s.begin() == s.end(), "clear resets the stream");
	vp_cover("done");
}
static u32 low(u32 c) { return ('A' <= c) & (c <= 'Z') ? c + 0x20 : c; }
VP_ENTRY(html_match)
{
	VP_NATIVE_POOL(90, 'D', 'd', 'O', 'o', '[', '{', '@', '`');
	strm s;
	s.take = false;
	u32 n = static_cast<u32>(vp_concretize(vp_range(1, 3)));
	u32 m = static_cast<u32>(vp_concretize(vp_range(1, 3)));
	bool cur = vp_nondet_bool(), ci = vp_nondet_bool();
	u32 v[4];
	for (u32 i = 0; i < n; ++i) { v[i] = vp_range(0, 0x10FFFF); vp_assume(!((v[i] == 0xD) | vpp_surrogate(v[i]) | vpp_nonchar(v[i]) | vpp_control_error(v[i]))); s.push_code_point(v[i]); }
	char32_t lab[3];
	for (u32 i = 0; i < m; ++i) { lab[i] = vp_range(0, 0x10FFFF); if (ci) vp_assume(!(('A' <= lab[i]) & (lab[i] <= 'Z'))); }
#ifdef VP_NATIVE
	if (vp_range(0, 1)) for (u32 i = 0; i < m && i < n; ++i) lab[i] = ci ? low(v[i]) : v[i];
#endif
	if (cur) s.consume();
	bool want = m <= n;
	for (u32 i = 0; i < m && i < n; ++i) want = want & ((ci ? low(v[i]) : v[i]) == lab[i]);
	vp_assert(s.match(std::u32string_view(lab, m), cur, ci) == want, "match compares the buffered characters with the label");
	vp_cover("done");
}

// ---------------------------------------------------------------- CSS, in place, any length
static u32* g_in;
static std::uint64_t g_n;
static std::uint64_t t_seen, t_out;
static u32 q_n, q_v[2], t_state;
static u32 in(std::uint64_t i)
{
#ifdef VP_NATIVE
	g_in[i] %= 0x110000;
#else
	vp_assume(g_in[i] <= 0x10FFFF);
#endif
	return g_in[i];
}
static void emit(u32 c) { vp_assert(q_n < 2, "output does not lag behind the specification"); q_v[q_n] = c; ++q_n; }
static void feed(u32 c)
{
	if (c == 0xD) { emit(0xA); t_state = 1; return; }
	if (c == 0xA) { if (t_state == 0) emit(0xA); }
	else if (c == 0xC) emit(0xA);
	else if (c == 0 || vpp_surrogate(c)) emit(0xFFFD);
	else emit(c);
	t_state = 0;
}
extern "C" bool vpp_inv_held() { return q_n == 0 || (q_n == 1 && t_state == 1 && q_v[0] == 0xA); }
extern "C" bool vpp_inv_held2() { return q_n == 0 || (t_seen < g_n && g_in[t_seen] == 0xA); }
extern "C" bool vpp_inv_state() { return t_state <= 1; }
extern "C" bool vpp_inv_notlf() { return q_n == 1 || t_state == 0 || t_seen >= g_n || g_in[t_seen] != 0xA; }
extern "C" bool vpp_inv_out() { return t_out + q_n <= t_seen; }
struct cref
{
	u32 at;
	operator char32_t() const { vp_assert(at < g_n, "input is never read past its end"); vp_assert(at >= t_out, "input is read before it is overwritten"); return in(at); }
	cref const& operator=(char32_t c) const
	{
		vp_assert(at == t_out, "output is written consecutively from the start");
		vp_assert(q_n > 0, "no more output than the specification allows");
		vp_assert(c == q_v[0], "output equals the specified code point");
		q_v[0] = q_v[1]; q_v[1] = 0; --q_n;
		++t_out;
		return *this;
	}
	friend bool operator==(cref const& a, char32_t c) { return static_cast<char32_t>(a) == c; }
	friend bool operator!=(cref const& a, char32_t c) { return static_cast<char32_t>(a) != c; }
};
struct cit
{
	using value_type = char32_t;
	using difference_type = std::ptrdiff_t;
	using pointer = char32_t*;
	using reference = cref;
	using iterator_category = std::forward_iterator_tag;
	std::uint64_t i = 0;
	cref operator*() const { return { static_cast<u32>(i) }; }
	cit& operator++() { if (i == t_seen) { vp_assert(i < g_n, "input is never advanced past its end"); ++t_seen; feed(in(i)); } ++i; return *this; }
	cit operator++(int) { cit r = *this; ++*this; return r; }
	friend bool operator==(cit const& a, cit const& b) { return a.i == b.i; }
	friend bool operator!=(cit const& a, cit const& b) { return a.i != b.i; }
};
VP_ENTRY(css_filter)
{
	VP_NATIVE_POOL(70, 13, 13, 10, 10, 12, 'a', 0, 0xD800, 0xDFFF);
	g_n = vp_length(14);
	vp_assume(g_n < 0xFFFFFFFFu);
	g_in = static_cast<u32*>(vp_new_array(g_n, 4));
	t_seen = t_out = 0;
	q_n = t_state = q_v[0] = q_v[1] = 0;
	cit r = wwwc::filter_code_points(cit{ 0 }, cit{ g_n });
	vp_assert(t_seen == g_n, "the whole input is read");
	vp_assert(q_n == 0 && r.i == t_out, "everything the specification emits is emitted, and the returned position is its end");
	vp_cover("done");
}
VP_ENTRY(css_filter_string)
{
#ifdef VP_NATIVE
	VP_NATIVE_POOL(70, 13, 13, 10, 10, 12, 'a', 0, 0xD800, 0xDFFF);
	std::u32string s, w;
	u32 n = vp_range(0, 12);
	for (u32 i = 0; i < n; ++i) s.push_back(vp_range(0, 0x10FFFF));
	for (u32 i = 0; i < n; ++i)
	{
		u32 c = s[i];
		if (c == 0xD) { w.push_back(0xA); if (i + 1 < n && s[i + 1] == 0xA) ++i; }
		else if (c == 0xC) w.push_back(0xA);
		else if (c == 0 || vpp_surrogate(c)) w.push_back(0xFFFD);
		else w.push_back(c);
	}
	s.erase(wwwc::filter_code_points(s.begin(), s.end()), s.end());
	vp_assert(s == w, "filtered string");
#endif
}
