// C09: string algorithms of the Infra standard (whatwg/infra/infra.hpp)
#include <wordring/whatwg/infra/infra.hpp>
#include "ghost.h"
using namespace wordring::whatwg;

extern "C" bool vpp_ws(std::uint32_t c) { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
extern "C" std::uint32_t vpp_lower(std::uint32_t c) { return 'A' <= c && c <= 'Z' ? c + 32 : c; }
extern "C" std::uint32_t vpp_upper(std::uint32_t c) { return 'a' <= c && c <= 'z' ? c - 32 : c; }

// ---------------------------------------------------------------- element-wise
enum map_kind { k_id, k_lower, k_upper };
static std::uint32_t map_spec(map_kind k, std::uint32_t c) { return k == k_lower ? vpp_lower(c) : k == k_upper ? vpp_upper(c) : c; }

// bytes
static unsigned char const* b_in;
static std::uint64_t b_n, b_j;
static map_kind b_kind;
template <typename Out>
struct b_sink
{
	using value_type = Out;
	void push_back(Out v)
	{
		vp_assert(b_j < b_n, "no more output than the specification allows");
		vp_assert(static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<Out>>(v)) == map_spec(b_kind, b_in[b_j]), "output byte equals the specified one");
		++b_j;
	}
};
template <typename F>
static void bytes(map_kind k, F f)
{
	b_n = vp_length(12);
	b_in = static_cast<unsigned char const*>(vp_new_array(b_n, 1));
	b_j = 0;
	b_kind = k;
	f(reinterpret_cast<char const*>(b_in), reinterpret_cast<char const*>(b_in) + b_n);
	vp_assert(b_j == b_n, "the whole input is converted");
	vp_cover("done");
}
VP_ENTRY(byte_lowercase) { bytes(k_lower, [](char const* a, char const* b) { b_sink<char> s; to_byte_lowercase(a, b, std::back_inserter(s)); }); }
VP_ENTRY(byte_uppercase) { bytes(k_upper, [](char const* a, char const* b) { b_sink<char> s; to_byte_uppercase(a, b, std::back_inserter(s)); }); }
VP_ENTRY(isomorphic_decode) { bytes(k_id, [](char const* a, char const* b) { b_sink<char32_t> s; isomorphic_decode(a, b, std::back_inserter(s)); }); }
VP_ENTRY(isomorphic_encode)
{
	bytes(k_id, [](char const* a, char const* b)
	{
		unsigned char const* p = reinterpret_cast<unsigned char const*>(a);
		b_sink<char> s;
		isomorphic_encode(p, p + (b - a), std::back_inserter(s));
	});
}

// code points
template <typename Unit>
struct m_sink
{
	using value_type = Unit;
	map_kind kind;
	std::uint64_t i = 0, k = 0;
	void push_back(Unit u)
	{
		vp_assert(i < g_n, "no more output than the specification allows");
		std::uint32_t c = map_spec(kind, g_at(i));
		vp_assert(static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<Unit>>(u)) == vpp_unit(sizeof(Unit), c, static_cast<std::uint32_t>(k)), "output unit equals the specified one");
		if (k + 1 == vpp_len(sizeof(Unit), c)) { ++i; k = 0; }
		else ++k;
	}
};
template <typename Unit, typename F>
static void points(map_kind kind, F f)
{
	g_input(12);
	m_sink<Unit> s;
	s.kind = kind;
	f(g_iter<Unit>{ 0, 0 }, g_iter<Unit>{ g_n, 0 }, s);
	vp_assert(s.i == g_n && s.k == 0, "the whole input is converted");
	vp_cover("done");
}
VP_ENTRY(ascii_lowercase_32) { points<char32_t>(k_lower, [](auto a, auto b, auto& s) { to_ascii_lowercase(a, b, std::back_inserter(s)); }); }
VP_ENTRY(ascii_lowercase_16) { points<char16_t>(k_lower, [](auto a, auto b, auto& s) { to_ascii_lowercase(a, b, std::back_inserter(s)); }); }
VP_ENTRY(ascii_lowercase_8) { points<char8_t>(k_lower, [](auto a, auto b, auto& s) { to_ascii_lowercase(a, b, std::back_inserter(s)); }); }
VP_ENTRY(ascii_uppercase_32) { points<char32_t>(k_upper, [](auto a, auto b, auto& s) { to_ascii_uppercase(a, b, std::back_inserter(s)); }); }
VP_ENTRY(ascii_uppercase_8) { points<char8_t>(k_upper, [](auto a, auto b, auto& s) { to_ascii_uppercase(a, b, std::back_inserter(s)); }); }

// ---------------------------------------------------------------- filters
// A transducer of the specification runs in step with the input iterator; what it
// emits is queued, and the output of the code must pop exactly that queue.
static std::uint64_t q_n;           // queued expected code points (at most 2)
static std::uint32_t q_v[2];
static std::uint64_t t_seen;        // code points fed to the specification
static std::uint32_t t_state;       // state of the specification
static std::uint32_t t_mode;        // which algorithm

static void q_emit(std::uint32_t c)
{
	vp_assert(q_n < 2, "output does not lag behind the specification");
	q_v[q_n] = c;
	++q_n;
}
static void t_feed(std::uint32_t c)
{
	if (t_mode == 0) { if (c != 0xA && c != 0xD) q_emit(c); }                   // strip newlines
	else if (t_mode == 1)                                                       // normalize newlines: state 1 after CR
	{
		if (c == 0xD) { q_emit(0xA); t_state = 1; }
		else if (c == 0xA) { if (t_state == 0) q_emit(0xA); t_state = 0; }
		else { q_emit(c); t_state = 0; }
	}
	else                                                                        // strip and collapse: 0 leading, 1 word, 2 gap
	{
		if (vpp_ws(c)) { if (t_state == 1) t_state = 2; }
		else { if (t_state == 2) q_emit(0x20); q_emit(c); t_state = 1; }
	}
}
// candidate invariants about the specification's pending output (kept only if inductive)
extern "C" bool vpp_inv_lf() { return q_n == 0 || q_v[0] == 0xA; }
extern "C" bool vpp_inv_one() { return q_n <= 1; }
extern "C" bool vpp_inv_cr() { return (q_n == 1) == (t_state == 1); }
extern "C" bool vpp_inv_cr0() { return q_n == 0 || t_state == 1; }
template <typename Unit>
struct t_iter : g_iter<Unit>
{
	using base = g_iter<Unit>;
	t_iter(std::uint64_t a) { this->i = a; this->k = 0; }
	t_iter& operator++()
	{
		std::uint64_t before = this->i;
		base::operator++();
		if (this->i != before && before == t_seen) { ++t_seen; t_feed(g_at(before)); }
		return *this;
	}
	t_iter operator++(int) { t_iter r = *this; ++*this; return r; }
};
template <typename Unit>
struct t_sink
{
	using value_type = Unit;
	std::uint64_t k = 0;
	void push_back(Unit u)
	{
		vp_assert(q_n > 0, "no more output than the specification allows");
		std::uint32_t c = q_v[0];
		vp_assert(static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<Unit>>(u)) == vpp_unit(sizeof(Unit), c, static_cast<std::uint32_t>(k)), "output unit equals the specified one");
		if (k + 1 == vpp_len(sizeof(Unit), c)) { k = 0; --q_n; q_v[0] = q_v[1]; q_v[1] = 0; }
		else ++k;
	}
};
template <typename Unit, typename F>
static void filter(std::uint32_t mode, F f)
{
	VP_NATIVE_POOL(60, 9, 10, 12, 13, 13, 10, 32, 'a', 0x3042);
	g_input(12);
	q_n = 0; t_seen = 0; t_state = 0; t_mode = mode; q_v[0] = q_v[1] = 0;
	t_sink<Unit> s;
	f(t_iter<Unit>(0), t_iter<Unit>(g_n), s);
	vp_assert(t_seen == g_n, "the whole input is read");
	vp_assert(q_n == 0 && s.k == 0, "everything the specification emits is emitted");
	vp_cover("done");
}
VP_ENTRY(strip_newlines_32) { filter<char32_t>(0, [](auto a, auto b, auto& s) { strip_newlines(a, b, std::back_inserter(s)); }); }
VP_ENTRY(strip_newlines_8) { filter<char8_t>(0, [](auto a, auto b, auto& s) { strip_newlines(a, b, std::back_inserter(s)); }); }
VP_ENTRY(normalize_newlines_32) { filter<char32_t>(1, [](auto a, auto b, auto& s) { normalize_newlines(a, b, std::back_inserter(s)); }); }
VP_ENTRY(normalize_newlines_8) { filter<char8_t>(1, [](auto a, auto b, auto& s) { normalize_newlines(a, b, std::back_inserter(s)); }); }
VP_ENTRY(strip_and_collapse_32) { filter<char32_t>(2, [](auto a, auto b, auto& s) { strip_and_collapse_ascii_whitespace(a, b, std::back_inserter(s)); }); }
VP_ENTRY(strip_and_collapse_8) { filter<char8_t>(2, [](auto a, auto b, auto& s) { strip_and_collapse_ascii_whitespace(a, b, std::back_inserter(s)); }); }

// ---------------------------------------------------------------- scanners
// the first position the iterator has passed whose code point fails the condition
static std::uint64_t f_seen, f_first;
static std::uint32_t f_mode;
static bool f_cond(std::uint32_t c) { return f_mode == 0 ? vpp_ws(c) : f_mode == 1 ? c <= 0x7F : c != ','; }
template <typename Unit>
struct f_iter : g_iter<Unit>
{
	using base = g_iter<Unit>;
	f_iter(std::uint64_t a) { this->i = a; this->k = 0; }
	f_iter& operator++()
	{
		std::uint64_t before = this->i;
		base::operator++();
		if (this->i != before && before == f_seen) { ++f_seen; if (f_first > before && !f_cond(g_at(before))) f_first = before; }
		return *this;
	}
	f_iter operator++(int) { f_iter r = *this; ++*this; return r; }
};
static void f_init(std::uint32_t mode) { f_mode = mode; f_seen = 0; f_first = 1ull << 60; }

VP_ENTRY(skip_ascii_whitespace)
{
	VP_NATIVE_POOL(80, 9, 10, 12, 13, 32, 32, 'a');
	g_input(8);
	f_init(0);
	auto r = skip_ascii_whitespace(f_iter<char32_t>(0), f_iter<char32_t>(g_n));
	vp_assert(r.k == 0 && r.i <= g_n, "the result is a code point boundary of the input");
	vp_assert(r.i == g_n || !vpp_ws(g_at(r.i)), "skipping stops only before a non-space");
	vp_assert(r.i <= f_first && r.i <= f_seen, "only whitespace is skipped");
	vp_cover("done");
}
// collects everything up to the first comma
struct c_sink
{
	using value_type = char32_t;
	std::uint64_t i = 0;
	void push_back(char32_t u)
	{
		vp_assert(i < g_n && static_cast<std::uint32_t>(u) == g_at(i) && u != U',', "collected code points are the input's, up to the first that fails the condition");
		++i;
	}
};
VP_ENTRY(collect_sequence)
{
	VP_NATIVE_POOL(70, ',', 'a', 'b', 0x3042);
	g_input(8);
	f_init(2);
	c_sink s;
	auto r = collect_sequence_of_code_points(f_iter<char32_t>(0), f_iter<char32_t>(g_n), std::back_inserter(s), [](char32_t c) { return c != U','; });
	vp_assert(r.k == 0 && r.i == s.i, "the result points behind the collected code points");
	vp_assert(r.i == g_n || g_at(r.i) == ',', "collecting stops only before a code point that fails the condition");
	vp_assert(r.i <= f_first && r.i <= f_seen, "only code points that satisfy the condition are collected");
	vp_cover("done");
}
template <typename Unit>
static void ascii_string()
{
	VP_NATIVE_POOL(90, 0, 'a', 0x7F, 0x7F, 0x7F, 0x80);
	g_input(5);
	f_init(1);
	bool r = is_ascii_string(f_iter<Unit>(0), f_iter<Unit>(g_n));
	if (r) vp_assert(f_seen == g_n && f_first > g_n, "only a string of ASCII code points is an ASCII string");
	else vp_assert(f_first < g_n, "a string of ASCII code points is an ASCII string");
	vp_cover("done");
}
VP_ENTRY(is_ascii_string_32) { ascii_string<char32_t>(); }
VP_ENTRY(is_ascii_string_16) { ascii_string<char16_t>(); }

// ---------------------------------------------------------------- comparison
// Two inputs; w is an arbitrary position
static std::uint32_t* h_cps;
static std::uint64_t h_n;
struct h_iter
{
	using value_type = char32_t;
	using difference_type = std::ptrdiff_t;
	using pointer = char32_t const*;
	using reference = char32_t;
	using iterator_category = std::forward_iterator_tag;
	std::uint64_t i;
	char32_t operator*() const { vp_assert(i < h_n, "input is never read past its end"); return static_cast<char32_t>(h_cps[i]); }
	h_iter& operator++() { vp_assert(i < h_n, "input is never advanced past its end"); ++i; return *this; }
	h_iter operator++(int) { h_iter r = *this; ++*this; return r; }
	friend bool operator==(h_iter a, h_iter b) { return a.i == b.i; }
	friend bool operator!=(h_iter a, h_iter b) { return a.i != b.i; }
};
// what the specification says about the prefix both iterators have passed
static std::uint64_t p_seen;
static bool p_equal;
struct p_iter : h_iter
{
	p_iter(std::uint64_t a) { i = a; }
	p_iter& operator++()
	{
		if (i == p_seen && i < g_n && i < h_n) { p_equal = p_equal && vpp_lower(g_at(i)) == vpp_lower(h_cps[i]); ++p_seen; }
		h_iter::operator++();
		return *this;
	}
	p_iter operator++(int) { p_iter r = *this; ++*this; return r; }
};
VP_ENTRY(case_insensitive_match)
{
	VP_NATIVE_POOL(90, 'a', 'A', 'b', 'k', '@', '`', 0x212A);
	g_input(3);
	h_n = vp_length(3);
	h_cps = static_cast<std::uint32_t*>(vp_new_array(h_n, 4));
	p_seen = 0;
	p_equal = true;
	bool r = is_ascii_case_insensitive_match(g_iter<char32_t>{ 0, 0 }, g_iter<char32_t>{ g_n, 0 }, p_iter(0), p_iter(h_n));
	if (r)
	{
		vp_assert(g_n == h_n, "strings of different length do not match");
		vp_assert(p_seen == g_n && p_equal, "strings match only if every code point matches after ASCII lowercasing");
	}
	else vp_assert(g_n != h_n || !p_equal, "strings that differ only in ASCII case match");
	vp_cover("done");
}

#ifdef VP_NATIVE
#include <string>
#include <vector>
#endif
VP_ENTRY(string_results) // algorithms that build std::string results (bounded, native only)
{
#ifdef VP_NATIVE
	VP_NATIVE_POOL(75, 9, 10, 12, 13, 32, ',', 'a', 'B', 0xA0, 0x3042);
	g_input(10);
	std::u32string s;
	for (std::uint64_t i = 0; i < g_n; ++i) s.push_back(static_cast<char32_t>(g_at(i)));
	auto trim = [](std::u32string t)
	{
		while (!t.empty() && vpp_ws(t.back())) t.pop_back();
		while (!t.empty() && vpp_ws(t.front())) t.erase(0, 1);
		return t;
	};
	std::u32string t;
	strip_leading_and_trailing_ascii_whitespace(s.begin(), s.end(), std::back_inserter(t));
	vp_assert(t == trim(s), "strip_leading_and_trailing_ascii_whitespace");
	std::vector<std::u32string> v, w;
	strictly_split_on_particular_delimiter(s.begin(), s.end(), std::back_inserter(v), U',');
	w.push_back(U"");
	for (char32_t c : s) if (c == U',') w.push_back(U""); else w.back().push_back(c);
	vp_assert(v == w, "strictly_split_on_particular_delimiter");
	v.clear(); w.clear();
	split_on_ascii_whitespace(s.begin(), s.end(), std::back_inserter(v));
	bool in = false;
	for (char32_t c : s) { if (vpp_ws(c)) in = false; else { if (!in) w.push_back(U""); in = true; w.back().push_back(c); } }
	vp_assert(v == w, "split_on_ascii_whitespace");
	v.clear(); w.clear();
	split_on_commas(s.begin(), s.end(), std::back_inserter(v));
	for (std::size_t p = 0; p < s.size();)
	{
		std::size_t e = s.find(U',', p);
		if (e == std::u32string::npos) e = s.size();
		w.push_back(trim(s.substr(p, e - p)));
		p = e + 1;
	}
	vp_assert(v == w, "split_on_commas");
	std::string b1, b2;
	for (char32_t c : s) { b1.push_back(static_cast<char>(c)); b2.push_back(static_cast<char>(vp_nondet_bool() && 'a' <= (c & 0xFF) && (c & 0xFF) <= 'z' ? c - 32 : c)); }
	vp_assert(is_byte_case_insensitive_match(b1.begin(), b1.end(), b2.begin(), b2.end()), "is_byte_case_insensitive_match");
	b2.push_back('x');
	vp_assert(!is_byte_case_insensitive_match(b1.begin(), b1.end(), b2.begin(), b2.end()), "is_byte_case_insensitive_match: length");
#endif
}
