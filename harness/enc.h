// Specification side of the Encoding Standard's decoders and encoders (C01-C03).
#pragma once
#include <array>
#include <cassert>
#include <cstdint>
#include <optional>
#include <variant>
#include <wordring/whatwg/encoding/coder.hpp>
#include <wordring/whatwg/encoding/encoding.hpp>
#include <wordring/whatwg/encoding/terminology.hpp>
#include "vp.h"
#include "enc_tables.h"
using namespace wordring::whatwg::encoding;

// ---------------------------------------------------------------- contracts of the table lookups
// index code point: null or a scalar value; index pointer: null or a pointer of 16 bits
inline std::uint32_t cp_of(std::uint32_t id, std::uint32_t pointer)
{
	std::uint32_t v = vp_uf32(id, pointer);
	vp_assume(v == VP_NULL || v <= 0xD7FF || (0xE000 <= v && v <= 0x10FFFF));
	if (id == IX_iso_2022_jp_katakana) vp_assume((v != VP_NULL) == (pointer < 63));
	return v;
}
inline std::uint32_t ptr_of(std::uint32_t id, std::uint32_t cp)
{
	std::uint32_t v = vp_uf32(VP_PTR + id, cp);
	vp_assume(v == VP_NULL || v <= 23939);
	return v;
}
inline std::uint32_t gb_cp(std::uint32_t pointer)
{
	std::uint32_t v = vp_uf32(IX_gb_ranges_cp, pointer);
	vp_assume(v == VP_NULL || v <= 0x10FFFF);
	vp_assume((v == VP_NULL) == ((39419 < pointer && pointer < 189000) || 1237575 < pointer));
	return v;
}
inline std::uint32_t gb_ptr(std::uint32_t cp)
{
	std::uint32_t v = vp_uf32(IX_gb_ranges_ptr, cp);
	vp_assume(v <= 1237575);
	return v;
}
#ifndef VP_NATIVE
// what the verifier puts in the place of the lookups; discharged by complete evaluation (entry tables_*)
#define X(n) \
extern "C" std::optional<std::uint32_t> vps_cp_##n(std::uint16_t p) { std::uint32_t v = cp_of(IX_##n, p); if (v == VP_NULL) return {}; return v; } \
extern "C" std::optional<std::uint16_t> vps_ptr_##n(std::uint32_t c) { std::uint32_t v = ptr_of(IX_##n, c); if (v == VP_NULL) return {}; return static_cast<std::uint16_t>(v); }
VP_MULTI_INDEXES(X) VP_SINGLE_INDEXES(X)
#undef X
extern "C" std::optional<std::uint16_t> vps_ptr_Shift_JIS(std::uint32_t c) { std::uint32_t v = ptr_of(IX_shift_jis_ptr, c); if (v == VP_NULL) return {}; return static_cast<std::uint16_t>(v); }
extern "C" std::optional<std::uint16_t> vps_ptr_big5_enc(std::uint32_t c) { std::uint32_t v = ptr_of(IX_big5_ptr, c); if (v == VP_NULL) return {}; return static_cast<std::uint16_t>(v); }
extern "C" std::optional<std::uint32_t> vps_gb_cp(std::uint32_t p) { std::uint32_t v = gb_cp(p); if (v == VP_NULL) return {}; return v; }
extern "C" std::optional<std::uint32_t> vps_gb_ptr(std::uint32_t c) { return gb_ptr(c); }
#endif

// facts about the indexes ISO-2022-JP relies on (discharged by ground_iso_facts): what a code point is replaced by is in jis0208 and is not replaced again
inline std::uint32_t iso_map(std::uint32_t c) { return c == 0x2212 ? 0xFF0D : 0xFF61 <= c && c <= 0xFF9F ? cp_of(IX_iso_2022_jp_katakana, c - 0xFF61) : c; }
inline bool iso_fact(std::uint32_t c)
{
	std::uint32_t k = iso_map(c);
	if (k == c) return true;
	std::uint32_t p = ptr_of(IX_jis0208, k);
	return k >= 0x80 && k != 0xA5 && k != 0x203E && k != 0x2212 && !(0xFF61 <= k && k <= 0xFF9F) && p < 8836 && cp_of(IX_jis0208, p) == k;
}

// ---------------------------------------------------------------- items, results, queue
struct res
{
	std::uint32_t kind; // 0 finished, 1 continue, 2 items, 3 error
	std::uint32_t n;
	std::uint32_t v[4];
};
inline res r_fin() { return { 0, 0, {} }; }
inline res r_cont() { return { 1, 0, {} }; }
inline res r_err(std::uint32_t cp = VP_NULL) { return { 3, 1, { cp } }; }
inline res r_1(std::uint32_t a) { return { 2, 1, { a } }; }
inline res r_2(std::uint32_t a, std::uint32_t b) { return { 2, 2, { a, b } }; }
inline res r_3(std::uint32_t a, std::uint32_t b, std::uint32_t c) { return { 2, 3, { a, b, c } }; }
inline res r_4(std::uint32_t a, std::uint32_t b, std::uint32_t c, std::uint32_t d) { return { 2, 4, { a, b, c, d } }; }
inline bool same_res(res const& a, res const& b)
{
	bool r = a.kind == b.kind && a.n == b.n;
	for (std::uint32_t i = 0; i < 4; ++i) if (i < a.n && i < b.n) r = r & (a.v[i] == b.v[i]);
	return r;
}
inline res res_of(result_value const& r)
{
	switch (r.index())
	{
	case 0: return r_fin();
	case 1: return r_cont();
	case 2: return r_1(*std::get_if<2>(&r));
	case 3: return r_2((*std::get_if<3>(&r))[0], (*std::get_if<3>(&r))[1]);
	case 4: return r_1(*std::get_if<4>(&r));
	case 5: return r_2((*std::get_if<5>(&r))[0], (*std::get_if<5>(&r))[1]);
	case 6: return r_3((*std::get_if<6>(&r))[0], (*std::get_if<6>(&r))[1], (*std::get_if<6>(&r))[2]);
	case 7: return r_4((*std::get_if<7>(&r))[0], (*std::get_if<7>(&r))[1], (*std::get_if<7>(&r))[2], (*std::get_if<7>(&r))[3]);
	default: return r_err(std::get_if<8>(&r)->code_point);
	}
}

// the front of an input queue: what a coder pushes back
template <typename T>
struct front
{
	using value_type = io_item<T>;
	using character_type = T;
	value_type a[16];
	std::uint32_t n = 0;
	void prepend(value_type x)
	{
		for (std::uint32_t i = n; i > 0; --i) a[i] = a[i - 1];
		a[0] = x;
		++n;
	}
	void prepend(T x) { prepend(value_type{ x, false }); }
	template <typename It>
	void prepend(It first, It last)
	{
		std::uint32_t k = 0;
		for (It i = first; i != last; ++i) ++k;
		for (std::uint32_t i = n; i > 0; --i) a[i - 1 + k] = a[i - 1];
		n += k;
		for (k = 0; first != last; ++first, ++k) a[k] = value_type{ static_cast<T>(*first), false };
	}
	value_type take()
	{
		value_type r = a[0];
		--n;
		for (std::uint32_t i = 0; i < n; ++i) a[i] = a[i + 1];
		return r;
	}
};
template <typename T> using uns = std::conditional_t<sizeof(T) == 1, std::uint8_t, std::uint32_t>;
template <typename T>
inline bool same_front(front<T> const& a, front<T> const& b)
{
	// pushing end-of-queue back changes nothing (it is never removed)
	std::uint32_t n = a.n, m = b.n;
	while (n != 0 && a.a[n - 1].m_eoq) --n;
	while (m != 0 && b.a[m - 1].m_eoq) --m;
	if (n != m) return false;
	bool r = true;
	for (std::uint32_t i = 0; i < n; ++i) r = r & (a.a[i].m_value == b.a[i].m_value) & (a.a[i].m_eoq == b.a[i].m_eoq);
	return r;
}
inline bool in(std::uint32_t x, std::uint32_t lo, std::uint32_t hi) { return (lo <= x) & (x <= hi); }
inline bool scalar(std::uint32_t c) { return c <= 0xD7FF || in(c, 0xE000, 0x10FFFF); }

// ---------------------------------------------------------------- decoders of the standard
// Each is a function of the bytes of the current sequence: m(b[0..n)) plus the new byte.
using bq = front<char>;
inline void push(bq& q, std::uint32_t b) { q.prepend(static_cast<char>(b)); }

struct s_utf8 // Unicode table 3-7
{
	std::uint8_t b[4]; std::uint32_t n = 0;
	static std::uint32_t len(std::uint32_t x) { return in(x, 0xC2, 0xDF) ? 2 : in(x, 0xE0, 0xEF) ? 3 : in(x, 0xF0, 0xF4) ? 4 : 0; }
	static bool second(std::uint32_t a, std::uint32_t x)
	{
		return a == 0xE0 ? in(x, 0xA0, 0xBF) : a == 0xED ? in(x, 0x80, 0x9F) : a == 0xF0 ? in(x, 0x90, 0xBF) : a == 0xF4 ? in(x, 0x80, 0x8F) : in(x, 0x80, 0xBF);
	}
	res run(bq& q, bool eoq, std::uint8_t x)
	{
		if (eoq) { bool e = n != 0; n = 0; return e ? r_err() : r_fin(); }
		if (n == 0)
		{
			if (x < 0x80) return r_1(x);
			if (len(x) == 0) return r_err();
			b[n++] = x;
			return r_cont();
		}
		if (!(n == 1 ? second(b[0], x) : in(x, 0x80, 0xBF))) { n = 0; push(q, x); return r_err(); }
		b[n++] = x;
		if (n < len(b[0])) return r_cont();
		std::uint32_t c = n == 2 ? (b[0] - 0xC0u) * 64u + (b[1] - 0x80u) : n == 3 ? (b[0] - 0xE0u) * 4096u + (b[1] - 0x80u) * 64u + (b[2] - 0x80u)
			: (b[0] - 0xF0u) * 262144u + (b[1] - 0x80u) * 4096u + (b[2] - 0x80u) * 64u + (b[3] - 0x80u);
		n = 0;
		return r_1(c);
	}
};

template <unsigned IX> struct s_single
{
	std::uint32_t n = 0;
	res run(bq&, bool eoq, std::uint8_t x)
	{
		if (eoq) return r_fin();
		if (x < 0x80) return r_1(x);
		std::uint32_t c = cp_of(IX, x - 0x80u);
		return c == VP_NULL ? r_err() : r_1(c);
	}
};

struct s_gb18030
{
	std::uint8_t b[4]; std::uint32_t n = 0;
	res run(bq& q, bool eoq, std::uint8_t x)
	{
		if (eoq) { bool e = n != 0; n = 0; return e ? r_err() : r_fin(); }
		if (n == 3)
		{
			n = 0;
			if (!in(x, 0x30, 0x39)) { push(q, x); push(q, b[2]); push(q, b[1]); return r_err(); }
			std::uint32_t c = gb_cp((b[0] - 0x81u) * 12600u + (b[1] - 0x30u) * 1260u + (b[2] - 0x81u) * 10u + (x - 0x30u));
			return c == VP_NULL ? r_err() : r_1(c);
		}
		if (n == 2)
		{
			if (in(x, 0x81, 0xFE)) { b[n++] = x; return r_cont(); }
			n = 0;
			push(q, x); push(q, b[1]);
			return r_err();
		}
		if (n == 1)
		{
			if (in(x, 0x30, 0x39)) { b[n++] = x; return r_cont(); }
			n = 0;
			std::uint32_t c = VP_NULL;
			if (in(x, 0x40, 0x7E) || in(x, 0x80, 0xFE)) c = cp_of(IX_gb18030, (b[0] - 0x81u) * 190u + x - (x < 0x7F ? 0x40u : 0x41u));
			if (c != VP_NULL) return r_1(c);
			if (x < 0x80) push(q, x);
			return r_err();
		}
		if (x < 0x80) return r_1(x);
		if (x == 0x80) return r_1(0x20AC);
		if (x == 0xFF) return r_err();
		b[n++] = x;
		return r_cont();
	}
};

struct s_big5
{
	std::uint8_t b[1]; std::uint32_t n = 0;
	res run(bq& q, bool eoq, std::uint8_t x)
	{
		if (eoq) { bool e = n != 0; n = 0; return e ? r_err() : r_fin(); }
		if (n == 1)
		{
			n = 0;
			std::uint32_t c = VP_NULL;
			if (in(x, 0x40, 0x7E) || in(x, 0xA1, 0xFE))
			{
				std::uint32_t p = (b[0] - 0x81u) * 157u + x - (x < 0x7F ? 0x40u : 0x62u);
				if (p == 1133) return r_2(0xCA, 0x304);
				if (p == 1135) return r_2(0xCA, 0x30C);
				if (p == 1164) return r_2(0xEA, 0x304);
				if (p == 1166) return r_2(0xEA, 0x30C);
				c = cp_of(IX_big5, p);
			}
			if (c != VP_NULL) return r_1(c);
			if (x < 0x80) push(q, x);
			return r_err();
		}
		if (x < 0x80) return r_1(x);
		if (x == 0x80 || x == 0xFF) return r_err();
		b[n++] = x;
		return r_cont();
	}
};

struct s_euc_jp
{
	std::uint8_t b[2]; std::uint32_t n = 0;
	res run(bq& q, bool eoq, std::uint8_t x)
	{
		if (eoq) { bool e = n != 0; n = 0; return e ? r_err() : r_fin(); }
		if (n == 1 && b[0] == 0x8E && in(x, 0xA1, 0xDF)) { n = 0; return r_1(0xFF61u + x - 0xA1u); }
		if (n == 1 && b[0] == 0x8F && in(x, 0xA1, 0xFE)) { b[n++] = x; return r_cont(); }
		if (n != 0)
		{
			std::uint32_t l = b[n - 1], id = n == 2 ? IX_jis0212 : IX_jis0208, c = VP_NULL;
			n = 0;
			if (in(l, 0xA1, 0xFE) && in(x, 0xA1, 0xFE)) c = cp_of(id, (l - 0xA1u) * 94u + x - 0xA1u);
			if (c != VP_NULL) return r_1(c);
			if (x < 0x80) push(q, x);
			return r_err();
		}
		if (x < 0x80) return r_1(x);
		if (x != 0x8E && x != 0x8F && !in(x, 0xA1, 0xFE)) return r_err();
		b[n++] = x;
		return r_cont();
	}
};

struct s_shift_jis
{
	std::uint8_t b[1]; std::uint32_t n = 0;
	res run(bq& q, bool eoq, std::uint8_t x)
	{
		if (eoq) { bool e = n != 0; n = 0; return e ? r_err() : r_fin(); }
		if (n == 1)
		{
			n = 0;
			std::uint32_t c = VP_NULL;
			if (in(x, 0x40, 0x7E) || in(x, 0x80, 0xFC))
			{
				std::uint32_t p = (b[0] - (b[0] < 0xA0 ? 0x81u : 0xC1u)) * 188u + x - (x < 0x7F ? 0x40u : 0x41u);
				if (in(p, 8836, 10715)) return r_1(0xE000u - 8836u + p);
				c = cp_of(IX_jis0208, p);
			}
			if (c != VP_NULL) return r_1(c);
			if (x < 0x80) push(q, x);
			return r_err();
		}
		if (x <= 0x80) return r_1(x);
		if (in(x, 0xA1, 0xDF)) return r_1(0xFF61u + x - 0xA1u);
		if (!in(x, 0x81, 0x9F) && !in(x, 0xE0, 0xFC)) return r_err();
		b[n++] = x;
		return r_cont();
	}
};

struct s_euc_kr
{
	std::uint8_t b[1]; std::uint32_t n = 0;
	res run(bq& q, bool eoq, std::uint8_t x)
	{
		if (eoq) { bool e = n != 0; n = 0; return e ? r_err() : r_fin(); }
		if (n == 1)
		{
			n = 0;
			std::uint32_t c = VP_NULL;
			if (in(x, 0x41, 0xFE)) c = cp_of(IX_euc_kr, (b[0] - 0x81u) * 190u + x - 0x41u);
			if (c != VP_NULL) return r_1(c);
			if (x < 0x80) push(q, x);
			return r_err();
		}
		if (x < 0x80) return r_1(x);
		if (x == 0x80 || x == 0xFF) return r_err();
		b[n++] = x;
		return r_cont();
	}
};

struct s_replacement
{
	std::uint32_t n = 0;
	res run(bq&, bool eoq, std::uint8_t)
	{
		if (eoq || n == 1) return r_fin();
		n = 1;
		return r_err();
	}
};

template <bool BE> struct s_utf16
{
	std::uint8_t b[4]; std::uint32_t n = 0;
	static std::uint32_t unit(std::uint32_t x, std::uint32_t y) { return BE ? x * 256 + y : y * 256 + x; }
	res run(bq& q, bool eoq, std::uint8_t x)
	{
		if (eoq) { bool e = n != 0; n = 0; return e ? r_err() : r_fin(); }
		if ((n & 1) == 0) { b[n++] = x; return r_cont(); }
		std::uint32_t u = unit(b[n - 1], x);
		if (n == 1)
		{
			if (in(u, 0xD800, 0xDBFF)) { b[n++] = x; return r_cont(); }
			n = 0;
			return in(u, 0xDC00, 0xDFFF) ? r_err() : r_1(u);
		}
		std::uint32_t h = unit(b[0], b[1]), p = b[2];
		n = 0;
		if (in(u, 0xDC00, 0xDFFF)) return r_1(0x10000u + (h - 0xD800u) * 1024u + (u - 0xDC00u));
		push(q, x); push(q, p);
		return r_err();
	}
};

struct s_x_user_defined
{
	std::uint32_t n = 0;
	res run(bq&, bool eoq, std::uint8_t x) { return eoq ? r_fin() : r_1(x < 0x80 ? x : 0xF700u + x); }
};

// ISO-2022-JP: output mode, pending bytes of an escape or a double-byte character, and whether anything was output since the last escape
struct s_iso_2022_jp
{
	enum mode : std::uint32_t { ascii, roman, kata, jis };
	std::uint32_t m = ascii;
	bool flag = false;      // an escape was just accepted
	std::uint32_t n = 0;    // 1: lead seen, 2: ESC seen, 3: ESC ( or ESC $ seen
	std::uint8_t lead = 0;  // the pending byte for n = 1 and n = 3
	res run(bq& q, bool eoq, std::uint8_t x)
	{
		if (n == 0)
		{
			if (eoq) return r_fin();
			if (x == 0x1B) { n = 2; return r_cont(); }
			flag = false;
			switch (m)
			{
			case ascii: return x < 0x80 && x != 0x0E && x != 0x0F ? r_1(x) : r_err();
			case roman: return x == 0x5C ? r_1(0xA5) : x == 0x7E ? r_1(0x203E) : x < 0x80 && x != 0x0E && x != 0x0F ? r_1(x) : r_err();
			case kata: return in(x, 0x21, 0x5F) ? r_1(0xFF61u - 0x21u + x) : r_err();
			default:
				if (!in(x, 0x21, 0x7E)) return r_err();
				lead = x; n = 1;
				return r_cont();
			}
		}
		if (n == 1)
		{
			if (eoq) { n = 0; return r_err(); }
			if (x == 0x1B) { n = 2; return r_err(); }
			n = 0;
			if (!in(x, 0x21, 0x7E)) return r_err();
			std::uint32_t c = cp_of(IX_jis0208, (lead - 0x21u) * 94u + x - 0x21u);
			return c == VP_NULL ? r_err() : r_1(c);
		}
		if (n == 2)
		{
			if (!eoq && (x == 0x24 || x == 0x28)) { lead = x; n = 3; return r_cont(); }
			if (!eoq) push(q, x);
			flag = false; n = 0;
			return r_err();
		}
		n = 0;
		std::uint32_t t = 9;
		if (!eoq)
		{
			if (lead == 0x28 && x == 0x42) t = ascii;
			if (lead == 0x28 && x == 0x4A) t = roman;
			if (lead == 0x28 && x == 0x49) t = kata;
			if (lead == 0x24 && (x == 0x40 || x == 0x42)) t = jis;
		}
		if (t != 9)
		{
			m = t;
			bool f = flag;
			flag = true;
			return f ? r_err() : r_cont();
		}
		if (!eoq) push(q, x);
		push(q, lead);
		flag = false;
		return r_err();
	}
};

// ---------------------------------------------------------------- encoders of the standard
using cq = front<char32_t>;
inline std::uint32_t byte(std::uint32_t x) { return x & 0xFF; }

struct e_utf8
{
	res run(cq&, bool eoq, std::uint32_t c)
	{
		if (eoq) return r_fin();
		if (c < 0x80) return r_1(c);
		if (c < 0x800) return r_2(0xC0 + c / 64, 0x80 + c % 64);
		if (c < 0x10000) return r_3(0xE0 + c / 4096, 0x80 + c / 64 % 64, 0x80 + c % 64);
		return r_4(0xF0 + c / 262144, 0x80 + c / 4096 % 64, 0x80 + c / 64 % 64, 0x80 + c % 64);
	}
};
template <unsigned IX> struct e_single
{
	res run(cq&, bool eoq, std::uint32_t c)
	{
		if (eoq) return r_fin();
		if (c < 0x80) return r_1(c);
		std::uint32_t p = ptr_of(IX, c);
		return p == VP_NULL ? r_err(c) : r_1(byte(p + 0x80));
	}
};
template <bool GBK> struct e_gb18030
{
	res run(cq&, bool eoq, std::uint32_t c)
	{
		if (eoq) return r_fin();
		if (c < 0x80) return r_1(c);
		if (c == 0xE5E5) return r_err(c);
		if (GBK && c == 0x20AC) return r_1(0x80);
		std::uint32_t p = ptr_of(IX_gb18030, c);
		if (p != VP_NULL) return r_2(byte(p / 190 + 0x81), byte(p % 190 + (p % 190 < 0x3F ? 0x40 : 0x41)));
		if (GBK) return r_err(c);
		p = gb_ptr(c);
		return r_4(byte(p / 12600 + 0x81), byte(p % 12600 / 1260 + 0x30), byte(p % 12600 % 1260 / 10 + 0x81), byte(p % 12600 % 1260 % 10 + 0x30));
	}
};
struct e_big5
{
	res run(cq&, bool eoq, std::uint32_t c)
	{
		if (eoq) return r_fin();
		if (c < 0x80) return r_1(c);
		std::uint32_t p = ptr_of(IX_big5_ptr, c);
		if (p == VP_NULL) return r_err(c);
		return r_2(byte(p / 157 + 0x81), byte(p % 157 + (p % 157 < 0x3F ? 0x40 : 0x62)));
	}
};
struct e_euc_jp
{
	res run(cq&, bool eoq, std::uint32_t c)
	{
		if (eoq) return r_fin();
		if (c < 0x80) return r_1(c);
		if (c == 0xA5) return r_1(0x5C);
		if (c == 0x203E) return r_1(0x7E);
		if (in(c, 0xFF61, 0xFF9F)) return r_2(0x8E, c - 0xFF61 + 0xA1);
		if (c == 0x2212) c = 0xFF0D;
		std::uint32_t p = ptr_of(IX_jis0208, c);
		return p == VP_NULL ? r_err(c) : r_2(byte(p / 94 + 0xA1), byte(p % 94 + 0xA1));
	}
};
struct e_shift_jis
{
	res run(cq&, bool eoq, std::uint32_t c)
	{
		if (eoq) return r_fin();
		if (c <= 0x80) return r_1(c);
		if (c == 0xA5) return r_1(0x5C);
		if (c == 0x203E) return r_1(0x7E);
		if (in(c, 0xFF61, 0xFF9F)) return r_1(c - 0xFF61 + 0xA1);
		if (c == 0x2212) c = 0xFF0D;
		std::uint32_t p = ptr_of(IX_shift_jis_ptr, c);
		if (p == VP_NULL) return r_err(c);
		std::uint32_t l = p / 188, t = p % 188;
		return r_2(byte(l + (l < 0x1F ? 0x81 : 0xC1)), byte(t + (t < 0x3F ? 0x40 : 0x41)));
	}
};
struct e_euc_kr
{
	res run(cq&, bool eoq, std::uint32_t c)
	{
		if (eoq) return r_fin();
		if (c < 0x80) return r_1(c);
		std::uint32_t p = ptr_of(IX_euc_kr, c);
		return p == VP_NULL ? r_err(c) : r_2(byte(p / 190 + 0x81), byte(p % 190 + 0x41));
	}
};
struct e_x_user_defined
{
	res run(cq&, bool eoq, std::uint32_t c)
	{
		if (eoq) return r_fin();
		if (c < 0x80) return r_1(c);
		return in(c, 0xF780, 0xF7FF) ? r_1(c - 0xF780 + 0x80) : r_err(c);
	}
};
struct e_iso_2022_jp
{
	std::uint32_t m = 0; // 0 ASCII, 1 Roman, 2 jis0208
	res run(cq& q, bool eoq, std::uint32_t c)
	{
		if (eoq)
		{
			if (m == 0) return r_fin();
			m = 0;
			return r_3(0x1B, 0x28, 0x42); // end-of-queue is seen again
		}
		if (m != 2 && (c == 0x0E || c == 0x0F || c == 0x1B)) return r_err(0xFFFD);
		if (m == 0 && c < 0x80) return r_1(c);
		if (m == 1 && c < 0x80 && c != 0x5C && c != 0x7E) return r_1(c);
		if (m == 1 && c == 0xA5) return r_1(0x5C);
		if (m == 1 && c == 0x203E) return r_1(0x7E);
		if (c < 0x80) { q.prepend(static_cast<char32_t>(c)); m = 0; return r_3(0x1B, 0x28, 0x42); }
		if (c == 0xA5 || c == 0x203E) { q.prepend(static_cast<char32_t>(c)); m = 1; return r_3(0x1B, 0x28, 0x4A); }
		if (c == 0x2212) c = 0xFF0D;
		if (in(c, 0xFF61, 0xFF9F)) c = cp_of(IX_iso_2022_jp_katakana, c - 0xFF61);
		std::uint32_t p = ptr_of(IX_jis0208, c);
		if (p == VP_NULL)
		{
			if (m == 2) { q.prepend(static_cast<char32_t>(c)); m = 0; return r_3(0x1B, 0x28, 0x42); }
			return r_err(c);
		}
		if (m != 2) { q.prepend(static_cast<char32_t>(c)); m = 2; return r_3(0x1B, 0x24, 0x42); }
		return r_2(byte(p / 94 + 0x21), byte(p % 94 + 0x21));
	}
};
