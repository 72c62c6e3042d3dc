// Ghost data used by the contracts: an unbounded input of code points, iterators
// that present it as clean UTF-8/16/32, and output containers that check every
// element they receive against the specification the moment it arrives.
#pragma once
#include "vp.h"
#include <iterator>

// ---- Unicode encoding forms, written from the Unicode standard (chapter 3.9) ----
extern "C" inline bool vpp_scalar(std::uint32_t c) { return c <= 0x10FFFF && !(0xD800 <= c && c <= 0xDFFF); }

extern "C" inline std::uint32_t vpp_len(std::uint32_t w, std::uint32_t c)
{
	if (w == 1) return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
	if (w == 2) return c < 0x10000 ? 1 : 2;
	return 1;
}
extern "C" inline std::uint32_t vpp_unit(std::uint32_t w, std::uint32_t c, std::uint32_t k)
{
	if (w == 1)
	{
		if (c < 0x80) return c;
		if (c < 0x800) return k == 0 ? (0xC0 | (c >> 6)) : (0x80 | (c & 0x3F));
		if (c < 0x10000) return k == 0 ? (0xE0 | (c >> 12)) : k == 1 ? (0x80 | ((c >> 6) & 0x3F)) : (0x80 | (c & 0x3F));
		return k == 0 ? (0xF0 | (c >> 18)) : k == 1 ? (0x80 | ((c >> 12) & 0x3F)) : k == 2 ? (0x80 | ((c >> 6) & 0x3F)) : (0x80 | (c & 0x3F));
	}
	if (w == 2)
	{
		if (c < 0x10000) return c;
		std::uint32_t u = c - 0x10000;
		return k == 0 ? (0xD800 | (u >> 10)) : (0xDC00 | (u & 0x3FF));
	}
	return c;
}

// ---- unbounded input of scalar values ----
inline std::uint32_t* g_cps;
inline std::uint64_t g_n;

inline std::uint32_t g_at(std::uint64_t i)
{
#ifdef VP_NATIVE
	std::uint32_t& c = g_cps[i];
	if (!vpp_scalar(c)) c = c % 0xD800;
	return c;
#else
	std::uint32_t c = g_cps[i];
	vp_assume(vpp_scalar(c));
	return c;
#endif
}
inline void g_input(std::uint64_t native_max)
{
	g_n = vp_length(native_max);
	g_cps = static_cast<std::uint32_t*>(vp_new_array(g_n, 4));
}

// forward iterator over g_cps presented as units of W bytes
template <typename Unit>
struct g_iter
{
	using value_type = Unit;
	using difference_type = std::ptrdiff_t;
	using pointer = Unit const*;
	using reference = Unit;
	using iterator_category = std::forward_iterator_tag;

	std::uint64_t i = 0;
	std::uint64_t k = 0;

	Unit operator*() const
	{
		vp_assert(i < g_n, "input is never read past its end");
		return static_cast<Unit>(vpp_unit(sizeof(Unit), g_at(i), static_cast<std::uint32_t>(k)));
	}
	g_iter& operator++()
	{
		vp_assert(i < g_n, "input is never advanced past its end");
		if (k + 1 == vpp_len(sizeof(Unit), g_at(i))) { ++i; k = 0; }
		else ++k;
		return *this;
	}
	g_iter operator++(int) { g_iter r = *this; ++*this; return r; }
	friend bool operator==(g_iter const& a, g_iter const& b) { return a.i == b.i && a.k == b.k; }
	friend bool operator!=(g_iter const& a, g_iter const& b) { return !(a == b); }
};

// ---- bounded recorder ----
template <typename Unit, unsigned N = 16>
struct g_rec
{
	using value_type = Unit;
	std::uint32_t v[N];
	std::uint32_t n = 0;
	void push_back(Unit u)
	{
		vp_assert(n < N, "no more output than the specification allows");
		v[n++] = static_cast<std::make_unsigned_t<Unit>>(u);
	}
	std::uint32_t at(std::uint32_t i) const { return v[i]; }
};

// ---- output checked against g_cps as it is produced ----
template <typename Unit>
struct g_sink
{
	using value_type = Unit;
	std::uint64_t i = 0;
	std::uint64_t k = 0;
	void push_back(Unit u)
	{
		vp_assert(i < g_n, "no more output than the specification allows");
		std::uint32_t c = g_at(i);
		vp_assert(static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<Unit>>(u)) == vpp_unit(sizeof(Unit), c, static_cast<std::uint32_t>(k)), "output unit equals the specified one");
		if (k + 1 == vpp_len(sizeof(Unit), c)) { ++i; k = 0; }
		else ++k;
	}
	bool complete() const { return i == g_n && k == 0; }
};
