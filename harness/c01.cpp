// C01: decoders (whatwg/encoding/coder.hpp, indexes)
#include "enc.h"

template <typename D, typename S>
static res both(D& d, S& s, bq& q, bool eoq, std::uint8_t x)
{
	bq qs;
	res want = s.run(qs, eoq, x);
	io_item<char> item{ static_cast<char>(x), eoq };
	res got = res_of(d.run(q, item));
	vp_assert(same_res(got, want), "the result of the step is the standard's");
	vp_assert(same_front(q, qs), "exactly the bytes the standard names are read again");
	return want;
}

template <typename D>
static void settle(D const& d, D const& c, char const* what)
{
	if constexpr (!std::is_empty_v<D>) vp_lemma(vp_covered(&d, &c, sizeof(D)), what);
}

// One step from every state a decoder can be in. The state after any history of items is the one
// reached by the pending bytes alone (lemma, re-established by every step): induction over the stream.
template <typename D, typename S, std::uint32_t MAX>
static void step()
{
	std::uint32_t n = static_cast<std::uint32_t>(vp_concretize(vp_range(0, MAX)));
	D d;
	S s;
	for (std::uint32_t i = 0; i < n; ++i)
	{
		bq q;
		std::uint8_t x = vp_nondet_u8();
		res r = both(d, s, q, false, x);
		vp_assume(r.kind == 1);
	}
	bool eoq = vp_nondet_bool();
	std::uint8_t x = vp_nondet_u8();
	bq q;
	res r = both(d, s, q, eoq, x);
	if (!eoq)
	{
		D c;
		if constexpr (MAX != 0)
			for (std::uint32_t i = 0; i < s.n; ++i) { bq t; c.run(t, io_item<char>{ static_cast<char>(s.b[i]), false }); }
		settle(d, c, "the state is the one reached by the pending bytes");
	}
	else if (r.kind == 3)
	{
		bq t;
		vp_assert(res_of(d.run(t, io_item<char>{ '\0', true })).kind == 0 && t.n == 0, "decoding finishes after an incomplete sequence at the end");
	}
	vp_cover("done");
}

// lockstep from the fresh decoder: BOUNDED (K items for the verifier, longer random streams natively)
template <typename D, typename S>
static void lockstep(std::uint32_t k)
{
#ifdef VP_NATIVE
	k = vp_range(1, 40);
#endif
	D d;
	S s;
	bq pend;
	for (std::uint32_t i = 0; i < k; ++i)
	{
		std::uint8_t x;
		if (pend.n != 0) x = static_cast<std::uint8_t>(pend.take().m_value);
		else x = vp_nondet_u8();
		bq q;
		res r = both(d, s, q, false, x);
		if (r.kind == 0) return;
		while (q.n != 0)
		{
			io_item<char> b = q.a[q.n - 1];
			--q.n;
			pend.prepend(b);
		}
	}
	vp_cover("done");
}

#define DECODER(name, D, S, MAX, K, ...) \
VP_ENTRY(step_##name) { VP_NATIVE_POOL(50, __VA_ARGS__); step<D, S, MAX>(); } \
VP_ENTRY(lockstep_##name) { VP_NATIVE_POOL(60, __VA_ARGS__); lockstep<D, S>(K); }
using utf16be = s_utf16<true>;
using utf16le = s_utf16<false>;
DECODER(utf8, UTF_8_decoder, s_utf8, 3, 4, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF)
DECODER(gb18030, gb18030_decoder, s_gb18030, 3, 4, 0x30, 0x35, 0x39, 0x3A, 0x40, 0x7E, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x90, 0xA1, 0xE3, 0xFE, 0xFF)
DECODER(big5, Big5_decoder, s_big5, 1, 3, 0x40, 0x62, 0x64, 0x7E, 0x7F, 0x80, 0x81, 0x87, 0x88, 0xA0, 0xA1, 0xA3, 0xA5, 0xA4, 0xC6, 0xF9, 0xFE, 0xFF)
DECODER(euc_jp, EUC_JP_decoder, s_euc_jp, 2, 4, 0x41, 0x80, 0x8E, 0x8F, 0xA0, 0xA1, 0xA2, 0xDF, 0xE0, 0xF4, 0xFE, 0xFF)
DECODER(shift_jis, Shift_JIS_decoder, s_shift_jis, 1, 3, 0x3F, 0x40, 0x7E, 0x7F, 0x80, 0x81, 0x9F, 0xA0, 0xA1, 0xDF, 0xE0, 0xEF, 0xF0, 0xF9, 0xFA, 0xFC, 0xFD)
DECODER(euc_kr, EUC_KR_decoder, s_euc_kr, 1, 3, 0x40, 0x41, 0x5A, 0x61, 0x80, 0x81, 0xA1, 0xB0, 0xC8, 0xFE, 0xFF)
DECODER(utf16be, UTF_16BE_decoder, utf16be, 3, 6, 0, 0x41, 0xD7, 0xD8, 0xDB, 0xDC, 0xDF, 0xE0, 0xFF)
DECODER(utf16le, UTF_16LE_decoder, utf16le, 3, 6, 0, 0x41, 0xD7, 0xD8, 0xDB, 0xDC, 0xDF, 0xE0, 0xFF)
DECODER(x_user_defined, x_user_defined_decoder, s_x_user_defined, 0, 2, 0, 0x7F, 0x80, 0xFF)
VP_ENTRY(lockstep_replacement) { lockstep<replacement_decoder, s_replacement>(3); }
VP_ENTRY(step_replacement)
{
	replacement_decoder d;
	s_replacement s;
	bool later = vp_nondet_bool();
	if (later) { bq q; both(d, s, q, false, vp_nondet_u8()); }
	bq q;
	both(d, s, q, vp_nondet_bool(), vp_nondet_u8());
	replacement_decoder c;
	if (s.n != 0) { bq t; c.run(t, io_item<char>{ 'a', false }); }
	settle(d, c, "the state is whether the error was reported");
	vp_cover("done");
}

// ISO-2022-JP: the state is (mode, escape flag, pending bytes, stale lead byte)
static void iso_feed(ISO_2022_JP_decoder& d, s_iso_2022_jp& s, std::uint8_t x)
{
	bq q;
	both(d, s, q, false, x);
}
static void iso_canon(ISO_2022_JP_decoder& d, s_iso_2022_jp& s, std::uint32_t m, bool flag, bool stale, std::uint8_t l, std::uint32_t n, std::uint8_t lead)
{
	if (m != 0 || flag)
	{
		iso_feed(d, s, 0x1B);
		iso_feed(d, s, m == 3 ? 0x24 : 0x28);
		iso_feed(d, s, m == 1 ? 0x4A : m == 2 ? 0x49 : 0x42);
	}
	if (stale) { iso_feed(d, s, l); iso_feed(d, s, 0x21); }
	else if (!flag && m != 0) iso_feed(d, s, 0x80); // an error also counts as output
	if (n == 1) iso_feed(d, s, lead);
	if (n >= 2) iso_feed(d, s, 0x1B);
	if (n == 3) iso_feed(d, s, lead);
}
VP_ENTRY(step_iso_2022_jp)
{
	VP_NATIVE_POOL(60, 0x1B, 0x24, 0x28, 0x40, 0x42, 0x49, 0x4A, 0x21, 0x7E, 0x5C, 0x0E, 0x0F, 0x80);
	std::uint32_t m = static_cast<std::uint32_t>(vp_concretize(vp_range(0, 3)));
	std::uint32_t n = static_cast<std::uint32_t>(vp_concretize(vp_range(0, 3)));
	bool flag = vp_concretize(vp_range(0, 1)) != 0, stale = vp_concretize(vp_range(0, 1)) != 0;
	vp_assume(!(n == 1 && m != 3) && !(stale && (m != 3 || flag)) && !(flag && n == 1));
	std::uint8_t l = static_cast<std::uint8_t>(vp_range(0x21, 0x7E)), lead = n == 3 ? (vp_nondet_bool() ? 0x24 : 0x28) : static_cast<std::uint8_t>(vp_range(0x21, 0x7E));
	ISO_2022_JP_decoder d;
	s_iso_2022_jp s;
	iso_canon(d, s, m, flag, stale, l, n, lead);
	vp_assert(s.m == m && s.n == n && s.flag == flag, "the history reaches the intended state");
	bool eoq = vp_nondet_bool();
	std::uint8_t x = vp_nondet_u8();
	bq q;
	res r = both(d, s, q, eoq, x);
	if (eoq && r.kind == 3 && q.n == 0)
	{
		bq t;
		vp_assert(res_of(d.run(t, io_item<char>{ '\0', true })).kind == 0, "decoding finishes after an incomplete sequence at the end");
	}
	if (!eoq || n == 3)
	{
		// the byte left in ISO_2022_JP_lead
		std::uint8_t left = n == 1 ? lead : stale && n != 3 ? l : 0;
		bool st = left != 0 && s.m == 3 && s.n != 1 && s.n != 3;
		ISO_2022_JP_decoder c;
		s_iso_2022_jp z;
		iso_canon(c, z, s.m, s.flag, st, left, s.n, s.lead);
		settle(d, c, "the state is the one reached by a canonical history");
	}
	vp_cover("done");
}
VP_ENTRY(lockstep_iso_2022_jp)
{
	VP_NATIVE_POOL(80, 0x1B, 0x1B, 0x1B, 0x24, 0x24, 0x28, 0x28, 0x40, 0x42, 0x42, 0x49, 0x4A, 0x21, 0x7E, 0x5C, 0x0E, 0x0F, 0x80);
	lockstep<ISO_2022_JP_decoder, s_iso_2022_jp>(4);
}

// the 27 single-byte encodings, each against its own index
#define X(n) VP_ENTRY(single_##n) { step<single_byte_decoder<index_code_point_##n>, s_single<IX_##n>, 0>(); }
VP_SINGLE_INDEXES(X)
#undef X

#ifdef VP_NATIVE
#define GROUND 1
#else
#define GROUND 0
#endif
// complete evaluation of the lookups against the committed indexes (discharges the contracts of enc.h)
VP_ENTRY(ground_tables)
{
	if (!GROUND) return;
#define X(n) for (std::uint32_t p = 0; p < 0x10000; ++p) vp_assert(get_index_code_point<index_code_point_##n>(static_cast<std::uint16_t>(p)).value_or(VP_NULL) == cp_of(IX_##n, p), "index code point: " #n);
	VP_MULTI_INDEXES(X) VP_SINGLE_INDEXES(X)
#undef X
	for (std::uint32_t p = 0; p < 1600000; ++p) vp_assert(get_index_gb18030_ranges_code_point(p).value_or(VP_NULL) == gb_cp(p), "index gb18030 ranges code point");
	vp_cover("done");
}
