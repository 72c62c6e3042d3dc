// C02: encoders (whatwg/encoding/coder.hpp, indexes)
#include "enc.h"

static std::uint32_t any_scalar()
{
	std::uint32_t c = vp_range(0, 0x10FFFF);
	vp_assume(scalar(c));
	return c;
}

template <typename D, typename S>
static res both(D& d, S& s, cq& q, bool eoq, std::uint32_t x)
{
	cq qs;
	res want = s.run(qs, eoq, x);
	io_item<char32_t> item{ static_cast<char32_t>(x), eoq };
	res got = res_of(d.run(q, item));
	vp_assert(same_res(got, want), "the result of the step is the standard's");
	vp_assert(same_front(q, qs), "exactly the code points the standard names are read again");
	return want;
}

// the stateless encoders: one step is everything
template <typename D, typename S>
static void step()
{
	D d;
	S s;
	cq q;
	if constexpr (!std::is_empty_v<D>) { cq t; both(d, s, t, false, any_scalar()); }
	both(d, s, q, vp_nondet_bool(), any_scalar());
	vp_cover("done");
}
#define ENCODER(name, D, ...) \
using spec_##name = __VA_ARGS__; \
VP_ENTRY(step_##name) { step<D, spec_##name>(); } \
VP_ENTRY(ground_##name) \
{ \
	for (std::uint32_t c = 0; c < 0x110000; ++c) if (scalar(c)) { D d; spec_##name s; cq q; both(d, s, q, false, c); } \
}
ENCODER(utf8, UTF_8_encoder, e_utf8)
ENCODER(gb18030, gb18030_encoder, e_gb18030<false>)
ENCODER(gbk, GBK_encoder, e_gb18030<true>)
ENCODER(big5, Big5_encoder, e_big5)
ENCODER(euc_jp, EUC_JP_encoder, e_euc_jp)
ENCODER(shift_jis, Shift_JIS_encoder, e_shift_jis)
ENCODER(euc_kr, EUC_KR_encoder, e_euc_kr)
ENCODER(x_user_defined, x_user_defined_encoder, e_x_user_defined)
#define COMMA ,
#define X(n) using enc_##n = single_byte_encoder<index_pointer_##n##_0, index_pointer_##n##_1>; \
	VP_ENTRY(single_##n) { step<enc_##n, e_single<IX_##n>>(); }
VP_SINGLE_INDEXES(X)
#undef X

// ISO-2022-JP: the state is the mode alone (lemma), every mode is reached by a one-character history
static void iso_canon(ISO_2022_JP_encoder& d, e_iso_2022_jp& s, std::uint32_t m, std::uint32_t kanji)
{
	cq q;
	if (m == 1) both(d, s, q, false, 0xA5);
	if (m == 2) both(d, s, q, false, kanji);
}
VP_ENTRY(step_iso_2022_jp)
{
	VP_NATIVE_POOL(60, 0x0E, 0x0F, 0x1B, 0x41, 0x5C, 0x7E, 0x7F, 0x80, 0xA5, 0x203E, 0x2212, 0xFF0D, 0x3042, 0x4E9C, 0x00E9, 0xFF61, 0xFF9F, 0x1F600);
	std::uint32_t m = static_cast<std::uint32_t>(vp_concretize(vp_range(0, 2)));
	std::uint32_t kanji = 0x3042; // HIRAGANA LETTER A
	vp_assume(ptr_of(IX_jis0208, kanji) != VP_NULL);
	ISO_2022_JP_encoder d;
	e_iso_2022_jp s;
	iso_canon(d, s, m, kanji);
	vp_assert(s.m == m, "the history reaches the intended mode");
	cq q;
	both(d, s, q, vp_nondet_bool(), any_scalar());
	ISO_2022_JP_encoder c;
	e_iso_2022_jp z;
	iso_canon(c, z, s.m, kanji);
	vp_lemma(vp_covered(&d, &c, sizeof d), "the state is the mode");
	vp_cover("done");
}
// lockstep from the fresh encoder: BOUNDED
VP_ENTRY(lockstep_iso_2022_jp)
{
	VP_NATIVE_POOL(80, 0x0E, 0x0F, 0x1B, 0x41, 0x5C, 0x7E, 0x7F, 0x80, 0xA5, 0x203E, 0x2212, 0xFF0D, 0x3042, 0x4E9C, 0x00E9, 0xFF61, 0xFF9F, 0x1F600);
	std::uint32_t k = 2;
#ifdef VP_NATIVE
	k = vp_range(1, 30);
#endif
	ISO_2022_JP_encoder d;
	e_iso_2022_jp s;
	bool again = false;
	std::uint32_t c = 0;
	for (std::uint32_t i = 0; i < k; ++i)
	{
		if (!again) c = any_scalar();
		cq q;
		both(d, s, q, false, c);
		again = q.n != 0;
		if (again) c = q.a[0].m_value;
	}
	if (!again)
	{
		cq q;
		res r = both(d, s, q, true, 0);
		if (r.kind != 0) { cq t; r = both(d, s, t, true, 0); }
		vp_assert(r.kind == 0, "encoding finishes");
	}
	vp_cover("done");
}
// an unencodable or any other code point is consumed after at most two switches of mode
VP_ENTRY(progress_iso_2022_jp)
{
	std::uint32_t m = static_cast<std::uint32_t>(vp_concretize(vp_range(0, 2)));
	std::uint32_t kanji = 0x3042;
	vp_assume(ptr_of(IX_jis0208, kanji) != VP_NULL);
	ISO_2022_JP_encoder d;
	e_iso_2022_jp s;
	iso_canon(d, s, m, kanji);
	std::uint32_t c = any_scalar();
	vp_assume(iso_fact(c));
	bool again = true;
	for (std::uint32_t i = 0; i < 3 && again; ++i)
	{
		cq q;
		both(d, s, q, false, c);
		again = q.n != 0;
		if (again) c = q.a[0].m_value;
	}
	vp_assert(!again, "every code point is consumed");
	vp_cover("done");
}

VP_ENTRY(ground_tables)
{
#ifdef VP_NATIVE
#define X(n) for (std::uint32_t c = 0; c < 0x110800; ++c) \
	{ auto v = get_index_pointer<index_pointer_##n##_0, index_pointer_##n##_1>(c); vp_assert(IX_##n == IX_big5 || (v ? *v : VP_NULL) == ptr_of(IX_##n, c), "index pointer: " #n); }
	VP_MULTI_INDEXES(X) VP_SINGLE_INDEXES(X)
#undef X
	for (std::uint32_t c = 0; c < 0x110000; ++c) vp_assert(iso_fact(c), "facts of ISO-2022-JP");
	for (std::uint32_t c = 0; c < 0x110000; ++c)
	{
		auto v = get_index_shift_jis_pointer(c);
		vp_assert((v ? *v : VP_NULL) == ptr_of(IX_shift_jis_ptr, c), "index Shift_JIS pointer");
		v = get_index_big5_pointer(c);
		vp_assert((v ? *v : VP_NULL) == ptr_of(IX_big5_ptr, c), "index Big5 pointer");
		if (c >= 0x80 && scalar(c)) vp_assert(get_index_gb18030_ranges_pointer(c).value_or(VP_NULL) == gb_ptr(c), "index gb18030 ranges pointer");
	}
	for (std::uint32_t p = 0; p < 0x10000; ++p)
		vp_assert(get_index_code_point<index_code_point_iso_2022_jp_katakana>(static_cast<std::uint16_t>(p)).value_or(VP_NULL) == cp_of(IX_iso_2022_jp_katakana, p), "index ISO-2022-JP katakana");
#endif
}
VP_ENTRY(ground_singles)
{
#ifdef VP_NATIVE
#define X(n) for (std::uint32_t c = 0; c < 0x110000; ++c) if (scalar(c)) { enc_##n d; e_single<IX_##n> s; cq q; both(d, s, q, false, c); }
	VP_SINGLE_INDEXES(X)
#undef X
#endif
}
