// C03: what an encoder can encode, the decoder of the same encoding decodes back
#include "enc.h"

static std::uint32_t any_scalar()
{
	std::uint32_t c = vp_range(0, 0x10FFFF);
	vp_assume(scalar(c));
	return c;
}
// lemma over the indexes (discharged by ground_inverse): index code point inverts index pointer
static std::uint32_t inv(std::uint32_t id, std::uint32_t c, std::uint32_t cp_id, std::uint32_t limit)
{
	std::uint32_t p = ptr_of(id, c);
	vp_assume(p == VP_NULL || (p < limit && cp_of(cp_id, p) == c));
	return p;
}

// encodes c with E, decodes the bytes with D (both starting fresh, both up to end-of-queue); out: the code points
struct outcome { bool encoded; std::uint32_t n; std::uint32_t v[8]; };
template <typename E, typename D>
static outcome trip(std::uint32_t c)
{
	E e;
	D d;
	outcome o{ false, 0, {} };
	std::uint32_t b[16], nb = 0;
	bool eoq = false;
	for (std::uint32_t i = 0; i < 6; ++i)
	{
		cq q;
		res r = res_of(e.run(q, io_item<char32_t>{ static_cast<char32_t>(c), eoq }));
		if (r.kind == 3) return o;
		if (r.kind == 0) { o.encoded = true; break; }
		for (std::uint32_t k = 0; k < r.n; ++k) b[nb++] = r.v[k];
		if (!eoq)
		{
			if (q.n != 0) c = q.a[0].m_value;
			else eoq = true;
		}
	}
	vp_assert(o.encoded, "encoding finishes");
	for (std::uint32_t i = 0; i < nb; ++i)
	{
		bq q;
		res r = res_of(d.run(q, io_item<char>{ static_cast<char>(b[i]), false }));
		vp_assert(q.n == 0 && r.kind != 3 && r.kind != 0, "encoded text is well-formed for the decoder");
		for (std::uint32_t k = 0; r.kind == 2 && k < r.n; ++k) o.v[o.n++] = r.v[k];
	}
	bq q;
	vp_assert(res_of(d.run(q, io_item<char>{ '\0', true })).kind == 0, "encoded text is complete for the decoder");
	return o;
}
template <typename E, typename D>
static void check(std::uint32_t c, std::uint32_t want)
{
	outcome o = trip<E, D>(c);
	if (o.encoded) vp_assert(o.n == 1 && o.v[0] == want, "the decoded code point is the encoded one");
	vp_cover("done");
}
static std::uint32_t jp(std::uint32_t c) { return c == 0xA5 ? 0x5C : c == 0x203E ? 0x7E : c == 0x2212 ? 0xFF0D : c; }

#define TRIP(name, E, D, LEMMA, WANT) \
VP_ENTRY(trip_##name) { std::uint32_t c = any_scalar(); LEMMA; check<E, D>(c, WANT); } \
VP_ENTRY(ground_trip_##name) { for (std::uint32_t c = 0; c < 0x110000; ++c) if (scalar(c)) check<E, D>(c, WANT); }
TRIP(utf8, UTF_8_encoder, UTF_8_decoder, (void)0, c)
TRIP(gb18030, gb18030_encoder, gb18030_decoder, if (inv(IX_gb18030, c, IX_gb18030, 23940) == VP_NULL && c >= 0x80 && c != 0xE5E5) vp_assume(gb_cp(gb_ptr(c)) == c), c)
TRIP(gbk, GBK_encoder, GBK_decoder, inv(IX_gb18030, c, IX_gb18030, 23940), c)
TRIP(big5, Big5_encoder, Big5_decoder, { std::uint32_t p = inv(IX_big5_ptr, c, IX_big5, 19782); vp_assume(p >= 5024); }, c)
TRIP(euc_jp, EUC_JP_encoder, EUC_JP_decoder, inv(IX_jis0208, jp(c), IX_jis0208, 8836), jp(c))
TRIP(shift_jis, Shift_JIS_encoder, Shift_JIS_decoder, { std::uint32_t p = inv(IX_shift_jis_ptr, jp(c), IX_jis0208, 11280); vp_assume(!in(p, 8836, 10715)); }, jp(c))
TRIP(euc_kr, EUC_KR_encoder, EUC_KR_decoder, inv(IX_euc_kr, c, IX_euc_kr, 23750), c)
TRIP(x_user_defined, x_user_defined_encoder, x_user_defined_decoder, (void)0, c)
// half-width katakana become full-width
TRIP(iso_2022_jp, ISO_2022_JP_encoder, ISO_2022_JP_decoder, { vp_assume(iso_fact(c)); inv(IX_jis0208, c, IX_jis0208, 8836); }, iso_map(c))
#define X(n) TRIP(n, single_byte_encoder<index_pointer_##n##_0 COMMA index_pointer_##n##_1>, single_byte_decoder<index_code_point_##n>, inv(IX_##n, c, IX_##n, 128), c)
#define COMMA ,
#undef TRIP
#define TRIP(name, E, D, LEMMA, WANT) VP_ENTRY(trip_##name) { std::uint32_t c = any_scalar(); LEMMA; check<E, D>(c, WANT); }
#undef X
#define X(n) using enc_##n = single_byte_encoder<index_pointer_##n##_0, index_pointer_##n##_1>; using dec_##n = single_byte_decoder<index_code_point_##n>; \
	TRIP(n, enc_##n, dec_##n, inv(IX_##n, c, IX_##n, 128), c)
VP_SINGLE_INDEXES(X)
#undef X

// texts: ISO-2022-JP carries its mode from one character to the next. BOUNDED (3 characters; longer natively)
VP_ENTRY(text_iso_2022_jp)
{
	VP_NATIVE_POOL(80, 0x41, 0x5C, 0x7E, 0x7F, 0x80, 0xA5, 0x203E, 0x2212, 0xFF0D, 0x3042, 0x4E9C, 0xFF61, 0xFF9F);
	std::uint32_t k = 2;
#ifdef VP_NATIVE
	k = vp_range(1, 20);
#endif
	ISO_2022_JP_encoder e;
	ISO_2022_JP_decoder d;
	for (std::uint32_t i = 0; i <= k; ++i)
	{
		std::uint32_t c = i == k ? 0 : any_scalar(), c0 = c;
		if (i != k)
		{
			vp_assume(iso_fact(c));
			std::uint32_t p = inv(IX_jis0208, c, IX_jis0208, 8836);
			vp_assume(c < 0x80 ? c != 0x0E && c != 0x0F && c != 0x1B : c == 0xA5 || c == 0x203E || iso_map(c) != c || p != VP_NULL);
		}
		std::uint32_t out = 0, got = 0, eoq = i == k;
		for (std::uint32_t t = 0; t < 4; ++t)
		{
			cq q;
			res r = res_of(e.run(q, io_item<char32_t>{ static_cast<char32_t>(c), eoq != 0 }));
			vp_assert(r.kind != 3, "encodable text is encoded");
			for (std::uint32_t j = 0; r.kind == 2 && j < r.n; ++j)
			{
				bq t2;
				res x = res_of(d.run(t2, io_item<char>{ static_cast<char>(r.v[j]), false }));
				vp_assert(t2.n == 0 && (x.kind == 1 || (x.kind == 2 && x.n == 1)), "encoded text is well-formed for the decoder");
				if (x.kind == 2) { out = x.v[0]; ++got; }
			}
			if (eoq ? r.kind == 0 : q.n == 0) break;
			if (!eoq) c = q.a[0].m_value;
		}
		if (eoq) vp_assert(got == 0, "nothing is added at the end");
		else vp_assert(got == 1 && out == iso_map(c0), "each character is decoded to itself");
	}
	bq q;
	vp_assert(res_of(d.run(q, io_item<char>{ '\0', true })).kind == 0, "encoded text is complete for the decoder");
	vp_cover("done");
}

VP_ENTRY(ground_inverse)
{
#ifdef VP_NATIVE
	auto chk = [](std::uint32_t id, std::uint32_t c, std::uint32_t cp_id, std::uint32_t limit) {
		std::uint32_t p = ptr_of(id, c);
		vp_assert(p == VP_NULL || (p < limit && cp_of(cp_id, p) == c), "index code point inverts index pointer");
	};
	for (std::uint32_t c = 0; c < 0x110000; ++c)
	{
		chk(IX_gb18030, c, IX_gb18030, 23940);
		chk(IX_jis0208, c, IX_jis0208, 8836);
		chk(IX_euc_kr, c, IX_euc_kr, 23750);
		chk(IX_big5_ptr, c, IX_big5, 19782);
		chk(IX_shift_jis_ptr, c, IX_jis0208, 11280);
		vp_assert(ptr_of(IX_big5_ptr, c) >= 5024 && !in(ptr_of(IX_shift_jis_ptr, c), 8836, 10715), "ranges of the pointers");
#define X(n) chk(IX_##n, c, IX_##n, 128);
		VP_SINGLE_INDEXES(X)
#undef X
		vp_assert(iso_fact(c), "facts of ISO-2022-JP");
		if (scalar(c) && c >= 0x80 && c != 0xE5E5 && ptr_of(IX_gb18030, c) == VP_NULL) vp_assert(gb_cp(gb_ptr(c)) == c, "gb18030 ranges are inverse");
	}
#define X(n) for (std::uint32_t p = 0; p < 0x10000; ++p) vp_assert(get_index_code_point<index_code_point_##n>(static_cast<std::uint16_t>(p)).value_or(VP_NULL) == cp_of(IX_##n, p), "index code point: " #n);
	VP_MULTI_INDEXES(X) VP_SINGLE_INDEXES(X)
#undef X
#endif
}
