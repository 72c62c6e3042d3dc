// C04: TextDecoder (whatwg/encoding/api.hpp) against the contract of process_item: which items the
// decoder gets, when it is flushed, what becomes of its output and of the byte order mark
#include <array>
#include <cassert>
#include <stdexcept>
#include <string>
#include <wordring/whatwg/encoding/api.hpp>
#include "vp.h"
#include "c04_text.h"
using namespace wordring::whatwg::encoding;
using u32 = std::uint32_t;
using N = encoding_name;

static u32 t_fed[8], t_nf, t_fin, t_made;
static N t_name;
static error_mode_name t_mode;
static u32 t_out[8], t_no;      // what the decoder produced since the last flush
static bool t_err;
#ifndef VP_NATIVE
extern "C" coder vps_make(N name)
{
	vp_assert(name == t_name, "the decoder of the chosen encoding is made");
	++t_made;
	return coder{};
}
extern "C" result_value vps_item(io_item<char> item, coder& c, io_queue<char>& in, io_queue<char32_t>& out, error_mode_name mode)
{
	vp_assert(mode == t_mode, "errors are replaced or fatal as asked for");
	if (item.m_eoq) { ++t_fin; out.push({ 0, true }); return result_finished{}; }
	vp_assert(t_nf < 8, "no more bytes than were given");
	t_fed[t_nf++] = static_cast<unsigned char>(item.m_value);
	u32 k = static_cast<u32>(vp_concretize(vp_range(0, 2)));
	if (k == 0) return result_continue{};
	if (k == 2 && t_mode == error_mode_name::Fatal) { t_err = true; return result_error{}; }
	u32 o = k == 2 ? 0xFFFD : vp_range(0, 0x10FFFF);
	t_out[t_no++] = o;
	out.push(static_cast<char32_t>(o));
	return result_continue{};
}
#endif
VP_ENTRY(decoder_api)
{
#ifdef VP_NATIVE
	c04::api();
#else
	t_name = vp_concretize(vp_range(0, 1)) != 0 ? N::UTF_8 : N::Shift_JIS;
	bool fatal = vp_concretize(vp_range(0, 1)) != 0, keep = vp_concretize(vp_range(0, 1)) != 0;
	t_mode = fatal ? error_mode_name::Fatal : error_mode_name::Replacement;
	text_decoder d(t_name, fatal, keep);
	t_made = t_fin = t_nf = t_no = 0;
	t_err = false;
	u32 given[8], ng = 0, got[8], no = 0;
	// two pieces of a stream and the call that ends it, then a fresh text
	u32 calls = static_cast<u32>(vp_concretize(vp_range(1, 3)));
	for (u32 i = 0; i < calls; ++i)
	{
		char b[2];
		u32 n = static_cast<u32>(vp_concretize(vp_range(0, i == 0 ? 2 : 1)));
		for (u32 k = 0; k < n; ++k) { std::uint8_t x = vp_nondet_u8(); b[k] = static_cast<char>(x); given[ng++] = x; }
		bool last = i + 1 == calls;
		std::u32string s;
		bool threw = false;
		try { s = d.decode(b, b + n, !last); } catch (std::range_error const&) { threw = true; }
		vp_assert(threw == t_err, "decoding throws exactly on an error when it is fatal");
		if (threw) { vp_cover("throws"); return; }
		vp_assert(t_made == 1, "a stream is decoded by one decoder");
		vp_assert(t_nf == ng, "every byte given so far reached the decoder");
		vp_assert(t_fin == (last ? 1 : 0), "the decoder is flushed at the end of the stream and not before");
		for (u32 k = 0; k < s.size() && no < 8; ++k) got[no++] = s[k];
	}
	for (u32 k = 0; k < ng; ++k) vp_assert(t_fed[k] == given[k], "bytes reach the decoder in order");
	bool strip = t_name == N::UTF_8 && !keep && t_no != 0 && t_out[0] == 0xFEFF;
	vp_assert(no + (strip ? 1 : 0) == t_no, "all that was decoded is returned, but for a byte order mark in front");
	for (u32 k = 0; k < no; ++k) vp_assert(got[k] == t_out[k + (strip ? 1 : 0)], "what was decoded is returned in order");
	// the next text starts afresh
	char z = 'z';
	t_nf = t_no = t_fin = 0;
	try { std::u32string s = d.decode(&z, &z + 1, false); } catch (std::range_error const&) { return; }
	vp_assert(t_made == 2 && t_nf == 1 && t_fin == 1, "the next text is decoded by a fresh decoder");
	vp_cover("done");
#endif
}
