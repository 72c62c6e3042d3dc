// C04, native: whole texts through the hooks and the TextDecoder API against a plain
// loop over the decoder steps (the steps themselves are C01's and C02's contracts).
#pragma once
#ifdef VP_NATIVE
#include <deque>
#include <string>
#include <stdexcept>
#include <variant>
#include <vector>
#include <wordring/whatwg/encoding/api.hpp>
#include <wordring/wwwc/css_syntax/input_stream.hpp>
namespace c04 {
using namespace wordring::whatwg::encoding;
using u32 = std::uint32_t;
using N = encoding_name;

template <typename T>
struct plain
{
	using value_type = io_item<T>;
	using character_type = T;
	std::deque<value_type> q;
	void prepend(value_type i) { q.push_front(i); }
	void prepend(T c) { q.push_front({ c, false }); }
	template <typename It> void prepend(It f, It l) { std::vector<value_type> v; while (f != l) v.push_back({ static_cast<T>(*f++), false }); q.insert(q.begin(), v.begin(), v.end()); }
	io_result<value_type> read()
	{
		if (q.empty()) return { value_type{}, true };
		value_type c = q.front();
		if (!c.m_eoq) q.pop_front();
		return { c, false };
	}
};
static void units(result_value const& r, std::vector<u32>& o)
{
	if (auto p = std::get_if<2>(&r)) o.push_back(*p);
	if (auto p = std::get_if<3>(&r)) o.insert(o.end(), p->begin(), p->end());
	if (auto p = std::get_if<4>(&r)) o.push_back(*p);
	if (auto p = std::get_if<5>(&r)) o.insert(o.end(), p->begin(), p->end());
	if (auto p = std::get_if<6>(&r)) o.insert(o.end(), p->begin(), p->end());
	if (auto p = std::get_if<7>(&r)) o.insert(o.end(), p->begin(), p->end());
}
// mode: 1 replacement, 2 fatal, 3 html; false when an error stopped it
template <typename T>
static bool oracle(coder c, std::vector<u32> const& in, int mode, std::vector<u32>& o)
{
	plain<T> q;
	for (u32 x : in) q.q.push_back({ static_cast<T>(x), false });
	q.q.push_back({ T(), true });
	for (;;)
	{
		auto i = q.read();
		result_value r = std::visit([&](auto& x) -> result_value { return x.run(q, i.m_value); }, c);
		if (r.index() == 0) return true;
		if (auto e = std::get_if<8>(&r))
		{
			if (mode == 2) return false;
			if (mode == 1) o.push_back(0xFFFD);
			if (mode == 3) { std::string s = "&#" + std::to_string(e->code_point) + ";"; o.insert(o.end(), s.begin(), s.end()); }
		}
		else units(r, o);
	}
}
static std::vector<u32> any_bytes()
{
	static u32 const pool[] = { 0xEF, 0xBB, 0xBF, 0xFE, 0xFF, 0x1B, 0x24, 0x42, 0x28, 0x4A, 0x81, 0x30, 0x8E, 0x8F, 0xA1, 0xE3, 0x81, 0x82, 0xF0, 0x9F, 0x98, 0x80, 0xD8, 0x3D, 0xDE, 0x00, 0x41, 0x0A, 0xC2, 0xE0 };
	std::vector<u32> v;
	u32 b = vp_range(0, 7);
	if (b == 0) v = { 0xEF, 0xBB, 0xBF };
	if (b == 1) v = { 0xFE, 0xFF };
	if (b == 2) v = { 0xFF, 0xFE };
	if (b == 3) v = { 0xEF, 0xBB };
	if (b == 4) v = { 0xEF, 0xBB, 0xBF, 0xEF, 0xBB, 0xBF };
	u32 n = vp_range(0, 14);
	while (n--) v.push_back(vp_nondet_bool() ? pool[vp_range(0, 29)] : vp_range(0, 255));
	return v;
}
static std::vector<u32> any_text()
{
	static u32 const pool[] = { 'a', '&', 0xA5, 0x203E, 0x2212, 0xFF61, 0x3042, 0x4E00, 0xAC00, 0x20AC, 0x1F600, 0xE9, 0x410, 0xFFFD, 0x10FFFF, 0xFEFF, 0x0E, 0x1B, 0xF780, 0xE5E5 };
	std::vector<u32> v;
	u32 n = vp_range(0, 12);
	while (n--) { u32 c = vp_nondet_bool() ? pool[vp_range(0, 19)] : vp_range(0, 0x10FFFF); if (0xD800 <= c && c <= 0xDFFF) c -= 0x1000; v.push_back(c); }
	return v;
}
template <typename T> static std::vector<u32> drain(io_queue<T>& q, bool& ended)
{
	std::vector<u32> v;
	ended = false;
	for (;;)
	{
		auto r = q.read();
		if (r.m_wait) return v;
		if (r.m_value.m_eoq) { ended = true; return v; }
		v.push_back(sizeof(T) == 1 ? static_cast<unsigned char>(r.m_value.m_value) : static_cast<u32>(r.m_value.m_value));
	}
}
static bool utf(N n) { return n == N::UTF_8 || n == N::UTF_16BE || n == N::UTF_16LE; }

static void hooks()
{
	std::vector<u32> in = any_bytes(), w, rest = in;
	N name = vp_nondet_bool() ? static_cast<N>(vp_range(1, 40)) : static_cast<N>(vp_range(0, 1) ? static_cast<u32>(N::UTF_8) : static_cast<u32>(N::UTF_16LE)), use = name;
	u32 which = vp_range(0, 4);
	auto starts = [&](std::vector<u32> const& b) { return in.size() >= b.size() && std::equal(b.begin(), b.end(), in.begin()); };
	u32 k = 0;
	if (which != 2 && which != 3 && starts({ 0xEF, 0xBB, 0xBF })) { k = 3; use = N::UTF_8; }
	else if ((which == 0 || which == 4) && starts({ 0xFE, 0xFF })) { k = 2; use = N::UTF_16BE; }
	else if ((which == 0 || which == 4) && starts({ 0xFF, 0xFE })) { k = 2; use = N::UTF_16LE; }
	if (which != 0 && which != 4) use = N::UTF_8;
	rest.erase(rest.begin(), rest.begin() + k);
	bool ok = oracle<char>(get_encoding_decoder(use), rest, which == 3 ? 2 : 1, w);
	std::string bytes(in.begin(), in.end());
	if (which == 4)
	{
		std::u32string g;
		wordring::wwwc::decode(bytes.begin(), bytes.end(), std::back_inserter(g), name);
		vp_assert(std::vector<u32>(g.begin(), g.end()) == w, "style sheet bytes decode as the standard says");
		return;
	}
	io_queue<char> q;
	io_queue<char32_t> out;
	// in pieces: what is not there yet makes the hook wait, and is then decoded all the same
	bool piecewise = which != 0 && which != 1 ? false : vp_nondet_bool();
	if (piecewise && in.size() >= 1)
	{
		u32 m = vp_range(0, in.size() < 2 ? static_cast<u32>(in.size()) : 2);
		q.push(bytes.begin(), bytes.begin() + m);
		result_value r = which == 0 ? decode(q, name, out) : utf8_decode(q, out);
		vp_assert(r.index() == 1, "too few bytes make decoding wait");
		q.push(bytes.begin() + m, bytes.end());
	}
	else q.push(bytes.begin(), bytes.end());
	q.push(io_item<char>{ 0, true });
	result_value r = which == 0 ? decode(q, name, out) : which == 1 ? utf8_decode(q, out) : which == 2 ? utf8_decode_without_bom(q, out) : utf8_decode_without_bom_or_fail(q, out);
	vp_assert(r.index() == (ok ? 0 : 8), "decoding finishes, or fails on an error when asked to");
	bool ended;
	vp_assert(drain(out, ended) == w, "the bytes decode as the standard says");
	vp_assert(ended == ok, "the output has its end");
}
static void pieces()
{
	// a queue that is filled while it is processed gives the same text
	std::vector<u32> in = any_bytes(), w;
	N name = static_cast<N>(vp_range(1, 40));
	oracle<char>(get_encoding_decoder(name), in, 1, w);
	coder c = get_encoding_decoder(name);
	io_queue<char> q;
	io_queue<char32_t> out;
	bool fin = false;
	for (u32 x : in)
	{
		q.push(static_cast<char>(x));
		if (!fin && vp_nondet_bool()) fin = process_queue(c, q, out, error_mode_name::Replacement).index() == 0;
	}
	q.push(io_item<char>{ 0, true });
	if (!fin) vp_assert(process_queue(c, q, out, error_mode_name::Replacement).index() == 0, "decoding finishes");
	bool ended;
	vp_assert(drain(out, ended) == w && ended, "a stream decoded in pieces gives the same text");
}
static void encoding()
{
	std::vector<u32> in = any_text(), w;
	N name;
	do name = static_cast<N>(vp_range(1, 40)); while (name == N::replacement || name == N::UTF_16BE || name == N::UTF_16LE);
	u32 which = vp_range(0, 2);
	if (which == 1) name = N::UTF_8;
	bool ok = oracle<char32_t>(get_encoding_encoder(name), in, which == 2 ? 2 : 3, w);
	io_queue<char32_t> q;
	for (u32 x : in) q.push(static_cast<char32_t>(x));
	q.push(io_item<char32_t>{ 0, true });
	io_queue<char> out;
	result_value r = which == 0 ? encode(q, name, out) : which == 1 ? utf8_encode(q, out) : encode_or_fail(q, get_encoding_encoder(name), out);
	vp_assert(r.index() == (ok ? 0 : 8), "encoding finishes, or fails on an error when asked to");
	bool ended;
	vp_assert(drain(out, ended) == w && ended, "the text encodes as the standard says");
}
static void api()
{
	N name;
	do name = vp_nondet_bool() ? static_cast<N>(vp_range(1, 40)) : static_cast<N>(vp_range(0, 1) ? static_cast<u32>(N::UTF_8) : static_cast<u32>(N::UTF_16BE)); while (name == N::replacement);
	bool fatal = vp_range(0, 3) == 0, keep = vp_nondet_bool();
	text_decoder d(name, fatal, keep);
	vp_assert(d.fatal() == fatal && d.ignore_bom() == keep && get_encoding_name(d.encoding()) == name, "the decoder reports how it was made");
	for (u32 round = 0; round < 2; ++round)
	{
		std::vector<u32> in = any_bytes(), w;
		bool ok = oracle<char>(get_encoding_decoder(name), in, fatal ? 2 : 1, w);
		if (utf(name) && !keep && !w.empty() && w[0] == 0xFEFF) w.erase(w.begin());
		std::string b(in.begin(), in.end());
		std::vector<u32> g;
		bool threw = false;
		try
		{
			auto it = b.begin();
			u32 n = vp_range(0, 4);
			while (n--)
			{
				auto e = it + vp_range(0, static_cast<u32>(b.end() - it));
				std::u32string s = d.decode(it, e, true);
				g.insert(g.end(), s.begin(), s.end());
				it = e;
			}
			std::u32string s;
			if (it == b.end() && vp_nondet_bool()) s = d.decode();
			else s = d.decode(it, b.end());
			g.insert(g.end(), s.begin(), s.end());
		}
		catch (std::range_error const&) { threw = true; }
		vp_assert(threw == !ok, "a decoder throws exactly on an error when it is fatal");
		if (threw) return;
		vp_assert(g == w, "a text decoded in pieces is the text decoded at once");
	}
}
static void any()
{
	switch (vp_range(0, 3))
	{
	case 0: hooks(); break;
	case 1: pieces(); break;
	case 2: encoding(); break;
	default: api(); break;
	}
}
}
#endif
