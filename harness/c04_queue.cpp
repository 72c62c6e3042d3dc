// C04: the I/O queue (whatwg/encoding/terminology.hpp) and the decode/encode hooks
// (whatwg/encoding/encoding.hpp) on short queues of arbitrary content
#include <array>
#include <cassert>
#include <deque>
#include <vector>
#include <wordring/whatwg/encoding/encoding.hpp>
#include "vp.h"
#include "c04_text.h"
using namespace wordring::whatwg::encoding;
using u32 = std::uint32_t;
using N = encoding_name;

// an explicit sequence of items; eoq marks the end of the queue
static u32 const EOQ = 0xFFFFFFFF;
template <u32 M>
struct seq
{
	u32 v[M];
	u32 n = 0;
	bool has_end() const { return n != 0 && v[n - 1] == EOQ; }
	u32 chars() const { return has_end() ? n - 1 : n; }
};
template <typename Q> static io_item<typename Q::character_type> mk(u32 x)
{
	return x == EOQ ? io_item<typename Q::character_type>{ 0, true } : io_item<typename Q::character_type>{ static_cast<typename Q::character_type>(x), false };
}
template <typename T> static u32 un(io_item<T> i) { return i.m_eoq ? EOQ : static_cast<u32>(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(T) == 1, std::int8_t, std::int32_t>>>(i.m_value)); }

template <typename Q, u32 M>
static void drained(Q& q, seq<M> const& s)
{
	for (u32 i = 0; i < s.n; ++i)
	{
		auto r = q.read();
		vp_assert(!r.m_wait && un(r.m_value) == s.v[i], "items are read in the order they were queued");
		if (s.v[i] == EOQ) break;
	}
	auto r = q.read();
	if (s.has_end()) vp_assert(!r.m_wait && r.m_value.m_eoq, "the end of the queue is never removed");
	else vp_assert(r.m_wait, "an empty queue makes the reader wait");
}
// n characters of arbitrary value, with or without the end behind them
template <typename T, u32 M>
static io_queue<T> any_queue(seq<M>& s, u32 max)
{
	io_queue<T> q;
	u32 n = static_cast<u32>(vp_concretize(vp_range(0, max)));
	bool end = vp_concretize(vp_range(0, 1)) != 0, first = vp_concretize(vp_range(0, 1)) != 0;
	if (end && first) q.push(mk<io_queue<T>>(EOQ));
	for (u32 i = 0; i < n; ++i)
	{
		u32 c = sizeof(T) == 1 ? vp_range(0, 255) : vp_range(0, 0x10FFFF);
		s.v[s.n++] = c;
		q.push(static_cast<T>(c));
	}
	if (end) { s.v[s.n++] = EOQ; if (!first) q.push(mk<io_queue<T>>(EOQ)); }
	return q;
}
template <typename T>
static void queue_ops()
{
	VP_NATIVE_POOL(60, 0, 1, 2, 3, 'a', 0xFEFF, 0xEF);
	seq<16> s;
	auto q = any_queue<T, 16>(s, 3);
	u32 op = static_cast<u32>(vp_concretize(vp_range(0, 6)));
	u32 x = sizeof(T) == 1 ? vp_range(0, 255) : vp_range(0, 0x10FFFF), y = sizeof(T) == 1 ? vp_range(0, 255) : vp_range(0, 0x10FFFF);
	u32 k = static_cast<u32>(vp_concretize(vp_range(1, 3)));
	T two[2] = { static_cast<T>(x), static_cast<T>(y) };
	auto insert = [&](u32 at, u32 c) { for (u32 i = s.n; i > at; --i) s.v[i] = s.v[i - 1]; s.v[at] = c; ++s.n; };
	switch (op)
	{
	case 0:
		q.push(static_cast<T>(x));
		insert(s.chars(), x);
		break;
	case 1:
		q.push(two, two + 2);
		insert(s.chars(), x);
		insert(s.chars(), y);
		break;
	case 2:
		q.push(mk<io_queue<T>>(EOQ));
		if (!s.has_end()) insert(s.n, EOQ);
		break;
	case 3:
		q.prepend(static_cast<T>(x));
		insert(0, x);
		break;
	case 4:
		q.prepend(two, two + 2);
		insert(0, y);
		insert(0, x);
		break;
	case 5:
	{
		auto p = q.peek(k);
		bool wait = s.n < k && !s.has_end();
		vp_assert(p.m_wait == wait, "peek waits exactly when there are too few items and no end");
		if (!wait)
		{
			u32 m = s.chars() < k ? s.chars() : k;
			vp_assert(p->size() == m, "peek shows as many items as there are before the end");
			for (u32 i = 0; i < m; ++i) vp_assert(un((*p)[i]) == s.v[i], "peek shows the first items in order");
		}
		break;
	}
	case 6:
	{
		if (s.n < k) return;
		auto p = q.read(k);
		u32 m = s.chars() < k ? s.chars() : k;
		vp_assert(!p.m_wait && p->size() == m, "read takes as many items as there are before the end");
		for (u32 i = 0; i < m; ++i) vp_assert(un((*p)[i]) == s.v[i], "read takes the first items in order");
		for (u32 i = m; i < s.n; ++i) s.v[i - m] = s.v[i];
		s.n -= m;
		break;
	}
	}
	drained(q, s);
	vp_cover("done");
}
VP_ENTRY(queue_bytes) { queue_ops<char>(); }
VP_ENTRY(queue_chars) { queue_ops<char32_t>(); }
VP_ENTRY(convert)
{
	u32 n = static_cast<u32>(vp_concretize(vp_range(0, 4)));
	char32_t a[4] = { 0, 0, 0, 0 }, b[5] = { 0, 0, 0, 0, 0 };
	for (u32 i = 0; i < n; ++i) a[i] = static_cast<char32_t>(vp_range(0, 0x10FFFF));
	auto q = to_io_queue_convert(a, a + n);
	u32 m = 0;
	struct out
	{
		using difference_type = std::ptrdiff_t;
		char32_t* p; u32* m;
		out& operator*() { return *this; }
		out& operator++() { return *this; }
		out operator++(int) { return *this; }
		out& operator=(char32_t c) { vp_assert(*m < 5, "no more than the text"); p[(*m)++] = c; return *this; }
	};
	from_io_queue_convert(q, out{ b, &m });
	vp_assert(m == n, "a text has as many characters in the queue");
	for (u32 i = 0; i < n; ++i) vp_assert(a[i] == b[i], "a text goes through the queue unchanged");
	vp_cover("done");
}

// ---------------------------------------------------------------- hooks
// process_queue is replaced by its place in the contract: which coder, which queue, which mode.
static u32 h_calls, h_mode;
static N h_name;
static io_queue<char>* h_q8;
static io_queue<char32_t>* h_q32;
static seq<8> h_want;
static void* h_in;
static void* h_out;
static u32 h_kind;
static result_value h_result()
{
	if (h_kind == 0) return result_finished{};
	if (h_kind == 1) return result_continue{};
	return result_error{};
}
#ifndef VP_NATIVE
extern "C" coder vps_decoder(N name) { h_name = name; return coder{}; }
extern "C" coder vps_encoder(N name) { h_name = name; return coder{}; }
extern "C" result_value vps_decode_queue(coder& c, io_queue<char>& in, io_queue<char32_t>& out, error_mode_name mode)
{
	vp_assert(&in == h_in && &out == h_out, "the given queues are processed");
	++h_calls;
	h_mode = static_cast<u32>(mode);
	io_queue<char> t = in;
	drained(t, h_want);
	return h_result();
}
extern "C" result_value vps_encode_queue(coder& c, io_queue<char32_t>& in, io_queue<char>& out, error_mode_name mode)
{
	vp_assert(&in == h_in && &out == h_out, "the given queues are processed");
	++h_calls;
	h_mode = static_cast<u32>(mode);
	io_queue<char32_t> t = in;
	drained(t, h_want);
	return h_result();
}
static u32 bom_len(seq<8> const& s, bool only8, N& name)
{
	u32 a = s.chars() > 0 ? s.v[0] : 256, b = s.chars() > 1 ? s.v[1] : 256, c = s.chars() > 2 ? s.v[2] : 256;
	if ((a == 0xEF) & (b == 0xBB) & (c == 0xBF)) { name = N::UTF_8; return 3; }
	if (only8) return 0;
	if ((a == 0xFE) & (b == 0xFF)) { name = N::UTF_16BE; return 2; }
	if ((a == 0xFF) & (b == 0xFE)) { name = N::UTF_16LE; return 2; }
	return 0;
}
static void cut(seq<8>& s, u32 k) { for (u32 i = k; i < s.n; ++i) s.v[i - k] = s.v[i]; s.n -= k; }
static void decoding(u32 which)
{
	seq<8> s;
	auto q = any_queue<char, 8>(s, 4);
	io_queue<char32_t> out;
	h_in = &q;
	h_out = &out;
	h_calls = 0;
	h_kind = static_cast<u32>(vp_concretize(vp_range(0, 2)));
	N name = static_cast<N>(vp_range(1, 40)), want = which == 0 ? name : N::UTF_8;
	bool wait = which <= 1 && s.n < 3 && !s.has_end();
	h_want = s;
	if (which <= 1 && !wait) { u32 k = bom_len(s, which == 1, want); cut(h_want, k); }
	result_value r = which == 0 ? decode(q, name, out) : which == 1 ? utf8_decode(q, out) : which == 2 ? utf8_decode_without_bom(q, out) : utf8_decode_without_bom_or_fail(q, out);
	if (wait)
	{
		vp_assert(r.index() == 1 && h_calls == 0, "decoding waits until a byte order mark can be seen");
		drained(q, s);
		vp_cover("waits");
		return;
	}
	vp_assert(h_calls == 1 && h_name == want, "the byte order mark, or else the name, selects the decoder");
	vp_assert(h_mode == static_cast<u32>(which == 3 ? error_mode_name::Fatal : error_mode_name::Replacement), "errors are replaced, or fatal when failing was asked for");
	vp_assert(r.index() == (h_kind == 0 ? 0 : h_kind == 1 ? 1 : 8), "the result of processing is returned");
	vp_cover("decodes");
}
#endif
VP_ENTRY(decode_hook)
{
#ifdef VP_NATIVE
	c04::any();
#else
	decoding(0);
#endif
}
VP_ENTRY(utf8_decode_hook)
{
#ifdef VP_NATIVE
	c04::any();
#else
	decoding(1);
#endif
}
VP_ENTRY(utf8_decode_without_bom_hook)
{
#ifdef VP_NATIVE
	c04::any();
#else
	decoding(2);
#endif
}
VP_ENTRY(utf8_decode_or_fail_hook)
{
#ifdef VP_NATIVE
	c04::any();
#else
	decoding(3);
#endif
}
VP_ENTRY(encode_hooks)
{
#ifdef VP_NATIVE
	c04::encoding();
#else
	seq<8> s;
	auto q = any_queue<char32_t, 8>(s, 3);
	io_queue<char> out;
	h_in = &q;
	h_out = &out;
	h_calls = 0;
	h_kind = static_cast<u32>(vp_concretize(vp_range(0, 2)));
	u32 which = static_cast<u32>(vp_concretize(vp_range(0, 2)));
	N name = static_cast<N>(vp_range(1, 40)), want = which == 1 ? N::UTF_8 : name;
	vp_assume((name != N::replacement) & (name != N::UTF_16BE) & (name != N::UTF_16LE));
	h_want = s;
	if (which == 2)
	{
		coder c{};
		result_value r = encode_or_fail(q, c, out);
		vp_assert(r.index() == (h_kind == 2 ? 8 : 0), "encoding fails exactly on an error");
		vp_assert(h_calls == 1 && h_mode == static_cast<u32>(error_mode_name::Fatal), "errors are fatal");
		seq<8> e;
		e.v[e.n++] = EOQ;
		drained(out, e);
		vp_cover("or fail");
		return;
	}
	result_value r = which == 0 ? encode(q, name, out) : utf8_encode(q, out);
	vp_assert(h_calls == 1 && h_name == want, "the name selects the encoder");
	vp_assert(h_mode == static_cast<u32>(error_mode_name::Html), "errors become references");
	vp_assert(r.index() == (h_kind == 0 ? 0 : h_kind == 1 ? 1 : 8), "the result of processing is returned");
	vp_cover("encodes");
#endif
}
