// C04: streams through a coder: process_item / process_queue (whatwg/encoding/encoding.hpp)
#include <array>
#include <cassert>
#include <deque>
#include <variant>
#include <vector>
#include <wordring/whatwg/encoding/encoding.hpp>
#include "vp.h"
using namespace wordring::whatwg::encoding;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// a result of every shape, with arbitrary content
struct shape { u32 kind; u32 v[4]; u32 n; };
static shape g_r;
static result_value any_result()
{
	u32 k = static_cast<u32>(vp_concretize(vp_range(0, 8)));
	g_r = shape{ k, { 0, 0, 0, 0 }, 0 };
	for (u32 i = 0; i < 4; ++i) g_r.v[i] = k == 2 || k == 3 || k == 8 ? vp_range(0, 0x10FFFF) : vp_range(0, 255);
	u32 const* v = g_r.v;
	auto b = [&](u32 i) { return static_cast<std::uint8_t>(v[i]); };
	switch (k)
	{
	case 0: return result_finished{};
	case 1: return result_continue{};
	case 2: g_r.n = 1; return result_value(std::in_place_index<2>, v[0]);
	case 3: g_r.n = 2; return result_code_points_2{ v[0], v[1] };
	case 4: g_r.n = 1; return result_value(std::in_place_index<4>, b(0));
	case 5: g_r.n = 2; return result_bytes_2{ b(0), b(1) };
	case 6: g_r.n = 3; return result_bytes_3{ b(0), b(1), b(2) };
	case 7: g_r.n = 4; return result_bytes_4{ b(0), b(1), b(2), b(3) };
	default: return result_error(v[0]);
	}
}
template <typename T>
struct outq
{
	using value_type = io_item<T>;
	using character_type = T;
	u32 v[16];
	u32 n = 0;
	bool ended = false;
	void push(value_type i)
	{
		vp_assert(!ended, "nothing is written behind the end");
		if (i.m_eoq) { ended = true; return; }
		vp_assert(n < 16, "no more output than the standard's");
		v[n++] = static_cast<u32>(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(T) == 1, std::int8_t, std::int32_t>>>(i.m_value));
	}
	void push(T c) { push(value_type{ c, false }); }
	template <typename It> void push(It f, It l) { while (f != l) push(*f++); }
};
template <typename T> struct inq { using value_type = io_item<T>; using character_type = T; };

template <typename T>
struct once
{
	u32 calls = 0;
	T want = T();
	bool eoq = false;
	void* q = nullptr;
	template <typename Q> result_value run(Q& in, io_item<T> item)
	{
		++calls;
		vp_assert(&in == q, "the coder runs on the input queue");
		vp_assert((item.m_eoq == eoq) & (item.m_value == want), "the coder gets the item that was read");
		return any_result();
	}
};

template <typename In, typename Out>
static void item(error_mode_name mode)
{
	std::variant<once<In>> c;
	inq<In> in;
	outq<Out> out;
	once<In>& o = std::get<0>(c);
	o.want = static_cast<In>(vp_nondet_u32());
	o.eoq = vp_nondet_bool();
	o.q = &in;
	if constexpr (sizeof(In) == 4) vp_assume(o.want < 0xD800);
	result_value r = process_item(io_item<In>{ o.want, o.eoq }, c, in, out, mode);
	vp_assert(o.calls == 1, "the coder runs once per item");
	u32 k = g_r.kind;
	if (k == 8)
	{
		if (mode == error_mode_name::Fatal)
		{
			vp_assert(r.index() == 8 && std::get_if<8>(&r)->code_point == g_r.v[0], "an error is returned in fatal mode");
			vp_assert(out.n == 0 && !out.ended, "an error writes nothing in fatal mode");
		}
		else
		{
			vp_assert(r.index() == 1, "an error is no reason to stop in replacement and html mode");
			vp_assert(!out.ended, "an error does not end the output");
			if (mode == error_mode_name::Replacement) vp_assert(out.n == 1 && out.v[0] == 0xFFFD, "an error becomes U+FFFD");
			else
			{
				vp_assert(out.n >= 4 && out.v[0] == '&' && out.v[1] == '#' && out.v[out.n - 1] == ';', "an error becomes a numeric reference");
				u32 x = 0;
				bool digits = true;
				for (u32 i = 2; i + 1 < out.n; ++i) { digits = digits & (out.v[i] >= '0') & (out.v[i] <= '9'); x = x * 10 + (out.v[i] - '0'); }
				vp_assert(digits & (x == g_r.v[0]) & (out.n <= 10) & ((out.n == 4) | (out.v[2] != '0')), "the reference is the decimal code point");
			}
		}
		vp_cover("error");
		return;
	}
	if (k == 0)
	{
		vp_assert(r.index() == 0 && out.ended && out.n == 0, "finished is returned and ends the output");
		vp_cover("finished");
		return;
	}
	vp_assert(r.index() == 1, "processing goes on after a result");
	vp_assert(!out.ended && out.n == g_r.n, "every unit of the result is written, no more");
	for (u32 i = 0; i < 4; ++i) if (i < g_r.n && i < out.n) vp_assert(out.v[i] == (sizeof(Out) == 1 ? g_r.v[i] & 0xFF : g_r.v[i]), "the units of the result are written in order");
	vp_cover("units");
}
VP_ENTRY(decoder_replacement) { item<char, char32_t>(error_mode_name::Replacement); }
VP_ENTRY(decoder_fatal) { item<char, char32_t>(error_mode_name::Fatal); }
VP_ENTRY(encoder_html) { item<char32_t, char>(error_mode_name::Html); }
VP_ENTRY(encoder_fatal) { item<char32_t, char>(error_mode_name::Fatal); }

// ---------------------------------------------------------------- process_queue, any number of items
static u64 q_len, q_read, q_run;
static u32* q_items;
static bool q_stop;
struct lenq
{
	using value_type = io_item<char32_t>;
	using character_type = char32_t;
	io_result<value_type> read()
	{
		vp_assert(!q_stop, "nothing is read once processing is over");
		vp_assert(q_read == q_run, "every item is processed before the next is read");
		if (q_read == q_len) return { value_type{}, true };
		char32_t c = static_cast<char32_t>(q_items[q_read]);
		++q_read;
		return { value_type{ c, false }, false };
	}
};
struct steps
{
	template <typename Q> result_value run(Q&, io_item<char32_t> item)
	{
		vp_assert((q_run < q_read) & (q_read <= q_len), "the coder gets items that were read");
		vp_assert(item.m_value == q_items[q_run] && !item.m_eoq, "items are processed in order");
		++q_run;
		u32 k = static_cast<u32>(vp_concretize(vp_range(0, 2)));
		if (k == 0) { q_stop = true; return result_finished{}; }
		if (k == 1) { q_stop = true; return result_error{}; }
		return result_continue{};
	}
};
VP_ENTRY(queue)
{
	q_len = vp_length(20);
	q_items = static_cast<u32*>(vp_new_array(q_len, 4));
	q_read = q_run = 0;
	q_stop = false;
	std::variant<steps> c;
	lenq in;
	outq<char> out;
	result_value r = process_queue(c, in, out, error_mode_name::Fatal);
	vp_assert(q_read == q_run, "every item that was read was processed");
	vp_assert((r.index() == 1) == !q_stop, "processing stops at the end, at an error, or when it must wait");
	vp_assert(q_stop | (q_run == q_len), "processing waits only when all items are processed");
	if (q_stop) vp_cover("stopped");
	else vp_cover("waits");
}
