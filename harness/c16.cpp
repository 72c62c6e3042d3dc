// C16: serialization of integers (serialize/*.hpp)
#include <iterator>
#include <wordring/serialize/serialize.hpp>
#include <wordring/serialize/serialize_iterator.hpp>
#include "vp.h"
using namespace wordring;

template <typename T> static T any() { return static_cast<T>(vp_nondet_u64()); }

// k-th byte of the big-endian form
template <typename T> static std::uint32_t byte_of(T v, std::uint32_t k)
{
	return static_cast<std::uint32_t>((static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<T>>(v)) >> (8 * (sizeof(T) - 1 - k))) & 0xFF);
}

template <typename T>
static void one()
{
	T v = any<T>();
	auto a = serialize(v);
	vp_assert(a.size() == sizeof(T), "one byte per byte of the integer");
	for (std::uint32_t k = 0; k < sizeof(T); ++k)
	{
		vp_assert(a[k] == byte_of(v, k), "bytes are the big-endian form");
		vp_assert(serialize(v, k) == byte_of(v, k), "the byte at a position is that byte of the big-endian form");
	}
	T r = any<T>();
	auto it = deserialize(a.begin(), a.end(), r);
	vp_assert(it == a.end(), "deserialize consumes the serialized form");
	vp_assert(r == v, "deserialize inverts serialize");
	vp_cover("done");
}
VP_ENTRY(u8) { one<std::uint8_t>(); }
VP_ENTRY(u16) { one<std::uint16_t>(); }
VP_ENTRY(u32) { one<std::uint32_t>(); }
VP_ENTRY(u64) { one<std::uint64_t>(); }
VP_ENTRY(i8) { one<std::int8_t>(); }
VP_ENTRY(i16) { one<std::int16_t>(); }
VP_ENTRY(i32) { one<std::int32_t>(); }
VP_ENTRY(i64) { one<std::int64_t>(); }
VP_ENTRY(c16) { one<char16_t>(); }
VP_ENTRY(c32) { one<char32_t>(); }

// deserialize from signed or unsigned bytes, from short input, and from the front of a longer one
template <typename T, typename Byte>
static void from_bytes()
{
	Byte b[sizeof(T) + 2];
	for (std::uint32_t k = 0; k < sizeof(T) + 2; ++k) b[k] = static_cast<Byte>(vp_nondet_u8());
	std::uint32_t n = static_cast<std::uint32_t>(vp_concretize(vp_range(0, sizeof(T) + 2)));
	T r = any<T>();
	Byte* it = deserialize(b, b + n, r);
	std::uint32_t used = n < sizeof(T) ? n : sizeof(T);
	vp_assert(it == b + used, "at most the integer's bytes are consumed");
	std::uint64_t s = 0;
	for (std::uint32_t k = 0; k < used; ++k) s = s * 256 + static_cast<std::uint8_t>(b[k]);
	vp_assert(static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<T>>(r)) == s, "the value is the big-endian reading of the bytes");
	vp_cover("done");
}
VP_ENTRY(from_char_u32) { from_bytes<std::uint32_t, char>(); }
VP_ENTRY(from_char_i32) { from_bytes<std::int32_t, char>(); }
VP_ENTRY(from_u8_u64) { from_bytes<std::uint64_t, std::uint8_t>(); }
VP_ENTRY(from_char_i16) { from_bytes<std::int16_t, char>(); }
VP_ENTRY(from_s8_u16) { from_bytes<std::uint16_t, signed char>(); }

// iterators over sequences of any length
template <typename T>
static void vpl_serialize(T const* p, std::uint64_t n)
{
	serialize_iterator<T const*> it(p), end(p + n);
	std::uint64_t i = 0;
	while (it != end)
	{
		for (std::uint32_t k = 0; k < sizeof(T); ++k)
		{
			vp_assert(it != end && !(it == end), "the sequence ends only after the last byte of the last integer");
			vp_assert(i < n, "no more bytes than the integers have");
			vp_assert(it.base() == p + i, "base() is the integer the byte belongs to");
			std::uint32_t b;
			if (k & 1) { b = *it; ++it; }
			else b = *it++;
			vp_assert(b == byte_of(p[i], k), "byte stream is the concatenation of the big-endian forms");
		}
		++i;
	}
	vp_assert(i == n && it == end, "every integer is serialized");
}
template <typename T>
static void stream()
{
	std::uint64_t n = vp_length(5);
	T* p = static_cast<T*>(vp_new_array(n, sizeof(T)));
	vpl_serialize(static_cast<T const*>(p), n);
	vp_cover("done");
}
VP_ENTRY(stream_u16) { stream<std::uint16_t>(); }
VP_ENTRY(stream_i32) { stream<std::int32_t>(); }
VP_ENTRY(stream_u32) { stream<std::uint32_t>(); }
VP_ENTRY(stream_u64) { stream<std::uint64_t>(); }
VP_ENTRY(stream_u8) { stream<std::uint8_t>(); }

template <typename T, typename Byte>
static void vpl_deserialize(Byte const* p, std::uint64_t n)
{
	deserialize_iterator<T, Byte const*> it(p), end(p + n * sizeof(T));
	std::uint64_t i = 0;
	while (it != end)
	{
		vp_assert(i < n && !(it == end), "no more integers than the bytes hold");
		T v = *it;
		std::uint64_t s = 0;
		for (std::uint32_t k = 0; k < sizeof(T); ++k) s = s * 256 + static_cast<std::uint8_t>(p[i * sizeof(T) + k]);
		vp_assert(static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<T>>(v)) == s, "each integer is the big-endian reading of its bytes");
		++it;
		++i;
	}
	vp_assert(i == n && it == end, "every integer is deserialized");
	deserialize_iterator<T, Byte const*> a(p), b(p);
	if (n != 0) { vp_assert(a == b++ && a != b && b == ++a, "increments advance by one integer"); }
}
template <typename T, typename Byte>
static void dstream()
{
	std::uint64_t n = vp_length(4);
	Byte* p = static_cast<Byte*>(vp_new_array(n * sizeof(T), 1));
	vpl_deserialize<T>(static_cast<Byte const*>(p), n);
	vp_cover("done");
}
VP_ENTRY(dstream_u32) { dstream<std::uint32_t, char>(); }
VP_ENTRY(dstream_i16) { dstream<std::int16_t, char>(); }
VP_ENTRY(dstream_u64) { dstream<std::uint64_t, std::uint8_t>(); }
VP_ENTRY(dstream_u8) { dstream<std::uint8_t, char>(); }
