// Specification primitives shared by every contract harness.
//
// The same harness text is used twice: compiled to LLVM IR together with the real
// code of /repo and handed to the deductive verifier (engine/), where the vp_*
// functions are interpreted symbolically; and compiled natively (VP_NATIVE) with
// native/rt.cpp, where they draw concrete values, to replay counterexamples and
// for the bounded stand-in runs.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
std::uint8_t vp_nondet_u8();
std::uint16_t vp_nondet_u16();
std::uint32_t vp_nondet_u32();
std::uint64_t vp_nondet_u64();
bool vp_nondet_bool();
void vp_assume(bool);
void vp_assert(bool, char const*);
void vp_cover(char const*);
// array of n elements of `stride` bytes with arbitrary content
void* vp_new_array(std::uint64_t n, std::uint64_t stride);
// byte equality of two objects, undefined bytes ignored
bool vp_same(void const*, void const*, std::uint64_t n);
// auxiliary obligation of an induction: never asserted natively, its refutation alone is not a violation
void vp_lemma(bool, char const*);
// first object equals the second wherever the second is defined
bool vp_covered(void const*, void const*, std::uint64_t n);
// uninterpreted function `id` for the verifier; natively the committed table (native/tables.cpp)
std::uint32_t vp_uf32(std::uint32_t id, std::uint32_t x);
// specification read: the 32-bit field at byte `off` of element `i`, no bounds obligation
std::uint32_t vp_peek32(void const* base, std::uint64_t i, std::uint64_t stride, std::uint64_t off);
std::uint64_t vp_concretize(std::uint64_t);
void vp_end();
#ifdef VP_NATIVE
std::uint32_t vp_native_range(std::uint32_t lo, std::uint32_t hi);
std::uint64_t vp_native_len(std::uint64_t hint);
void vp_native_pool(std::uint32_t const* p, std::uint64_t n, unsigned percent);
#endif
}

// lo <= result <= hi
inline std::uint32_t vp_range(std::uint32_t lo, std::uint32_t hi)
{
#ifdef VP_NATIVE
	return vp_native_range(lo, hi);
#else
	std::uint32_t v = vp_nondet_u32();
	vp_assume(lo <= v && v <= hi);
	return v;
#endif
}

// an arbitrary length: unbounded (below 2^59) for the verifier, small natively
inline std::uint64_t vp_length(std::uint64_t native_max)
{
#ifdef VP_NATIVE
	return vp_native_len(native_max);
#else
	std::uint64_t v = vp_nondet_u64();
	vp_assume(v < (1ull << 40));
	return v;
#endif
}

#ifdef VP_NATIVE
#define VP_NATIVE_POOL(percent, ...) do { static std::uint32_t const vp_pool_[] = { __VA_ARGS__ }; \
	vp_native_pool(vp_pool_, sizeof vp_pool_ / 4, percent); } while (0)
#else
#define VP_NATIVE_POOL(percent, ...) do { } while (0)
#endif

#define VP_ENTRY(name) extern "C" void vp_e_##name()
#define VP_INV(name) extern "C" bool vpp_inv_##name()
