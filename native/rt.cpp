// Native runtime of the contract harnesses: draws concrete values for vp_nondet_*,
// either from a replay file or from a seeded generator.
//   prog list
//   prog search ENTRY SEED SECONDS MAXITER OUT   -> exit 1 and OUT written on failure
//   prog replay ENTRY FILE                       -> exit 1 when an assertion fails
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <exception>

struct entry_t { char const* name; void (*fn)(); };
extern entry_t vp_entries[];

namespace {
jmp_buf g_jmp;
bool g_replay = false;
std::vector<std::string> g_log;
std::vector<std::pair<std::string, std::string>> g_in;
size_t g_pos = 0;
std::uint64_t g_s[2] = { 1, 2 };
std::vector<void*> g_mem;
std::string g_out, g_entry;
std::uint32_t const* g_pool = nullptr;
std::uint64_t g_pool_n = 0;
unsigned g_pool_pct = 0;
std::map<std::string, unsigned long> g_cover;
unsigned long g_checks = 0;
bool g_has_failed = false;
char g_last[256];

std::uint64_t rnd()
{
	std::uint64_t a = g_s[0], b = g_s[1];
	g_s[0] = b;
	a ^= a << 23;
	g_s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
	return g_s[1] + b;
}

std::uint64_t value(unsigned bits)
{
	std::uint64_t r = rnd();
	if (g_pool != nullptr && rnd() % 100 < g_pool_pct) return g_pool[rnd() % g_pool_n];
	static std::uint32_t const edge[] = { 0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF,
		0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF };
	switch (r >> 61)
	{
	case 0: return edge[rnd() % (sizeof edge / 4)];
	case 1: return rnd() % 256;
	case 2: return rnd() % 8;
	case 3: return rnd() % 0x10000;
	case 4: return bits > 21 ? rnd() % 0x110000 : rnd();
	default: return rnd();
	}
}

void log_(char const* nm, std::uint64_t v)
{
	char b[64];
	std::snprintf(b, sizeof b, "%s %llu", nm, (unsigned long long)v);
	g_log.push_back(b);
}

std::uint64_t draw(char const* nm, unsigned bits)
{
	std::uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
	if (g_replay)
	{
		if (g_pos >= g_in.size()) return 0;
		return std::strtoull(g_in[g_pos++].second.c_str(), nullptr, 10) & mask;
	}
	std::uint64_t v = (bits == 1 ? rnd() >> 40 : value(bits)) & mask;
	log_(nm, v);
	return v;
}

[[noreturn]] void failed(char const* what)
{
	g_has_failed = true;
	std::printf("FAILED %s: %s\n", g_entry.c_str(), what);
	std::fflush(stdout);
	if (!g_replay && !g_out.empty())
	{
		if (FILE* f = std::fopen(g_out.c_str(), "w"))
		{
			std::fprintf(f, "entry %s\n", g_entry.c_str());
			for (auto const& s : g_log) std::fprintf(f, "%s\n", s.c_str());
			std::fprintf(f, "# failed: %s\n", what);
			std::fclose(f);
		}
	}
	std::_Exit(1);
}
void on_signal(int s)
{
	char b[64];
	std::snprintf(b, sizeof b, "signal %d (%s)", s, s == SIGABRT ? "abort or failed assert" : s == SIGALRM ? "no termination" : "memory error");
	failed(b);
}
} // namespace

extern "C" void __asan_on_error() { if (!g_has_failed) failed("address sanitizer error"); }
extern "C" char const* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:handle_abort=0:handle_segv=0:detect_stack_use_after_return=0"; }

extern "C" {
std::uint8_t vp_nondet_u8() { return (std::uint8_t)draw("u8", 8); }
std::uint16_t vp_nondet_u16() { return (std::uint16_t)draw("u16", 16); }
std::uint32_t vp_nondet_u32() { return (std::uint32_t)draw("u32", 32); }
std::uint64_t vp_nondet_u64() { return draw("u64", 64); }
bool vp_nondet_bool() { return draw("bool", 1) & 1; }
std::uint32_t vp_native_range(std::uint32_t lo, std::uint32_t hi)
{
	if (g_replay)
	{
		std::uint32_t v = (std::uint32_t)draw("u32", 32);
		if (v < lo || v > hi) longjmp(g_jmp, 1);
		return v;
	}
	std::uint32_t v = (std::uint32_t)value(32);
	std::uint64_t n = (std::uint64_t)hi - lo + 1;
	if (v < lo || v > hi) v = rnd() % 4 == 0 ? (rnd() & 1 ? lo + (std::uint32_t)(rnd() % (n < 3 ? n : 3)) : hi - (std::uint32_t)(rnd() % (n < 3 ? n : 3))) : lo + (std::uint32_t)(rnd() % n);
	log_("u32", v);
	return v;
}
std::uint64_t vp_native_len(std::uint64_t mx)
{
	if (g_replay) { std::uint64_t v = draw("u64", 64); return v > 100000 ? (longjmp(g_jmp, 1), 0) : v; }
	std::uint64_t v = rnd() % (mx + 1);
	if (rnd() % 8 == 0) v = rnd() % (mx * 8 + 1);
	log_("u64", v);
	return v;
}
void vp_native_pool(std::uint32_t const* p, std::uint64_t n, unsigned pct) { g_pool = p; g_pool_n = n; g_pool_pct = pct; }
void vp_assume(bool b) { if (!b) longjmp(g_jmp, 1); }
void vp_assert(bool b, char const* what) { ++g_checks; if (!b) failed(what); }
void vp_lemma(bool, char const*) {}
bool vp_covered(void const*, void const*, std::uint64_t) { return true; }
std::uint32_t vp_peek32(void const* base, std::uint64_t i, std::uint64_t stride, std::uint64_t off) { std::uint32_t v; std::memcpy(&v, static_cast<char const*>(base) + i * stride + off, 4); return v; }
__attribute__((weak)) std::uint32_t vp_uf32(std::uint32_t, std::uint32_t) { std::abort(); }
void vp_cover(char const* what) { ++g_cover[what]; }
void vp_end() { longjmp(g_jmp, 1); }
std::uint64_t vp_concretize(std::uint64_t v) { return v; }
bool vp_same(void const*, void const*, std::uint64_t) { return true; } // decided by the verifier only (padding)
void* vp_new_array(std::uint64_t n, std::uint64_t stride)
{
	unsigned char* p = (unsigned char*)std::malloc(n * stride + 1);
	g_mem.push_back(p);
	if (g_replay)
	{
		std::memset(p, 0, n * stride);
		if (g_pos < g_in.size())
		{
			std::string const& h = g_in[g_pos++].second;
			for (size_t i = 0; i + 1 < h.size() && i / 2 < n * stride; i += 2) p[i / 2] = (unsigned char)std::strtoul(h.substr(i, 2).c_str(), nullptr, 16);
		}
		return p;
	}
	bool elem = stride == 1 || stride == 2 || stride == 4 || stride == 8;
	std::string lg = "array ";
	for (std::uint64_t i = 0; i < n; ++i)
	{
		if (elem) { std::uint64_t v = value((unsigned)(8 * stride)); std::memcpy(p + i * stride, &v, stride); }
		else for (std::uint64_t k = 0; k < stride; ++k) p[i * stride + k] = (unsigned char)rnd();
	}
	char b[4];
	for (std::uint64_t i = 0; i < n * stride; ++i) { std::snprintf(b, sizeof b, "%02x", p[i]); lg += b; }
	if (n == 0) lg += "-";
	g_log.push_back(lg);
	return p;
}
}

int main(int argc, char** argv)
{
	std::set_terminate([] { failed("terminate (uncaught exception)"); });
	for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM }) std::signal(s, on_signal);
	if (argc >= 2 && std::strcmp(argv[1], "list") == 0)
	{
		for (entry_t* e = vp_entries; e->name; ++e) std::puts(e->name);
		return 0;
	}
	if (argc < 4) return 2;
	g_entry = argv[2];
	void (*fn)() = nullptr;
	for (entry_t* e = vp_entries; e->name; ++e) if (g_entry == e->name) fn = e->fn;
	if (fn == nullptr) { std::printf("no entry %s\n", argv[2]); return 2; }
	if (std::strcmp(argv[1], "replay") == 0)
	{
		g_replay = true;
		FILE* f = std::fopen(argv[3], "r");
		if (!f) return 2;
		std::string line;
		int c;
		while (true)
		{
			c = std::fgetc(f);
			if (c == '\n' || c == EOF)
			{
				if (!line.empty() && line[0] != '#' && line.compare(0, 6, "entry ") != 0)
				{
					size_t k = line.find(' ');
					if (k != std::string::npos) g_in.push_back({ line.substr(0, k), line.substr(k + 1) });
				}
				line.clear();
				if (c == EOF) break;
			}
			else line.push_back((char)c);
		}
		std::fclose(f);
		alarm(20);
		if (setjmp(g_jmp) == 0) { fn(); std::puts("PASSED"); return 0; }
		std::puts("DISCARDED");
		return 3;
	}
	if (argc < 7) return 2;
	std::uint64_t seed = std::strtoull(argv[3], nullptr, 10);
	double secs = std::strtod(argv[4], nullptr);
	unsigned long maxit = std::strtoul(argv[5], nullptr, 10);
	g_out = argv[6];
	g_s[0] = seed * 0x9E3779B97F4A7C15ull + 12345; g_s[1] = seed ^ 0xD1B54A32D192ED03ull;
	for (int i = 0; i < 20; ++i) rnd();
	timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	static unsigned long it, disc;
	for (it = 0; it < maxit; ++it)
	{
		if ((it & 0x3f) == 0)
		{
			timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
			if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
			alarm(20);
		}
		g_log.clear();
		if (setjmp(g_jmp) == 0) fn(); else ++disc;
		for (void* p : g_mem) std::free(p);
		g_mem.clear();
	}
	alarm(0);
	std::printf("OK iterations=%lu discarded=%lu checks=%lu", it, disc, g_checks);
	for (auto const& c : g_cover) std::printf(" cover:%s=%lu", c.first.c_str(), c.second);
	std::puts("");
	return 0;
}
