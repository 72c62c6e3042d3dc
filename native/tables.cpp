// Native reading of the committed snapshot data/indexes.bin (the oracle of C01-C03).
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include "../harness/enc_tables.h"
namespace {
using vec = std::vector<std::uint32_t>;
struct tables
{
	std::map<std::string, vec> t;
	vec cp[IX_count];
	vec ptr[IX_count], sjis, big5;
	std::vector<std::pair<std::uint32_t, std::uint32_t>> ranges;
	tables()
	{
		FILE* f = std::fopen(VP_ROOT "/data/indexes.bin", "rb");
		std::uint32_t n;
		if (!f || std::fread(&n, 4, 1, f) != 1) std::_Exit(9);
		while (n--)
		{
			char nm[33] = {};
			std::uint32_t k;
			if (std::fread(nm, 32, 1, f) != 1 || std::fread(&k, 4, 1, f) != 1) std::_Exit(9);
			vec v(k);
			if (std::fread(v.data(), 4, k, f) != k) std::_Exit(9);
			t[nm] = v;
		}
		std::fclose(f);
#define X(n) cp[IX_##n] = t.at(#n);
		VP_MULTI_INDEXES(X) VP_SINGLE_INDEXES(X)
#undef X
		for (unsigned i = 0; i < IX_count; ++i) ptr[i] = first(cp[i], 0, 0);
		sjis = first(cp[IX_jis0208], 8272, 8836);
		// index Big5: without the Hong Kong extensions; for six code points the last pointer
		big5 = first(cp[IX_big5], 0, (0xA1 - 0x81) * 157);
		for (std::uint32_t p = (0xA1 - 0x81) * 157; p < cp[IX_big5].size(); ++p)
		{
			std::uint32_t c = cp[IX_big5][p];
			if (c == 0x2550 || c == 0x255E || c == 0x2561 || c == 0x256A || c == 0x5341 || c == 0x5345) big5[c] = p;
		}
		vec const& r = t.at("gb18030_ranges");
		for (std::size_t i = 0; i + 1 < r.size(); i += 2) ranges.push_back({ r[i], r[i + 1] });
	}
	// first pointer of each code point, pointers in [lo, hi) left out
	static vec first(vec const& c, std::uint32_t lo, std::uint32_t hi)
	{
		vec r(0x110000, VP_NULL);
		for (std::uint32_t p = 0; p < c.size(); ++p)
			if (!(lo <= p && p < hi) && c[p] != VP_NULL && r[c[p]] == VP_NULL) r[c[p]] = p;
		return r;
	}
};
tables const& T() { static tables t; return t; }
}
extern "C" std::uint32_t vp_uf32(std::uint32_t id, std::uint32_t x)
{
	tables const& t = T();
	if (id < IX_count) return x < t.cp[id].size() ? t.cp[id][x] : VP_NULL;
	auto at = [x](vec const& v) { return x < v.size() ? v[x] : VP_NULL; };
	if (id == VP_PTR + IX_shift_jis_ptr) return at(t.sjis);
	if (id == VP_PTR + IX_big5_ptr) return at(t.big5);
	if (id == IX_gb_ranges_cp)
	{
		if ((39419 < x && x < 189000) || 1237575 < x) return VP_NULL;
		if (x == 7457) return 0xE7C7;
		std::pair<std::uint32_t, std::uint32_t> b{ 0, 0 };
		auto it = std::upper_bound(t.ranges.begin(), t.ranges.end(), x, [](std::uint32_t v, auto const& e) { return v < e.first; });
		if (it != t.ranges.begin()) b = *--it;
		return b.second + x - b.first;
	}
	if (id == IX_gb_ranges_ptr)
	{
		if (x == 0xE7C7) return 7457;
		std::pair<std::uint32_t, std::uint32_t> b{ 0, 0 };
		auto it = std::upper_bound(t.ranges.begin(), t.ranges.end(), x, [](std::uint32_t v, auto const& e) { return v < e.second; });
		if (it != t.ranges.begin()) b = *--it;
		return b.first + x - b.second;
	}
	if (VP_PTR <= id && id < VP_PTR + IX_count) return at(t.ptr[id - VP_PTR]);
	std::_Exit(9);
}
