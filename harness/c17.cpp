// C17: static_vector behaves as a bounded sequence (static_vector/static_vector.hpp)
#include <array>
#include <initializer_list>
#include <iterator>
#include <wordring/static_vector/static_vector.hpp>
#include "vp.h"
using namespace wordring;

#ifndef VP_N
#define VP_N 6
#endif
static constexpr std::uint32_t N = VP_N;
using V = static_vector<std::uint32_t, N>;

// the abstract sequence
struct model
{
	std::uint32_t a[2 * N + 4];
	std::uint32_t n;
	void insert(std::uint32_t p, std::uint32_t x)
	{
		for (std::uint32_t i = n; i > p; --i) a[i] = a[i - 1];
		a[p] = x;
		++n;
	}
	void erase(std::uint32_t p)
	{
		for (std::uint32_t i = p; i + 1 < n; ++i) a[i] = a[i + 1];
		--n;
	}
};

static std::uint32_t size_upto(std::uint32_t hi) { return static_cast<std::uint32_t>(vp_concretize(vp_range(0, hi))); }

// any vector of n elements: every slot holds an arbitrary value, also those past the end
static void fill(V& v, model& m, std::uint32_t n)
{
	for (std::uint32_t i = 0; i < N; ++i) v.push_back(vp_nondet_u32());
	v.clear();
	m.n = n;
	for (std::uint32_t i = 0; i < n; ++i) { m.a[i] = vp_nondet_u32(); v.push_back(m.a[i]); }
}

static void same(V const& v, model const& m)
{
	vp_assert(v.size() == m.n, "size");
	vp_assert(v.empty() == (m.n == 0), "empty");
	for (std::uint32_t i = 0; i < m.n; ++i) vp_assert(v[i] == m.a[i], "contents");
}

VP_ENTRY(observers)
{
	V v;
	model m;
	fill(v, m, size_upto(N));
	same(v, m);
	V const& c = v;
	vp_assert(v.max_size() == N && v.capacity() == N, "capacity is N");
	std::uint32_t i = 0;
	for (auto it = v.begin(); it != v.end(); ++it, ++i) vp_assert(i < m.n && *it == m.a[i], "forward iteration");
	vp_assert(i == m.n, "forward iteration is complete");
	i = 0;
	for (auto it = c.begin(); it != c.end(); it++, ++i) vp_assert(i < m.n && *it == m.a[i], "const forward iteration");
	vp_assert(i == m.n, "const forward iteration is complete");
	i = 0;
	for (auto it = v.cbegin(); it != v.cend(); ++it, ++i) vp_assert(i < m.n && *it.operator->() == m.a[i], "const forward iteration");
	vp_assert(i == m.n, "const forward iteration is complete");
	i = m.n;
	for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; vp_assert(i < m.n && *it == m.a[i], "reverse iteration"); }
	vp_assert(i == 0, "reverse iteration is complete");
	i = m.n;
	for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; vp_assert(i < m.n && *it == m.a[i], "const reverse iteration"); }
	vp_assert(i == 0, "const reverse iteration is complete");
	i = m.n;
	for (auto it = c.crbegin(); it != c.crend(); ++it) { --i; vp_assert(i < m.n && *it == m.a[i], "const reverse iteration"); }
	vp_assert(i == 0, "const reverse iteration is complete");
	i = m.n;
	for (auto it = v.end(); it != v.begin();)
	{
		if (i & 1) { --it; --i; vp_assert(*it == m.a[i], "backward iteration"); }
		else { auto j = it--; vp_assert(j - it == 1, "it-- moves back by one and returns the old position"); --i; vp_assert(*it == m.a[i], "backward iteration"); }
	}
	if (m.n != 0)
	{
		vp_assert(v.front() == m.a[0] && c.front() == m.a[0], "front");
		vp_assert(v.back() == m.a[m.n - 1] && c.back() == m.a[m.n - 1], "back");
		std::uint32_t p = static_cast<std::uint32_t>(vp_concretize(vp_range(0, m.n - 1)));
		vp_assert(v.at(p) == m.a[p] && c.at(p) == m.a[p] && v[p] == m.a[p] && v.data()[p] == m.a[p] && c.data()[p] == m.a[p], "access by position");
		std::uint32_t x = vp_nondet_u32();
		switch (vp_concretize(vp_range(0, 4)))
		{
		case 0: v[p] = x; break;
		case 1: v.at(p) = x; break;
		case 2: v.data()[p] = x; break;
		case 3: *(v.begin() + p) = x; break;
		default: v.begin()[static_cast<int>(p)] = x; break;
		}
		m.a[p] = x;
		same(v, m);
	}
	vp_cover("done");
}

VP_ENTRY(iterator_arithmetic)
{
	V v;
	model m;
	fill(v, m, size_upto(N));
	std::uint32_t p = size_upto(m.n), q = size_upto(m.n);
	auto a = v.begin() + p;
	auto b = v.cbegin() + q;
	vp_assert(b - a == static_cast<std::ptrdiff_t>(q) - static_cast<std::ptrdiff_t>(p), "difference of iterators");
	vp_assert((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q), "order of iterators");
	auto c = v.begin();
	c += p;
	vp_assert(c == a && p + v.begin() == a && v.end() - (m.n - p) == a, "begin() + p from both sides");
	c -= p;
	vp_assert(c == v.begin(), "-= undoes +=");
	V::const_iterator k = c;
	k = a;
	vp_assert(k == a, "conversion to const_iterator");
	auto r = v.rbegin() + p;
	vp_assert(r - v.rbegin() == static_cast<std::ptrdiff_t>(p), "reverse iterator arithmetic");
	if (p < m.n) { vp_assert(*a == m.a[p] && *k == m.a[p] && *r == m.a[m.n - 1 - p], "dereference"); vp_assert(v.begin()[static_cast<int>(p)] == m.a[p] && v.cbegin()[static_cast<int>(p)] == m.a[p], "it[n]"); }
	vp_cover("done");
}

VP_ENTRY(insert_one)
{
	V v;
	model m;
	fill(v, m, size_upto(N - 1));
	std::uint32_t p = size_upto(m.n), x = vp_nondet_u32();
	V::iterator it;
	if (vp_nondet_bool()) it = v.insert(v.cbegin() + p, x);
	else it = v.insert(v.cbegin() + p, static_cast<std::uint32_t&&>(x));
	m.insert(p, x);
	same(v, m);
	vp_assert(it - v.begin() == static_cast<std::ptrdiff_t>(p) && *it == x, "insert returns the inserted element");
	vp_cover("done");
}

VP_ENTRY(insert_count)
{
	V v;
	model m;
	fill(v, m, size_upto(N));
	std::uint32_t p = size_upto(m.n), c = size_upto(N - m.n), x = vp_nondet_u32();
	auto it = v.insert(v.cbegin() + p, static_cast<std::size_t>(c), x);
	for (std::uint32_t i = 0; i < c; ++i) m.insert(p, x);
	same(v, m);
	vp_assert(it - v.begin() == static_cast<std::ptrdiff_t>(p), "insert returns the first inserted position");
	vp_cover("done");
}

VP_ENTRY(insert_range)
{
	V v;
	model m;
	fill(v, m, size_upto(N));
	std::uint32_t p = size_upto(m.n), c = size_upto(N - m.n);
	std::uint32_t b[N + 1];
	for (std::uint32_t i = 0; i < c; ++i) b[i] = vp_nondet_u32();
	auto it = v.insert(v.cbegin() + p, b, b + c);
	for (std::uint32_t i = 0; i < c; ++i) m.insert(p + i, b[i]);
	same(v, m);
	vp_assert(it - v.begin() == static_cast<std::ptrdiff_t>(p), "insert returns the first inserted position");
	vp_cover("done");
}

VP_ENTRY(insert_list)
{
	V v;
	model m;
	fill(v, m, size_upto(N - 2));
	std::uint32_t p = size_upto(m.n), x = vp_nondet_u32(), y = vp_nondet_u32();
	V::iterator it;
	switch (vp_concretize(vp_range(0, 2)))
	{
	case 0: it = v.insert(v.cbegin() + p, std::initializer_list<std::uint32_t>{}); break;
	case 1: it = v.insert(v.cbegin() + p, std::initializer_list<std::uint32_t>{ x }); m.insert(p, x); break;
	default: it = v.insert(v.cbegin() + p, { x, y }); m.insert(p, y); m.insert(p, x); break;
	}
	same(v, m);
	vp_assert(it - v.begin() == static_cast<std::ptrdiff_t>(p), "insert returns the first inserted position");
	vp_cover("done");
}

VP_ENTRY(erase_one)
{
	V v;
	model m;
	std::uint32_t n = size_upto(N - 1) + 1;
	fill(v, m, n);
	std::uint32_t p = static_cast<std::uint32_t>(vp_concretize(vp_range(0, n - 1)));
	auto it = v.erase(v.cbegin() + p);
	m.erase(p);
	same(v, m);
	vp_assert(it - v.begin() == static_cast<std::ptrdiff_t>(p), "erase returns the position after the erased element");
	vp_cover("done");
}

VP_ENTRY(erase_range)
{
	V v;
	model m;
	std::uint32_t n = size_upto(N - 1) + 1;
	fill(v, m, n);
	std::uint32_t p = static_cast<std::uint32_t>(vp_concretize(vp_range(0, n - 1)));
	std::uint32_t c = size_upto(n - p);
	auto it = v.erase(v.cbegin() + p, v.cbegin() + p + c);
	for (std::uint32_t i = 0; i < c; ++i) m.erase(p);
	same(v, m);
	vp_assert(it - v.begin() == static_cast<std::ptrdiff_t>(p), "erase returns the position after the erased elements");
	vp_cover("done");
}

VP_ENTRY(push_pop)
{
	V v;
	model m;
	std::uint32_t n = size_upto(N);
	fill(v, m, n);
	if (n != 0)
	{
		v.pop_back();
		--m.n;
		same(v, m);
	}
	if (m.n < N)
	{
		std::uint32_t x = vp_nondet_u32();
		if (vp_nondet_bool()) v.push_back(x);
		else v.push_back(static_cast<std::uint32_t&&>(x));
		m.insert(m.n, x);
		same(v, m);
	}
	v.clear();
	m.n = 0;
	same(v, m);
	vp_cover("done");
}

VP_ENTRY(resizing)
{
	V v;
	model m;
	fill(v, m, size_upto(N));
	std::uint32_t c = size_upto(N), x = vp_nondet_u32();
	if (vp_nondet_bool()) { v.resize(c); x = 0; }
	else v.resize(c, x);
	while (m.n > c) --m.n;
	while (m.n < c) m.insert(m.n, x);
	same(v, m);
	vp_cover("done");
}

VP_ENTRY(assigning)
{
	V v;
	model m;
	fill(v, m, size_upto(N));
	std::uint32_t c = size_upto(N), x = vp_nondet_u32(), y = vp_nondet_u32();
	std::uint32_t b[N];
	for (std::uint32_t i = 0; i < N; ++i) b[i] = vp_nondet_u32();
	m.n = 0;
	switch (vp_concretize(vp_range(0, 3)))
	{
	case 0: v.assign(static_cast<std::size_t>(c), x); for (std::uint32_t i = 0; i < c; ++i) m.insert(i, x); break;
	case 1: v.assign(b, b + c); for (std::uint32_t i = 0; i < c; ++i) m.insert(i, b[i]); break;
	case 2: v.assign({ x, y }); m.insert(0, x); m.insert(1, y); break;
	default: v = { x, y }; m.insert(0, x); m.insert(1, y); break;
	}
	same(v, m);
	vp_cover("done");
}

VP_ENTRY(constructing)
{
	std::uint32_t c = size_upto(N), x = vp_nondet_u32();
	std::uint32_t b[N];
	for (std::uint32_t i = 0; i < N; ++i) b[i] = vp_nondet_u32();
	model m;
	m.n = 0;
	V e;
	same(e, m);
	V l{ b[0], b[1] };
	m.insert(0, b[0]);
	m.insert(1, b[1]);
	same(l, m);
	m.n = 0;
	V z(static_cast<std::size_t>(c));
	for (std::uint32_t i = 0; i < c; ++i) m.insert(i, 0);
	same(z, m);
	m.n = 0;
	V f(static_cast<std::size_t>(c), x);
	for (std::uint32_t i = 0; i < c; ++i) m.insert(i, x);
	same(f, m);
	m.n = 0;
	V r(b, b + c);
	for (std::uint32_t i = 0; i < c; ++i) m.insert(i, b[i]);
	same(r, m);
	V k(r);
	same(k, m);
	V mv(static_cast<V&&>(k));
	same(mv, m);
	e = r;
	same(e, m);
	z = static_cast<V&&>(e);
	same(z, m);
	same(r, m);
	vp_cover("done");
}

VP_ENTRY(swapping)
{
	V v, w;
	model m, k;
	fill(v, m, size_upto(N));
	fill(w, k, size_upto(N));
	v.swap(w);
	same(v, k);
	same(w, m);
	vp_cover("done");
}

VP_ENTRY(comparing)
{
	V v, w;
	model m, k;
	fill(v, m, size_upto(N < 4 ? N : 4));
	fill(w, k, size_upto(N < 4 ? N : 4));
	bool eq = m.n == k.n, lt = false, decided = false;
	for (std::uint32_t i = 0; i < m.n && i < k.n; ++i)
	{
		if (m.a[i] != k.a[i]) eq = false;
		if (!decided && m.a[i] != k.a[i]) { decided = true; lt = m.a[i] < k.a[i]; }
	}
	if (!decided) lt = m.n < k.n;
	vp_assert((v == w) == eq && (v != w) == !eq, "equality is equality of the sequences");
	vp_assert((v < w) == lt && (v <= w) == (lt || eq), "order is the lexicographic order");
	vp_assert((v > w) == (!lt && !eq) && (v >= w) == !lt, "order is the lexicographic order (reversed operators)");
	vp_cover("done");
}
