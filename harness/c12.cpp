// C12: pre-order and level-order traversal (tree/tree_iterator.hpp)
#include <cassert>
#include <deque>
#include <stdexcept>
#include <vector>
#include <wordring/tree/tree.hpp>
#include <wordring/tree/tree_iterator.hpp>
#include "vp.h"
using namespace wordring;
using u32 = std::uint32_t;

// An abstract forest for the verifier: node x has `kids` children kid(x, 0), kid(x, 1), ...
static u32 g_kids;
static u32 kid(u32 x, u32 k) { return vp_uf32(11 + k, x); }

struct git
{
	using value_type = u32;
	using difference_type = std::ptrdiff_t;
	using reference = u32 const&;
	using pointer = u32 const*;
	using iterator_category = std::forward_iterator_tag;
	u32 parent = 0, k = 0, v = 0;
	reference operator*() const { return v; }
	pointer operator->() const { return &v; }
	git& operator++() { ++k; v = k < g_kids ? kid(parent, k) : 0; return *this; }
	git operator++(int) { git r = *this; ++*this; return r; }
	git begin() const { return { v, 0, g_kids ? kid(v, 0) : 0 }; }
	git end() const { return { v, g_kids, 0 }; }
	friend bool operator==(git const& a, git const& b) { return a.parent == b.parent && a.k == b.k; }
	friend bool operator!=(git const& a, git const& b) { return !(a == b); }
};

// One step from a pending sequence of m nodes, the first of which has c children, any values:
// pre-order puts the children in front, level-order behind.
template <typename It, bool Pre>
static void step()
{
	u32 c = static_cast<u32>(vp_concretize(vp_range(0, 3)));
	u32 m = static_cast<u32>(vp_concretize(vp_range(1, 4)));
	u32 want[16];
	u32 n = 0;
	u32 x = vp_nondet_u32();
	// build m pending nodes: a node with m children, then step onto them
	It it(git{ 0, 0, x });
	vp_assert(*it == x && *it.operator->() == x && it.base().v == x, "a new iterator stands on the given node");
	vp_assert(it != It() && !(it == It()), "an iterator on a node is not the end");
	g_kids = m;
	++it;
	for (u32 i = 0; i < m; ++i) want[n++] = kid(x, i);
	vp_assert(*it == want[0] && it.base().v == want[0] && it.base().parent == x, "the first child follows");
	g_kids = c;
	u32 first = want[0];
	It copy(it);
	if (vp_nondet_bool()) { ++it; }
	else { git b = it++; vp_assert(b.v == first, "it++ returns the old position"); }
	vp_assert(*copy == first, "copies are independent");
	u32 w2[16];
	u32 n2 = 0;
	if (Pre)
	{
		for (u32 i = 0; i < c; ++i) w2[n2++] = kid(first, i);
		for (u32 i = 1; i < m; ++i) w2[n2++] = want[i];
	}
	else
	{
		for (u32 i = 1; i < m; ++i) w2[n2++] = want[i];
		for (u32 i = 0; i < c; ++i) w2[n2++] = kid(first, i);
	}
	g_kids = 0;
	for (u32 i = 0; i < n2; ++i)
	{
		vp_assert(it != It(), "no pending node is lost");
		vp_assert(*it == w2[i], "pending nodes are visited in order");
		++it;
	}
	vp_assert(it == It() && !(it != It()), "the end is reached exactly after the last pending node");
	vp_cover("done");
}

VP_ENTRY(pre_order_step) { step<tree_iterator<git>, true>(); }
VP_ENTRY(level_order_step) { step<level_order_tree_iterator<git>, false>(); }

#ifdef VP_NATIVE
struct mn { u32 v; std::vector<mn> c; };
extern "C" u32 vp_uf32(u32 id, u32 x) { return (x * 2654435761u) ^ (id * 40503u); }
static u32 g_next;
static void grow(tree<u32>& t, tree<u32>::iterator it, mn& n, u32 depth)
{
	u32 k = vp_range(0, depth == 0 ? 0 : 3);
	for (u32 i = 0; i < k; ++i)
	{
		n.c.push_back({ ++g_next, {} });
		auto c = t.insert(it.end(), g_next);
		grow(t, c, n.c.back(), depth - 1);
	}
}
static void pre(mn const& n, std::vector<u32>& r) { r.push_back(n.v); for (auto const& c : n.c) pre(c, r); }
static void level(mn const& n, std::vector<u32>& r)
{
	std::deque<mn const*> q{ &n };
	while (!q.empty()) { mn const* m = q.front(); q.pop_front(); r.push_back(m->v); for (auto const& c : m->c) q.push_back(&c); }
}
template <typename It, typename B>
static void walk(B base, std::vector<u32> const& want)
{
	It it(base), end;
	std::size_t i = 0;
	It copy(it);
	while (it != end)
	{
		vp_assert(i < want.size() && *it == want[i] && *it.operator->() == want[i] && *it.base() == want[i], "traversal order");
		vp_assert(it == it && !(it == end), "comparison");
		if (vp_range(0, 7) == 0) copy = it;
		if (vp_nondet_bool()) { auto b = it++; vp_assert(*b == want[i], "it++ returns the old position"); }
		else { It& r = ++it; vp_assert(&r == &it, "++it returns itself"); }
		++i;
	}
	vp_assert(i == want.size(), "every node of the subtree is visited exactly once");
	// a copy taken on the way goes on independently
	std::size_t j = 0;
	while (j < want.size() && want[j] != *copy) ++j;
	for (; copy != end; ++copy, ++j) vp_assert(j < want.size() && *copy == want[j], "copies are independent");
	vp_assert(j == want.size(), "copies are independent (end)");
}
template <typename I>
static void siblings(I first, I last, std::vector<mn> const& want)
{
	I it = last;
	for (std::size_t i = want.size(); i-- > 0;)
	{
		if (vp_nondet_bool()) { I old = it; I r = it--; vp_assert(r == old, "it-- returns the old position"); }
		else { I& r = --it; vp_assert(&r == &it, "--it returns itself"); }
		vp_assert(*it == want[i].v, "stepping back visits the siblings backwards");
		I f = it;
		if (vp_nondet_bool()) ++f; else { I r = f++; vp_assert(r == it, "it++ returns the old position"); }
		vp_assert(i + 1 == want.size() ? f == last : *f == want[i + 1].v, "stepping forward undoes stepping back");
	}
	vp_assert(it == first, "stepping back reaches the first sibling");
}
static void sub(tree<u32>& t, tree<u32>::iterator it, mn& n)
{
	std::vector<u32> p, l;
	pre(n, p);
	level(n, l);
	walk<tree_iterator<tree<u32>::iterator>>(it, p);
	walk<level_order_tree_iterator<tree<u32>::iterator>>(it, l);
	walk<tree_iterator<tree<u32>::const_iterator>>(tree<u32>::const_iterator(it), p);
	walk<level_order_tree_iterator<tree<u32>::const_iterator>>(tree<u32>::const_iterator(it), l);
	auto c = it.begin();
	for (auto& k : n.c) { sub(t, c, k); ++c; }
	vp_assert(c == it.end(), "the children end after the last one");
	siblings(it.begin(), it.end(), n.c);
	siblings(tree<u32>::const_iterator(it).begin(), tree<u32>::const_iterator(it).end(), n.c);
	auto rv = it.rbegin();
	for (std::size_t i = n.c.size(); i-- > 0; ++rv) vp_assert(rv != it.rend() && *rv == n.c[i].v, "reverse iteration visits the children backwards");
	vp_assert(rv == it.rend(), "reverse iteration ends before the first child");
	for (auto i = it.begin(); i != it.end(); ++i) vp_assert(i.parent() == it && *i.parent() == n.v, "the parent of a child is the node");
}
#endif
VP_ENTRY(whole_trees)
{
#ifdef VP_NATIVE
	g_next = 1;
	tree<u32> t(1u);
	std::vector<mn> roots{ { 1, {} } };
	grow(t, t.begin(), roots[0], vp_range(0, 4));
	u32 more = vp_nondet_bool() ? 0 : vp_range(1, 3);
	for (u32 i = 0; i < more; ++i)
	{
		roots.push_back({ ++g_next, {} });
		auto r = t.insert(t.end(), g_next);
		grow(t, r, roots.back(), vp_range(0, 2));
	}
	auto ri = t.begin();
	for (auto& r : roots) { sub(t, ri, r); ++ri; }
	vp_assert(ri == t.end(), "the roots end after the last one");
	siblings(t.begin(), t.end(), roots);
	siblings(t.cbegin(), t.cend(), roots);
	mn& root = roots[0];
	// values can be changed through the iterator
	tree_iterator<tree<u32>::iterator> it(t.begin()), end;
	for (; it != end; ++it) *it += 1000;
	std::vector<u32> p;
	pre(root, p);
	std::size_t i = 0;
	for (tree_iterator<tree<u32>::iterator> j(t.begin()); j != end; ++j, ++i) vp_assert(*j == p[i] + 1000, "writing through the iterator reaches the node");
#endif
}
