// C11: the tree container is an ordered forest (tree/tree.hpp)
//
// For the verifier: contracts of every operation over an arbitrary node array of
// any length that satisfies the representation invariant `li`, checked at an
// arbitrary node k afterwards.  Natively: random histories against an explicit
// ordered forest.
#include <cassert>
#include <stdexcept>
#include <array>
#include <vector>
#include <wordring/tree/tree.hpp>
#include "vp.h"
using namespace wordring;
using u32 = std::uint32_t;

struct tr : tree<u32>
{
	using base = tree<u32>;
	using base::container;
	using base::m_c;
	using base::allocate;
	using base::free;
	using base::link;
	using base::unlink;
	using node = base::node_type;
	struct ci : const_iterator
	{
		ci(container const& c, u32 p, u32 i) : const_iterator(c, p, i) {}
		ci(const_iterator const& i) : const_iterator(i) {}
		u32 p() const { return m_parent; }
		u32 i() const { return m_index; }
	};
	struct mi : iterator
	{
		mi(iterator const& i) : iterator(i) {}
		u32 p() const { return m_parent; }
		u32 i() const { return m_index; }
	};
	const_iterator at(u32 p, u32 i) { return ci(m_c, p, i); }
};

#ifdef VP_NATIVE
#include "c11_hist.h"
#define NATIVE_ONLY { run_history(); return; }
#else
#define NATIVE_ONLY
#endif

// ---------------------------------------------------------------- representation
struct raw { tr::node* b; tr::node* e; tr::node* c; };
static u32 n;          // nodes in the array, the sentinel included
static tr::node* d;
static u32 g_sub;      // ghost: top of the subtree that move() takes
static u32 g_det;      // the one detached node, 0 if none
static u32 g_new;      // the one node whose kind was changed to g_kind by the operation, 0 if none
static u32 g_kind;
enum { detached = 0, linked = 1, unused = 2 };

// The specification is written without branches: specification reads are total.
static u32 P(u32 i) { return vp_peek32(d, i, sizeof(tr::node), offsetof(tr::node, m_parent)); }
static u32 A(u32 i) { return vp_peek32(d, i, sizeof(tr::node), offsetof(tr::node, m_next)); }
static u32 B(u32 i) { return vp_peek32(d, i, sizeof(tr::node), offsetof(tr::node, m_prev)); }
static u32 C(u32 i) { return vp_peek32(d, i, sizeof(tr::node), offsetof(tr::node, m_child)); }
static u32 V(u32 i) { return vp_peek32(d, i, sizeof(tr::node), offsetof(tr::node, m_value)); }
static u32 kind(u32 i)
{
	u32 k = vp_uf32(1, i) == 1 ? linked : unused;
	k = (g_det != 0) & (i == g_det) ? detached : k;
	return (g_new != 0) & (i == g_new) ? g_kind : k;
}
static bool isl(u32 i) { return (i != 0) & (i < n) & (kind(i) == linked); }
static bool isu(u32 i) { return (i != 0) & (i < n) & (kind(i) == unused); }
// order of siblings and depth: they exist because the structure was built by insertions (pre-states only)
static u32 ord(u32 i) { return vp_uf32(2, i); }
static u32 depth(u32 i) { return vp_uf32(3, i); }

static bool li_sentinel()
{
	u32 c = C(0), a = A(0);
	return ((c == 0) | (isl(c) & (P(c) == 0))) & ((a == 0) | (isu(a) & (B(a) == 0)));
}
static bool li_unused(u32 i)
{
	u32 a = A(i), b = B(i);
	return ((a == 0) | (isu(a) & (B(a) == i) & (i < a))) & ((b == 0) | (isu(b) & (b < i))) & (A(b) == i) & (C(i) == 0);
}
static bool li_children(u32 i) { u32 c = C(i); return (c == 0) | (isl(c) & (P(c) == i)); }
static bool li_linked(u32 i)
{
	u32 p = P(i), a = A(i), b = B(i), f = C(p);
	return (p < n) & ((p == 0) | isl(p) | ((g_det != 0) & (p == g_det))) & isl(f) & isl(b) & (P(f) == p) & (P(b) == p)
		& ((a == 0) | (isl(a) & (a != f) & (P(a) == p) & (B(a) == i)))
		& ((a != 0) | (B(f) == i))
		& (A(b) == (f == i ? 0 : i))
		& li_children(i);
}
static bool li(u32 i)
{
	return ((i != 0) | li_sentinel())
		& ((i == 0) | (kind(i) != unused) | li_unused(i))
		& ((i == 0) | (kind(i) != detached) | li_children(i))
		& ((i == 0) | (kind(i) != linked) | li_linked(i));
}
static bool rank(u32 i)
{
	u32 p = P(i), a = A(i), f = C(p);
	return (i == 0) | (kind(i) != linked) | (((a == 0) | (ord(i) < ord(a))) & ((f == i) | (ord(f) < ord(i))) & ((B(f) == i) | (ord(i) < ord(B(f)))) & (depth(p) < depth(i)));
}
static void know(u32 i) { vp_assume((i >= n) | (li(i) & rank(i))); }
// i and its neighbourhood
static void know2(u32 i)
{
	know(i);
	know(P(i)); know(A(i)); know(B(i)); know(C(i));
	u32 f = C(P(i));
	know(f);
	know(B(f));
	know(B(C(i)));
}

static void any(tr& t)
{
	n = vp_nondet_u32();
	vp_assume(n >= 1 & n < (1u << 30));
	d = static_cast<tr::node*>(vp_new_array(n, sizeof(tr::node)));
	raw& r = reinterpret_cast<raw&>(t.m_c);
	r.b = d;
	r.e = r.c = d + n;
	g_det = g_new = 0;
	know(0);
	know(C(0));
	know(A(0));
}
static u32 any_linked() { u32 i = vp_nondet_u32(); vp_assume(i >= 1 & i < n & kind(i) == linked); know2(i); return i; }
static u32 any_node() { u32 i = vp_nondet_u32(); vp_assume(i < n); know2(i); return i; }
static void any_pos(u32& par, u32& pos)
{
	par = vp_nondet_u32();
	vp_assume(par < n & (par == 0 | kind(par) == linked));
	know2(par);
	pos = vp_nondet_u32();
	vp_assume(pos == 0 | (pos < n & kind(pos) == linked & P(pos) == par));
	know2(pos);
	know(B(C(par)));
}
static void leave(tr& t) { raw& r = reinterpret_cast<raw&>(t.m_c); r.b = r.e = r.c = nullptr; }

struct fields { u32 p, a, c, v; };
static fields get(u32 k) { return { P(k), A(k), C(k), V(k) }; }

// the abstract effect of placing idx before pos under par, seen from an arbitrary node k
static void placed(u32 par, u32 pos, u32 idx, u32 before, u32 first0, u32 k, fields const& o)
{
	fields w = get(k);
	vp_assert(w.p == (k == idx ? par : o.p), "only the inserted node changes its parent");
	vp_assert(k == idx | k == 0 | w.v == o.v, "no value changes");
	if (k != 0) vp_assert(w.a == (k == idx ? pos : before != 0 & k == before ? idx : o.a), "the inserted node stands right before the position, after its predecessor; no other sibling order changes");
	vp_assert(w.c == (k == par & (first0 == 0 | pos == first0) ? idx : o.c), "the first child changes only when inserting in front");
	vp_assert(li(k), "the representation invariant holds at every node");
}

VP_ENTRY(insert_reused_or_new)
{
	NATIVE_ONLY
#ifndef VP_NATIVE
	tr t;
	any(t);
	if (vp_nondet_bool())
	{
		// spare capacity, so that a new node is appended in place
		vp_assume(n >= 2);
		raw& r = reinterpret_cast<raw&>(t.m_c);
		r.c = d + n;
		u32 m = vp_nondet_u32();
		vp_assume(m >= 1 && m < n);
		n = m;
		r.e = d + n;
		vp_assume(A(0) == 0);
		know(0);
		vp_cover("appends a new node");
	}
	else { vp_assume(A(0) != 0); know(A(A(0))); vp_cover("reuses a freed node"); }
	u32 n0 = n;
	u32 par, pos;
	any_pos(par, pos);
	u32 k = any_node();
	u32 first0 = C(par);
	u32 before = pos != 0 ? (pos == first0 ? 0 : B(pos)) : first0 == 0 ? 0 : B(first0);
	know(before);
	fields o = get(k);
	u32 kind0 = kind(k);
	u32 x = vp_nondet_u32();
	u32 head = A(0);
	auto r = tr::mi(t.insert(t.at(par, pos), x));
	u32 idx = r.i();
	vp_assert(r.p() == par, "insert returns a position under the same parent");
	vp_assert(idx != 0 & (head != 0 ? vp_uf32(1, idx) != 1 & idx < n0 : idx == n0), "the new node uses a node that was not in the tree");
	n = static_cast<u32>(t.m_c.size());
	vp_assert(n == (head != 0 ? n0 : n0 + 1), "the array grows only when no freed node is left");
	g_new = idx;
	g_kind = linked;
	vp_assert(V(idx) == x & *r == x, "the value is stored");
	vp_assert(C(idx) == 0, "the new node has no child");
	if ((k != idx) & ((k == 0) | (kind0 == linked))) placed(par, pos, idx, before, first0, k, o);
	else if (k != idx) vp_assert(li(k), "the free list stays well-formed");
	vp_assert(li(idx) & li(0), "the representation invariant holds at the new node");
	leave(t);
#endif
}

VP_ENTRY(unlink_contract)
{
	NATIVE_ONLY
#ifndef VP_NATIVE
	tr t;
	any(t);
	u32 idx = any_linked(), k = any_node();
	fields o = get(k);
	u32 par = P(idx), first0 = C(par), after = A(idx);
	u32 before = first0 == idx ? 0 : B(idx);
	know2(before); know2(after);
	u32 kind0 = kind(k);
	t.unlink(idx);
	g_det = idx;
	fields w = get(k);
	if ((k != idx) & ((k == 0) | (kind0 == linked)))
	{
		vp_assert(w.p == o.p, "no other node changes its parent");
		vp_assert(k == 0 | w.v == o.v, "no value changes");
		if (k != 0) vp_assert(w.a == (before != 0 & k == before ? after : o.a), "the predecessor is joined to the successor; no other sibling order changes");
		vp_assert(w.c == (k == par & first0 == idx ? after : o.c), "the first child changes only when it is the one removed");
	}
	vp_assert(C(idx) == (k == idx ? o.c : C(idx)), "the removed node keeps its children");
	vp_assert(li(k) & li(0), "the representation invariant holds at every node");
	vp_cover("done");
	leave(t);
#endif
}

VP_ENTRY(link_contract)
{
	NATIVE_ONLY
#ifndef VP_NATIVE
	tr t;
	any(t);
	u32 idx = vp_nondet_u32();
	vp_assume(idx >= 1 & idx < n);
	g_det = idx;
	know(0); know(C(0)); know(A(0));
	know(idx);
	u32 par, pos;
	any_pos(par, pos);
	u32 k = any_node();
	u32 first0 = C(par);
	u32 before = pos != 0 ? (pos == first0 ? 0 : B(pos)) : first0 == 0 ? 0 : B(first0);
	know2(before);
	fields o = get(k);
	u32 kind0 = kind(k), c0 = C(idx);
	t.link(par, pos, idx);
	g_det = 0;
	g_new = idx;
	g_kind = linked;
	vp_assert(C(idx) == c0, "the inserted node keeps its children");
	if ((k == 0) | (k == idx) | (kind0 == linked)) placed(par, pos, idx, before, first0, k, o);
	vp_assert(li(k) & li(idx) & li(0), "the representation invariant holds at every node");
	vp_cover("done");
	leave(t);
#endif
}

// ---- move: the walk towards the root decides whether the position lies inside the subtree
static u32 in_start;
static bool in_sub(u32 i) { return vp_uf32(4, i) == 1; }
// definition of "inside": the node itself, or its parent is inside; the sentinel is outside
extern "C" bool vpp_ax32_inside(u32 i) { return i >= n | in_sub(i) == (i != 0 & (i == g_sub | in_sub(P(i)))); }
extern "C" bool vpp_ax32_li(u32 i) { return i >= n | (li(i) & rank(i)); }
extern "C" bool vpp_reg32_same_answer(u32 i) { return in_sub(i) == (in_start == 1); }
extern "C" bool vpp_reg32_in_tree(u32 i) { return i == 0 | isl(i); }
// ---- free: the walk along the free list
static u32 g_idx;
extern "C" bool vpp_reg32_before(u32 i) { return i == 0 | (isu(i) & i < g_idx); }
extern "C" bool vpp_reg32_free(u32 i) { return i == 0 | isu(i); }
extern "C" bool vpp_pair32_next(u32 a, u32 b) { return a < n & A(a) == b; }

// move is checked against the contracts of unlink and link (unlink_contract, link_contract)
static u32 m_calls, m_par, m_pos, m_idx;
extern "C" void vps_unlink(tree<u32>* t, u32 idx)
{
	vp_assert(isl(idx), "unlink is called on a node of the tree");
	vp_assert(m_calls == 0 && idx == m_idx, "the moved node is taken out first");
	vp_assert(in_start == 0, "nothing is changed when the position lies inside the moved subtree");
	m_calls = 1;
	g_det = idx;
}
extern "C" void vps_link(tree<u32>* t, u32 par, u32 pos, u32 idx)
{
	vp_assert(m_calls == 1 && idx == m_idx, "the moved node is put back after it was taken out");
	vp_assert(par == m_par && pos == m_pos, "the moved node is put right before the position");
	vp_assert(!in_sub(par) & (pos == 0 | isl(pos)), "the position lies outside the detached subtree");
	m_calls = 2;
}
VP_ENTRY(move_contract)
{
	NATIVE_ONLY
#ifndef VP_NATIVE
	tr t;
	any(t);
	u32 sub = any_linked();
	u32 par, pos;
	any_pos(par, pos);
	g_sub = sub;
	u32 start = pos != 0 ? pos : par;
	vp_assume(vpp_ax32_inside(start) & vpp_ax32_inside(0) & vpp_ax32_inside(par) & vpp_ax32_inside(sub));
	in_start = in_sub(start) ? 1 : 0;
	m_calls = 0;
	m_par = par; m_pos = pos; m_idx = sub;
	bool threw = false;
	u32 rp = 0, ri = 0;
	try { auto r = tr::mi(t.move(t.at(par, pos), t.at(P(sub), sub))); rp = r.p(); ri = r.i(); }
	catch (std::invalid_argument const&) { threw = true; }
	vp_assert(threw == (in_start == 1), "move throws exactly when the position is the moved node or lies inside it");
	vp_assert(m_calls == (threw ? 0 : 2), "a rejected move changes nothing, an accepted one moves the subtree");
	if (threw) vp_cover("rejected");
	else
	{
		vp_assert(rp == par && ri == sub, "move returns the moved node at its new place");
		vp_cover("moved");
	}
	leave(t);
#endif
}

VP_ENTRY(free_contract)
{
	NATIVE_ONLY
#ifndef VP_NATIVE
	tr t;
	any(t);
	u32 idx = vp_nondet_u32();
	vp_assume(idx >= 1 & idx < n);
	g_det = idx;
	g_idx = idx;
	know(0); know(C(0)); know(A(0));
	u32 k = any_node();
	fields o = get(k);
	u32 kind0 = kind(k);
	vp_assume(k == 0 | kind0 != linked | P(k) != idx);
	t.free(idx);
	g_det = 0;
	g_new = idx;
	g_kind = unused;
	fields w = get(k);
	if (k != 0 & kind0 == linked) vp_assert(w.p == o.p & w.a == o.a & w.c == o.c & w.v == o.v, "releasing a node touches no node of the tree");
	if (k == 0) vp_assert(w.c == o.c, "releasing a node does not touch the roots");
	vp_assert(li(k) & li(idx) & li(0), "the free list stays well-formed");
	vp_cover("done");
	leave(t);
#endif
}

VP_ENTRY(iterator_steps)
{
	NATIVE_ONLY
#ifndef VP_NATIVE
	tr t;
	any(t);
	u32 i = any_linked();
	u32 p = P(i);
	know2(p);
	auto it = tr::ci(t.at(p, i));
	vp_assert(*it == V(i) & it.operator->() == &d[i].m_value, "dereference");
	auto nx = it;
	++nx;
	vp_assert(nx.p() == p & nx.i() == A(i), "++ moves to the next sibling");
	auto bk = nx;
	know(A(i));
	--bk;
	vp_assert(bk.p() == p & bk.i() == i & bk == it, "-- undoes ++");
	auto b = tr::ci(it.begin()), e = tr::ci(it.end());
	vp_assert(b.p() == i & b.i() == C(i) & e.p() == i & e.i() == 0, "begin and end of the children");
	if (b != e)
	{
		know2(C(i));
		vp_assert(P(b.i()) == i, "children point to their parent");
		auto l = e;
		--l;
		vp_assert(l.p() == i & isl(l.i()) & A(l.i()) == 0 & P(l.i()) == i, "-- from the end reaches the last child");
		vp_assert(tr::ci(b.parent()).i() == i, "parent of a child");
		vp_cover("has children");
	}
	auto up = tr::ci(it.parent());
	vp_assert(up.i() == p & (p == 0 | up.p() == P(p)), "parent");
	tr const& c = t;
	vp_assert(tr::ci(c.begin()).i() == C(0) & tr::ci(c.end()).i() == 0 & tr::ci(c.begin()).p() == 0, "roots");
	vp_assume(C(0) != 0);
	auto l = tr::ci(c.end());
	know2(C(0));
	--l;
	vp_assert(l.p() == 0 & isl(l.i()) & A(l.i()) == 0 & P(l.i()) == 0, "-- from the end reaches the last root");
	vp_cover("done");
	leave(t);
#endif
}

// erase is checked against the contracts of unlink and free (unlink_contract, free_contract):
// the node and each of its descendants is released exactly once, after the node was taken out.
static u32 e_top, e_unl, e_freed[8], e_nf;
extern "C" void vps_unlink_e(tree<u32>* t, u32 idx)
{
	vp_assert(isl(idx), "unlink is called on a node of the tree");
	vp_assert((e_unl == 0) & (e_nf == 0) & (idx == e_top), "the erased node is taken out first, once");
	e_unl = 1;
	g_det = idx;
	d[idx].m_next = vp_nondet_u32();
	d[idx].m_prev = vp_nondet_u32();
}
extern "C" void vps_free_e(tree<u32>* t, u32 idx)
{
	vp_assert(e_unl == 1, "nodes are released after the subtree was taken out");
	vp_assert(idx < n, "nodes of the array are released");
	vp_assert(e_nf < 8, "no more nodes are released than the subtree has");
	bool twice = false;
	for (u32 i = 0; i < e_nf; ++i) twice = twice | (e_freed[i] == idx);
	vp_assert(!twice, "no node is released twice");
	e_freed[e_nf++] = idx;
	// a released node belongs to the free list: nothing may be expected of its links
	d[idx].m_next = vp_nondet_u32();
	d[idx].m_prev = vp_nondet_u32();
	d[idx].m_child = vp_nondet_u32();
	d[idx].m_parent = vp_nondet_u32();
}
VP_ENTRY(erase_contract)
{
	NATIVE_ONLY
#ifndef VP_NATIVE
	tr t;
	any(t);
	u32 idx = any_linked();
	u32 par = P(idx), after = A(idx);
	e_top = idx;
	e_unl = e_nf = 0;
	// a subtree of up to three children (leaves), at arbitrary places of the array
	u32 nc;
	if (vp_nondet_bool()) { if (vp_nondet_bool()) nc = 0; else nc = 1; } else if (vp_nondet_bool()) nc = 2; else nc = 3;
	u32 c1 = C(idx);
	know2(c1);
	u32 c2 = A(c1);
	if (nc == 0) vp_assume(c1 == 0);
	if (nc >= 1) { vp_assume(c1 != 0 & C(c1) == 0); know2(c2); }
	if (nc == 1) vp_assume(c2 == 0);
	u32 c3 = nc >= 2 ? A(c2) : 0;
	if (nc >= 2) { vp_assume(c2 != 0 & C(c2) == 0); know2(c3); }
	if (nc == 2) vp_assume(c3 == 0);
	if (nc >= 3) vp_assume(c3 != 0 & C(c3) == 0 & A(c3) == 0);
	auto r = tr::mi(t.erase(t.at(par, idx)));
	vp_assert(r.p() == par & r.i() == after, "erase returns the following position");
	vp_assert(e_unl == 1 & e_nf == nc + 1, "every node of the subtree is released");
	bool h0 = false, h1 = nc < 1, h2 = nc < 2, h3 = nc < 3;
	for (u32 i = 0; i < e_nf; ++i)
	{
		h0 = h0 | (e_freed[i] == idx);
		h1 = h1 | (e_freed[i] == c1);
		h2 = h2 | (e_freed[i] == c2);
		h3 = h3 | (e_freed[i] == c3);
	}
	vp_assert(h0 & h1 & h2 & h3, "the node and its descendants are released, no other");
	vp_cover("done");
	leave(t);
#endif
}
