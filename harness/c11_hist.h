// Random histories of the tree container against an explicit ordered forest (public interface only).
#pragma once
#include <memory>
#include <algorithm>
using trp = wordring::tree<std::uint32_t>;
// ---------------------------------------------------------------- explicit ordered forest
struct mn
{
	u32 v = 0;
	mn* p = nullptr;
	std::vector<mn*> c;
	trp::iterator it;
};
static std::vector<std::unique_ptr<mn>> g_pool;
static mn* fresh(u32 v) { g_pool.push_back(std::make_unique<mn>()); g_pool.back()->v = v; return g_pool.back().get(); }
static void nodes(mn* n, std::vector<mn*>& r) { for (mn* c : n->c) { r.push_back(c); nodes(c, r); } }
static std::size_t count(mn* n) { std::size_t k = 1; for (mn* c : n->c) k += count(c); return k; }
static bool inside(mn* n, mn* a) { for (; n; n = n->p) if (n == a) return true; return false; }
static mn* copy(mn* n) { mn* r = fresh(n->v); for (mn* c : n->c) { mn* k = copy(c); k->p = r; r->c.push_back(k); } return r; }

template <typename It>
static void same(It b, It e, It p, mn* n, bool root)
{
	std::size_t i = 0;
	for (It x = b; x != e; ++x, ++i)
	{
		vp_assert(i < n->c.size(), "no node that the history did not create");
		mn* c = n->c[i];
		vp_assert(*x == c->v && *x.operator->() == c->v, "nodes carry the values that were stored, in order");
		if (!root) vp_assert(x.parent() == p, "parent of a child");
		else { It up = x.parent(); vp_assert(up == It(), "a root has no parent"); }
		same(x.begin(), x.end(), x, c, false);
		It q = x; It r = q++;
		vp_assert(r == x && !(r != x), "post-increment returns the old position");
		It z = q; --z;
		vp_assert(z == x && *z == c->v, "-- undoes ++");
		z = q; z--;
		vp_assert(z == x, "-- undoes ++ (post)");
		vp_assert((q == e) == (i + 1 == n->c.size()), "end is reached after the last child only");
	}
	vp_assert(i == n->c.size(), "no node is lost");
	if (!root)
	{
		i = n->c.size();
		for (auto x = p.rbegin(); x != p.rend(); ++x) { --i; vp_assert(i < n->c.size() && *x == n->c[i]->v, "reverse order"); }
		vp_assert(i == 0, "reverse iteration is complete");
	}
}
static void forward(trp& t, trp::iterator x, mn* n)
{
	for (mn* c : n->c) { c->it = x; forward(t, x.begin(), c); ++x; }
}
static void compare(trp& t, mn* root)
{
	trp const& k = t;
	same(t.begin(), t.end(), trp::iterator(), root, true);
	same(k.begin(), k.end(), trp::const_iterator(), root, true);
	vp_assert(k.cbegin() == k.begin() && k.cend() == k.end(), "cbegin/cend");
	std::size_t n = count(root) - 1;
	vp_assert(t.size() == n && t.empty() == (n == 0), "size and empty");
	if (n) vp_assert(t.front() == root->c[0]->v && k.front() == root->c[0]->v, "front is the first root");
	std::vector<mn*> all;
	nodes(root, all);
	for (mn* m : all)
	{
		vp_assert(*m->it == m->v, "iterators to nodes that were not moved or erased stay valid");
		vp_assert(m->it.parent() == (m->p == root ? trp::iterator() : m->p->it), "iterators to nodes that were not moved or erased stay valid (parent)");
		vp_assert((m->it.begin() == m->it.end()) == m->c.empty(), "leaf");
		vp_assert(t.size(m->it) == count(m), "size of a subtree");
	}
	vp_assert(t.size(t.end()) == 0, "size of an end position");
}

static void history(u32 steps, u32 want)
{
	g_pool.clear();
	trp t;
	mn* root = fresh(0);
	u32 next = 1;
	auto pos = [&](mn*& par, std::size_t& k, mn* outside) -> trp::const_iterator {
		std::vector<mn*> all{ root };
		nodes(root, all);
		if (outside) all.erase(std::remove_if(all.begin(), all.end(), [&](mn* m) { return inside(m, outside); }), all.end());
		par = all[vp_range(0, static_cast<u32>(all.size()) - 1)];
		k = vp_range(0, static_cast<u32>(par->c.size()));
		if (k < par->c.size()) return par->c[k]->it;
		if (par == root) return t.end();
		return par->it.end();
	};
	auto put = [&](mn* par, std::size_t k, mn* n) { n->p = par; par->c.insert(par->c.begin() + k, n); };
	for (u32 s = 0; s < steps; ++s)
	{
		std::vector<mn*> all;
		nodes(root, all);
		u32 op = vp_range(0, 99);
		if (op < want || all.empty())
		{
			mn* par; std::size_t k;
			auto p = pos(par, k, nullptr);
			mn* n = fresh(next++);
			u32 v = n->v;
			switch (vp_range(0, 2))
			{
			case 0: n->it = t.insert(p, v); break;
			case 1: n->it = t.insert(p, static_cast<u32&&>(v)); break;
			default: n->it = t.emplace(p, v); break;
			}
			put(par, k, n);
			vp_assert(*n->it == n->v, "insert returns the inserted node");
		}
		else if (op < want + (100 - want) / 3)
		{
			mn* n = all[vp_range(0, static_cast<u32>(all.size()) - 1)];
			auto after = t.erase(n->it);
			mn* par = n->p;
			std::size_t k = std::find(par->c.begin(), par->c.end(), n) - par->c.begin();
			par->c.erase(par->c.begin() + k);
			auto e = par == root ? t.end() : par->it.end();
			vp_assert(after == (k < par->c.size() ? par->c[k]->it : e), "erase returns the following position");
		}
		else if (op < want + 2 * (100 - want) / 3)
		{
			mn* n = all[vp_range(0, static_cast<u32>(all.size()) - 1)];
			bool cyc = vp_range(0, 3) == 0;
			mn* par; std::size_t k;
			auto p = pos(par, k, cyc ? nullptr : n);
			bool bad = inside(par, n) || (k < par->c.size() && par->c[k] == n);
			bool threw = false;
			trp::iterator r;
			try { r = t.move(p, n->it); }
			catch (std::invalid_argument const&) { threw = true; }
			vp_assert(threw == bad, "move throws exactly when the position is the moved node or lies inside it");
			if (!threw)
			{
				mn* before = k < par->c.size() ? par->c[k] : nullptr;
				mn* op_ = n->p;
				op_->c.erase(std::find(op_->c.begin(), op_->c.end(), n));
				std::size_t q = before ? std::find(par->c.begin(), par->c.end(), before) - par->c.begin() : par->c.size();
				put(par, q, n);
				n->it = r;
				vp_assert(*r == n->v, "move returns the moved node");
			}
		}
		else if (op < 96)
		{
			if (all.size() > 60) continue;
			mn* n = all[vp_range(0, static_cast<u32>(all.size()) - 1)];
			mn* par; std::size_t k;
			auto p = pos(par, k, n);
			trp::iterator r = t.insert(p, n->it);
			mn* c = copy(n);
			put(par, k, c);
			c->it = r;
			vp_assert(*r == c->v, "insert of a subtree returns the copy");
			forward(t, r.begin(), c);
		}
		else if (op == 96) { t.clear(); root->c.clear(); }
		else if (op == 97)
		{
			mn* n = fresh(next++);
			u32 v = n->v;
			if (vp_nondet_bool()) t.assign(v);
			else t.assign(static_cast<u32&&>(v));
			root->c.clear();
			put(root, 0, n);
			n->it = t.begin();
		}
		else if (op == 98)
		{
			trp o(t);
			compare(t, root);
			t.swap(o);
			compare(t, (forward(t, t.begin(), root), root));
			if (vp_nondet_bool()) { o.clear(); vp_assert(o.empty() && o.size() == 0 && o.begin() == o.end(), "clear empties the tree"); }
			compare(t, root);
		}
		else
		{
			trp o;
			o = t;
			trp z(std::move(o));
			t = std::move(z);
			forward(t, t.begin(), root);
			tree<u32> one(next);
			vp_assert(one.size() == 1 && one.front() == next && one.back() == next, "construction from a value");
		}
		if (all.size() < 40 || s % 16 == 0) compare(t, root);
	}
	compare(t, root);
}
static void run_history()
{
	switch (vp_range(0, 3))
	{
	case 0: history(12, 70); break;
	case 1: history(40, 55); break;
	case 2: history(60, 35); break;
	default: history(150, 60); break;
	}
}
