// C19: HTML fragment serialisation (whatwg/html/parsing/serializing.hpp, to_string)
//
// The serializer is a template over node_traits.  Here it walks ghost trees whose
// shape is fixed (every shape of up to three nodes under the serialized node) and
// whose nodes are arbitrary: kind, namespace, tag, names, data, attribute.  Every
// output unit is compared with the standard's algorithm, written as a recursion.
#include <cassert>
#include <array>
#include <deque>
#include <string>
#include <string_view>
#include <wordring/html/html_defs.hpp>
#include "vp.h"
#include "c19_spec.h"
using u32 = std::uint32_t;
using wordring::html::ns_name;
using wordring::html::tag_name;
using wordring::html::attribute_name;

enum kind : u32 { element, text, comment, pi, doctype, other };
struct gattr
{
	ns_name ns;
	attribute_name name;
	char32_t local, qual, val;
};
struct gnode
{
	int parent = -1, first = -1, next = -1;
	u32 k;
	ns_name ns;
	tag_name tag;
	char32_t local, qual, data, target;
	u32 na;
	gattr at;
};
static gnode g[5];
static int g_count;
struct np
{
	int p = -1, i = -1;
	using value_type = gnode;
	using difference_type = std::ptrdiff_t;
	friend bool operator==(np const& a, np const& b) { return a.p == b.p && a.i == b.i; }
	friend bool operator!=(np const& a, np const& b) { return !(a == b); }
	np& operator++() { i = g[i].next; return *this; }
	np operator++(int) { np r = *this; i = g[i].next; return r; }
};
using sv = std::u32string_view;
namespace wordring::html
{
	template <>
	struct node_traits<np>
	{
		using node_pointer = np;
		static np pointer() { return np(); }
		static np parent(np it) { return it.p < 0 ? np() : np{ g[it.p].parent, it.p }; }
		static np begin(np it) { return { it.i, g[it.i].first }; }
		static np end(np it) { return { it.i, -1 }; }
		static bool is_element(np it) { return g[it.i].k == element; }
		static bool is_text(np it) { return g[it.i].k == text; }
		static bool is_comment(np it) { return g[it.i].k == comment; }
		static bool is_processing_instruction(np it) { return g[it.i].k == pi; }
		static bool is_document_type(np it) { return g[it.i].k == doctype; }
		static bool is_document(np it) { return g[it.i].k == other; }
		static bool is_document_fragment(np it) { return g[it.i].k == other; }
		static ns_name get_namespace_name(np it) { vp_assert(g[it.i].k == element, "only elements are asked for their namespace"); return g[it.i].ns; }
		static tag_name get_local_name_name(np it) { vp_assert(g[it.i].k == element, "only elements are asked for their name"); return g[it.i].tag; }
		static bool is_html_element_of(np it, tag_name t) { return get_namespace_name(it) == ns_name::HTML && get_local_name_name(it) == t; }
		static sv get_local_name(np it) { return sv(&g[it.i].local, 1); }
		static sv get_qualified_name(np it) { return sv(&g[it.i].qual, 1); }
		static sv data(np it) { return sv(&g[it.i].data, 1); }
		static sv target(np it) { return sv(&g[it.i].target, 1); }
		static sv name(np it) { return sv(&g[it.i].data, 1); }
		static gattr const* abegin(np it) { return &g[it.i].at; }
		static gattr const* aend(np it) { return &g[it.i].at + g[it.i].na; }
		static ns_name get_namespace_name(gattr const& a) { return a.ns; }
		static attribute_name get_local_name_name(gattr const& a) { return a.name; }
		static sv get_local_name(gattr const& a) { return sv(&a.local, 1); }
		static sv get_qualified_name(gattr const& a) { return sv(&a.qual, 1); }
		static sv value(gattr const& a) { return sv(&a.val, 1); }
	};
}
#include <wordring/whatwg/html/parsing/serializing.hpp>

// ---- the standard's algorithm
static u32 want[160], wn;
static void w(u32 c) { want[wn++] = c; }
static void ws(char const* s) { while (*s) w(static_cast<unsigned char>(*s++)); }
static void wesc(u32 c, bool attr)
{
	u32 l = esc_len(c, attr);
	if (l == 0) { w(c); return; }
	for (u32 k = 0; k < l; ++k) w(esc_unit(c, k));
}
static bool is_one_of(u32 t, tag_name const* b, u32 n)
{
	bool r = false;
	for (u32 i = 0; i < n; ++i) r = r | (t == static_cast<u32>(b[i]));
	return r;
}
static tag_name const voids[] = { tag_name::Area, tag_name::Base, tag_name::Br, tag_name::Col, tag_name::Embed, tag_name::Hr, tag_name::Img, tag_name::Input,
	tag_name::Link, tag_name::Meta, tag_name::Param, tag_name::Source, tag_name::Track, tag_name::Wbr, tag_name::Basefont, tag_name::Bgsound, tag_name::Frame, tag_name::Keygen };
static tag_name const raws[] = { tag_name::Style, tag_name::Script, tag_name::Xmp, tag_name::Iframe, tag_name::Noembed, tag_name::Noframes, tag_name::Plaintext };
static bool html(int i) { return (g[i].k == element) & (g[i].ns == ns_name::HTML); }
static bool is_void(int i) { return html(i) & is_one_of(static_cast<u32>(g[i].tag), voids, 18); }
static bool is_raw(int i) { return html(i) & is_one_of(static_cast<u32>(g[i].tag), raws, 7); }
static void wtag(int i)
{
	bool known = (g[i].ns == ns_name::HTML) | (g[i].ns == ns_name::MathML) | (g[i].ns == ns_name::SVG);
	w(known ? g[i].local : g[i].qual);
}
static void spec(int i)
{
	if (is_void(i)) return;
	for (int c = g[i].first; c >= 0; c = g[c].next)
	{
		gnode const& n = g[c];
		if (n.k == element)
		{
			w('<');
			wtag(c);
			if (n.na != 0)
			{
				w(' ');
				gattr const& a = n.at;
				if (static_cast<u32>(a.ns) == 0) w(a.local);
				else if (a.ns == ns_name::XML) { ws("xml:"); w(a.local); }
				else if (a.ns == ns_name::XMLNS)
				{
					if (a.name == attribute_name::Xmlns) ws("xmlns");
					else { ws("xmlns:"); w(a.local); }
				}
				else if (a.ns == ns_name::XLink) { ws("xlink:"); w(a.local); }
				else w(a.qual);
				ws("=\"");
				wesc(a.val, true);
				w('"');
			}
			w('>');
			if (is_void(c)) continue;
			spec(c);
			ws("</");
			wtag(c);
			w('>');
		}
		else if (n.k == text) { if (is_raw(i)) w(n.data); else wesc(n.data, false); }
		else if (n.k == comment) { ws("<!--"); w(n.data); ws("-->"); }
		else if (n.k == pi) { ws("<?"); w(n.target); w(' '); w(n.data); w('>'); }
		else if (n.k == doctype) { ws("<!DOCTYPE "); w(n.data); w('>'); }
	}
}
struct sink
{
	using value_type = char32_t;
	u32 n = 0;
	void push_back(char32_t c)
	{
		vp_assert(n < wn, "no more output than the standard's");
		vp_assert(c == want[n], "the output is the standard's");
		++n;
	}
};
static char32_t any_char() { return static_cast<char32_t>(vp_range(0, 0xD7FF)); }
static tag_name any_tag()
{
#ifdef VP_NATIVE
	if (vp_nondet_bool()) return voids[vp_range(0, 17)];
	if (vp_nondet_bool()) return raws[vp_range(0, 6)];
#endif
	return static_cast<tag_name>(vp_range(0, 700));
}
static void any_node(gnode& n, bool with_attr)
{
	n.ns = static_cast<ns_name>(vp_range(0, 6));
	n.tag = any_tag();
	n.local = any_char();
	n.qual = any_char();
	n.data = any_char();
	n.target = any_char();
	n.na = with_attr ? 1 : 0;
	if (with_attr) n.at = gattr{ static_cast<ns_name>(vp_range(0, 6)), static_cast<attribute_name>(vp_range(0, 700)), any_char(), any_char(), any_char() };
}
// parents: parents[i] is the parent of node i + 1 (nodes in document order; 0 is the serialized node)
template <unsigned N>
static void tree_of(int const (&parents)[N], u32 root, u32 attr_of)
{
	VP_NATIVE_POOL(50, '&', '<', '>', '"', 0xA0, 'a', 1, 2, 3);
	int last[N + 1];
	g_count = N + 1;
	for (unsigned i = 0; i <= N; ++i)
	{
		g[i] = gnode();
		last[i] = -1;
		any_node(g[i], attr_of == i && i != 0);
		if (i == 0) { g[i].k = root; continue; }
		int p = parents[i - 1];
		g[i].parent = p;
		if (last[p] < 0) g[p].first = static_cast<int>(i); else g[last[p]].next = static_cast<int>(i);
		last[p] = static_cast<int>(i);
	}
	for (unsigned i = 1; i <= N; ++i)
		if (g[i].first >= 0 || attr_of == i) g[i].k = element;         // only elements have children or attributes
		else g[i].k = vp_concretize(vp_range(0, 4));
	wn = 0;
	spec(0);
	sink s;
	wordring::whatwg::html::to_string(np{ -1, 0 }, std::back_inserter(s));
	vp_assert(s.n == wn, "the output is complete");
	vp_cover("done");
}
VP_ENTRY(one_node) { int p[] = { 0 }; tree_of(p, element, 0); }
VP_ENTRY(one_node_in_fragment) { int p[] = { 0 }; tree_of(p, other, 0); }
VP_ENTRY(one_attribute) { int p[] = { 0 }; tree_of(p, element, 1); }
VP_ENTRY(two_siblings) { int p[] = { 0, 0 }; tree_of(p, other, 0); }
VP_ENTRY(two_nested) { int p[] = { 0, 1 }; tree_of(p, other, 0); }
VP_ENTRY(three_nested) { int p[] = { 0, 1, 2 }; tree_of(p, other, 0); }
VP_ENTRY(three_then) { int p[] = { 0, 1, 0 }; tree_of(p, other, 0); }
VP_ENTRY(three_fork) { int p[] = { 0, 1, 1 }; tree_of(p, other, 0); }
VP_ENTRY(three_last) { int p[] = { 0, 0, 2 }; tree_of(p, other, 0); }
VP_ENTRY(three_siblings) { int p[] = { 0, 0, 0 }; tree_of(p, other, 0); }
VP_ENTRY(four_deep_then) { int p[] = { 0, 1, 2, 0 }; tree_of(p, other, 0); }
