// C19: serialisation of real HTML trees (html/simple_html.hpp), bounded stand-in:
// random trees of up to 24 nodes, u8/u16/u32, against an independent serializer.
#include <cassert>
#include <array>
#include <deque>
#include <string>
#include <vector>
#include <wordring/html/simple_html.hpp>
#include <wordring/encoding/encoding.hpp>
#include "vp.h"
#include "c19_spec.h"
#ifdef VP_NATIVE
using namespace wordring::html;
using u32 = std::uint32_t;

struct sn { int kind; ns_name ns; std::u32string prefix, name, data, target; std::vector<std::array<std::u32string, 3>> at; std::vector<ns_name> ans; std::vector<int> ch; };
static std::vector<sn> t;
static char const* const tags[] = { "div", "p", "br", "img", "input", "link", "meta", "area", "base", "col", "embed", "hr", "param", "source", "track", "wbr", "basefont", "bgsound", "frame", "keygen",
	"style", "script", "xmp", "iframe", "noembed", "noframes", "plaintext", "noscript", "template", "title", "textarea", "svg", "math", "x-y", "frameset", "q" };
static char const* const atts[] = { "id", "xmlns", "href", "lang", "class", "data-x" };
static std::u32string u(char const* s) { return std::u32string(s, s + std::char_traits<char>::length(s)); }
static std::u32string any_text()
{
	static char32_t const pool[] = { U'&', U'<', U'>', U'"', 0xA0, U'a', U'\'', 0x9F, 0xA1, 0x1F600, U' ', U'\n', 0x3042, U';', 0x100A0 };
	std::u32string s;
	u32 n = vp_range(0, 5);
	while (n--) s += pool[vp_range(0, 14)];
	return s;
}
static bool one_of(std::u32string const& n, std::initializer_list<char const*> l) { for (auto s : l) if (u(s) == n) return true; return false; }
static bool v_void(sn const& n) { return n.kind == 0 && n.ns == ns_name::HTML && one_of(n.name, { "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "basefont", "bgsound", "frame", "keygen" }); }
static bool v_raw(sn const& n) { return n.kind == 0 && n.ns == ns_name::HTML && one_of(n.name, { "style", "script", "xmp", "iframe", "noembed", "noframes", "plaintext" }); }
static void esc(std::u32string& o, std::u32string const& s, bool attr)
{
	for (char32_t c : s)
	{
		u32 l = esc_len(c, attr);
		if (!l) o += c;
		for (u32 k = 0; k < l; ++k) o += static_cast<char32_t>(esc_unit(c, k));
	}
}
static std::u32string qual(std::u32string const& p, std::u32string const& n) { return p.empty() ? n : p + U':' + n; }
static void spec(std::u32string& o, int i)
{
	if (v_void(t[i])) return;
	for (int c : t[i].ch)
	{
		sn const& n = t[c];
		if (n.kind == 0)
		{
			std::u32string nm = n.ns == ns_name::HTML || n.ns == ns_name::SVG || n.ns == ns_name::MathML ? n.name : qual(n.prefix, n.name);
			o += U'<' + nm;
			for (size_t k = 0; k < n.at.size(); ++k)
			{
				o += U' ';
				auto const& [p, a, v] = n.at[k];
				switch (static_cast<u32>(n.ans[k]))
				{
				case 0: o += a; break;
				case static_cast<u32>(ns_name::XML): o += U"xml:" + a; break;
				case static_cast<u32>(ns_name::XMLNS): o += a == U"xmlns" ? a : U"xmlns:" + a; break;
				case static_cast<u32>(ns_name::XLink): o += U"xlink:" + a; break;
				default: o += qual(p, a); break;
				}
				o += U"=\"";
				esc(o, v, true);
				o += U'"';
			}
			o += U'>';
			if (v_void(n)) continue;
			spec(o, c);
			o += U"</" + nm + U'>';
		}
		else if (n.kind == 1) { if (v_raw(t[i])) o += n.data; else esc(o, n.data, false); }
		else if (n.kind == 2) o += U"<!--" + n.data + U"-->";
		else if (n.kind == 3) o += U"<?" + n.target + U' ' + n.data + U'>';
		else if (n.kind == 4) o += U"<!DOCTYPE " + n.data + U'>';
	}
}
template <typename String> static String cv(std::u32string const& s) { return wordring::encoding_cast<String>(s); }
template <typename Tree, typename It, typename String>
static void build(Tree& tr, It at, int i)
{
	using node = simple_node<String>;
	for (int c : t[i].ch)
	{
		sn const& n = t[c];
		It pos;
		if (n.kind == 0)
		{
			simple_element<String> e(n.ns, cv<String>(n.prefix), cv<String>(n.name));
			for (size_t k = 0; k < n.at.size(); ++k) e.push_back(simple_attr<String>(n.ans[k], cv<String>(n.at[k][0]), cv<String>(n.at[k][1]), cv<String>(n.at[k][2])));
			pos = tr.insert(at.end(), node(e));
		}
		else if (n.kind == 1) pos = tr.insert(at.end(), node(simple_text<String>(cv<String>(n.data))));
		else if (n.kind == 2) pos = tr.insert(at.end(), node(simple_comment<String>(cv<String>(n.data))));
		else if (n.kind == 3) { simple_processing_instruction<String> p; p.data(cv<String>(n.data)); p.target(cv<String>(n.target)); pos = tr.insert(at.end(), node(p)); }
		else pos = tr.insert(at.end(), node(simple_document_type<String>(cv<String>(n.data), String(), String())));
		build<Tree, It, String>(tr, pos, c);
	}
}
template <typename Tree, typename String>
static void run()
{
	t.clear();
	t.push_back(sn{ static_cast<int>(vp_range(0, 1)) ? 5 : 0, ns_name::HTML, U"", u(tags[vp_range(0, 35)]), U"", U"", {}, {}, {} });
	u32 n = vp_range(1, 24);
	for (u32 i = 1; i <= n; ++i)
	{
		int p = vp_nondet_bool() ? static_cast<int>(i - 1) : static_cast<int>(vp_range(0, i - 1));
		while (p != 0 && t[p].kind != 0) --p;
		sn x{};
		x.kind = vp_nondet_bool() ? 0 : static_cast<int>(vp_range(0, 4));
		x.ns = vp_nondet_bool() ? ns_name::HTML : static_cast<ns_name>(vp_range(1, 6));
		x.prefix = vp_nondet_bool() ? U"" : U"pf";
		x.name = u(tags[vp_range(0, 35)]);
		x.data = any_text();
		x.target = any_text();
		u32 m = x.kind == 0 ? vp_range(0, 2) : 0;
		while (m--)
		{
			x.at.push_back({ vp_nondet_bool() ? U"" : U"q", u(atts[vp_range(0, 5)]), any_text() });
			x.ans.push_back(static_cast<ns_name>(vp_nondet_bool() ? 0 : vp_range(1, 6)));
		}
		t.push_back(x);
		t[p].ch.push_back(static_cast<int>(i));
	}
	Tree tr;
	auto root = t[0].kind == 5 ? tr.insert(tr.begin(), simple_node<String>(simple_document<String>())) : tr.insert(tr.begin(), simple_node<String>(simple_element<String>(cv<String>(t[0].name))));
	build<Tree, decltype(root), String>(tr, root, 0);
	std::u32string w;
	spec(w, 0);
	String got;
	to_string(root, std::back_inserter(got));
	vp_assert(got == cv<String>(w), "a tree serializes to the standard's text");
}
#endif
VP_ENTRY(trees)
{
#ifdef VP_NATIVE
	switch (vp_range(0, 2))
	{
	case 0: run<u8simple_tree, std::u8string>(); break;
	case 1: run<u16simple_tree, std::u16string>(); break;
	default: run<u32simple_tree, std::u32string>(); break;
	}
#endif
}
