// MiniXml: generated trees -> text -> tree, damage, printing, escape
#include <pbt.h>
#include <leak.h>
#include <cybozu/minixml.hpp>
#include <memory>
using pbt::G; using pbt::show;
typedef cybozu::minixml::Node Node;
struct T { std::string name; std::vector<std::pair<std::string, std::string>> attr; std::string content; std::vector<std::unique_ptr<T>> child; };
static const char *SP = " \t\r\n";
static std::string spaces(G& g, bool must = false) { size_t n = must ? 1 + g.below(2) : g.chance(1, 3) ? g.below(3) : 0; return g.text(n, SP); }
static std::string name(G& g) { static const char *A = "abcXYZ_:-.09\xe3\x81\x82"; return g.text(1, "abXp_") + g.text(g.chance(1, 25) ? 20 + g.below(300) : g.size(6), A); }
static std::string anyText(G& g, size_t n, char not1, char not2)
{
	std::string s;
	for (size_t i = 0; i < n; i++) { char c = g.chance(1, 2) ? g.pick(std::vector<char>{'<', '>', '&', '"', '\'', '/', '=', ' ', ';', 'a', '\n', '?'}) : (char)g.below(256); if (c != not1 && c != not2) s += c; }
	return s;
}
static std::unique_ptr<T> tree(G& g, int depth, int& budget)
{
	std::unique_ptr<T> t(new T);
	t->name = name(g);
	for (size_t n = g.below(4); n > 0; n--) {
		std::string k = name(g);
		bool dup = false;
		for (auto& a : t->attr) dup |= a.first == k;
		if (!dup) { bool dq = g.boolean(); t->attr.emplace_back(k, anyText(g, g.size(8), dq ? '"' : '\'', dq ? '"' : '\'')); }
	}
	if (g.chance(1, 2)) { std::string c = anyText(g, g.size(10), '<', '<'); while (!c.empty() && strchr(SP, c[0]) && c[0]) c.erase(0, 1); t->content = c; }
	if (depth > 0) for (size_t n = g.below(4); n > 0 && budget > 0; n--) { budget--; t->child.push_back(tree(g, depth - 1, budget)); }
	return t;
}
struct Tags { std::vector<std::pair<size_t, size_t>> end; std::vector<size_t> empty; std::vector<std::pair<size_t, size_t>> attr; }; // where the tags are in the text
static void write(G& g, const T& t, std::string& s, Tags *tags = 0)
{
	s += "<" + t.name;
	for (auto& a : t.attr) {
		char q = a.second.find('"') != std::string::npos ? '\'' : a.second.find('\'') != std::string::npos ? '"' : g.boolean() ? '"' : '\'';
		s += spaces(g, true);
		size_t from = s.size();
		s += a.first + spaces(g) + "=" + spaces(g) + q + a.second + q;
		if (tags) tags->attr.emplace_back(from, s.size() - from);
	}
	s += spaces(g);
	if (t.child.empty() && t.content.empty() && g.boolean()) { if (tags) tags->empty.push_back(s.size()); s += "/>"; return; }
	s += ">";
	size_t at = g.below(t.child.size() + 1); // one piece of text anywhere
	for (size_t i = 0; i <= t.child.size(); i++) {
		s += spaces(g);
		if (i == at && !t.content.empty()) s += t.content;
		if (i < t.child.size()) write(g, *t.child[i], s, tags);
	}
	if (at < t.child.size() || t.content.empty()) s += spaces(g);
	if (tags) tags->end.emplace_back(s.size(), t.name.size() + 3);
	s += "</" + t.name + ">";
}
static void same(const Node& n, const T& t, const Node *parent)
{
	REQUIRE_STREQ(n.name, t.name);
	REQUIRE_STREQ(n.content, t.content);
	REQUIRE(n.parent == parent);
	for (auto& a : t.attr) {
		const std::string *p = n.attr.query(a.first);
		REQUIRE(p);
		REQUIRE_STREQ(*p, a.second);
		REQUIRE_STREQ(n.attr[a.first], a.second);
	}
	REQUIRE(!n.attr.query("no-such-key"));
	REQUIRE_THROWS(n.attr["no-such-key"]);
	std::ostringstream os;
	os << n.attr;
	size_t len = 0; // name="value" for each, so no other attribute
	for (auto& a : t.attr) len += a.first.size() + a.second.size() + 4;
	REQUIRE_EQ(os.str().size(), len);
	REQUIRE_EQ(n.child.size(), t.child.size());
	size_t i = 0;
	for (const Node *c : n.child) same(*c, *t.child[i++], &n);
}
static void preorder(const Node& n, std::vector<const Node*>& v) { v.push_back(&n); for (const Node *c : n.child) preorder(*c, v); }
static std::string header(G& g)
{
	std::string s = spaces(g) + "<?xml" + spaces(g, true);
	if (g.chance(3, 4)) { s += "version=\"1.0\"" + spaces(g); if (g.boolean()) s += " encoding='UTF-8'" + spaces(g); }
	return s + "?>" + spaces(g);
}
static void parse(G& g, cybozu::MiniXml& xml, const std::string& s)
{
	if (g.boolean()) {
		std::unique_ptr<char[]> b(new char[s.size()]); // exact size
		memcpy(b.get(), s.data(), s.size());
		xml.parse(b.get(), b.get() + s.size());
	} else {
		typedef cybozu::minixml::InputStream<std::string::const_iterator> IS;
		IS is(s.begin(), s.end());
		xml.parse(is);
	}
}
PROP_W(well_formed, 3)
{
	int budget = 1 + (int)g.size(25);
	std::unique_ptr<T> t = tree(g, 5, budget);
	std::string s = header(g);
	write(g, *t, s);
	s += spaces(g);
	g.note() << show(s, 2000);
	g.nontrivial(!t->child.empty() || !t->attr.empty());
	cybozu::MiniXml xml;
	if (g.chance(1, 6)) { // use of a used object
		try { parse(g, xml, g.boolean() ? "<?xml ?><old z='1'>text<a/></old>" : "<?xml ?><old z='1'>text<a>"); } catch (cybozu::Exception&) {}
		g.label("reused");
	}
	parse(g, xml, s);
	same(xml.get(), *t, 0);
	// search by name
	std::vector<const Node*> order;
	preorder(xml.get(), order);
	for (int k = 0; k < 3; k++) {
		std::string q = k ? order[g.below(order.size())]->name : name(g);
		const Node *w = 0;
		for (const Node *n : order) if (n->name == q) { w = n; break; }
		REQUIRE(xml.get().getFirstTagByName(q) == w);
	}
	{ // the same from a node within
		const Node *from = order[g.below(order.size())], *w = 0;
		std::vector<const Node*> below;
		preorder(*from, below);
		std::string q = g.chance(1, 3) ? order[g.below(order.size())]->name : below[g.below(below.size())]->name;
		for (const Node *n : below) if (n->name == q) { w = n; break; }
		REQUIRE_MSG(from->getFirstTagByName(q) == w, "the first " << q << " below " << from->name);
	}
	// printed form is the same document
	std::ostringstream os;
	os << xml;
	cybozu::MiniXml xml2;
	parse(g, xml2, os.str());
	same(xml2.get(), *t, 0);
	cybozu::MiniXml xml3(s.data(), s.data() + s.size());
	same(xml3.get(), *t, 0);
}
PROP_W(damaged, 2)
{
	int budget = 1 + (int)g.size(12);
	std::unique_ptr<T> t = tree(g, 3, budget);
	std::string s = header(g);
	const size_t root = s.size();
	Tags tags;
	write(g, *t, s, &tags);
	const char *what = "";
	switch (g.below(7)) {
	case 0: case 1: s.resize(g.below(s.size())); what = "truncated"; break;
	case 2: case 3: { // wrong end tag, anywhere
		if (tags.end.empty()) DISCARD();
		auto e = g.boolean() ? tags.end.back() : tags.end[g.below(tags.end.size())];
		std::string n = s.substr(e.first + 2, e.second - 3), m = n;
		switch (g.below(6)) {
		case 0: m += g.text(1, "x>="); break;
		case 1: m.resize(g.below(m.size())); break;
		case 2: m = g.text(1, "xa") + m; break;
		case 3: { char& c = m[g.below(m.size())]; if (isalpha((unsigned char)c)) c ^= 32; else c = 'q'; } break;
		case 4: m = t->name; break;
		default: m += g.pick(std::vector<std::string>{"=", "\"", "/", "/x", " x", "'"}); break;
		}
		if (m == n || m + ">" == n + ">>") DISCARD(); // "</a>>" : the second one is text
		s.replace(e.first + 2, n.size(), m); what = "wrong end tag"; break;
	}
	case 4: { // an end tag is left out
		if (tags.end.empty()) DISCARD();
		auto e = tags.end[g.below(tags.end.size())];
		s.erase(e.first, e.second); what = "missing end tag"; break;
	}
	case 5: // something in the tag of an empty element, or an end tag first
		if (tags.empty.empty()) { s.insert(root, "</" + t->name + ">"); what = "end tag first"; break; }
		s.insert(tags.empty[g.below(tags.empty.size())] + 1, g.pick(std::vector<std::string>{"x", "/", "=", " "})); what = "bad empty tag"; break;
	default: { // an attribute without quote, equal sign or name
		if (tags.attr.empty()) { s.insert(s.rfind('>') == std::string::npos ? 0 : root + 1 + t->name.size(), g.pick(std::vector<std::string>{" =\"v\"", " x=v"})); what = "bad attribute"; break; }
		auto e = tags.attr[g.below(tags.attr.size())];
		std::string a = s.substr(e.first, e.second);
		size_t eq = a.find('=');
		char q = a.back();
		const size_t v = a.find(q);
		switch (g.below(isalnum((unsigned char)a[v + 1]) ? 3 : 2)) { case 0: a.erase(0, a.find_first_of(" \t\r\n=")); break; case 1: a.erase(eq, 1); break; default: a.erase(v, 1); break; }
		s.replace(e.first, e.second, a); what = "bad attribute"; break;
	}
	}
	g.note() << what << " " << show(s, 1000);
	g.label(what);
	g.nontrivial(s.size() > 6);
	if (g.boolean()) {
		cybozu::MiniXml xml;
		REQUIRE_THROWS(parse(g, xml, s));
	} else {
		std::unique_ptr<char[]> b(new char[s.size()]);
		memcpy(b.get(), s.data(), s.size());
		REQUIRE_THROWS(cybozu::MiniXml xml(b.get(), b.get() + s.size()));
	}
}
PROP_W(no_leak, 0.3)
{
	int budget = 1 + (int)g.size(6);
	std::unique_ptr<T> t = tree(g, 3, budget);
	std::string s = header(g);
	write(g, *t, s);
	const std::string whole = s;
	if (g.boolean()) s.resize(g.below(s.size()));
	bool again = g.boolean();
	g.note() << (again ? "parse twice " : "construct ") << show(s, 1000);
	g.nontrivial(s.size() > 6);
	REQUIRE(!leak::loses([&] {
		try {
			if (again) { cybozu::MiniXml xml; xml.parse(whole.data(), whole.data() + whole.size()); xml.parse(s.data(), s.data() + s.size()); }
			else cybozu::MiniXml xml(s.data(), s.data() + s.size());
		} catch (std::exception&) {}
	}));
}
PROP(any_text)
{
	std::string s = g.chance(3, 4) ? "<?xml ?>" : "";
	for (size_t n = g.size(30); n > 0; n--) s += g.pick(std::vector<std::string>{"<", ">", "</", "/>", "a", "b", " ", "=", "\"", "'", "<a>", "</a>", "<b/>", "?>", "<?xml ", "x=\"y\"", "\n", std::string(1, '\0'), "&lt;"});
	g.note() << show(s, 500);
	g.nontrivial(s.size() > 10);
	cybozu::MiniXml xml;
	try {
		parse(g, xml, s);
		std::vector<const Node*> v;
		preorder(xml.get(), v);
		for (const Node *n : v) for (const Node *c : n->child) REQUIRE(c->parent == n);
		REQUIRE(!xml.get().name.empty());
		g.label("accepted");
	} catch (cybozu::Exception&) { g.label("rejected"); }
}
PROP(entities)
{
	using namespace cybozu::minixml;
	std::string s = anyText(g, g.size(30), 0, 0), w;
	for (char c : s) { switch (c) { case '&': w += "&amp;"; break; case '<': w += "&lt;"; break; case '>': w += "&gt;"; break; case '"': w += "&quot;"; break; case '\'': w += "&apos;"; break; default: w += c; } }
	g.note() << show(s);
	g.nontrivial(s.size() > 1);
	REQUIRE_STREQ(cybozu::minixml::escape(s), w);
	REQUIRE_STREQ(unescape(w), s);
	// any text: exact or rejected
	static const char *ent[5] = { "&amp;", "&lt;", "&gt;", "&apos;", "&quot;" };
	static const char val[] = "&<>'\"";
	std::string m = w, ref;
	if (!m.empty() && g.boolean()) { if (g.boolean()) m.resize(g.below(m.size())); else m[g.below(m.size())] = "&;alq"[g.below(5)]; }
	else { m.clear(); for (size_t n = g.below(5); n > 0; n--) m += g.pick(std::vector<std::string>{"&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&", "amp;", "a", ";", "&lt", "&AMP;", "&#38;"}); }
	bool ok = true;
	for (size_t i = 0; i < m.size() && ok; ) {
		if (m[i] != '&') { ref += m[i++]; continue; }
		ok = false;
		for (int k = 0; k < 5; k++) if (m.compare(i, strlen(ent[k]), ent[k]) == 0) { ref += val[k]; i += strlen(ent[k]); ok = true; break; }
	}
	g.note() << "unescape " << show(m);
	if (ok) REQUIRE_STREQ(unescape(m), ref); else REQUIRE_THROWS(unescape(m));
}
