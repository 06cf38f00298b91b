// string operations: trim, case, find, split
#include "streams.h"
#include <cybozu/string_operation.hpp>
#include <list>
using pbt::G; using pbt::show;
using cybozu::Char; using cybozu::String;

template<class S> struct K;
template<> struct K<std::string> {
	static const bool wide = false;
	static char ch(G& g) { static const char t[] = " \t aAbBzZ@[`{,;\n\r\v\f\x85\xa0\xe1\xc1\x7f\x80\xff_0"; return g.chance(1, 12) ? (char)g.below(256) : t[g.below(sizeof(t) - 1)]; }
	static bool space(char c) { return c == ' ' || c == '\t'; }
};
template<> struct K<String> {
	static const bool wide = true;
	static Char ch(G& g)
	{
		static const int t[] = { ' ', '\t', 0x3000, 'a', 'A', 'b', 'B', 'z', 'Z', '@', '[', '`', '{', ',', '\n', '\r', 8, 9, 0xd, 0xe, 0x1f, 0x21, 0x84, 0x85, 0x86, 0x9f, 0xa0, 0xa1, 0x167f, 0x1680, 0x1681, 0x180d, 0x180e, 0x180f, 0x1fff, 0x2000, 0x2005, 0x200a, 0x200b, 0x2027, 0x2028, 0x2029, 0x202a, 0x202e, 0x202f, 0x2030, 0x205e, 0x205f, 0x2060, 0x2fff, 0x3001, 0xfefe, 0xfeff, 0xff00, 0xff21, 0xff41, 0xc1, 0xe1, 0x1f600, 0 };
		return (Char)(g.chance(1, 6) ? (int)genScalar(g) : g.pick(t));
	}
	static bool space(Char c)
	{
		static const int r[][2] = { { 9, 0xd }, { 0x20, 0x20 }, { 0x85, 0x85 }, { 0xa0, 0xa0 }, { 0x1680, 0x1680 }, { 0x180e, 0x180e }, { 0x2000, 0x200a }, { 0x2028, 0x2029 }, { 0x202f, 0x202f }, { 0x205f, 0x205f }, { 0x3000, 0x3000 }, { 0xfeff, 0xfeff } };
		for (auto& x : r) if (x[0] <= (int)c && (int)c <= x[1]) return true;
		return false;
	}
};
template<class S> S gen(G& g, size_t maxN = 20)
{
	S s;
	size_t n = g.below(8) == 0 ? g.size(400) : g.below(maxN);
	for (size_t i = 0; i < n; i++) s.push_back(K<S>::ch(g));
	size_t pre = g.below(4), post = g.below(4);
	if (g.boolean()) {
		S sp;
		for (size_t i = 0; i < pre; i++) { auto c = K<S>::ch(g); if (K<S>::space(c)) sp.push_back(c); else sp.push_back(' '); }
		s.insert(0, sp);
		for (size_t i = 0; i < post; i++) { auto c = K<S>::ch(g); s.push_back(K<S>::space(c) ? c : (decltype(c))'\t'); }
	}
	return s;
}
template<class S> std::string sh(const S& s) { std::ostringstream os; os << std::hex; for (size_t i = 0; i < s.size() && i < 60; i++) { unsigned c = sizeof(s[0]) == 1 ? (unsigned char)s[i] : (unsigned)s[i]; if (c > 0x20 && c < 0x7f) os << "'" << (char)c << "' "; else os << c << " "; } return os.str(); }
template<class C> C lo(C c) { return c >= 'A' && c <= 'Z' ? (C)(c + 32) : c; }
template<class C> C up(C c) { return c >= 'a' && c <= 'z' ? (C)(c - 32) : c; }
template<class C> static bool isX(C c) { return c == 'a' || c == 'A' || c == ' '; }
template<class S> S refTrim(const S& s, bool (*f)(typename S::value_type))
{
	size_t b = 0, e = s.size();
	while (b < e && f(s[b])) b++;
	while (e > b && f(s[e - 1])) e--;
	return s.substr(b, e - b);
}
template<class S> void trim(G& g)
{
	typedef typename S::value_type C;
	S s = gen<S>(g);
	g.note() << "trim " << sh(s);
	g.nontrivial(s.size() > 1);
	for (size_t i = 0; i < s.size(); i++) REQUIRE_MSG(cybozu::IsSpace(s[i]) == K<S>::space(s[i]), "IsSpace of " << std::hex << (unsigned)s[i]);
	S w = refTrim(s, K<S>::space);
	S t = s;
	cybozu::Trim(t);
	REQUIRE_MSG(t == w, "Trim gives " << sh(t));
	REQUIRE_MSG(cybozu::TrimCopy(s) == w, "TrimCopy gives " << sh(cybozu::TrimCopy(s)));
	S w2 = refTrim(s, isX<C>);
	t = s;
	cybozu::Trim(t, isX<C>);
	REQUIRE_MSG(t == w2, "Trim with a predicate gives " << sh(t));
	REQUIRE_MSG(cybozu::TrimCopy(s, isX<C>) == w2, "TrimCopy with a predicate");
	size_t b = 0;
	while (b < s.size() && K<S>::space(s[b])) b++;
	REQUIRE_EQ((size_t)(cybozu::SkipSpace(s.begin(), s.end()) - s.begin()), b);
	if (!s.empty()) { const C *p = &s[0]; REQUIRE_EQ((size_t)(cybozu::SkipSpace(p, p + s.size()) - p), b); }
	// strip line ends
	t = s;
	for (size_t k = g.below(5); k > 0; k--) t.push_back(g.boolean() ? '\n' : '\r');
	w = t;
	while (!w.empty() && (w[w.size() - 1] == '\n' || w[w.size() - 1] == '\r')) w.resize(w.size() - 1);
	cybozu::Strip(t);
	REQUIRE_MSG(t == w, "Strip gives " << sh(t));
}
PROP(trim_char) { trim<std::string>(g); }
PROP(trim_unicode) { trim<String>(g); }
template<class S> void case_(G& g)
{
	typedef typename S::value_type C;
	S a = gen<S>(g), b;
	if (g.chance(3, 4)) { // nearly the same
		b = a;
		for (size_t i = 0; i < b.size(); i++) if (g.chance(1, 3)) { b[i] = g.boolean() ? up(b[i]) : lo(b[i]); }
		switch (g.below(4)) {
		case 0: if (!b.empty()) b[g.below(b.size())] = K<S>::ch(g); break;
		case 1: if (!b.empty()) b.resize(g.below(b.size())); break;
		case 2: b.push_back(K<S>::ch(g)); break;
		}
	} else b = gen<S>(g);
	g.note() << "a " << sh(a) << " b " << sh(b);
	g.nontrivial(a.size() > 1);
	S la = a, lb = b, ua = a;
	for (size_t i = 0; i < la.size(); i++) { la[i] = lo(la[i]); ua[i] = up(ua[i]); }
	for (size_t i = 0; i < lb.size(); i++) lb[i] = lo(lb[i]);
	S t = a; cybozu::ToLower(t); REQUIRE_MSG(t == la, "ToLower gives " << sh(t));
	t = a; cybozu::ToUpper(t); REQUIRE_MSG(t == ua, "ToUpper gives " << sh(t));
	t = b; cybozu::ToLower(t, a); REQUIRE_MSG(t == la, "ToLower(out, in) gives " << sh(t));
	t = b; cybozu::ToUpper(t, a, true); { S w = b; w.append(ua.begin(), ua.end()); REQUIRE_MSG(t == w, "ToUpper append gives " << sh(t)); }
	t = b; cybozu::ToLower(t, a, true); { S w = b; w.append(la.begin(), la.end()); REQUIRE_MSG(t == w, "ToLower append gives " << sh(t)); }
	t = a; cybozu::ToLower(t, t, true); { S w = a; w.append(la.begin(), la.end()); REQUIRE_MSG(t == w, "ToLower appended to itself gives " << sh(t)); }
	// comparison
	int want = 0;
	size_t n = std::min(a.size(), b.size());
	for (size_t i = 0; i < n && !want; i++) want = la[i] < lb[i] ? -1 : la[i] > lb[i] ? 1 : 0;
	if (!want) want = a.size() < b.size() ? -1 : a.size() > b.size();
	REQUIRE_EQ(cybozu::CaseCompare(a, b), want);
	REQUIRE_EQ(cybozu::CaseCompare(b, a), -want);
	REQUIRE_EQ(cybozu::CaseEqual(a, b), want == 0);
	REQUIRE_EQ(cybozu::CaseCompare(a, ua), 0);
	// with an ASCII literal
	std::string asc = g.text(g.below(12), "aAbBzZ _0@`[{");
	for (char& c : asc) if (g.chance(1, 5)) c = (char)g.range(1, 127);
	S x;
	for (size_t i = 0; i < asc.size(); i++) { C c = (C)asc[i]; x.push_back(g.boolean() ? up(c) : c); }
	bool eq = true;
	if (g.boolean() && !x.empty()) x[g.below(x.size())] = K<S>::ch(g);
	if (g.chance(1, 3)) x.push_back(K<S>::ch(g));
	if (x.size() != asc.size()) eq = false;
	for (size_t i = 0; eq && i < x.size(); i++) if (lo(x[i]) != (C)lo(asc[i])) eq = false;
	REQUIRE_EQ(cybozu::CaseEqual(x, asc.c_str()), eq);
	bool st = x.size() >= 3 && lo(x[0]) == 'a' && lo(x[1]) == 'b' && lo(x[2]) == '@';
	REQUIRE_EQ(cybozu::CaseEqualStartWith(x, "aB@"), st);
	x.insert(0, S("Ab@"));
	REQUIRE(cybozu::CaseEqualStartWith(x, "aB@"));
	REQUIRE(cybozu::CaseEqualStartWith(x, ""));
	// search
	S hay = x; hay.append(a.begin(), a.end()); hay.append(x.begin(), x.end());
	std::string needle;
	if (g.boolean()) needle = asc.substr(0, g.below(asc.size() + 1));
	else { size_t p = g.below(hay.size()); for (size_t i = p; i < hay.size() && needle.size() < 6; i++) { if (K<S>::wide && !((unsigned)hay[i] < 0x80 && hay[i])) break; needle += (char)(g.boolean() ? lo(hay[i]) : up(hay[i])); } }
	if (g.chance(1, 6)) { // a long needle, often at the end
		size_t n = std::min<size_t>(hay.size(), 1 + g.below(60)), p = g.boolean() ? hay.size() - n : g.below(hay.size() - n + 1);
		bool ok = true;
		std::string s;
		for (size_t i = p; i < p + n && ok; i++) { if (K<S>::wide && !((unsigned)hay[i] < 0x80 && hay[i])) ok = false; else s += (char)(g.boolean() ? lo(hay[i]) : up(hay[i])); }
		if (ok) { needle = s; if (n >= 16) g.label("long needle"); }
	}
	if (g.chance(1, 5)) needle += g.text(1, "qQ7");
	size_t pos = std::string::npos;
	for (size_t i = 0; i + needle.size() <= hay.size(); i++) {
		bool m = true;
		for (size_t k = 0; k < needle.size(); k++) if (lo(hay[i + k]) != (C)lo(needle[k])) { m = false; break; }
		if (m) { pos = i; break; }
	}
	g.note() << "needle " << show(needle) << " at " << (long)pos;
	size_t got = needle.find('\0') == std::string::npos && g.boolean() ? cybozu::CaseFind<C>(hay, needle.c_str()) : cybozu::CaseFind<C>(hay, needle.data(), needle.data() + needle.size());
	REQUIRE_EQ(got, pos);
	size_t cut = g.below(hay.size() + 1); // a haystack given by pointers
	C *hp = (C*)malloc(cut * sizeof(C) + 1);
	for (size_t i = 0; i < cut; i++) hp[i] = hay[i];
	const C *r = cybozu::CaseFind<C>(hp, hp + cut, needle.data(), needle.data() + needle.size());
	size_t rp = r ? r - hp : std::string::npos;
	size_t wp = pos != std::string::npos && pos + needle.size() <= cut ? pos : std::string::npos;
	free(hp);
	REQUIRE_EQ(rp, wp);
	REQUIRE_EQ(cybozu::tolower(a.empty() ? (C)'A' : a[0]), a.empty() ? (C)'a' : la[0]);
}
PROP(case_char) { case_<std::string>(g); }
PROP(case_unicode) { case_<String>(g); }
template<class S> void split(G& g)
{
	typedef typename S::value_type C;
	S s;
	C sep = g.boolean() ? (C)',' : K<S>::ch(g);
	for (size_t n = g.below(4) == 0 ? g.size(200) : g.below(14); n > 0; n--) s.push_back(g.below(3) == 0 ? sep : K<S>::ch(g));
	if (g.chance(1, 3000)) { // tens of thousands of pieces
		S unit = s;
		if (unit.empty()) unit.push_back(sep);
		size_t n = 60000 + g.below(20000);
		while (s.size() < n) s += unit;
		g.label("many pieces");
	}
	size_t maxNum = g.boolean() ? 0x7fffffff : 1 + g.below(5);
	std::vector<S> want;
	S cur;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == sep && want.size() + 1 < maxNum) { want.push_back(cur); cur.clear(); } else cur.push_back(s[i]);
	}
	want.push_back(cur);
	g.note() << "split " << sh(s) << " at " << (unsigned)sep << " max " << maxNum << " -> " << want.size();
	g.nontrivial(want.size() > 1);
	std::vector<S> out;
	if (maxNum == 0x7fffffff && g.boolean()) out = cybozu::Split(s, sep); else out = cybozu::Split(s, sep, maxNum);
	REQUIRE_MSG(out == want, "Split gives " << out.size() << " pieces, want " << want.size());
	bool clear = g.boolean();
	std::vector<S> o2(g.below(3), s);
	std::vector<S> w2 = clear ? std::vector<S>() : o2;
	w2.insert(w2.end(), want.begin(), want.end());
	size_t n = cybozu::Split(o2, s, sep, maxNum, clear);
	REQUIRE_EQ(n, want.size());
	REQUIRE_MSG(o2 == w2, "Split into a container, clear=" << clear);
	std::list<S> l;
	cybozu::Split(l, s, sep, maxNum);
	REQUIRE(std::vector<S>(l.begin(), l.end()) == want);
}
PROP(split_char) { split<std::string>(g); }
PROP(split_unicode) { split<String>(g); }
