// conversions between UTF-8, UTF-16 and code points
#include "streams.h"
#include <cybozu/string.hpp>
#include <list>
using pbt::G; using pbt::show;
using cybozu::Char; using cybozu::Char16; using cybozu::String; using cybozu::String16;
typedef std::basic_string<Char> U32;

static bool scalar(int64_t c) { return c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }
// reference decoders: false at the first ill-formed sequence
static bool dec8(const std::string& s, U32& out)
{
	out.clear();
	size_t i = 0;
	while (i < s.size()) {
		unsigned c = (unsigned char)s[i];
		int n; uint32_t v, lo;
		if (c < 0x80) { out.push_back((Char)c); i++; continue; }
		if ((c & 0xe0) == 0xc0) { n = 1; v = c & 0x1f; lo = 0x80; }
		else if ((c & 0xf0) == 0xe0) { n = 2; v = c & 0xf; lo = 0x800; }
		else if ((c & 0xf8) == 0xf0) { n = 3; v = c & 7; lo = 0x10000; }
		else return false;
		if (i + n >= s.size() + 0 && i + n > s.size() - 1) return false;
		for (int k = 1; k <= n; k++) { unsigned t = (unsigned char)s[i + k]; if ((t & 0xc0) != 0x80) return false; v = v << 6 | (t & 0x3f); }
		if (v < lo || !scalar(v)) return false;
		out.push_back((Char)v);
		i += n + 1;
	}
	return true;
}
static bool dec16(const String16& s, U32& out)
{
	out.clear();
	for (size_t i = 0; i < s.size(); i++) {
		uint32_t c = s[i];
		if (c < 0xd800 || c > 0xdfff) { out.push_back((Char)c); continue; }
		if (c >= 0xdc00 || i + 1 >= s.size()) return false;
		uint32_t t = s[++i];
		if (t < 0xdc00 || t > 0xdfff) return false;
		out.push_back((Char)(0x10000 + ((c - 0xd800) << 10) + (t - 0xdc00)));
	}
	return true;
}
static String16 enc16(uint32_t c)
{
	String16 s;
	if (c < 0x10000) s.push_back((Char16)c);
	else { s.push_back((Char16)(0xd800 + ((c - 0x10000) >> 10))); s.push_back((Char16)(0xdc00 + ((c - 0x10000) & 0x3ff))); }
	return s;
}
static std::string show16(const String16& s) { std::ostringstream os; os << std::hex; for (size_t i = 0; i < s.size() && i < 60; i++) os << (unsigned)s[i] << " "; return os.str(); }
static std::string show32(const U32& s) { std::ostringstream os; os << std::hex; for (size_t i = 0; i < s.size() && i < 60; i++) os << (uint32_t)s[i] << " "; return os.str(); }
template<class C> struct Exact { // no byte after the end is readable
	C *p; size_t n;
	template<class S> Exact(const S& s) : p((C*)malloc(s.size() * sizeof(C) + (s.empty() ? 1 : 0))), n(s.size()) { for (size_t i = 0; i < n; i++) p[i] = s[i]; }
	~Exact() { free(p); }
	const C *begin() const { return p; }
	const C *end() const { return p + n; }
};
// sometimes thousands of good characters before what follows
static U32 lead(G& g)
{
	U32 u;
	if (!g.chance(1, 60)) return u;
	size_t n = g.boolean() ? 900 + g.below(4000) : 60000 + g.below(8000);
	if (n > 50000 && !g.chance(1, 6)) n = 2000;
	U32 unit;
	for (size_t k = 1 + g.below(5); k > 0; k--) unit.push_back((Char)genScalar(g));
	while (u.size() < n) u += unit;
	g.label("long");
	return u;
}
static std::string gen8(G& g)
{
	std::string s;
	size_t n = g.below(3) == 0 ? g.size(300) : g.below(8);
	for (size_t i = 0; i < n; i++) s += utf8(genScalar(g));
	int k = (int)g.below(7);
	if (k == 0 && !s.empty()) { size_t i = g.below(s.size()); s[i] = (char)g.below(256); }
	else if (k == 1 && !s.empty()) s.erase(g.below(s.size()), 1);
	else if (k == 2 && !s.empty()) s.resize(g.below(s.size()));
	else if (k == 3) { // a lead byte of any kind followed by bytes near the borders of the continuation range
		static const int b[] = { 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0x41, 0xff };
		std::string t(1, (char)g.range(0x80, 0xff));
		for (size_t m = g.below(4); m > 0; m--) t += (char)g.pick(b);
		if (g.boolean()) s.insert(g.below(s.size() + 1), t); else s += t;
	} else if (k == 4) { // the four forms of one value, overlong and out of range ones included
		uint32_t v = g.boolean() ? genScalar(g) : (uint32_t)g.below(0x200000);
		if (g.chance(1, 3)) v = 0xd800 + (uint32_t)g.below(0x800);
		std::string t;
		switch (g.below(3)) {
		case 0: t += (char)(0xc0 | (v >> 6 & 0x1f)); break;
		case 1: t += (char)(0xe0 | (v >> 12 & 0xf)); t += (char)(0x80 | (v >> 6 & 0x3f)); break;
		default: t += (char)(0xf0 | (v >> 18 & 7)); t += (char)(0x80 | (v >> 12 & 0x3f)); t += (char)(0x80 | (v >> 6 & 0x3f)); break;
		}
		t += (char)(0x80 | (v & 0x3f));
		s.insert(s.size(), t);
		if (g.boolean()) s += utf8(genScalar(g));
	}
	U32 u = lead(g);
	if (!u.empty()) { std::string t; for (auto c : u) t += utf8(c); s = t + s; }
	return s;
}
static String16 gen16(G& g)
{
	String16 s;
	size_t n = g.below(3) == 0 ? g.size(300) : g.below(8);
	for (size_t i = 0; i < n; i++) s += enc16(genScalar(g));
	switch (g.below(5)) {
	case 0: if (!s.empty()) s.erase(g.below(s.size()), 1); break;
	case 1: s.insert(s.begin() + g.below(s.size() + 1), (Char16)g.pick(std::vector<int>{0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000})); break;
	case 2: if (!s.empty()) s[g.below(s.size())] = (Char16)(0xd800 + g.below(0x800)); break;
	}
	U32 u = lead(g);
	if (!u.empty()) { String16 t; for (auto c : u) t += enc16(c); s = t + s; }
	return s;
}
static U32 gen32(G& g, bool allowBad)
{
	U32 s;
	size_t n = g.below(3) == 0 ? g.size(300) : g.below(8);
	for (size_t i = 0; i < n; i++) s.push_back((Char)genScalar(g));
	if (allowBad && g.boolean()) {
		static const int64_t bad[] = { 0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x110001, 0x1fffff, 0x7fffffff, -1, -128, -0x7fffffff - 1, 0xd7ff, 0xe000, 0x10ffff, -0x2800 };
		Char c = (Char)(g.chance(1, 4) ? (int32_t)g.bits(32) : (int32_t)g.pick(bad));
		s.insert(s.begin() + g.below(s.size() + 1), c);
	}
	return lead(g) + s;
}
PROP_W(from_utf8, 2)
{
	std::string s = gen8(g);
	U32 want;
	bool ok = dec8(s, want);
	g.note() << (ok ? "well-formed " : "ill-formed ") << show(s);
	g.label(ok ? "well formed" : "ill formed");
	g.nontrivial(s.size() > 1);
	Exact<char> e(s);
	String16 want16; std::string prefix8;
	for (auto c : want) { want16 += enc16(c); prefix8 += utf8(c); }
	{ // one by one
		U32 got;
		const char *p = e.begin();
		bool b = true;
		while (p != e.end()) { Char c = 1; b = cybozu::string::GetCharFromUtf8(&c, p, e.end()); if (!b) break; got.push_back(c); REQUIRE(p <= e.end()); }
		REQUIRE_MSG(b == ok, "GetCharFromUtf8 accepts=" << b);
		REQUIRE_MSG(got == want, "code points " << show32(got) << " want " << show32(want));
	}
	{ // a forward-only iterator
		std::list<char> l(s.begin(), s.end());
		String16 o = enc16(0x3042);
		bool b;
		if (g.boolean()) b = cybozu::ConvertUtf8ToUtf16(&o, e.begin(), e.end()); else b = cybozu::ConvertUtf8ToUtf16(&o, s);
		REQUIRE_MSG(b == ok, "ConvertUtf8ToUtf16 accepts=" << b);
		if (ok) REQUIRE_MSG(o == want16, "UTF-16 " << show16(o) << " want " << show16(want16));
		U32 got;
		bool bb = true;
		for (std::list<char>::iterator i = l.begin(); i != l.end();) { Char c = 1; bb = cybozu::string::GetCharFromUtf8(&c, i, l.end()); if (!bb) break; got.push_back(c); }
		REQUIRE(bb == ok && got == want);
	}
	{
		String16 o; bool thrown = false;
		try { o = cybozu::ToUtf16(s); } catch (std::exception&) { thrown = true; }
		REQUIRE_EQ(thrown, !ok);
		if (ok) REQUIRE(o == want16);
	}
	{ // construct, append, assign
		bool nul = s.find('\0') != std::string::npos;
		int way = (int)g.below(nul ? 6 : 9);
		U32 before = gen32(g, false);
		String x(before);
		bool app = false, thrown = false;
		try {
			switch (way) {
			case 0: { String y(s); x.swap(y); } break;
			case 1: { String y(e.begin(), e.n); x.swap(y); } break;
			case 2: { String y(s.begin(), s.end()); x.swap(y); } break;
			case 3: x.append(e.begin(), e.n); app = true; break;
			case 4: x.append(s); app = true; break;
			case 5: x.assign(s.begin(), s.end()); break;
			case 6: x = s.c_str(); break;
			case 7: x.append(s.c_str()); app = true; break;
			case 8: { String y(s.c_str()); x.swap(y); } break;
			}
		} catch (std::exception&) { thrown = true; }
		REQUIRE_MSG(thrown == !ok, "String way " << way << " thrown=" << thrown);
		if (ok) {
			REQUIRE_MSG(x.get() == (app ? before + want : want), "String way " << way << " holds " << show32(x.get()));
			if (!app) { REQUIRE_STREQ(x.toUtf8(), s); REQUIRE(x.toUtf16() == want16); REQUIRE(x.isValid()); REQUIRE(x == s); }
		}
	}
	{
		cybozu::Utf8ref r(e.begin(), e.n);
		U32 got; Char c; bool thrown = false;
		try { while (r.next(&c)) got.push_back(c); REQUIRE(!r.next(&c)); } catch (cybozu::Exception&) { thrown = true; }
		REQUIRE_EQ(thrown, !ok);
		REQUIRE_MSG(got == want, "Utf8ref gives " << show32(got));
		// bad bytes are skipped: it ends, gives only valid characters of the input in order, and all characters before the first bad one
		cybozu::Utf8refT<const char*> q(e.begin(), e.end(), true);
		got.clear();
		while (q.next(&c)) { got.push_back(c); REQUIRE_MSG(got.size() <= s.size(), "more characters than bytes"); }
		REQUIRE(got.substr(0, want.size()) == want);
		size_t pos = 0;
		for (auto d : got) { REQUIRE(scalar(d)); size_t f = s.find(utf8(d), pos); REQUIRE_MSG(f != std::string::npos, "a character which is not in the input"); pos = f + utf8(d).size(); }
		if (ok) REQUIRE(got == want);
	}
}
PROP_W(from_utf16, 1.5)
{
	String16 s = gen16(g);
	U32 want;
	bool ok = dec16(s, want);
	g.note() << (ok ? "well-formed " : "ill-formed ") << show16(s);
	g.label(ok ? "well formed" : "ill formed");
	g.nontrivial(s.size() > 1);
	std::string want8;
	for (auto c : want) want8 += utf8(c);
	Exact<Char16> e(s);
	std::string o = "old";
	bool b = g.boolean() ? cybozu::ConvertUtf16ToUtf8(&o, e.begin(), e.end()) : cybozu::ConvertUtf16ToUtf8(&o, s);
	REQUIRE_MSG(b == ok, "ConvertUtf16ToUtf8 accepts=" << b);
	if (ok) REQUIRE_STREQ(o, want8);
	bool thrown = false;
	try { o = cybozu::ToUtf8(s); } catch (std::exception&) { thrown = true; }
	REQUIRE_EQ(thrown, !ok);
	if (ok) REQUIRE_STREQ(o, want8);
	U32 got;
	const Char16 *p = e.begin();
	b = true;
	while (p != e.end()) { Char c = 1; b = cybozu::string::GetCharFromUtf16(c, p, e.end()); if (!b) break; REQUIRE(p <= e.end()); got.push_back(c); }
	REQUIRE_MSG(b == ok, "GetCharFromUtf16 accepts=" << b);
	REQUIRE_MSG(got == want, "code points " << show32(got) << " want " << show32(want));
	bool nul = s.find((Char16)0) != String16::npos;
	thrown = false;
	String x("ab");
	bool app = false;
	int way = (int)g.below(nul ? 2 : 5);
	try {
		switch (way) {
		case 0: { String y(s); x.swap(y); } break;
		case 1: x.append(e.begin(), e.end()); app = true; break;
		case 2: x.append(s.c_str()); app = true; break;
		case 3: x.assign(s.c_str()); break;
		case 4: { String y(s.c_str()); x.swap(y); } break;
		}
	} catch (std::exception&) { thrown = true; }
	REQUIRE_MSG(thrown == !ok, "String way " << way << " thrown=" << thrown);
	if (ok) {
		REQUIRE_STREQ(x.toUtf8(), (app ? "ab" : "") + want8);
		if (!nul) REQUIRE((x == s.c_str()) == !app);
		String16 h = enc16('x'), w = h;
		x.toUtf16(h);
		if (app) { w += enc16('a'); w += enc16('b'); }
		REQUIRE(h == w + s);
	}
}
PROP_W(from_code_points, 1.5)
{
	U32 s = gen32(g, true);
	g.note() << show32(s);
	g.nontrivial(s.size() > 1);
	bool ok = true;
	std::string want8; String16 want16;
	for (auto c : s) {
		bool v = scalar(c);
		std::string w = v ? utf8(c) : "";
		String16 w16 = v ? enc16(c) : String16();
		REQUIRE_MSG(cybozu::string::IsValidChar(c) == v, "IsValidChar of " << std::hex << (uint32_t)c);
		REQUIRE_EQ(cybozu::string::GetCharSize(c), (int)w.size());
		char buf[6] = { '#', '#', '#', '#', '#', '#' };
		int n = cybozu::string::toUtf8(buf, c);
		REQUIRE_MSG(n == (int)w.size() && memcmp(buf, w.data(), n) == 0 && buf[4] == '#', "toUtf8 of " << std::hex << (uint32_t)c << " length " << n);
		std::string a = "p";
		REQUIRE_EQ(cybozu::string::AppendUtf8(a, c), v);
		REQUIRE_STREQ(a, "p" + w);
		Char16 b16[2];
		int m = cybozu::string::toUtf16(b16, c);
		REQUIRE_MSG(m == (int)w16.size(), "toUtf16 of " << std::hex << (uint32_t)c << " length " << m);
		for (int i = 0; i < m; i++) REQUIRE_EQ((unsigned)b16[i], (unsigned)w16[i]);
		String16 a16 = enc16('q');
		REQUIRE_EQ(cybozu::string::AppendUtf16(a16, c), v);
		REQUIRE(a16 == enc16('q') + w16);
		if (!v) ok = false;
		want8 += w; want16 += w16;
	}
	String x(s);
	REQUIRE_EQ(x.isValid(), ok);
	std::string o8 = "z"; String16 o16;
	bool t8 = false, t16 = false;
	try { x.toUtf8(o8); } catch (std::exception&) { t8 = true; }
	try { x.toUtf16(o16); } catch (std::exception&) { t16 = true; }
	REQUIRE_EQ(t8, !ok);
	REQUIRE_EQ(t16, !ok);
	g.label(ok ? "valid" : "invalid");
	if (!ok) return;
	REQUIRE_STREQ(o8, "z" + want8);
	REQUIRE(o16 == want16);
	std::ostringstream os;
	os << x;
	REQUIRE_STREQ(os.str(), want8);
	String l(g.boolean() ? "before" : "");
	std::istringstream is(want8 + "\n");
	const char delim = g.pick(std::vector<char>{ '\n', '\n', ',', 'a', ' ', '\0' });
	if (delim == '\n' && g.boolean()) cybozu::getline(is, l); else cybozu::getline(is, l, delim);
	std::basic_string<Char> all = s + std::basic_string<Char>(1, (Char)'\n');
	REQUIRE_MSG(l.get() == all.substr(0, all.find((Char)delim)), "getline");
	std::istringstream is2(want8 + "\n"), is3(want8 + "\n"); std::string w8; String w("before"), w2("x");
	while (is2 >> w8) { REQUIRE((bool)(is3 >> w)); w2 = w8; REQUIRE(w == w2); }
	REQUIRE(!(is3 >> w));
}
