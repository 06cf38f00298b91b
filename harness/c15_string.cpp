// cybozu::String against std::basic_string
#include "streams.h"
#include <cybozu/string.hpp>
#include <cybozu/serializer.hpp>
#include <unordered_set>
using pbt::G;
using cybozu::Char; using cybozu::Char16; using cybozu::String; using cybozu::String16;
typedef std::basic_string<Char> U;
static Char ch(G& g) { return g.chance(1, 6) ? (Char)genScalar(g) : (Char)("abcde\xe3"[g.below(5)]); }
static U genU(G& g, size_t m = 12) { U s; for (size_t n = g.below(10) == 0 ? g.size(300) : g.below(m); n > 0; n--) s.push_back(ch(g)); return s; }
static U genZ(G& g) { U s = genU(g, 6); for (auto& c : s) if (!c) c = 'x'; return s; } // no NUL
static std::string to8(const U& s) { std::string o; for (auto c : s) o += utf8(c); return o; }
static String16 to16(const U& s) { String16 o; for (uint32_t c : s) { if (c < 0x10000) o.push_back((Char16)c); else { o.push_back((Char16)(0xd7c0 + (c >> 10))); o.push_back((Char16)(0xdc00 | (c & 0x3ff))); } } return o; }
static std::string sh(const U& s) { std::ostringstream os; for (size_t i = 0; i < s.size() && i < 40; i++) { if (s[i] > 0x20 && s[i] < 0x7f) os << (char)s[i]; else os << "<" << std::hex << (unsigned)s[i] << ">"; } return os.str(); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static size_t off(G& g, size_t n) { return g.chance(1, 12) ? n + 1 + g.below(3) : g.chance(1, 20) ? String::npos - g.below(2) : g.below(n + 1); }
static size_t cnt(G& g, size_t n) { return g.chance(1, 6) ? String::npos - g.below(2) : g.below(n + 3); }
// runs f on both; both throw out_of_range or none
#define BOTH(x, y) do { int e1 = 0, e2 = 0; try { x; } catch (std::exception&) { e1 = 1; } try { y; } catch (std::exception&) { e2 = 1; } REQUIRE_MSG(e1 == e2, #x << " thrown=" << e1 << " std::basic_string thrown=" << e2); } while (0)
#define SAME(x, y) do { size_t r1 = 0, r2 = 0; BOTH(r1 = (size_t)(x), r2 = (size_t)(y)); REQUIRE_MSG(r1 == r2, #x << " = " << (long)r1 << " want " << (long)r2); } while (0)
#define SGN(x, y) do { int r1 = 0, r2 = 0; BOTH(r1 = sgn(x), r2 = sgn(y)); REQUIRE_MSG(r1 == r2, #x << " = " << r1 << " want " << r2); } while (0)
static void verify(const String& s, const U& m)
{
	REQUIRE_MSG(s.get() == m, "holds " << sh(s.get()) << " want " << sh(m));
	REQUIRE_EQ(s.size(), m.size()); REQUIRE_EQ(s.length(), m.size()); REQUIRE_EQ(s.empty(), m.empty());
	REQUIRE(U(s.c_str(), s.size()) == m && s.c_str()[s.size()] == 0 && U(s.data(), s.size()) == m);
	REQUIRE(U(s.begin(), s.end()) == m && U(s.cbegin(), s.cend()) == m);
	REQUIRE(U(s.rbegin(), s.rend()) == U(m.rbegin(), m.rend()) && U(s.crbegin(), s.crend()) == U(m.rbegin(), m.rend()));
	REQUIRE(s.capacity() >= s.size());
	if (!m.empty()) { REQUIRE_EQ(s.front(), m.front()); REQUIRE_EQ(s.back(), m.back()); REQUIRE_EQ(s[m.size() / 2], m[m.size() / 2]); }
}
PROP_W(history, 3)
{
	String s[2];
	U m[2];
	size_t steps = 1 + g.below(25);
	for (size_t st = 0; st < steps; st++) {
		int a = (int)g.below(2), b = (int)g.below(2); // b may be a: the argument is the object itself
		String& x = s[a]; U& y = m[a];
		const String& r = s[b]; const U q = m[b];
		U u = genU(g), z = genZ(g);
		Char c = ch(g);
		size_t n = y.size(), o = off(g, n), k = cnt(g, n), ro = off(g, q.size()), rk = cnt(g, q.size()), rep = g.below(6);
		int op = (int)g.below(48);
		g.note() << "op " << op << " on " << a << " with " << b << " off " << (long)o << " n " << (long)k << " rhsOff " << (long)ro << " count " << (long)rk << " text " << sh(u) << " z " << sh(z);
		size_t i = g.below(n + 1), j = i + g.below(n - i + 1); // a valid range
		if (n > 2000) { x.clear(); y.clear(); continue; }
		switch (op) {
		case 0: x = r; y = q; break;
		case 1: x.assign(r); y = q; break;
		case 2: BOTH(x.assign(r, ro, rk), y = q.substr(ro, rk)); if (ro > q.size()) { x.clear(); y.clear(); } break;
		case 3: x.assign(u.data(), u.size()); y = u; break;
		case 4: x = z.c_str(); y = z; break;
		case 5: x = c; y.assign(1, c); break;
		case 6: x = to8(u); y = u; break;
		case 7: x.assign(rep, c); y.assign(rep, c); break;
		case 8: x.assign(u.begin(), u.end()); y = u; break;
		case 9: x.assign(to16(z).c_str()); y = z; break;
		case 10: x += r; y += q; break;
		case 11: x += z.c_str(); y += z; break;
		case 12: x += c; y += c; break;
		case 13: x.append(r); y += q; break;
		case 14: BOTH(x.append(r, ro, rk), y.append(q, ro, rk)); break;
		case 15: x.append(u.data(), u.size()); y += u; break;
		case 16: x.append(z.c_str()); y += z; break;
		case 17: x.append(rep, c); y.append(rep, c); break;
		case 18: x.append(u.begin(), u.end()); y += u; break;
		case 19: BOTH(x.insert(o, r), y.insert(o, q)); break;
		case 20: BOTH(x.insert(o, r, ro, rk), y.insert(o, q, ro, rk)); break;
		case 21: BOTH(x.insert(o, u.data(), u.size()), y.insert(o, u)); break;
		case 22: BOTH(x.insert(o, z.c_str()), y.insert(o, z.c_str())); break;
		case 23: BOTH(x.insert(o, rep, c), y.insert(o, rep, c)); break;
		case 24: { auto it = x.insert(x.begin() + i, c); REQUIRE(it == x.begin() + i); y.insert(y.begin() + i, c); } break;
		case 25: x.insert(x.begin() + i, rep, c); y.insert(i, rep, c); break;
		case 26: x.insert(x.begin() + i, u.begin(), u.end()); y.insert(i, u); break;
		case 27: BOTH(x.erase(o, k), y.erase(o, k)); break;
		case 28: if (i < n) { auto it = x.erase(x.begin() + i); REQUIRE_EQ((size_t)(it - x.begin()), i); y.erase(i, 1); } break;
		case 29: { auto it = x.erase(x.begin() + i, x.begin() + j); REQUIRE_EQ((size_t)(it - x.begin()), i); y.erase(i, j - i); } break;
		case 30: if (g.chance(1, 4)) { x.clear(); y.clear(); } else { x.erase(); y.erase(); } break;
		case 31: BOTH(x.replace(o, k, r), y.replace(o, k, q)); break;
		case 32: BOTH(x.replace(o, k, r, ro, rk), y.replace(o, k, q, ro, rk)); break;
		case 33: BOTH(x.replace(o, k, u.data(), u.size()), y.replace(o, k, u)); break;
		case 34: BOTH(x.replace(o, k, z.c_str()), y.replace(o, k, z)); break;
		case 35: BOTH(x.replace(o, k, rep, c), y.replace(o, k, rep, c)); break;
		case 36: x.replace(x.begin() + i, x.begin() + j, r); y.replace(i, j - i, q); break;
		case 37: x.replace(x.begin() + i, x.begin() + j, u.data(), u.size()); y.replace(i, j - i, u); break;
		case 38: x.replace(x.begin() + i, x.begin() + j, z.c_str()); y.replace(i, j - i, z); break;
		case 39: x.replace(x.begin() + i, x.begin() + j, rep, c); y.replace(i, j - i, rep, c); break;
		case 40: x.replace(x.begin() + i, x.begin() + j, u.begin(), u.end()); y.replace(i, j - i, u); break;
		case 41: x.push_back(c); y.push_back(c); break;
		case 42: if (n) { x.pop_back(); y.pop_back(); } break;
		case 43: { size_t w = g.chance(1, 12) ? g.below(g.boolean() ? 70000 : 9000) : g.below(2 * n + 3); if (g.boolean()) { x.resize(w); y.resize(w); } else { x.resize(w, c); y.resize(w, c); } } break;
		case 44: x.reserve(g.below(3 * n + 10)); if (g.boolean()) x.shrink_to_fit(); break;
		case 45: if (a != b) { if (g.boolean()) s[a].swap(s[b]); else cybozu::swap(s[a], s[b]); m[a].swap(m[b]); } break;
		case 46:
			if (a != b) { // move: the source is valid but unspecified, and usable after clear()
				String t(r);
				if (g.boolean()) x = std::move(t); else { String v(std::move(t)); verify(v, q); x = v; }
				y = q; t.clear(); t += c; verify(t, U(1, c));
			}
			break;
		case 47: if (n) { if (i == n) i--; if (g.boolean()) x[i] = c; else x.at(i) = c; y[i] = c; } break;
		}
		verify(s[0], m[0]);
		verify(s[1], m[1]);
	}
	g.nontrivial(m[0].size() + m[1].size() > 2);
}
PROP_W(queries, 3)
{
	U m = genU(g, 20), k;
	switch (g.below(3)) {
	case 0: k = genU(g, 4); break;
	case 1: if (!m.empty()) k = m.substr(g.below(m.size()), 1 + g.below(4)); break;
	case 2: k = m; if (g.boolean() && !k.empty()) k[g.below(k.size())] = ch(g); if (g.chance(1, 3)) k.push_back(ch(g)); break;
	}
	const String s(m), t(k);
	U kz = k; for (auto& c : kz) if (!c) c = 'a';
	Char c = k.empty() ? ch(g) : k[g.below(k.size())];
	g.note() << "s " << sh(m) << " k " << sh(k);
	g.nontrivial(m.size() > 1 && !k.empty());
	for (int i = 0; i < 4; i++) {
		size_t o = off(g, m.size()), cn = g.below(k.size() + 1), o2 = off(g, m.size()), n2 = cnt(g, m.size()), ro = off(g, k.size()), rn = cnt(g, k.size());
		g.note() << "off " << (long)o << " count " << cn << " off2 " << (long)o2 << " n " << (long)n2 << " rhsOff " << (long)ro << " rhsN " << (long)rn;
#define F(name) SAME(s.name(t, o), m.name(k, o)); SAME(s.name(t), m.name(k)); SAME(s.name(k.data(), o, cn), m.name(k.data(), o, cn)); SAME(s.name(kz.c_str(), o), m.name(kz.c_str(), o)); SAME(s.name(kz.c_str()), m.name(kz.c_str())); SAME(s.name(c, o), m.name(c, o)); SAME(s.name(c), m.name(c))
		F(find); F(rfind); F(find_first_of); F(find_last_of); F(find_first_not_of); F(find_last_not_of);
		SGN(s.compare(t), m.compare(k));
		SGN(s.compare(o2, n2, t), m.compare(o2, n2, k));
		SGN(s.compare(o2, n2, t, ro, rn), m.compare(o2, n2, k, ro, rn));
		SGN(s.compare(kz.c_str()), m.compare(kz));
		SGN(s.compare(to16(kz).c_str()), m.compare(kz));
		SGN(s.compare(o2, n2, kz.c_str()), m.compare(o2, n2, kz.c_str()));
		SGN(s.compare(o2, n2, k.data(), cn), m.compare(o2, n2, k.data(), cn));
		String r1; U r2;
		BOTH(r1 = s.substr(o2, n2), r2 = m.substr(o2, n2));
		verify(r1, r2);
		r1 = "zz"; r2 = to8(U()).empty() ? U(2, 'z') : U();
		BOTH(r1 = String(s, o2, n2), r2 = U(m, o2, n2));
		verify(r1, r2);
		std::vector<Char> b1(m.size() + 2, 7), b2(m.size() + 2, 7);
		size_t cc = g.below(m.size() + 2);
		SAME(s.copy(b1.data(), cc, o2), m.copy(b2.data(), cc, o2));
		REQUIRE(b1 == b2);
		Char d1 = 1, d2 = 1;
		BOTH(d1 = s.at(o), d2 = m.at(o));
		REQUIRE_EQ(d1, d2);
	}
	std::string k8 = to8(k);
	String16 z16 = to16(kz);
#define R(op) REQUIRE_EQ(s op t, m op k); REQUIRE_EQ(s op k8, m op k); REQUIRE_EQ(s op k, m op k); REQUIRE_EQ(s op kz.c_str(), m op kz); REQUIRE_EQ(s op z16.c_str(), m op kz); \
	REQUIRE_EQ(k8 op s, k op m); REQUIRE_EQ(k op s, k op m); REQUIRE_EQ(kz.c_str() op s, kz op m); REQUIRE_EQ(z16.c_str() op s, kz op m)
	R(==); R(!=); R(<); R(<=); R(>); R(>=);
	verify(s + t, m + k);
	verify(String(s) + t, m + k);
	verify(String(3, c), U(3, c));
	verify(String(m.data(), m.size()), m);
	verify(String(kz.c_str()), kz);
	verify(String(m.begin(), m.end()), m);
	if (m == k) REQUIRE(std::hash<String>()(s) == std::hash<String>()(t));
	{
		std::unordered_set<String> us; us.insert(s); us.insert(t); us.insert(String(m));
		REQUIRE_EQ(us.size(), m == k ? 1u : 2u);
	}
	std::string data;
	cybozu::StringOutputStream os(data);
	cybozu::save(os, s); cybozu::save(os, t);
	ChunkIn is(g, data);
	String x("old"), y;
	cybozu::load(x, is); cybozu::load(y, is);
	verify(x, m); verify(y, k);
	std::istringstream ss(to8(kz) + " tail");
	bool plain = true;
	for (auto d : kz) if (d <= 0x20 || d == 0x85 || d == 0xa0) plain = false;
	if (plain && !kz.empty()) { String w("old"); ss >> w; verify(w, kz); }
}
