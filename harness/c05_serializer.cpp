#include "streams.h"
#include <list>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <sstream>
#include <cybozu/serializer.hpp>
using pbt::show;
using pbt::G;

struct Rec { // user type with members load/save
	int a; std::string b; std::vector<short> c;
	Rec() : a(0) {}
	bool operator==(const Rec& r) const { return a == r.a && b == r.b && c == r.c; }
	template<class I> void load(I& is) { cybozu::load(a, is); cybozu::load(b, is); cybozu::load(c, is); }
	template<class O> void save(O& os) const { cybozu::save(os, a); cybozu::save(os, b); cybozu::save(os, c); }
};
static void gen(G& g, bool& x) { x = g.boolean(); }
static void gen(G& g, char& x) { x = (char)g.bits(8); }
static void gen(G& g, unsigned char& x) { x = (unsigned char)g.bits(8); }
static void gen(G& g, short& x) { x = (short)g.bits(16); }
static void gen(G& g, unsigned short& x) { x = (unsigned short)g.bits(16); }
static void gen(G& g, wchar_t& x) { x = (wchar_t)g.bits(32); }
template<class T> static void genInt(G& g, T& x)
{
	// boundary values of every width in both signs
	if (g.below(3) == 0) {
		int w = (int)g.pick(std::vector<int>{8, 16, 32, 64});
		uint64_t v = g.boolean() ? (w == 64 ? 0 : 1ull << w) : 1ull << (w - 1);
		v += g.below(21); v -= 10;
		if (g.boolean()) v = 0 - v;
		x = (T)v;
	} else x = (T)g.bits(sizeof(T) * 8);
}
static void gen(G& g, int& x) { genInt(g, x); }
static void gen(G& g, unsigned int& x) { genInt(g, x); }
static void gen(G& g, long& x) { genInt(g, x); }
static void gen(G& g, unsigned long& x) { genInt(g, x); }
static void gen(G& g, long long& x) { genInt(g, x); }
static void gen(G& g, unsigned long long& x) { genInt(g, x); }
static void gen(G& g, float& x) { uint32_t u = (uint32_t)g.bits(32); memcpy(&x, &u, 4); if (x != x) x = -0.0f; }
static void gen(G& g, double& x) { uint64_t u = g.bits(64); memcpy(&x, &u, 8); if (x != x) x = 1e-310; }
static void gen(G& g, std::string& s)
{
	size_t n = g.below(8) == 0 ? g.size(70000) : g.below(12);
	s = n > 16 ? g.blob(n) : g.bytes(n);
}
static void gen(G& g, Rec& r);
template<class T> static size_t cnt(G& g) { return g.below(12) == 0 ? g.size(300) : g.below(5); }
template<class T> static void gen(G& g, std::vector<T>& v) { for (size_t n = cnt<T>(g); n > 0; n--) { T t = T(); gen(g, t); v.push_back(t); } }
template<class T> static void gen(G& g, std::list<T>& v) { for (size_t n = g.below(6); n > 0; n--) { T t = T(); gen(g, t); v.push_back(t); } }
template<class T> static void gen(G& g, std::deque<T>& v) { for (size_t n = g.below(6); n > 0; n--) { T t = T(); gen(g, t); v.push_back(t); } }
template<class T> static void gen(G& g, std::set<T>& v) { for (size_t n = cnt<T>(g); n > 0; n--) { T t = T(); gen(g, t); v.insert(t); } }
template<class T> static void gen(G& g, std::multiset<T>& v) { for (size_t n = g.below(5); n > 0; n--) { T t = T(); gen(g, t); for (size_t k = g.below(3) + 1; k > 0; k--) v.insert(t); } }
template<class K, class T> static void gen(G& g, std::map<K, T>& v) { for (size_t n = cnt<T>(g); n > 0; n--) { K k = K(); T t = T(); gen(g, k); gen(g, t); v[k] = t; } }
template<class K, class T> static void gen(G& g, std::unordered_map<K, T>& v) { for (size_t n = cnt<T>(g); n > 0; n--) { K k = K(); T t = T(); gen(g, k); gen(g, t); v[k] = t; } }
template<class K, class T> static void gen(G& g, std::multimap<K, T>& v) { for (size_t n = cnt<T>(g); n > 0; n--) { K k = K(); T t = T(); if (g.boolean() && !v.empty()) k = v.begin()->first; else gen(g, k); gen(g, t); v.insert(std::make_pair(k, t)); } }
template<class K, class T> static void gen(G& g, std::unordered_multimap<K, T>& v) { for (size_t n = cnt<T>(g); n > 0; n--) { K k = K(); T t = T(); if (g.boolean() && !v.empty()) k = v.begin()->first; else gen(g, k); gen(g, t); v.insert(std::make_pair(k, t)); } }
static void gen(G& g, Rec& r) { gen(g, r.a); gen(g, r.b); gen(g, r.c); }

struct Item {
	virtual ~Item() {}
	virtual std::string name() const = 0;
	virtual void save(std::ostringstream&) const = 0;
	virtual void save(cybozu::StringOutputStream&) const = 0;
	virtual void load(G& g, ChunkIn&) = 0;
	virtual void load(G& g, std::istringstream&) = 0;
	virtual void load(G& g, cybozu::MemoryInputStream&) = 0;
	virtual bool same() const = 0;
};
template<class T>
struct ItemT : Item {
	T x, y;
	const char *nm;
	ItemT(G& g, const char *nm) : x(), y(), nm(nm) { gen(g, x); }
	std::string name() const { return nm; }
	void save(std::ostringstream& os) const { cybozu::save(os, x); }
	void save(cybozu::StringOutputStream& os) const { cybozu::save(os, x); }
	// the target holds other data before the load
	template<class I> void ld(G& g, I& is) { if (g.boolean()) gen(g, y); cybozu::load(y, is); }
	void load(G& g, ChunkIn& is) { ld(g, is); }
	void load(G& g, std::istringstream& is) { ld(g, is); }
	void load(G& g, cybozu::MemoryInputStream& is) { ld(g, is); }
	bool same() const { return x == y; }
};
template<class T> // POD vectors
struct PodItem : Item {
	T x, y;
	const char *nm;
	PodItem(G& g, const char *nm) : x(), y(), nm(nm) { gen(g, x); }
	std::string name() const { return nm; }
	void save(std::ostringstream& os) const { cybozu::savePodVec(os, x); }
	void save(cybozu::StringOutputStream& os) const { cybozu::savePodVec(os, x); }
	template<class I> void ld(G& g, I& is) { if (g.boolean()) gen(g, y); cybozu::loadPodVec(y, is); }
	void load(G& g, ChunkIn& is) { ld(g, is); }
	void load(G& g, std::istringstream& is) { ld(g, is); }
	void load(G& g, cybozu::MemoryInputStream& is) { ld(g, is); }
	bool same() const { return x == y; }
};
struct CstrItem : Item { // a C string is saved as a string
	std::string x, y;
	CstrItem(G& g) { gen(g, x); for (char& c : x) if (!c) c = 'z'; }
	std::string name() const { return "const char*"; }
	void save(std::ostringstream& os) const { cybozu::save(os, x.c_str()); }
	void save(cybozu::StringOutputStream& os) const { cybozu::save(os, x.c_str()); }
	template<class I> void ld(G& g, I& is) { if (g.boolean()) gen(g, y); cybozu::load(y, is); }
	void load(G& g, ChunkIn& is) { ld(g, is); }
	void load(G& g, std::istringstream& is) { ld(g, is); }
	void load(G& g, cybozu::MemoryInputStream& is) { ld(g, is); }
	bool same() const { return x == y; }
};
static Item *makeItem(G& g)
{
#define I(T) new ItemT<T>(g, #T)
	typedef std::map<std::string, std::vector<long long>> MapSV;
	typedef std::multimap<int, std::string> MMap;
	typedef std::unordered_multimap<unsigned, long> UMMap;
	typedef std::map<int, std::string> MapIS;
	typedef std::unordered_map<std::string, int> UMap;
	typedef std::unordered_map<unsigned, std::vector<std::string>> UMapV;
	typedef std::map<long, std::map<std::string, std::set<int>>> Deep;
	switch (g.below(39)) {
	case 0: return I(int);
	case 1: return I(unsigned int);
	case 2: return I(long);
	case 3: return I(unsigned long);
	case 4: return I(long long);
	case 5: return I(unsigned long long);
	case 6: return I(short);
	case 7: return I(unsigned short);
	case 8: return I(char);
	case 9: return I(unsigned char);
	case 10: return I(bool);
	case 11: return I(wchar_t);
	case 12: return I(float);
	case 13: return I(double);
	case 14: return I(std::string);
	case 15: return I(std::vector<int>);
	case 16: return I(std::vector<std::string>);
	case 17: return I(std::list<std::string>);
	case 18: return I(std::deque<unsigned long long>);
	case 19: return I(std::vector<std::vector<std::string>>);
	case 20: return I(std::set<int>);
	case 21: return I(std::set<std::string>);
	case 22: return I(std::multiset<int>);
	case 23: return I(MapSV);
	case 24: return I(MapIS);
	case 25: return I(UMap);
	case 26: return I(UMapV);
	case 27: return I(Deep);
	case 28: return I(Rec);
	case 29: return I(std::vector<Rec>);
	case 30: return I(std::list<std::list<double>>);
	case 34: return I(MMap);
	case 35: return I(UMMap);
	case 36: return new CstrItem(g);
	case 37: { if (g.chance(1, 4)) { PodItem<std::vector<unsigned short>> *p = new PodItem<std::vector<unsigned short>>(g, "long pod vector"); std::string b = g.blob(2 * (32000 + g.below(40000))); p->x.resize(b.size() / 2); memcpy(p->x.data(), b.data(), b.size()); return p; } return I(std::vector<double>); }
	case 31: return new PodItem<std::vector<int>>(g, "pod vector<int>");
	case 32: return new PodItem<std::vector<double>>(g, "pod vector<double>");
	default: return new PodItem<std::vector<unsigned short>>(g, "pod vector<unsigned short>");
	}
}
// a sequence of values of any types saved to one stream is loaded back in order, to the last byte
PROP_W(roundtrip, 2)
{
	std::vector<std::unique_ptr<Item>> v;
	std::string names;
	for (size_t n = 1 + g.below(5); n > 0; n--) { v.emplace_back(makeItem(g)); names += v.back()->name() + " "; }
	g.note() << "types: " << names;
	std::string data;
	std::vector<size_t> ends;
	if (g.boolean()) {
		std::ostringstream os;
		for (auto& p : v) { p->save(os); ends.push_back(os.str().size()); }
		data = os.str();
	} else {
		cybozu::StringOutputStream os(data);
		for (auto& p : v) { p->save(os); ends.push_back(data.size()); }
	}
	g.note() << "bytes: " << show(data);
	g.nontrivial(data.size() > 1);
	const std::string all = data;
	const bool trunc = g.chance(1, 3) && !data.empty();
	if (trunc) { data.resize(g.below(data.size())); g.label("truncated"); }
	else if (g.boolean()) data += "tail";
	size_t nOk = 0; // values whose bytes are all there
	while (nOk < v.size() && ends[nOk] <= data.size()) nOk++;
	ChunkIn ci(g, data);
	std::istringstream is(data);
	cybozu::MemoryInputStream ms(data.data(), data.size());
	int kind = (int)g.below(3);
	for (size_t i = 0; i < v.size(); i++) {
		bool thrown = false;
		try {
			if (kind == 0) v[i]->load(g, ci); else if (kind == 1) v[i]->load(g, is); else v[i]->load(g, ms);
		} catch (std::exception& e) { thrown = true; g.note() << "exception " << e.what(); }
		if (i < nOk) {
			REQUIRE_MSG(!thrown, "load of value " << i << " (" << v[i]->name() << ") failed");
			REQUIRE_MSG(v[i]->same(), "value " << i << " (" << v[i]->name() << ") differs after save and load");
			size_t pos = kind == 0 ? ci.pos : kind == 1 ? (size_t)is.tellg() : ms.getPos();
			REQUIRE_MSG(pos == ends[i], "value " << i << " (" << v[i]->name() << ") consumed up to " << pos << " but ends at " << ends[i]);
		} else {
			REQUIRE_MSG(thrown, "value " << i << " (" << v[i]->name() << ") was loaded from truncated data");
			break;
		}
	}
	(void)all;
}
// a failing write is reported
PROP(short_output)
{
	std::unique_ptr<Item> p(makeItem(g));
	std::string data;
	{ cybozu::StringOutputStream os(data); p->save(os); }
	(void)p;
	std::string s; gen(g, s);
	std::vector<std::string> vs; gen(g, vs);
	std::string full;
	{ cybozu::StringOutputStream os(full); cybozu::save(os, s); cybozu::save(os, vs); }
	size_t cap = g.below(full.size() + 3);
	std::vector<char> mem(cap);
	cybozu::MemoryOutputStream mos(mem.data(), cap);
	g.note() << "need " << full.size() << " capacity " << cap;
	bool thrown = false;
	try { cybozu::save(mos, s); cybozu::save(mos, vs); } catch (std::exception&) { thrown = true; }
	REQUIRE_EQ(thrown, cap < full.size());
	if (!thrown) { REQUIRE_EQ(mos.getPos(), full.size()); REQUIRE(memcmp(mem.data(), full.data(), full.size()) == 0); g.nontrivial(); }
	else g.nontrivial(cap > 0);
}
#ifndef CYBOZU_SERIALIZER_FIXED_SIZE_INTEGER
// reference decoder of the documented format; false: incomplete or a header the type does not take
static bool refDecode(const std::string& s, size_t& pos, int width, uint64_t& v)
{
	if (pos >= s.size()) return false;
	unsigned h = (unsigned char)s[pos++];
	if (h < 0x80 || h > 0x87) { v = (uint64_t)(int64_t)(int8_t)h; return true; }
	int n = 1 << (h & 3);
	if (n == 8 && width == 4) return false;
	if (s.size() - pos < (size_t)n) return false;
	v = 0;
	for (int i = 0; i < n; i++) v |= (uint64_t)(unsigned char)s[pos + i] << (8 * i);
	pos += n;
	if (h >= 0x84 && n < 8) { int sh = 64 - 8 * n; v = (uint64_t)((int64_t)(v << sh) >> sh); }
	return true;
}
template<class T> static void checkDecode(G& g)
{
	std::string s;
	for (size_t k = 1 + g.below(3); k > 0; k--) {
		s += (char)(g.below(3) == 0 ? g.below(256) : 0x80 + g.below(9));
		size_t n = g.below(10);
		for (size_t i = 0; i < n; i++) s += (char)g.pick(std::vector<int>{0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x55, (int)g.below(256)});
	}
	g.note() << "width " << sizeof(T) << " bytes " << show(s);
	ChunkIn is(g, s);
	size_t pos = 0;
	for (int k = 0; k < 4; k++) {
		uint64_t want = 0;
		bool ok = refDecode(s, pos, sizeof(T), want);
		T x = (T)g.bits(64);
		bool thrown = false;
		try { cybozu::load(x, is); } catch (std::exception&) { thrown = true; }
		REQUIRE_EQ(thrown, !ok);
		if (!ok) break;
		REQUIRE_EQ(x, (T)want);
		REQUIRE_EQ(is.pos, pos);
		g.nontrivial();
	}
}
PROP(decode_format)
{
	switch (g.below(6)) {
	case 0: checkDecode<int>(g); break;
	case 1: checkDecode<unsigned int>(g); break;
	case 2: checkDecode<long>(g); break;
	case 3: checkDecode<unsigned long>(g); break;
	case 4: checkDecode<long long>(g); break;
	default: checkDecode<unsigned long long>(g); break;
	}
}
template<class T> static void checkEncode(G& g)
{
	T x; gen(g, x);
	std::string s;
	cybozu::StringOutputStream os(s);
	cybozu::save(os, x);
	g.note() << "width " << sizeof(T) << " value " << x << " bytes " << show(s);
	size_t pos = 0;
	uint64_t v;
	REQUIRE_MSG(refDecode(s, pos, sizeof(T), v) && pos == s.size(), "not in the documented format: " << show(s));
	REQUIRE_EQ((T)v, x);
	// compact: no longer than the narrowest documented form which represents it
	size_t best = 9;
	for (int h = 0; h < 256; h++) {
		int n = h < 0x80 || h > 0x87 ? 0 : 1 << (h & 3);
		if (n == 8 && sizeof(T) == 4) continue;
		std::string c(1, (char)h);
		uint64_t u = (uint64_t)x;
		for (int i = 0; i < n; i++) c += (char)(u >> (8 * i));
		size_t p = 0;
		uint64_t w;
		if (refDecode(c, p, sizeof(T), w) && (T)w == x) best = std::min(best, c.size());
	}
	REQUIRE_EQ(s.size(), best);
	g.nontrivial();
}
PROP(encode_format)
{
	switch (g.below(6)) {
	case 0: checkEncode<int>(g); break;
	case 1: checkEncode<unsigned int>(g); break;
	case 2: checkEncode<long>(g); break;
	case 3: checkEncode<unsigned long>(g); break;
	case 4: checkEncode<long long>(g); break;
	default: checkEncode<unsigned long long>(g); break;
	}
}
#else
template<class T> static void checkFixed(G& g)
{
	T x; gen(g, x);
	std::string s;
	cybozu::StringOutputStream os(s);
	cybozu::save(os, x);
	REQUIRE_STREQ(s, std::string((const char*)&x, sizeof(T)));
	g.note() << x;
	g.nontrivial();
}
PROP_W(fixed_format, 0.2)
{
	switch (g.below(6)) {
	case 0: checkFixed<int>(g); break;
	case 1: checkFixed<unsigned int>(g); break;
	case 2: checkFixed<long>(g); break;
	case 3: checkFixed<unsigned long>(g); break;
	case 4: checkFixed<long long>(g); break;
	default: checkFixed<unsigned long long>(g); break;
	}
}
#endif
