// sparse vectors against std::map
#include <pbt.h>
#include <cybozu/nlp/sparse.hpp>
#include <cybozu/stream.hpp>
#include <map>
#include <unordered_map>
#include <sstream>
using pbt::G; using pbt::show;
using namespace cybozu::nlp;
typedef std::map<size_t, int> Map;
template<class Tbl> struct Lim { static const size_t diff = ~size_t(0), maxPos = 0xffffffffu; };
template<> struct Lim<option::CompressedPositionTbl> { static const size_t diff = 1u << 30, maxPos = ~size_t(0); };
static size_t gap(G& g)
{
	switch (g.below(6)) {
	case 0: case 1: return 1 + g.below(3);
	case 2: { static const int b[] = { 6, 14, 22, 30 }; return ((size_t)1 << b[g.below(4)]) + g.irange(-2, 1); }
	case 3: return 1 + (size_t)g.bits((int)(1 + g.below(30)));
	default: return 1 + g.below(70);
	}
}
template<class V> static void same(const V& v, const Map& m)
{
	REQUIRE_EQ(v.size(), m.size());
	REQUIRE_EQ(v.empty(), m.empty());
	auto j = m.begin();
	double n = 0;
	for (typename V::const_iterator i = v.begin(), ie = v.end(); i != ie; ++i, ++j) {
		REQUIRE(j != m.end());
		REQUIRE_EQ(i->pos(), j->first);
		REQUIRE_EQ((long)i->val(), (long)j->second);
		REQUIRE_EQ((*i).pos(), j->first);
		n += (double)j->second * j->second;
	}
	REQUIRE(j == m.end());
	REQUIRE_EQ(v.norm(), n);
}
template<class Tbl, class V> static void fill(G& g, V& v, Map& m, size_t n, const Map *other = 0)
{
	size_t pos = m.empty() ? 0 : m.rbegin()->first;
	bool first = m.empty();
	for (size_t k = 0; k < n; k++) {
		size_t p;
		if (other && g.boolean()) { auto it = first ? other->begin() : other->upper_bound(pos); if (it == other->end()) break; p = it->first; }
		else if (first && g.boolean()) p = 0;
		else if (!first && g.chance(1, 8)) p = pos - g.below(std::min<size_t>(pos, 3) + 1); // not ascending
		else if (g.chance(1, 30)) p = Lim<Tbl>::maxPos == 0xffffffffu ? 0xffffffffu + g.irange(-1, 1) : pos + Lim<Tbl>::diff + g.irange(-1, 1);
		else p = pos + gap(g);
		int x = (int)(g.boolean() ? g.irange(-1000, 1000) : sizeof(typename V::value_type) > 2 ? g.irange(-(1 << 23), 1 << 23) : g.irange(-32768, 32767)); // products and their sums are exact as double
		bool ok = (first || p > pos) && p <= Lim<Tbl>::maxPos && p - (first ? 0 : pos) < Lim<Tbl>::diff;
		g.note() << (ok ? " " : " !") << p << ":" << x;
		bool t = false;
		try { v.push_back(p, x); } catch (cybozu::Exception&) { t = true; }
		REQUIRE_EQ(t, !ok);
		if (ok) { m[p] = x; pos = p; first = false; }
		if (g.chance(1, 6)) same(v, m); // iteration between appends
	}
}
template<class Tbl, class T> static void history(G& g)
{
	typedef SparseVector<T, Tbl> V;
	V v[2]; Map m[2];
	size_t n = 1 + g.size(10);
	for (size_t k = 0; k < n; k++) {
		size_t i = g.below(2);
		switch (g.below(8)) {
		case 0: case 1: case 2: g.note() << " |append " << i; fill<Tbl>(g, v[i], m[i], 1 + g.size(12)); break;
		case 3: g.note() << " |clear"; v[i].clear(); m[i].clear(); break;
		case 4: g.note() << " |swap"; v[0].swap(v[1]); std::swap(m[0], m[1]); break;
		case 5: { g.note() << " |save"; std::string s; cybozu::StringOutputStream os(s); v[i].save(os); cybozu::StringInputStream is(s); size_t j = g.below(2); v[j].load(is); m[j] = m[i]; REQUIRE_EQ(is.getPos(), s.size());
			if (!s.empty()) { std::string c = s.substr(0, g.below(s.size())); cybozu::StringInputStream ci(c); V w; REQUIRE_THROWS(w.load(ci)); } break; }
		case 6: { g.note() << " |copy"; V c(v[i]); REQUIRE(c == v[i]); v[1 - i] = c; m[1 - i] = m[i]; break; }
		default: { g.note() << " |set"; Map x; size_t p = g.below(3); for (size_t q = g.size(10); q > 0; q--) { x[p] = (int)g.irange(-9, 9); p += std::min<size_t>(gap(g), Lim<Tbl>::diff - 1); if (p > 0xfffffff0u) break; } V c; c.set(x); same(c, x); v[i].swap(c); m[i] = x; if (g.boolean()) v[i].reserve(g.below(100)); break; }
		}
		same(v[0], m[0]); same(v[1], m[1]);
		REQUIRE_EQ(v[0] == v[1], m[0] == m[1]);
		REQUIRE_EQ(v[0] != v[1], m[0] != m[1]);
		g.nontrivial(m[0].size() + m[1].size() > 2);
	}
}
template<class Tbl> static void longVector(G& g)
{
	typedef SparseVector<int, Tbl> V;
	size_t n = 65536 + g.below(20000), pos = g.below(5), step = 1 + g.below(3) * g.below(20000);
	g.note() << n << " values, step " << step;
	V v, w;
	Map m;
	for (size_t i = 0; i < n; i++) { v.push_back(pos, (int)(i & 0xfff)); m.emplace_hint(m.end(), pos, (int)(i & 0xfff)); pos += 1 + (i * step) % 20000; }
	g.nontrivial();
	same(v, m);
	std::string s;
	cybozu::StringOutputStream os(s);
	v.save(os);
	cybozu::StringInputStream is(s);
	w.load(is);
	same(w, m);
	REQUIRE(v == w);
	w.push_back(pos, 1);
	REQUIRE(v != w);
}
PROP(long_vector) { if (!g.chance(1, 400)) return; if (g.boolean()) longVector<option::PositionTbl>(g); else longVector<option::CompressedPositionTbl>(g); }
PROP_W(vectors, 2)
{
	switch (g.below(4)) {
	case 0: history<option::PositionTbl, int>(g); break;
	case 1: history<option::CompressedPositionTbl, int>(g); break;
	case 2: history<option::CompressedPositionTbl, double>(g); break;
	default: history<option::PositionTbl, short>(g); break;
	}
}
template<class T1, class B1, class T2, class B2> static void pairs(G& g)
{
	typedef SparseVector<T1, B1> V1;
	typedef SparseVector<T2, B2> V2;
	V1 a; V2 b; Map ma, mb;
	fill<B1>(g, a, ma, g.size(20));
	g.note() << " | ";
	fill<B2>(g, b, mb, g.size(20), g.chance(3, 4) ? &ma : 0);
	g.nontrivial(ma.size() > 1 && mb.size() > 1);
	// intersection
	std::vector<std::array<long, 3>> w, got;
	double ip = 0;
	for (auto& x : ma) { auto y = mb.find(x.first); if (y != mb.end()) { w.push_back({(long)x.first, x.second, y->second}); ip += (double)x.second * y->second; } }
	typedef Intersection<V1, V2> I;
	I in(a, b);
	for (typename I::const_iterator i = in.begin(), ie = in.end(); i != ie; ++i) got.push_back({(long)i->pos(), (long)i->val1(), (long)i->val2()});
	REQUIRE(got == w);
	double r; InnerProduct(&r, a, b);
	REQUIRE_EQ(r, ip);
	long lr; InnerProduct(&lr, a, b);
	REQUIRE_EQ(lr, (long)ip);
	InnerProduct(&r, a, a);
	double sq = 0; for (auto& x : ma) sq += (double)x.second * x.second;
	REQUIRE_EQ(r, sq); REQUIRE_EQ(a.norm(), sq);
	// union
	typedef Union<V1, V2> U;
	std::map<size_t, std::pair<int, int>> mode; // which have a value
	for (auto& x : ma) mode[x.first].first = 1;
	for (auto& x : mb) mode[x.first].second = 1;
	U un(a, b);
	auto it = mode.begin();
	for (typename U::const_iterator i = un.begin(), ie = un.end(); i != ie; ++i, ++it) {
		REQUIRE(it != mode.end());
		size_t p = it->first;
		REQUIRE_EQ(i->pos(), p);
		REQUIRE_EQ(i->hasVal1(), it->second.first == 1);
		REQUIRE_EQ(i->hasVal2(), it->second.second == 1);
		REQUIRE_EQ((long)i->val1(), it->second.first ? (long)ma[p] : 0);
		REQUIRE_EQ((long)i->val2(), it->second.second ? (long)mb[p] : 0);
		bool more1 = ma.lower_bound(p) != ma.end(), more2 = mb.lower_bound(p) != mb.end(); // values at p or after it
		int want = !more2 ? (int)U::const_iterator::Only1 : !more1 ? (int)U::const_iterator::Only2 : it->second.first && it->second.second ? (int)U::const_iterator::Equal : it->second.first ? (int)U::const_iterator::Small : (int)U::const_iterator::Large;
		REQUIRE_EQ((int)i->getMode(), want);
	}
	REQUIRE(it == mode.end());
	REQUIRE_EQ((int)un.end().getMode(), (int)U::const_iterator::End);
}
PROP_W(two_vectors, 2)
{
	typedef option::PositionTbl P; typedef option::CompressedPositionTbl C;
	switch (g.below(4)) {
	case 0: pairs<int, P, int, P>(g); break;
	case 1: pairs<int, C, double, P>(g); break;
	case 2: pairs<double, P, int, C>(g); break;
	default: pairs<int, C, short, C>(g); break;
	}
}
