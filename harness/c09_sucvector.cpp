#include "bitgen.h"
#include "streams.h"
#include <sstream>
#include <cybozu/sucvector.hpp>
using pbt::G;
template<class V, bool sel> struct Verify {
	static void run(G& g, const V& v, const BitRef& r, bool full)
	{
		const Bits& b = r.b;
		const size_t n = b.size();
		REQUIRE_EQ(v.size(), n);
		for (int k = 0; k < 2; k++) REQUIRE_EQ(v.size(k != 0), r.rank(k, n));
		size_t step = full || n < 400 ? 1 : 1 + g.below(n / 200 + 1);
		size_t off = step == 1 ? 0 : g.below(step);
		for (size_t i = off; i <= n; i += step) {
			if (i < n) REQUIRE_MSG(v.get(i) == b[i], "get(" << i << ") of " << n);
			REQUIRE_MSG(v.rank1(i) == r.ones[i], "rank1(" << i << ") = " << v.rank1(i) << " want " << r.ones[i] << " of " << n);
			REQUIRE_MSG(v.rank0(i) == i - r.ones[i], "rank0(" << i << ") of " << n);
			bool k = i & 1;
			REQUIRE_EQ(v.rank(k, i), r.rank(k, i));
		}
		REQUIRE_EQ(v.rank1(n), r.ones[n]);
		REQUIRE_EQ(v.rank1(n + 1 + g.bits(40)), r.ones[n]);
		REQUIRE_THROWS(v.get(n));
		REQUIRE_THROWS(v.get(n + g.bits(50)));
		for (int k = 0; k < 2; k++) {
			const std::vector<uint64_t>& p = r.pos[k];
			if (sel) {
				size_t st = full || p.size() < 400 ? 1 : 1 + g.below(p.size() / 200 + 1);
				for (size_t i = st == 1 ? 0 : g.below(st); i < p.size(); i += st) {
					uint64_t s = k ? v.select1(i) : v.select0(i);
					REQUIRE_MSG(s == p[i], "select" << k << "(" << i << ") = " << s << " want " << p[i] << " of " << n);
				}
				REQUIRE_EQ(v.select(k != 0, p.size()), cybozu::NotFound);
				REQUIRE_EQ(v.select(k != 0, p.size() + 1 + g.bits(50)), cybozu::NotFound);
				if (!p.empty()) { size_t i = g.below(p.size()); REQUIRE_EQ(v.select(k != 0, i), p[i]); }
			} else {
				REQUIRE_THROWS(v.select(k != 0, 0));
			}
		}
	}
};
template<class V> static void build(G& g, V& v, const Bits& b)
{
	int how = (int)g.below(3);
	std::vector<uint64_t> blk = toBlocks(b, g.chance(1, 4));
	g.note() << descBits(b) << " built by " << (how == 0 ? "init" : how == 1 ? "constructor" : "set and ready");
	if (how == 0) v.init(blk.data(), b.size());
	else if (how == 1) { V t(blk.data(), b.size()); v = t; }
	else {
		v.resize(b.size());
		std::vector<size_t> idx;
		for (size_t i = 0; i < b.size(); i++) if (b[i]) idx.push_back(i);
		if (g.boolean()) std::reverse(idx.begin(), idx.end());
		for (size_t i : idx) v.set(i);
		REQUIRE_THROWS(v.set(b.size() + g.below(70)));
		v.ready();
	}
	if (!b.empty()) REQUIRE_THROWS(v.set(0)); // freezed
}
template<class V, bool sel> static void check(G& g)
{
	V v;
	int rounds = g.chance(1, 3) ? 2 : 1; // an object may be initialised again
	for (int k = 0; k < rounds; k++) {
		Bits b = genBits(g, g.scale > 1 ? 300000 : 40000);
		BitRef r(b);
		build(g, v, b);
		Verify<V, sel>::run(g, v, r, b.size() < 2000);
		if (g.boolean()) {
			std::string data;
			cybozu::StringOutputStream os(data);
			v.save(os);
			V w;
			if (g.boolean()) { Bits o = genBits(g, 3000); std::vector<uint64_t> blk = toBlocks(o, false); w.init(blk.data(), o.size()); }
			ChunkIn is(g, data);
			w.load(is);
			REQUIRE_EQ(is.pos, data.size());
			Verify<V, sel>::run(g, w, r, false);
			g.label("saved and loaded");
			if (!data.empty() && g.chance(1, 4)) {
				ChunkIn cut(g, data.substr(0, g.below(data.size())));
				V x;
				REQUIRE_THROWS(x.load(cut));
			}
		}
		g.nontrivial(b.size() > 64 && r.ones[b.size()] != 0);
		if (r.pos[0].size() > 1024) g.label("above 1024 zeros");
		if (r.pos[1].size() > 1024) g.label("above 1024 ones");
		if (b.size() % 64) g.label("not a multiple of 64");
	}
}
typedef cybozu::SucVectorT<uint32_t, false> NoSel32;
typedef cybozu::SucVectorT<uint64_t, false> NoSel64;
PROP_W(suc64, 2) { check<cybozu::SucVector, true>(g); }
PROP_W(suc32, 1.5) { check<cybozu::SucVectorLt4G, true>(g); }
PROP_W(nosel32, 0.4) { check<NoSel32, false>(g); }
PROP_W(nosel64, 0.4) { check<NoSel64, false>(g); }
PROP_W(word, 0.5)
{
	uint64_t v = g.bits(64);
	if (g.boolean()) { int k = (int)g.below(64); v &= ~((1ull << k) - 1); }
	std::vector<int> p;
	for (int i = 0; i < 64; i++) if ((v >> i) & 1) p.push_back(i);
	g.note() << "word " << std::hex << v;
	for (size_t r = 1; r <= 64; r++) REQUIRE_EQ((int)cybozu::sucvector_util::select64(v, r), r <= p.size() ? p[r - 1] : 64);
	for (int i = 0; i < 64; i++) {
		size_t c = 0;
		for (int x : p) c += x < i;
		REQUIRE_EQ((size_t)cybozu::sucvector_util::rank64(v, i), c);
	}
	g.nontrivial(p.size() > 1);
}
