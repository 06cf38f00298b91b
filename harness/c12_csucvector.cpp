#include "bitgen.h"
#include "streams.h"
#include <sstream>
#include <cybozu/csucvector.hpp>
#include <cybozu/wavelet_matrix.hpp>
using pbt::G;
static void quiet() { static bool b = false; if (!b) { b = true; if (!freopen("/dev/null", "w", stdout)) abort(); } } // the class prints
static void verify(G& g, const cybozu::CSucVector& v, const BitRef& r)
{
	const size_t n = r.b.size();
	size_t step = n < 3000 ? 1 : 1 + g.below(n / 1500);
	for (size_t i = step == 1 ? 0 : g.below(step); i <= n; i += step) {
		if (i < n) REQUIRE_MSG(v.get(i) == r.b[i], "get(" << i << ") of " << n);
		REQUIRE_MSG(v.rank1(i) == r.ones[i], "rank1(" << i << ") = " << v.rank1(i) << " want " << r.ones[i] << " of " << n);
		REQUIRE_MSG(v.rank0(i) == i - r.ones[i], "rank0(" << i << ")");
		REQUIRE_EQ(v.rank(i & 1, i), r.rank(i & 1, i));
	}
	REQUIRE_EQ(v.rank1(n), r.ones[n]);
	REQUIRE_EQ(v.rank1(n + 1 + g.below(100000)), r.ones[n]);
	REQUIRE_THROWS(v.get(n));
	REQUIRE_THROWS(v.get(n + g.bits(40)));
}
PROP_W(bits, 3)
{
	quiet();
	cybozu::CSucVector v;
	int rounds = g.chance(1, 3) ? 2 : 1;
	for (int k = 0; k < rounds; k++) {
		Bits b = genBits(g, g.scale > 1 ? 200000 : 40000);
		std::vector<uint64_t> blk = toBlocks(b, false);
		blk.resize(blk.size() + (blk.empty() ? 1 : 0));
		BitRef r(b);
		g.note() << descBits(b);
		if (g.boolean()) v.init(blk.data(), b.size());
		else { cybozu::CSucVector t(blk.data(), b.size()); v = t; }
		verify(g, v, r);
		if (g.boolean()) {
			std::string data;
			cybozu::StringOutputStream os(data);
			v.save(os);
			cybozu::CSucVector w;
			if (g.boolean()) { Bits o = genBits(g, 5000); std::vector<uint64_t> bo = toBlocks(o, false); bo.push_back(0); w.init(bo.data(), o.size()); }
			ChunkIn is(g, data);
			w.load(is);
			REQUIRE_EQ(is.pos, data.size());
			verify(g, w, r);
			g.label("saved and loaded");
		}
		g.nontrivial(b.size() > 64 && r.ones[b.size()] > 0);
		if (b.size() > 1024) g.label("above 1024 bits");
	}
}
