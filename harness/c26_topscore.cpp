// TopScore against sorting
#include <pbt.h>
#include <limits>
#include <cybozu/nlp/top_score.hpp>
using pbt::G;
template<class D> static D genScore(G& g, size_t range)
{
	if (!std::numeric_limits<D>::is_integer) {
		if (g.chance(1, 6)) { D d = 1; for (size_t i = g.below(4); i > 0; i--) d += std::numeric_limits<D>::epsilon(); return g.boolean() ? d : -d; } // neighbours
		if (g.chance(1, 20)) return g.pick(std::vector<D>{ std::numeric_limits<D>::infinity(), -std::numeric_limits<D>::infinity(), std::numeric_limits<D>::max(), std::numeric_limits<D>::lowest(), std::numeric_limits<D>::denorm_min(), D(0), std::numeric_limits<D>::min() });
		return (D)((double)g.irange(-(int64_t)range, range) / 4);
	}
	if (g.chance(1, 6)) return (D)(g.boolean() ? std::numeric_limits<D>::max() - (D)g.below(3) : std::numeric_limits<D>::min() + (D)g.below(3));
	return (D)g.irange(-(int64_t)range, range);
}
template<class D> static void run(G& g)
{
	typedef cybozu::nlp::TopScore<int, D> TS;
	const bool large = g.chance(1, 100);
	size_t maxSize = large ? 200 + g.below(500) : g.chance(1, 4) ? g.below(3) : g.size(20);
	TS ts(maxSize);
	TS def;
	std::vector<std::pair<D, int>> all;
	int id = 0;
	size_t range = g.pick(std::vector<size_t>{2, 5, 50, 100000});
	g.note() << "maximum " << maxSize << ":";
	auto check = [&](const TS& t, size_t mx) {
		std::vector<std::pair<D, int>> w = all;
		std::stable_sort(w.begin(), w.end(), [](const std::pair<D, int>& a, const std::pair<D, int>& b) { return a.first > b.first; });
		if (w.size() > mx) w.resize(mx);
		const typename TS::Table& tbl = t.getTable();
		REQUIRE_EQ(tbl.size(), w.size());
		for (size_t i = 0; i < w.size(); i++) { REQUIRE_EQ(tbl[i].score, w[i].first); REQUIRE_EQ(tbl[i].idx, w[i].second); }
	};
	size_t n = large ? 200 + g.below(800) : 1 + g.size(60);
	bool usedDef = true; // def has got everything
	for (size_t k = 0; k < n; k++) {
		switch (g.below(12)) {
		case 0: g.note() << " get"; check(ts, maxSize); if (g.boolean() && usedDef) check(def, 10); break;
		case 1: if (g.chance(1, 4)) { maxSize = g.below(large ? 800 : 8); g.note() << " setSize " << maxSize; ts.setSize(maxSize); all.clear(); id = 0; usedDef = false; } break;
		default: { D s = genScore<D>(g, range); g.note() << " " << s; ts.add(s, id); if (usedDef) def.add(s, id); all.emplace_back(s, id); id++; break; }
		}
		g.nontrivial(all.size() > 2);
	}
	check(ts, maxSize);
	check(ts, maxSize);
	if (usedDef) check(def, 10);
}
PROP(top) { switch (g.below(4)) { case 0: case 1: run<double>(g); break; case 2: run<float>(g); break; default: if (g.boolean()) run<int>(g); else run<int64_t>(g); } }
