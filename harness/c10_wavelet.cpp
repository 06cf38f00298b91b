#include "streams.h"
#include <cybozu/wavelet_matrix.hpp>
using pbt::G;
template<class T> static std::vector<T> genVec(G& g, size_t bits, size_t maxSize)
{
	size_t n = g.below(4) == 0 ? g.below(5) : g.below(2) ? g.below(700) : g.size(maxSize);
	std::vector<T> v(n);
	const uint64_t M = 1ull << bits;
	int kind = (int)g.below(5);
	uint64_t seed = g.below(1u << 20), dom = 1 + g.below(std::min<uint64_t>(M, 20));
	std::vector<uint64_t> few;
	for (uint64_t i = 0; i < dom; i++) few.push_back(g.boolean() ? g.below(M) : (i & 1 ? M - 1 - i / 2 : i / 2) % M);
	for (size_t i = 0; i < n; i++) {
		uint64_t r = pbt::mix64(seed + i), x = 0;
		switch (kind) {
		case 0: x = r % M; break;
		case 1: x = few[r % dom]; break;
		case 2: x = few[0]; break;
		case 3: x = (i / 7) % M; break;
		case 4: x = r % 50 ? few[0] : few[r / 50 % dom]; break;
		}
		v[i] = (T)x;
	}
	return v;
}
template<class WM, bool sel, class T> static void verify(G& g, const WM& wm, const std::vector<T>& v, size_t bits)
{
	const size_t n = v.size();
	const uint64_t M = 1ull << bits;
	REQUIRE_EQ(wm.size(), n);
	std::map<uint64_t, std::vector<size_t>> at;
	for (size_t i = 0; i < n; i++) at[v[i]].push_back(i);
	// positions: all of short ones
	size_t step = n < 300 ? 1 : 1 + g.below(n / 100);
	for (size_t i = step == 1 ? 0 : g.below(step); i < n; i += step) {
		REQUIRE_MSG(wm.get(i) == v[i], "get(" << i << ") = " << wm.get(i) << " want " << (uint64_t)v[i]);
		uint32_t val = 0;
		uint64_t rk = wm.get(&val, i);
		const std::vector<size_t>& p = at[v[i]];
		uint64_t want = std::lower_bound(p.begin(), p.end(), i) - p.begin();
		REQUIRE_EQ((uint64_t)val, (uint64_t)v[i]);
		REQUIRE_EQ(rk, want);
	}
	// values: present ones, neighbours, ends, random
	std::set<uint64_t> vals;
	for (auto& e : at) { if (vals.size() < 24) vals.insert(e.first); }
	vals.insert(0); vals.insert(M - 1); vals.insert(g.below(M));
	if (!vals.empty()) { uint64_t x = *vals.begin(); if (x + 1 < M) vals.insert(x + 1); if (x) vals.insert(x - 1); }
	for (uint64_t val : vals) {
		auto it = at.find(val);
		std::vector<size_t> none;
		const std::vector<size_t>& p = it == at.end() ? none : it->second;
		REQUIRE_EQ(wm.size(val), p.size());
		for (int k = 0; k < 8; k++) {
			size_t pos = k == 0 ? n : k == 1 ? 0 : !p.empty() && k < 5 ? std::min(p[g.below(p.size())] + (k == 3), n) : g.below(n + 1);
			uint64_t want = std::lower_bound(p.begin(), p.end(), pos) - p.begin();
			REQUIRE_MSG(wm.rank(val, pos) == want, "rank(" << val << ", " << pos << ") = " << wm.rank(val, pos) << " want " << want);
			uint64_t lt = 0;
			for (size_t i = 0; i < pos && n < 3000; i++) lt += v[i] < val;
			if (n < 3000) REQUIRE_MSG(wm.rankLt(val, pos) == lt, "rankLt(" << val << ", " << pos << ") = " << wm.rankLt(val, pos) << " want " << lt);
		}
		REQUIRE_EQ(wm.rank(val, n + 1 + g.below(1000)), p.size());
		if (g.chance(1, 3)) {
			uint64_t lt = 0, over = n + 1 + g.below(1000);
			for (auto& e : at) if (e.first < val) lt += e.second.size();
			REQUIRE_MSG(wm.rankLt(val, over) == lt, "rankLt(" << val << ", " << over << ") = " << wm.rankLt(val, over) << " want " << lt);
		}
		if (sel) {
			for (int k = 0; k < 12 && !p.empty(); k++) {
				size_t r = k == 0 ? 0 : k == 1 ? p.size() - 1 : k < 6 ? (p.size() / 256 * 256 + g.below(5)) : g.below(p.size());
				if (k >= 2 && k < 6) r = r >= 2 ? r - 2 : 0;
				if (r >= p.size()) continue;
				REQUIRE_MSG(wm.select(val, r) == p[r], "select(" << val << ", " << r << ") = " << wm.select(val, r) << " want " << p[r]);
			}
			REQUIRE_EQ(wm.select(val, p.size()), cybozu::NotFound);
			REQUIRE_EQ(wm.select(val, p.size() + 1 + g.bits(30)), cybozu::NotFound);
		} else REQUIRE_THROWS(wm.select(val, 0));
	}
}
template<class WM, bool sel, class T> static void check(G& g, size_t maxBits)
{
	WM wm;
	int rounds = g.chance(1, 4) ? 2 : 1;
	for (int k = 0; k < rounds; k++) {
		size_t bits = 1 + (g.chance(1, 12) ? g.below(maxBits) : g.below(std::min<size_t>(maxBits, 8)));
		std::vector<T> v = genVec<T>(g, bits, g.scale > 1 ? 30000 : 6000);
		std::ostringstream os;
		for (size_t i = 0; i < v.size() && i < 40; i++) os << (uint64_t)v[i] << " ";
		g.note() << "bits " << bits << " size " << v.size() << " : " << os.str();
		wm.init(v, bits);
		verify<WM, sel>(g, wm, v, bits);
		if (g.boolean()) {
			std::string data;
			cybozu::StringOutputStream o(data);
			wm.save(o);
			ChunkIn is(g, data);
			WM w2;
			if (g.boolean()) w2.init(genVec<T>(g, 3, 300), 3);
			w2.load(is);
			REQUIRE_EQ(is.pos, data.size());
			verify<WM, sel>(g, w2, v, bits);
			g.label("saved and loaded");
			if (g.chance(1, 4)) { ChunkIn cut(g, data.substr(0, g.below(data.size()))); WM x; REQUIRE_THROWS(x.load(cut)); }
		}
		g.nontrivial(v.size() > 2);
		if (v.size() > 256) g.label("longer than 256");
	}
	if (g.chance(1, 20)) { std::vector<T> v; REQUIRE_THROWS(wm.init(v, 17 + g.below(10))); }
}
PROP_W(select8, 2) { check<cybozu::WaveletMatrix, true, uint8_t>(g, 8); }
PROP_W(select16, 2) { check<cybozu::WaveletMatrix, true, uint16_t>(g, 16); }
PROP_W(select32, 1) { check<cybozu::WaveletMatrix, true, uint32_t>(g, 12); }
typedef cybozu::WaveletMatrixT<false> NoSel;
PROP_W(noselect, 1) { check<NoSel, false, uint16_t>(g, 16); }
typedef cybozu::WaveletMatrixT<true, cybozu::SucVector> Wm64;
PROP_W(big_suc, 0.5) { check<Wm64, true, uint8_t>(g, 8); }
