// suffix array and Burrows-Wheeler transform against sorting the suffixes
#include <pbt.h>
#include <leak.h>
#include <sais.hxx>
#include <algorithm>
#include <vector>
#include <stdint.h>
using pbt::G;
static std::vector<uint32_t> genText(G& g, uint32_t k)
{
	size_t n = g.chance(1, 10) ? g.below(3) : g.size(g.scale == 1 ? 120 : 600);
	std::vector<uint32_t> t;
	switch (g.below(6)) {
	case 0: // few symbols
		{
			uint32_t a = (uint32_t)g.below(k), b = (uint32_t)g.below(k);
			for (size_t i = 0; i < n; i++) t.push_back(g.boolean() ? a : b);
		}
		break;
	case 1: // period
		{
			size_t p = 1 + g.below(7);
			std::vector<uint32_t> u;
			for (size_t i = 0; i < p; i++) u.push_back((uint32_t)g.below(k));
			for (size_t i = 0; i < n; i++) t.push_back(u[i % p]);
			if (n > 0 && g.boolean()) t[g.below(n)] = (uint32_t)g.below(k);
		}
		break;
	case 2: // Fibonacci word: the recursion is deep
		{
			uint32_t a = (uint32_t)g.below(k), b = (uint32_t)g.below(k);
			std::vector<uint32_t> x(1, a), y(1, b);
			while (y.size() < n) { std::vector<uint32_t> z = y; z.insert(z.end(), x.begin(), x.end()); x.swap(y); y.swap(z); }
			t.assign(y.begin(), y.begin() + n);
		}
		break;
	case 3: // monotone runs
		{
			uint32_t c = (uint32_t)g.below(k);
			for (size_t i = 0; i < n; i++) { t.push_back(c); if (g.chance(1, 3)) c = g.boolean() ? (c + 1) % k : (c + k - 1) % k; }
		}
		break;
	case 4: // copies of earlier pieces
		while (t.size() < n) {
			if (t.size() > 2 && g.boolean()) {
				size_t from = g.below(t.size()), len = 1 + g.below(20);
				for (size_t i = 0; i < len && t.size() < n; i++) t.push_back(t[from + i]);
			} else t.push_back((uint32_t)g.below(k));
		}
		break;
	default:
		for (size_t i = 0; i < n; i++) t.push_back((uint32_t)g.below(k));
	}
	return t;
}
template<class C, class I> static void run(G& g, uint32_t maxK)
{
	uint32_t k = g.chance(1, 3) ? maxK : 1 + (uint32_t)g.below(std::min<uint32_t>(maxK, g.pick(std::vector<uint32_t>{2, 4, 16, maxK})));
	std::vector<uint32_t> text = genText(g, k);
	const size_t n = text.size();
	g.note() << "alphabet " << k << ":";
	for (uint32_t c : text) g.note() << " " << c;
	g.nontrivial(n > 3);
	std::vector<C> T(text.begin(), text.end()), copy;
	T.push_back(C(0)); // not part of the text
	copy = T;
	std::vector<I> sa(n), want(n);
	for (size_t i = 0; i < n; i++) { sa[i] = I(0x55); want[i] = I(i); }
	std::sort(want.begin(), want.end(), [&](I a, I b) { return std::lexicographical_compare(text.begin() + a, text.end(), text.begin() + b, text.end()); });
	int ret = k == 256 && g.boolean() ? saisxx(T.data(), sa.data(), I(n)) : saisxx(T.data(), sa.data(), I(n), I(k));
	REQUIRE_EQ(ret, 0);
	REQUIRE_MSG(T == copy, "the text is changed");
	for (size_t i = 0; i < n; i++) REQUIRE_MSG(sa[i] == want[i], "suffix array at " << i << " is " << sa[i] << " must be " << want[i]);
	// transform
	std::vector<C> U(n + 1, C(7));
	std::vector<I> A(n);
	I p = saisxx_bwt(T.data(), U.data(), A.data(), I(n), I(k));
	REQUIRE_MSG(T == copy, "the text is changed by the transform");
	std::vector<C> bwt;
	size_t primary = 0;
	if (n > 0) bwt.push_back(T[n - 1]);
	for (size_t i = 0; i < n; i++) { if (want[i] == 0) primary = i + 1; else bwt.push_back(T[want[i] - 1]); }
	REQUIRE_EQ((size_t)p, primary);
	for (size_t i = 0; i < n; i++) REQUIRE_MSG(U[i] == bwt[i], "transform at " << i << " is " << (int64_t)U[i] << " must be " << (int64_t)bwt[i]);
	REQUIRE_MSG(U[n] == C(7), "written beyond the end");
	// in place
	if (g.boolean()) {
		std::vector<C> W = copy;
		I q = saisxx_bwt(W.data(), W.data(), A.data(), I(n), I(k));
		REQUIRE_EQ((size_t)q, primary);
		for (size_t i = 0; i < n; i++) REQUIRE_MSG(W[i] == bwt[i], "transform in place at " << i);
	}
	REQUIRE_EQ(saisxx(T.data(), sa.data(), I(-1), I(k)), -1);
	REQUIRE_EQ(saisxx(T.data(), sa.data(), I(n), I(0)), -1);
	REQUIRE_EQ((int)saisxx_bwt(T.data(), U.data(), A.data(), I(-1), I(k)), -1);
}
// longer texts: the order is checked by the ranks of the following suffixes
template<class C> static void runLarge(G& g, uint32_t maxK)
{
	uint32_t k = g.chance(1, 3) ? maxK : 1 + (uint32_t)g.below(g.pick(std::vector<uint32_t>{2, 4, 16, maxK}));
	size_t n = g.chance(1, 4) ? 65530 + g.below(20000) : 300 + g.below(4000);
	std::vector<C> T;
	int kind = (int)g.below(4);
	g.note() << "alphabet " << k << " length " << n << " kind " << kind;
	if (kind == 3) { // two long pieces which differ at one place, in turn
		size_t len = 2 + g.below(600);
		std::vector<uint32_t> a, b;
		for (size_t i = 0; i < len; i++) a.push_back((uint32_t)(i < len / 2 ? i * (size_t)(k - 1) / len : g.below(2) * (k - 1)));
		b = a; if (g.boolean()) b[g.below(len)] = (uint32_t)g.below(k); if (g.boolean()) b.insert(b.end(), 256, b.back());
		while (T.size() < n) { auto& x = g.boolean() ? a : b; T.insert(T.end(), x.begin(), x.end()); }
		T.resize(n);
	} else {
		while (T.size() < n) {
			size_t len = 1 + g.below(kind == 0 ? 1 : 700);
			if (kind == 2 && T.size() > 10 && g.boolean()) { size_t from = g.below(T.size()); for (size_t i = 0; i < len; i++) T.push_back(T[from + i]); }
			else T.insert(T.end(), len, (C)g.below(k));
		}
		T.resize(n);
	}
	const std::vector<C> copy = T;
	std::vector<int> sa(n), rank(n + 1, -1);
	const bool lost = leak::loses([&]() { saisxx(T.data(), sa.data(), (int)n, (int)k); });
	REQUIRE_MSG(!lost, "memory is lost");
	REQUIRE_MSG(T == copy, "the text is changed");
	for (size_t i = 0; i < n; i++) { REQUIRE_MSG(sa[i] >= 0 && (size_t)sa[i] < n && rank[sa[i]] < 0, "not a permutation at " << i); rank[sa[i]] = (int)i; }
	for (size_t i = 1; i < n; i++) {
		C a = T[sa[i - 1]], b = T[sa[i]];
		REQUIRE_MSG(a < b || (a == b && rank[sa[i - 1] + 1] < rank[sa[i] + 1]), "suffix " << sa[i - 1] << " is before " << sa[i]);
	}
	g.nontrivial(n > 1000);
	std::vector<C> U(n);
	std::vector<int> A(n);
	int p = -5;
	REQUIRE_MSG(!leak::loses([&]() { p = saisxx_bwt(T.data(), U.data(), A.data(), (int)n, (int)k); }), "memory is lost by the transform");
	REQUIRE_EQ(p, rank[0] + 1);
	REQUIRE(U[0] == T[n - 1]);
	for (size_t i = 0, j = 1; i < n; i++) if (sa[i]) { REQUIRE_MSG(U[j] == T[sa[i] - 1], "transform at " << j); j++; }
	// memory which cannot be had is reported
	if (g.boolean()) {
		struct Limit { Limit(size_t n) { leak::limit() = n; } ~Limit() { leak::limit() = ~size_t(0); } };
		int r1, r2; bool thrown = false;
		r1 = r2 = 99;
		{
			Limit limit(k * sizeof(int));
			try { r1 = saisxx(T.data(), sa.data(), (int)n, (int)k); r2 = saisxx_bwt(T.data(), U.data(), A.data(), (int)n, (int)k); } catch (...) { thrown = true; }
		}
		REQUIRE_MSG(!thrown && r1 == -2 && r2 == -2, "out of memory : " << r1 << ", " << r2 << (thrown ? " thrown" : ""));
		REQUIRE_MSG(T == copy, "the text is changed");
	}
}
PROP(large) { if (!g.chance(1, 30)) return; if (g.boolean()) runLarge<uint8_t>(g, 256); else runLarge<uint16_t>(g, g.boolean() ? 65536 : 300); }
PROP(bytes) { run<uint8_t, int>(g, 256); }
PROP(words) { switch (g.below(3)) { case 0: run<uint16_t, int>(g, 65536); break; case 1: run<int, int>(g, 1000); break; default: run<uint16_t, int>(g, 300); break; } }
