// succinct vectors around and beyond 2^32 bits
#include <pbt.h>
#include <cybozu/sucvector.hpp>
#include <sys/mman.h>
using pbt::G;
struct Mem { // zero pages, given back at the end
	uint64_t *p; size_t n;
	explicit Mem(size_t n) : n(n) { p = (uint64_t*)mmap(0, n * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); }
	~Mem() { munmap(p, n * 8); }
};
static const size_t UNIT = 1 << 14; // words
template<class S> static void verify(G& g, const S& sv, const Mem& m, uint64_t bits, uint64_t first)
{
	std::vector<uint64_t> cum(1, 0); // ones before each unit
	for (size_t i = 0; i < m.n; i += UNIT) { uint64_t c = 0; for (size_t j = i; j < i + UNIT && j < m.n; j++) c += __builtin_popcountll(m.p[j]); cum.push_back(cum.back() + c); }
	auto rank = [&](uint64_t pos) { size_t w = pos / 64, u = w / UNIT; uint64_t c = cum[u]; for (size_t j = u * UNIT; j < w; j++) c += __builtin_popcountll(m.p[j]); if (pos % 64) c += __builtin_popcountll(m.p[w] & ((1ull << (pos % 64)) - 1)); return c; };
	REQUIRE_EQ(sv.size(), bits);
	REQUIRE_EQ(sv.size(true), cum.back());
	REQUIRE_EQ(sv.size(false), bits - cum.back());
	for (int k = 0; k < 300; k++) {
		uint64_t pos;
		switch (k < 40 ? k % 4 : (int)g.below(4)) {
		case 0: pos = (1ull << 32) + g.below(700) - 350; break;
		case 1: pos = bits - g.below(600); break;
		case 2: pos = first + g.below(600); break;
		default: pos = g.bits(40) % (bits + 1); break;
		}
		if (pos > bits) pos = bits;
		uint64_t w = rank(pos);
		REQUIRE_MSG(sv.rank1(pos) == w, "rank1(" << pos << ") is " << sv.rank1(pos) << " want " << w);
		REQUIRE_MSG(sv.rank0(pos) == pos - w, "rank0(" << pos << ")");
		if (pos == bits) continue;
		bool b = m.p[pos / 64] >> (pos % 64) & 1;
		REQUIRE_MSG(sv.get(pos) == b, "get(" << pos << ")");
		uint64_t s = b ? sv.select1(w) : sv.select0(pos - w);
		REQUIRE_MSG(s == pos, "select" << b << " of the bit at " << pos << " gives " << s);
	}
	REQUIRE_EQ(sv.select1(cum.back()), cybozu::NotFound);
	REQUIRE_EQ(sv.select0(bits - cum.back()), cybozu::NotFound);
}
PROP(beyond_2_32)
{
	bool small = g.boolean(); // the 32 bit variant holds exactly up to 2^32 bits
	uint64_t bits = small ? (1ull << 32) - g.below(3) * 100 : (1ull << 32) + g.below(5) * 1000003 + g.below(300);
	uint64_t lead = (uint64_t)g.below(7) * 700 << 20; // leading zeros or ones
	bool ones = g.boolean();
	int kind = (int)g.below(3);
	g.note() << bits << " bits, first " << lead << (ones ? " ones" : " zeros") << ", then pattern " << kind;
	g.nontrivial();
	Mem m((bits + 63) / 64);
	uint64_t x = g.bits(64) | 1;
	for (size_t i = 0; i < m.n; i++) {
		if (i * 64 < lead) { if (ones) m.p[i] = ~0ull; continue; }
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		if (kind == 0) m.p[i] = ~0ull; else if (kind == 1) m.p[i] = x ^ x >> 29; else if (i % 64 == x >> 58) m.p[i] = x;
	}
	if (bits % 64) m.p[m.n - 1] &= (1ull << (bits % 64)) - 1;
	if (small) { cybozu::SucVectorLt4G sv; sv.init(m.p, bits); verify(g, sv, m, bits, lead); }
	else { cybozu::SucVector sv; sv.init(m.p, bits); verify(g, sv, m, bits, lead); }
}
PROP_W(too_large, 0.01)
{
	uint64_t one = 0;
	g.nontrivial();
	cybozu::SucVectorLt4G a;
	cybozu::SucVector b;
	uint64_t x = (1ull << 32) + 1 + g.below(100), y = (1ull << 40) + 1 + g.below(100);
	g.note() << x << " " << y;
	REQUIRE_THROWS(a.init(&one, x));
	REQUIRE_THROWS(a.resize(x));
	REQUIRE_THROWS(b.init(&one, y));
}
