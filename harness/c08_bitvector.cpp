#include <pbt.h>
#include <cybozu/bitvector.hpp>
#include <cybozu/exception.hpp>
using pbt::G;
typedef std::vector<bool> Bits;
static std::string showBits(const Bits& b) { std::string s; for (size_t i = 0; i < b.size() && i < 200; i++) s += b[i] ? '1' : '0'; if (b.size() > 200) s += "..."; return s; }

template<class T> static std::vector<T> genBlocks(G& g, size_t bitLen, size_t extra)
{
	const size_t U = sizeof(T) * 8;
	std::vector<T> v((bitLen + U - 1) / U + extra);
	int kind = (int)g.below(3);
	uint64_t seed = g.below(1u << 20);
	for (size_t i = 0; i < v.size(); i++) v[i] = kind == 0 ? T(~T(0)) : kind == 1 ? (T)pbt::mix64(seed + i) : (T)(1ull << (seed + i) % U);
	return v;
}
template<class T> static bool bitOf(const std::vector<T>& v, size_t i) { const size_t U = sizeof(T) * 8; return (v[i / U] >> (i % U)) & 1; }
template<class T> static size_t genLen(G& g, size_t maxLen)
{
	const size_t U = sizeof(T) * 8;
	size_t n;
	switch (g.below(4)) {
	case 0: n = g.below(4); break;
	case 1: n = U * g.below(4) + g.below(5); n = n >= 2 ? n - 2 : 0; break;
	case 2: n = g.below(U * 3 + 1); break;
	default: n = g.size(maxLen); break;
	}
	return std::min(n, maxLen);
}
template<class T> static void verify(const cybozu::BitVectorT<T>& v, const Bits& m)
{
	const size_t U = sizeof(T) * 8;
	REQUIRE_EQ(v.size(), m.size());
	REQUIRE_EQ(v.getBlockSize(), (m.size() + U - 1) / U);
	for (size_t i = 0; i < m.size(); i++) REQUIRE_MSG(v.get(i) == m[i], "bit " << i << " of " << m.size() << " is " << v.get(i));
}
template<class T> static void history(G& g)
{
	const size_t U = sizeof(T) * 8;
	typedef cybozu::BitVectorT<T> V;
	const int NV = 2;
	V v[NV];
	Bits m[NV];
	size_t steps = 1 + g.below(g.scale > 1 ? 60 : 25);
	for (size_t st = 0; st < steps; st++) {
		int a = (int)g.below(NV);
		V& x = v[a];
		Bits& y = m[a];
		const size_t maxLen = 600;
		switch (g.below(13)) {
		case 0:
			{
				size_t n = genLen<T>(g, maxLen);
				std::vector<T> b = genBlocks<T>(g, n, 1);
				g.note() << "v" << a << ".init(blocks, " << n << ")";
				x.init(b.data(), n);
				y.clear();
				for (size_t i = 0; i < n; i++) y.push_back(bitOf(b, i));
			}
			break;
		case 1:
			{
				size_t n = genLen<T>(g, maxLen);
				g.note() << "v" << a << ".resize(" << n << ")";
				x.resize(n);
				y.resize(n);
			}
			break;
		case 2: case 3:
			if (!y.empty()) {
				size_t i = g.below(y.size());
				bool b = g.boolean();
				int how = (int)g.below(2);
				g.note() << "v" << a << ".set(" << i << ", " << b << ")";
				if (how) x.set(i, b); else if (b) x.set(i); else x.reset(i);
				y[i] = b;
			}
			break;
		case 4: case 5:
			{
				size_t n = genLen<T>(g, 300);
				std::vector<T> b = genBlocks<T>(g, n, 0);
				g.note() << "v" << a << ".append(blocks, " << n << ")";
				std::vector<T> save(b);
				x.append(b.data(), n);
				REQUIRE_MSG(save == b, "source changed");
				for (size_t i = 0; i < n; i++) y.push_back(bitOf(b, i));
			}
			break;
		case 6: case 7:
			{
				uint64_t s = g.bits(64);
				size_t n = g.chance(1, 12) ? U + 1 + g.below(70) : g.below(U + 1);
				g.note() << "v" << a << ".append(" << s << ", " << n << ")";
				if (n > U) { REQUIRE_THROWS(x.append(s, n)); }
				else { x.append(s, n); for (size_t i = 0; i < n; i++) y.push_back((s >> i) & 1); }
			}
			break;
		case 8:
			{
				int b = (int)g.below(NV);
				if (y.size() + m[b].size() > 5000) break;
				g.note() << "v" << a << ".append(v" << b << ")";
				x.append(v[b]);
				Bits t = m[b];
				y.insert(y.end(), t.begin(), t.end());
			}
			break;
		case 9: // extract
			{
				size_t pos = g.below(y.size() + 1);
				size_t n = g.boolean() ? g.below(y.size() - pos + 1) : std::min<size_t>(genLen<T>(g, 600), y.size() - pos);
				g.note() << "v" << a << ".extract(" << pos << ", " << n << ")";
				std::vector<T> d((n + U - 1) / U + 1, (T)0x5a);
				x.extract(d.data(), pos, n);
				for (size_t i = 0; i < n; i++) REQUIRE_MSG(bitOf(d, i) == y[pos + i], "extract bit " << i);
				REQUIRE_MSG(d.back() == (T)0x5a, "wrote past the end");
				V dst;
				Bits exp(y.begin() + pos, y.begin() + pos + n);
				if (g.boolean()) { dst.resize(genLen<T>(g, 200)); for (size_t i = 0; i < dst.size(); i++) dst.set(i); }
				x.extract(dst, pos, n);
				verify(dst, exp);
				V same;
				for (size_t i = 0; i < n; i++) same.append((uint64_t)y[pos + i], 1);
				REQUIRE_MSG(dst == same && !(dst != same), "equal contents compare different");
				if (n <= U) {
					T r = x.extract(pos, n), w = 0;
					for (size_t i = 0; i < n; i++) w = T(w | (T(y[pos + i]) << i));
					REQUIRE_EQ((uint64_t)r, (uint64_t)w);
				}
				g.nontrivial(n > 1);
			}
			break;
		case 10: // out of range
			{
				size_t i = y.size() + (g.boolean() ? 0 : g.bits(62));
				REQUIRE_THROWS(x.get(i));
				REQUIRE_THROWS(x.set(i));
				REQUIRE_THROWS(x.reset(i));
				REQUIRE_THROWS(x.set(i, g.boolean()));
				size_t n = 1 + g.below(U);
				size_t pos = g.boolean() ? (y.size() >= n ? y.size() - n : 0) + 1 + g.below(5) : (size_t)g.bits(64);
				unsigned __int128 e = (unsigned __int128)pos + n;
				if (e <= y.size()) break;
				g.note() << "v" << a << ".extract(" << pos << ", " << n << ") out of range " << y.size();
				REQUIRE_THROWS(x.extract(pos, n));
				std::vector<T> d(2);
				REQUIRE_THROWS(x.extract(d.data(), pos, n));
			}
			break;
		case 11:
			{
				if (g.chance(1, 3)) { x.clear(); y.clear(); }
				else if (g.boolean()) x.reserve(g.below(2000));
				else { int b = (int)g.below(NV); V t(v[b]); x = t; y = Bits(m[b]); }
			}
			break;
		case 12:
			{
				bool eq = m[0] == m[1];
				g.note() << "compare " << showBits(m[0]) << " " << showBits(m[1]);
				REQUIRE_EQ(v[0] == v[1], eq);
				REQUIRE_EQ(v[0] != v[1], !eq);
			}
			break;
		}
		verify(x, y);
	}
	for (int a = 0; a < NV; a++) verify(v[a], m[a]);
	g.nontrivial(m[0].size() > U || m[1].size() > U);
}
PROP(history_8) { history<uint8_t>(g); }
PROP(history_16) { history<uint16_t>(g); }
PROP(history_32) { history<uint32_t>(g); }
PROP(history_64) { history<uint64_t>(g); }

template<class T> static void freeFuncs(G& g)
{
	const size_t U = sizeof(T) * 8;
	size_t n = 1 + genLen<T>(g, 300);
	std::vector<T> src = genBlocks<T>(g, n, 0), dst(src.size() + 1, (T)0x5a);
	const std::vector<T> orig(src);
	size_t shift = g.chance(1, 15) ? U + g.below(3) : g.below(U);
	T ext = shift == 0 || shift >= U ? 0 : (T)(g.bits(64) & ((1ull << shift) - 1));
	bool inPlace = g.boolean();
	T *d = inPlace ? src.data() : dst.data();
	g.note() << "unit " << U << " bits " << n << " shift " << shift << " ext " << (uint64_t)ext << (inPlace ? " in place" : "");
	if (shift >= U) { REQUIRE_THROWS(cybozu::ShiftLeftBit(d, src.data(), n, shift, ext)); return; }
	T ret = cybozu::ShiftLeftBit(d, src.data(), n, shift, ext);
	for (size_t i = 0; i < n; i++) {
		bool w = i < shift ? (ext >> i) & 1 : bitOf(orig, i - shift);
		REQUIRE_MSG((((d[i / U] >> (i % U)) & 1) != 0) == w, "shift bit " << i);
	}
	if (n % U == 0) {
		T w = 0;
		for (size_t i = 0; i < shift; i++) w = T(w | (T(bitOf(orig, n - shift + i)) << i));
		if (shift <= n) REQUIRE_EQ((uint64_t)ret, (uint64_t)w);
	}
	if (!inPlace) REQUIRE(dst.back() == (T)0x5a);
	std::vector<T> c((n + U - 1) / U + 1, (T)0x5a);
	cybozu::CopyBit(c.data(), orig.data(), n);
	for (size_t i = 0; i < (c.size() - 1) * U; i++) REQUIRE_MSG(bitOf(c, i) == (i < n && bitOf(orig, i)), "copy bit " << i);
	REQUIRE(c.back() == (T)0x5a);
	REQUIRE_EQ(cybozu::RoundupBit<T>(n), (n + U - 1) / U);
	size_t k = g.below(U);
	REQUIRE_EQ((uint64_t)cybozu::GetMaskBit<T>(k), (1ull << k) - 1);
	size_t i = g.below(n);
	std::vector<T> t(orig);
	cybozu::SetBlockBit(t.data(), i);
	for (size_t j = 0; j < n; j++) REQUIRE(cybozu::GetBlockBit(t.data(), j) == (j == i || bitOf(orig, j)));
	cybozu::ResetBlockBit(t.data(), i);
	for (size_t j = 0; j < n; j++) REQUIRE(cybozu::GetBlockBit(t.data(), j) == (j != i && bitOf(orig, j)));
	g.nontrivial(n > 1);
}
PROP_W(block_functions, 0.7)
{
	switch (g.below(4)) {
	case 0: freeFuncs<uint8_t>(g); break;
	case 1: freeFuncs<uint16_t>(g); break;
	case 2: freeFuncs<uint32_t>(g); break;
	default: freeFuncs<uint64_t>(g); break;
	}
}
