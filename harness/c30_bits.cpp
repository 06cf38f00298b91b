// byte order, bit operations, select in a word and 128-bit vectors against arithmetic on single bits and bytes
#include <pbt.h>
#ifndef GENERIC
#include <cybozu/v128.hpp>
#include <utility>
#else // the portable implementations
#undef __x86_64__
#define CYBOZU_ENDIAN_UNKNOWN 0
#define CYBOZU_ENDIAN_LITTLE 1
#define CYBOZU_ENDIAN_BIG 2
#define CYBOZU_ENDIAN CYBOZU_ENDIAN_UNKNOWN
#define CYBOZU_OS_BIT 64
#define CYBOZU_HOST_UNKNOWN 0
#define CYBOZU_HOST_INTEL 1
#define CYBOZU_HOST_ARM 2
#define CYBOZU_HOST CYBOZU_HOST_UNKNOWN
#endif
#include <cybozu/endian.hpp>
#include <cybozu/bit_operation.hpp>
#include <cybozu/sucvector.hpp>
#include <cybozu/select8.hpp>
#include <memory>
using pbt::G; using pbt::show;
static uint64_t word(G& g)
{
	switch (g.below(6)) {
	case 0: return g.bits(64);
	case 1: return g.bits(64) & g.bits(64) & g.bits(64) & g.bits(64);
	case 2: return ~(g.bits(64) & g.bits(64) & g.bits(64) & g.bits(64));
	case 3: { uint64_t x = uint64_t(1) << g.below(64); return g.boolean() ? x : x - 1; }
	case 4: { uint64_t x = 0; size_t n = g.below(4); while (n--) x |= uint64_t(0xff) << (8 * g.below(8)); return g.boolean() ? x : x ^ (uint64_t(1) << g.below(64)); }
	default: return g.below(300) << g.below(64);
	}
}
template<class T> static void endianOf(G& g, T (*getLE)(const void*), T (*getBE)(const void*), void (*setLE)(void*, T), void (*setBE)(void*, T), T (*swap)(T))
{
	const size_t n = sizeof(T);
	T x = (T)word(g);
	size_t ofs = g.below(9), pad = g.below(9);
	bool tight = g.boolean();
	uint8_t fill = (uint8_t)g.bits(8);
	g.note() << n << " bytes, value " << (uint64_t)x << " at offset " << ofs;
	g.nontrivial(x != 0);
	// exactly sized so that an access outside is found
	std::unique_ptr<uint8_t[]> b(new uint8_t[ofs + n + (tight ? 0 : pad)]);
	const size_t len = ofs + n + (tight ? 0 : pad);
	auto intact = [&] { for (size_t i = 0; i < len; i++) if (i < ofs || i >= ofs + n) REQUIRE_MSG(b[i] == fill, "byte " << i << " outside the value was changed"); };
	memset(b.get(), fill, len); setLE(b.get() + ofs, x); intact();
	for (size_t i = 0; i < n; i++) REQUIRE_EQ((int)b[ofs + i], (int)(uint8_t)((uint64_t)x >> (8 * i)));
	REQUIRE_EQ((uint64_t)getLE(b.get() + ofs), (uint64_t)x);
	REQUIRE_EQ((uint64_t)getBE(b.get() + ofs), (uint64_t)swap(x));
	memset(b.get(), fill, len); setBE(b.get() + ofs, x); intact();
	for (size_t i = 0; i < n; i++) REQUIRE_EQ((int)b[ofs + i], (int)(uint8_t)((uint64_t)x >> (8 * (n - 1 - i))));
	REQUIRE_EQ((uint64_t)getBE(b.get() + ofs), (uint64_t)x);
	REQUIRE_EQ((uint64_t)getLE(b.get() + ofs), (uint64_t)swap(x));
	T r = 0; for (size_t i = 0; i < n; i++) r = T(r | T(T((uint64_t)x >> (8 * i) & 0xff) << (8 * (n - 1 - i))));
	REQUIRE_EQ((uint64_t)swap(x), (uint64_t)r);
}
PROP_W(endian, 2)
{
	switch (g.below(3)) {
	case 0: endianOf<uint16_t>(g, cybozu::Get16bitAsLE, cybozu::Get16bitAsBE, cybozu::Set16bitAsLE, cybozu::Set16bitAsBE, cybozu::byteSwap); break;
	case 1: endianOf<uint32_t>(g, cybozu::Get32bitAsLE, cybozu::Get32bitAsBE, cybozu::Set32bitAsLE, cybozu::Set32bitAsBE, cybozu::byteSwap); break;
	default: endianOf<uint64_t>(g, cybozu::Get64bitAsLE, cybozu::Get64bitAsBE, cybozu::Set64bitAsLE, cybozu::Set64bitAsBE, cybozu::byteSwap); break;
	}
}
template<class T> static void scan(T x)
{
	if (x == 0) return;
	int lo = 0, hi = 0, n = (int)sizeof(T) * 8;
	while (!(x >> lo & 1)) lo++;
	for (int i = 0; i < n; i++) if (x >> i & 1) hi = i;
	REQUIRE_MSG(cybozu::bsf(x) == lo, "bsf of " << (uint64_t)x << " (" << n << " bits) is " << cybozu::bsf(x));
	REQUIRE_MSG(cybozu::bsr(x) == hi, "bsr of " << (uint64_t)x << " (" << n << " bits) is " << cybozu::bsr(x));
}
PROP_W(bits, 2)
{
	uint64_t x = word(g);
	g.note() << std::hex << x;
	g.nontrivial(x != 0);
	scan<uint64_t>(x); scan<uint32_t>((uint32_t)x); scan<uint32_t>((uint32_t)(x >> 32)); scan<uint16_t>((uint16_t)x); scan<uint8_t>((uint8_t)x); scan<unsigned long long>(x); scan<size_t>(x);
	uint32_t c = 0, c32 = 0; for (int i = 0; i < 64; i++) { c += x >> i & 1; c32 += i < 32 && (x >> i & 1); }
	REQUIRE_EQ(cybozu::popcnt<uint64_t>(x), c);
	REQUIRE_EQ(cybozu::popcnt<uint32_t>((uint32_t)x), c32);
	REQUIRE_EQ(cybozu::popcnt<uint32_t>((uint32_t)(x >> 32)), c - c32);
	uint32_t seen = 0;
	for (uint32_t i = 0; i < 64; i++) {
		uint64_t m = cybozu::makeBitMask64(i);
		for (uint32_t j = 0; j < 64; j++) REQUIRE_MSG((m >> j & 1) == (j < i), "mask " << i);
		REQUIRE_EQ(cybozu::sucvector_util::rank64(x, i), seen);
		if (x >> i & 1) { seen++; REQUIRE_EQ(cybozu::sucvector_util::select64(x, seen), i); }
	}
	for (uint32_t r = seen + 1; r <= 64; r++) REQUIRE_EQ(cybozu::sucvector_util::select64(x, r), 64u);
}
PROP_W(select8, 0.5)
{
	uint32_t v = (uint32_t)g.bits(8);
	g.note() << v;
	g.nontrivial(v != 0);
	uint32_t seen = 0;
	for (uint32_t i = 0; i < 8; i++) if (v >> i & 1) { if (++seen < 8) REQUIRE_EQ((int)cybozu::select8_util::select8(v, seen), (int)i); }
	for (uint32_t r = seen + 1; r < 8; r++) REQUIRE_EQ((int)cybozu::select8_util::select8(v, r), 64);
}
#ifndef GENERIC
using namespace cybozu;
typedef unsigned __int128 U;
struct W { // reference value: 16 bytes
	uint8_t b[16];
	uint32_t d(int i) const { return b[4 * i] | b[4 * i + 1] << 8 | b[4 * i + 2] << 16 | (uint32_t)b[4 * i + 3] << 24; }
	void d(int i, uint32_t v) { for (int k = 0; k < 4; k++) b[4 * i + k] = (uint8_t)(v >> 8 * k); }
	uint64_t q(int i) const { return d(2 * i) | (uint64_t)d(2 * i + 1) << 32; }
	void q(int i, uint64_t v) { d(2 * i, (uint32_t)v); d(2 * i + 1, (uint32_t)(v >> 32)); }
	U u() const { return q(0) | (U)q(1) << 64; }
	void u(U v) { q(0, (uint64_t)v); q(1, (uint64_t)(v >> 64)); }
};
static W wd(uint32_t x3, uint32_t x2, uint32_t x1, uint32_t x0) { W w; w.d(0, x0); w.d(1, x1); w.d(2, x2); w.d(3, x3); return w; }
static W gen(G& g) { W w; w.q(0, word(g)); w.q(1, word(g)); return w; }
static V128 mk(const W& w) { return V128(w.d(3), w.d(2), w.d(1), w.d(0)); }
static W back(const V128& v) { uint32_t t[5]; v.store_u(t + 1); return wd(t[4], t[3], t[2], t[1]); }
static std::string str(const W& w) { std::ostringstream o; o << std::hex; for (int i = 3; i >= 0; i--) o << w.d(i) << (i ? ":" : ""); return o.str(); }
static __attribute__((noinline)) void same(const V128& v, const W& y, const char *what) { W x = back(v); REQUIRE_MSG(memcmp(x.b, y.b, 16) == 0, what << " is " << str(x) << " instead of " << str(y)); }
#define SAME(v, w) same(v, w, #v)
template<class F> static W each(F f) { W w; for (int i = 0; i < 4; i++) w.d(i, f(i)); return w; }
static W ofU(U v) { W w; w.u(v); return w; }
template<int n> struct ByN {
	static void run(const W& a, const W& b, const W& c)
	{
		V128 A = mk(a), B = mk(b);
		SAME(psrldq<n>(A), ofU(n >= 16 ? 0 : a.u() >> (8 * (n & 15))));
		SAME(pslldq<n>(A), ofU(n >= 16 ? 0 : a.u() << (8 * (n & 15))));
		W e; // bytes of a:b
		for (int i = 0; i < 16; i++) e.b[i] = i + n < 16 ? b.b[i + n] : i + n < 32 ? a.b[i + n - 16] : 0;
		SAME(palignr<n>(A, B), e);
		if (n <= 16) {
			V128 x0 = mk(a), x1 = mk(b), x2 = mk(c);
			uint8_t s[48], r[48]; memcpy(s, a.b, 16); memcpy(s + 16, b.b, 16); memcpy(s + 32, c.b, 16);
			rotrByte<n <= 16 ? n : 0>(x0, x1, x2);
			for (int i = 0; i < 48; i++) r[i] = s[(i + n) % 48];
			for (int i = 0; i < 3; i++) { W w; memcpy(w.b, r + 16 * i, 16); SAME((i == 0 ? x0 : i == 1 ? x1 : x2), w); }
			x0 = mk(a); x1 = mk(b); x2 = mk(c);
			rotlByte<n <= 16 ? n : 0>(x0, x1, x2);
			for (int i = 0; i < 48; i++) r[(i + n) % 48] = s[i];
			for (int i = 0; i < 3; i++) { W w; memcpy(w.b, r + 16 * i, 16); SAME((i == 0 ? x0 : i == 1 ? x1 : x2), w); }
		}
	}
};
template<int n> struct ByBit {
	static void run(const W& a, const W&, const W&)
	{
		V128 A = mk(a);
		W e; for (int i = 0; i < 2; i++) e.q(i, n > 63 ? 0 : a.q(i) >> (n & 63));
		SAME(psrlq<n>(A), e);
		for (int i = 0; i < 2; i++) e.q(i, n > 63 ? 0 : a.q(i) << (n & 63));
		SAME(psllq<n>(A), e);
#ifndef NO_SHIFT
		if (n < 64) {
			V128 t = A; t.shrBit<n & 63>(); SAME(t, ofU(a.u() >> n));
			t = A; t.shlBit<n & 63>(); SAME(t, ofU(a.u() << n));
		}
#endif
	}
};
template<int n> struct ByShuf {
	static void run(const W& a, const W&, const W&)
	{
		SAME(pshufd<n>(mk(a)), each([&](int i) { return a.d((n >> 2 * i) & 3); }));
	}
};
typedef void (*Fn)(const W&, const W&, const W&);
template<template<int> class X, int... I> static Fn table(std::integer_sequence<int, I...>, size_t k) { static const Fn t[] = { X<I>::run... }; return t[k]; }
PROP_W(v128_imm, 2)
{
	W a = gen(g), b = gen(g), c = gen(g);
	g.note() << str(a) << " " << str(b) << " " << str(c);
	g.nontrivial(a.u() != 0);
	size_t n = g.below(40), m = g.below(70), s = g.below(256);
	g.note() << " by " << n << " bytes, " << m << " bits, shuffle " << s;
	table<ByN>(std::make_integer_sequence<int, 40>(), n)(a, b, c);
	table<ByBit>(std::make_integer_sequence<int, 70>(), m)(a, b, c);
	table<ByShuf>(std::make_integer_sequence<int, 256>(), s)(a, b, c);
}
PROP_W(v128, 2)
{
	W a = gen(g), b = gen(g);
	if (g.chance(1, 3)) b = a;
	if (g.chance(1, 3)) b.d((int)g.below(4), a.d((int)g.below(4)));
	g.note() << str(a) << " " << str(b);
	g.nontrivial(a.u() != 0 && b.u() != 0);
	V128 A = mk(a), B = mk(b), C(B);
	SAME(A, a); SAME(C, b);
	SAME(V128(a.d(0)), wd(0, 0, 0, a.d(0)));
	SAME(V128(a.q(0)), ofU(a.q(0)));
	SAME(V128(A.x_), a); SAME(V128(A.to_ps()), a);
	REQUIRE_EQ(movd(A), a.d(0)); REQUIRE_EQ(movq(A), a.q(0));
	C.clear(); SAME(C, ofU(0)); SAME(Zero(), ofU(0));
	C.set(b.d(1)); SAME(C, wd(b.d(1), b.d(1), b.d(1), b.d(1)));
	C.set(b.d(3), b.d(2), b.d(1), b.d(0)); SAME(C, b);
	{ // memory
		alignas(16) uint32_t p[12]; for (int i = 0; i < 12; i++) p[i] = 0x5a5a5a5a + i;
		A.store(p + 4); C.load(p + 4); SAME(C, a); SAME(V128((const uint32_t*)(p + 4)), a);
		for (int i = 0; i < 12; i++) REQUIRE_EQ(p[i], i >= 4 && i < 8 ? a.d(i - 4) : 0x5a5a5a5au + i);
		uint32_t *q = p + 5; asm volatile("" : "+r"(q)); // the address is not known to the compiler
		B.store_u(q); asm volatile("" ::: "memory"); C.load_u(q); SAME(C, b);
		for (int i = 0; i < 12; i++) REQUIRE_EQ(p[i], i == 4 ? a.d(0) : i >= 5 && i < 9 ? b.d(i - 5) : 0x5a5a5a5au + i);
		A.store(p); B.store(p + 4);
		swap128(p, p + 4); for (int i = 0; i < 4; i++) { REQUIRE_EQ(p[i], b.d(i)); REQUIRE_EQ(p[4 + i], a.d(i)); }
		copy128(p + 8, p); for (int i = 0; i < 4; i++) { REQUIRE_EQ(p[8 + i], b.d(i)); REQUIRE_EQ(p[i], b.d(i)); REQUIRE_EQ(p[4 + i], a.d(i)); }
	}
	uint64_t n = g.chance(1, 4) ? word(g) : g.below(70);
	W e; for (int i = 0; i < 2; i++) e.q(i, n > 63 ? 0 : a.q(i) >> n); SAME(psrlq(A, V128(n)), e);
	for (int i = 0; i < 2; i++) e.q(i, n > 63 ? 0 : a.q(i) << n); SAME(psllq(A, V128(n)), e);
	SAME(punpckhdq(A, B), wd(b.d(3), a.d(3), b.d(2), a.d(2)));
	SAME(punpckldq(A, B), wd(b.d(1), a.d(1), b.d(0), a.d(0)));
	SAME(unpckhps(A, B), wd(b.d(3), a.d(3), b.d(2), a.d(2)));
	SAME(unpcklps(A, B), wd(b.d(1), a.d(1), b.d(0), a.d(0)));
	SAME(punpckhqdq(A, B), wd(b.d(3), b.d(2), a.d(3), a.d(2)));
	SAME(punpcklqdq(A, B), wd(b.d(1), b.d(0), a.d(1), a.d(0)));
	auto s = [&](const W& w, int i) { return (int32_t)w.d(i); };
	SAME(paddd(A, B), each([&](int i) { return a.d(i) + b.d(i); }));
	SAME(psubd(A, B), each([&](int i) { return a.d(i) - b.d(i); }));
	SAME(pandn(A, B), each([&](int i) { return ~a.d(i) & b.d(i); }));
	SAME(por(A, B), each([&](int i) { return a.d(i) | b.d(i); }));
	SAME(pand(A, B), each([&](int i) { return a.d(i) & b.d(i); }));
	SAME(pxor(A, B), each([&](int i) { return a.d(i) ^ b.d(i); }));
	SAME(pmaxsd(A, B), each([&](int i) { return (uint32_t)std::max(s(a, i), s(b, i)); }));
	SAME(pminsd(A, B), each([&](int i) { return (uint32_t)std::min(s(a, i), s(b, i)); }));
	SAME(pmaxud(A, B), each([&](int i) { return std::max(a.d(i), b.d(i)); }));
	SAME(pminud(A, B), each([&](int i) { return std::min(a.d(i), b.d(i)); }));
	SAME(pcmpeqd(A, B), each([&](int i) { return a.d(i) == b.d(i) ? ~0u : 0u; }));
	SAME(pcmpgtd(A, B), each([&](int i) { return s(a, i) > s(b, i) ? ~0u : 0u; }));
	uint32_t mask = 0; for (int i = 0; i < 16; i++) mask |= (uint32_t)(a.b[i] >> 7) << i;
	REQUIRE_EQ(pmovmskb(A), mask);
	for (int i = 0; i < 16; i++) e.b[i] = b.b[i] & 0x80 ? 0 : a.b[b.b[i] & 15];
	SAME(pshufb(A, B), e);
	REQUIRE_EQ(pextrd<0>(A), a.d(0)); REQUIRE_EQ(pextrd<1>(A), a.d(1)); REQUIRE_EQ(pextrd<2>(A), a.d(2)); REQUIRE_EQ(pextrd<3>(A), a.d(3));
	uint32_t v = (uint32_t)word(g);
	e = a; e.d(0, v); SAME(pinsrd<0>(A, v), e); e = a; e.d(1, v); SAME(pinsrd<1>(A, v), e); e = a; e.d(2, v); SAME(pinsrd<2>(A, v), e); e = a; e.d(3, v); SAME(pinsrd<3>(A, v), e);
	e = a; e.b[0] = (uint8_t)v; SAME(pinsrb<0>(A, (uint8_t)v), e); e = a; e.b[7] = (uint8_t)v; SAME(pinsrb<7>(A, (uint8_t)v), e); e = a; e.b[8] = (uint8_t)v; SAME(pinsrb<8>(A, (uint8_t)v), e); e = a; e.b[15] = (uint8_t)v; SAME(pinsrb<15>(A, (uint8_t)v), e);
	REQUIRE_EQ(ptest_zf(A, B) != 0, (a.u() & b.u()) == 0);
	REQUIRE_EQ(ptest_cf(A, B) != 0, (~a.u() & b.u()) == 0);
	uint64_t t[2] = { 0, 0 }; for (int i = 0; i < 16; i++) t[i / 8] += a.b[i] > b.b[i] ? a.b[i] - b.b[i] : b.b[i] - a.b[i];
	e.q(0, t[0]); e.q(1, t[1]); SAME(psadbw(A, B), e);
	REQUIRE_EQ((int)MIE_PACK(3, 2, 1, 0), 0xe4); REQUIRE_EQ((int)MIE_PACK(0, 1, 2, 3), 0x1b);
}
#endif
