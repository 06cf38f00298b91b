// message digests, HMAC, SipHash and FNV against independent references, for any split of the message
#include <pbt.h>
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#include <cybozu/siphash.hpp>
#include <cybozu/hash.hpp>
#include <cybozu/itoa.hpp>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <list>
using pbt::G; using pbt::show;
static std::string ref(const EVP_MD *md, const std::string& m)
{
	unsigned char out[64]; unsigned int n = 0;
	EVP_Digest(m.data(), m.size(), out, &n, md, 0);
	return std::string((char*)out, n);
}
static std::string hex(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof(b), "%02x", c); o += b; } return o; }
static std::string genMsg(G& g)
{
	size_t n;
	switch (g.below(4)) {
	case 0: n = g.below(20); break;
	case 1: { size_t k = (g.boolean() ? 64 : 128) * g.below(6); n = k + g.below(24); n = n >= 20 ? n - 20 : n; } break; // around the padding border
	case 2: n = g.below(300); break;
	default: n = g.size(5000); break;
	}
	return g.blob(n);
}
// pieces of the message; the last one is given to digest()
static std::vector<std::string> pieces(G& g, const std::string& m)
{
	std::vector<std::string> v;
	size_t pos = 0;
	while (pos < m.size() && g.chance(4, 5)) {
		size_t n = g.below(3) == 0 ? 56 + g.below(80) : g.below(2) ? g.below(8) : g.below(m.size() - pos + 1);
		n = std::min(n, m.size() - pos);
		v.push_back(m.substr(pos, n));
		pos += n;
	}
	v.push_back(m.substr(pos));
	if (g.chance(1, 6)) v.push_back("");
	return v;
}
static const char *exact(std::string& holder, const std::string& s, std::vector<char*>& bag) // exact-size copy
{
	char *p = (char*)malloc(s.size() ? s.size() : 1);
	memcpy(p, s.data(), s.size());
	bag.push_back(p);
	return p;
}
struct Bag { std::vector<char*> v; ~Bag() { for (auto p : v) free(p); } const char *of(const std::string& s) { std::string h; return exact(h, s, v); } };
PROP(sha1)
{
	cybozu::Sha1 h;
	Bag bag;
	for (int round = 1 + (int)g.below(3); round > 0; round--) {
		std::string m = genMsg(g), want = ref(EVP_sha1(), m);
		std::vector<std::string> v = pieces(g, m);
		g.note() << "sha1 of " << show(m, 40) << " in " << v.size() << " pieces";
		for (size_t i = 0; i + 1 < v.size(); i++) if (g.boolean()) h.update(v[i]); else h.update(bag.of(v[i]), v[i].size());
		std::string d = v.back().empty() && g.boolean() ? h.digest() : g.boolean() ? h.digest(v.back()) : h.digest(bag.of(v.back()), v.back().size());
		REQUIRE_STREQ(hex(d), hex(want));
		REQUIRE_STREQ(h.toString(), hex(want));
		REQUIRE_STREQ(h.get(), want);
		char out[21]; out[20] = '#';
		h.get(out);
		REQUIRE_STREQ(std::string(out, 21), want + "#");
		g.nontrivial(m.size() > 1);
	}
}
template<class H, size_t N> static void sha2(G& g, const EVP_MD *md)
{
	H h;
	Bag bag;
	for (int round = 1 + (int)g.below(3); round > 0; round--) {
		std::string m = genMsg(g), want = ref(md, m);
		if (g.chance(1, 5)) { h.update("garbage", 7); }
		h.clear(); // a digest needs clear() before the next message
		std::vector<std::string> v = pieces(g, m);
		g.note() << "sha" << N * 8 << " of " << show(m, 40) << " in " << v.size() << " pieces";
		for (size_t i = 0; i + 1 < v.size(); i++) if (g.boolean()) h.update(v[i]); else h.update(bag.of(v[i]), v[i].size());
		const std::string& l = v.back();
		std::string d;
		if (g.chance(1, 3)) { // a copy goes on on its own
			H c(h), e;
			if (g.boolean()) e.update("garbage", 7);
			e = h;
			if (g.boolean()) e = *&e;
			c.update("something else", 14);
			c.digest("");
			REQUIRE_STREQ(hex(e.digest(l)), hex(want));
			g.label("copied");
		}
		switch (g.below(4)) {
		case 0: d = h.digest(l); break;
		case 1: d = h.digest(bag.of(l), l.size()); break;
		default:
			if (g.boolean()) { // too small: nothing is written, nothing is consumed
				char small[N];
				memset(small, '#', N);
				size_t s = g.below(N);
				REQUIRE_EQ(h.digest(small, s, l.data(), l.size()), 0u);
				for (size_t i = 0; i < N; i++) REQUIRE(small[i] == '#');
			}
			char out[N + 8];
			memset(out, '#', sizeof(out));
			REQUIRE_EQ(h.digest(out, N + g.below(8), bag.of(l), l.size()), N);
			d.assign(out, N);
			REQUIRE_STREQ(std::string(out + N, 8), "########");
			break;
		}
		REQUIRE_STREQ(hex(d), hex(want));
		g.nontrivial(m.size() > 1);
	}
}
PROP(sha256) { sha2<cybozu::Sha256, 32>(g, EVP_sha256()); }
PROP(sha512) { sha2<cybozu::Sha512, 64>(g, EVP_sha512()); }
PROP(hmac)
{
	std::string m = genMsg(g), k = g.boolean() ? g.blob(56 + g.below(20)) : g.blob(g.size(400));
	g.note() << "key " << show(k, 80) << " message " << show(m, 40);
	unsigned char want[64]; unsigned int n = 0;
	HMAC(EVP_sha256(), k.data(), (int)k.size(), (const unsigned char*)m.data(), m.size(), want, &n);
	char out[40];
	memset(out, '#', sizeof(out));
	Bag bag;
	cybozu::hmac256(out, bag.of(k), k.size(), bag.of(m), m.size());
	REQUIRE_STREQ(hex(std::string(out, 32)), hex(std::string((char*)want, n)));
	REQUIRE_STREQ(std::string(out + 32, 8), "########");
	g.nontrivial(k.size() + m.size() > 1);
}
// SipHash-2-4 from its definition
static uint64_t rl(uint64_t x, int b) { return x << b | x >> (64 - b); }
static uint64_t refSip(const std::string& m, uint64_t k0, uint64_t k1)
{
	uint64_t v[4] = { k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull };
	auto sip = [&](int n) { while (n--) { v[0] += v[1]; v[1] = rl(v[1], 13); v[1] ^= v[0]; v[0] = rl(v[0], 32); v[2] += v[3]; v[3] = rl(v[3], 16); v[3] ^= v[2]; v[0] += v[3]; v[3] = rl(v[3], 21); v[3] ^= v[0]; v[2] += v[1]; v[1] = rl(v[1], 17); v[1] ^= v[2]; v[2] = rl(v[2], 32); } };
	std::string p = m;
	while (p.size() % 8 != 7) p += '\0';
	p += (char)m.size();
	for (size_t i = 0; i < p.size(); i += 8) {
		uint64_t w = 0;
		for (int j = 0; j < 8; j++) w |= (uint64_t)(unsigned char)p[i + j] << 8 * j;
		v[3] ^= w; sip(2); v[0] ^= w;
	}
	v[2] ^= 0xff; sip(4);
	return v[0] ^ v[1] ^ v[2] ^ v[3];
}
PROP(siphash)
{
	std::string m = g.below(4) ? g.bytes(g.below(40)) : g.blob(g.size(3000));
	uint64_t k0 = g.bits(64), k1 = g.bits(64);
	Bag bag;
	size_t off = g.below(8);
	std::string padded = std::string(off, 'x') + m;
	const char *p = bag.of(padded) + off;
	g.note() << show(m, 60) << " k0 " << k0 << " k1 " << k1 << " alignment " << off;
	REQUIRE_EQ(cybozu::siphash24(p, m.size(), k0, k1), refSip(m, k0, k1));
	REQUIRE_EQ(cybozu::siphash24(p, m.size()), refSip(m, 0x0706050403020100ull, 0x0f0e0d0c0b0a0908ull));
	g.nontrivial(m.size() > 1);
}
template<class T> static void fnv(G& g)
{
	std::vector<T> v;
	for (size_t n = g.below(3) ? g.below(12) : g.size(600); n > 0; n--) v.push_back((T)g.bits(sizeof(T) * 8));
	uint32_t s32 = g.boolean() ? 0 : (uint32_t)g.bits(32), w32 = s32 ? s32 : 2166136261u;
	uint64_t s64 = g.boolean() ? 0 : g.bits(64), w64 = s64 ? s64 : 14695981039346656037ull;
	for (T x : v) { w32 = (w32 ^ (uint32_t)x) * 16777619u; w64 = (w64 ^ (uint64_t)x) * 1099511628211ull; }
	w64 ^= w64 >> 32;
	g.note() << v.size() << " elements of " << sizeof(T) << " bytes, start " << s32 << " " << s64;
	REQUIRE_EQ(cybozu::hash32(v.begin(), v.end(), s32), w32);
	REQUIRE_EQ(cybozu::hash64(v.begin(), v.end(), s64), w64);
	REQUIRE_EQ(cybozu::hash32(v.data(), v.size(), s32), w32);
	REQUIRE_EQ(cybozu::hash64(v.data(), v.size(), s64), w64);
	std::list<T> l(v.begin(), v.end());
	REQUIRE_EQ(cybozu::hash32(l.begin(), l.end(), s32), w32);
	size_t k = g.below(v.size() + 1); // in two parts
	uint32_t p = cybozu::hash32(v.data(), k, s32);
	if (p) REQUIRE_EQ(cybozu::hash32(v.data() + k, v.size() - k, p), w32);
	g.nontrivial(v.size() > 1);
}
PROP_W(fnv1a, 0.5) { switch (g.below(4)) { case 0: fnv<unsigned char>(g); break; case 1: fnv<char>(g); break; case 2: fnv<uint16_t>(g); break; default: fnv<uint32_t>(g); break; } }
