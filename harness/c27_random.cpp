// random generators: published recurrences, buffers, shuffle
#include <cmath>
#include <pbt.h>
#include <cybozu/exception.hpp>
#include <cybozu/random_generator.hpp>
#include <cybozu/xorshift.hpp>
#include <cybozu/pcg.hpp>
#include <cybozu/nlp/random.hpp>
#include <memory>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
using pbt::G; using pbt::show;
static int faultMode; static size_t lastAsked;
extern "C" size_t __real_fread(void *p, size_t s, size_t n, FILE *fp);
extern "C" size_t __wrap_fread(void *p, size_t s, size_t n, FILE *fp)
{
	if (faultMode == 1) { lastAsked = s * n; return n; } // large request: only recorded
	size_t r = __real_fread(p, s, n, fp);
	if (faultMode == 2 && r > 0) r--;
	return r;
}
struct RefXor { uint32_t x, y, z, w; typedef uint32_t U; uint32_t next() { uint32_t t = x ^ (x << 11); x = y; y = z; z = w; w = w ^ (w >> 19) ^ t ^ (t >> 8); return w; } };
struct Ref128 { uint64_t a, b; typedef uint64_t U; uint64_t next() { uint64_t s1 = a, s0 = b; a = s0; s1 ^= s1 << 23; b = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return b + s0; } };
struct RefRoshiro { uint64_t a, b; typedef uint64_t U; static uint64_t rot(uint64_t x, int k) { return x << k | x >> (64 - k); } uint64_t next() { uint64_t r = a + b, c = b ^ a; a = rot(a, 55) ^ c ^ (c << 14); b = rot(c, 36); return r; } };
struct RefPcg { uint64_t s; uint32_t next() { uint64_t o = s; s = o * 6364136223846793005ULL + 0x6d; uint32_t x = (uint32_t)(((o >> 18) ^ o) >> 27), r = (uint32_t)(o >> 59); return r ? x >> r | x << (32 - r) : x; } };
template<class R> static uint32_t n32(R& r) { return (uint32_t)r.next(); }
static uint64_t n64(RefXor& r) { uint64_t a = r.next(); return a << 32 | r.next(); }
static uint64_t n64(Ref128& r) { return r.next(); }
static uint64_t n64(RefRoshiro& r) { return r.next(); }
template<class Gen, class R> static void steps(G& g, Gen& x, R& r)
{
	for (size_t k = 1 + g.size(20); k > 0; k--) {
		switch (g.below(6)) {
		case 0: REQUIRE_EQ(x.get32(), n32(r)); break;
		case 1: REQUIRE_EQ(x.get64(), n64(r)); break;
		case 2: REQUIRE_EQ((typename R::U)x(), r.next()); break;
		default: {
			size_t n = g.chance(1, 200) ? g.below(70000) : g.size(40);
			int w = (int)g.below(4);
			size_t bytes = n * (w == 0 ? 1 : w == 1 ? 2 : w == 2 ? 4 : 8);
			g.note() << " read " << bytes;
			std::unique_ptr<uint64_t[]> hold(new uint64_t[bytes / 8 + 3]);
			uint8_t *p = (uint8_t*)hold.get() + 8;
			memset(hold.get(), 0xA5, (bytes / 8 + 3) * 8);
			bool b = false, f = g.boolean();
			switch (w) {
			case 0: if (f) x.read(&b, p, n); else b = x.read(p, n) == n; break;
			case 1: if (f) x.read(&b, (uint16_t*)p, n); else b = x.read((uint16_t*)p, n) == n; break;
			case 2: if (f) x.read(&b, (uint32_t*)p, n); else b = x.read((uint32_t*)p, n) == n; break;
			default: if (f) x.read(&b, (uint64_t*)p, n); else b = x.read((uint64_t*)p, n) == n; break;
			}
			REQUIRE(b);
			std::string want;
			while (want.size() < bytes) { typename R::U u = r.next(); want.append((const char*)&u, sizeof(u)); }
			want.resize(bytes);
			REQUIRE_STREQ(std::string((const char*)p, bytes), want);
			for (size_t i = 0; i < 8; i++) REQUIRE(((uint8_t*)hold.get())[i] == 0xA5 && p[bytes + i] == 0xA5);
		}
		}
	}
	g.nontrivial();
}
PROP_W(recurrence, 2)
{
	auto s = [&] { return g.chance(1, 3) ? (uint64_t)0 : g.bits(64); };
	switch (g.below(4)) {
	case 0: {
		uint32_t x = (uint32_t)s(), y = (uint32_t)s(), z = (uint32_t)s(), w = (uint32_t)s();
		g.note() << "XorShift " << x << " " << y << " " << z << " " << w;
		cybozu::XorShift a(x, y, z, w);
		if (g.boolean()) { a = cybozu::XorShift(); for (int i = 0; i < 3; i++) a.get32(); a.init(x, y, z, w); }
		RefXor r = { x ? x : 123456789, y ? y : 362436069, z ? z : 521288629, w ? w : 88675123 };
		steps(g, a, r);
		break;
	}
	case 1: { uint64_t x = s(), y = s(); bool d = g.boolean(); g.note() << "128Plus " << x << " " << y; cybozu::XorShift128Plus a; if (!d) { if (g.boolean()) a = cybozu::XorShift128Plus(x, y); else { a(); a.init(x, y); } } Ref128 r = { d ? 123456789 : x, d ? 987654321 : y }; steps(g, a, r); break; }
	case 2: { uint64_t x = s(), y = s(); bool d = g.boolean(); g.note() << "Xoroshiro " << x << " " << y; cybozu::Xoroshiro128Plus a; if (!d) { if (g.boolean()) a = cybozu::Xoroshiro128Plus(x, y); else { a(); a.init(x, y); } } RefRoshiro r = { d ? 123456789 : x, d ? 987654321 : y }; steps(g, a, r); break; }
	default: {
		uint64_t x = s(); bool d = g.boolean();
		g.note() << "Pcg32 " << x;
		cybozu::Pcg32 a; if (!d) a = cybozu::Pcg32(x);
		RefPcg r = { d ? 0x185706b82c2e03f8ULL : x };
		for (size_t k = 1 + g.size(20); k > 0; k--) switch (g.below(6)) {
		case 0: REQUIRE_EQ(a.get32(), r.next()); break;
		case 1: REQUIRE_EQ(a(), r.next()); break;
		case 2: { uint64_t h = r.next(); REQUIRE_EQ(a.get64(), h << 32 | r.next()); break; }
		case 3: { size_t n = g.size(20); std::unique_ptr<uint8_t[]> b(new uint8_t[n]); a.read(b.get(), n); for (size_t i = 0; i < n; i++) REQUIRE_EQ((int)b[i], (int)(uint8_t)r.next()); break; }
		case 4: { size_t n = g.size(20); std::unique_ptr<uint32_t[]> b(new uint32_t[n]); a.read(b.get(), n); for (size_t i = 0; i < n; i++) REQUIRE_EQ(b[i], r.next()); break; }
		default: { size_t n = g.size(20); std::unique_ptr<uint64_t[]> b(new uint64_t[n]); a.read(b.get(), n); for (size_t i = 0; i < n; i++) { uint64_t h = r.next(); REQUIRE_EQ(b[i], h << 32 | r.next()); } break; }
		}
		g.nontrivial();
	}
	}
}
struct MyRG { G& g; int mode; uint64_t get64() { return mode == 0 ? g.bits(64) : mode == 1 ? 0 : mode == 2 ? ~uint64_t(0) : g.below(5); } uint32_t get32() { return (uint32_t)get64(); } uint64_t operator()() { return get64(); } };
PROP(shuffle_is_permutation)
{
	size_t n = g.size(60);
	std::vector<int> v(n);
	for (auto& x : v) x = (int)g.irange(-5, 5);
	std::vector<int> w = v;
	g.note() << n << " elements";
	g.nontrivial(n > 2);
	MyRG rg = { g, (int)g.below(4) };
	std::unique_ptr<int[]> b(new int[n]);
	std::copy(v.begin(), v.end(), b.get());
	cybozu::shuffle(b.get(), n, rg);
	std::vector<int> r(b.get(), b.get() + n);
	cybozu::shuffle(v, rg);
	std::vector<std::string> s(n); for (size_t i = 0; i < n; i++) s[i] = std::string(30, 'a') + std::to_string(w[i]);
	std::vector<std::string> s0 = s;
	cybozu::shuffle(s, rg);
	std::sort(w.begin(), w.end()); std::sort(v.begin(), v.end()); std::sort(r.begin(), r.end()); std::sort(s.begin(), s.end()); std::sort(s0.begin(), s0.end());
	REQUIRE(v == w); REQUIRE(r == w); REQUIRE(s == s0);
}
PROP_W(shuffle_is_fair, 0.05)
{
	size_t n = 2 + g.below(3), perms = n == 2 ? 2 : n == 3 ? 6 : 24;
	uint64_t a = g.bits(64) | 1, b = g.bits(64) | 2;
	cybozu::Xoroshiro128Plus rg(a, b);
	std::map<std::vector<int>, int> cnt;
	const int N = 600 * (int)perms;
	for (int i = 0; i < N; i++) { std::vector<int> v; for (size_t j = 0; j < n; j++) v.push_back((int)j); cybozu::shuffle(v, rg); cnt[v]++; }
	g.note() << n << " elements " << N << " shuffles";
	g.nontrivial();
	double chi = 0;
	REQUIRE_EQ(cnt.size(), perms);
	for (auto& i : cnt) { double d = i.second - 600.0; chi += d * d / 600; }
	REQUIRE_MSG(chi < perms + 20 * sqrt(2.0 * perms) + 40, "chi2 " << chi << " of " << perms - 1); // far beyond 10 sigma
}
PROP(system)
{
	cybozu::RandomGenerator rg;
	size_t n = g.size(300);
	if (g.chance(1, 6)) n += 4000;
	std::unique_ptr<uint8_t[]> b(new uint8_t[n + 16]);
	memset(b.get(), 0x5A, n + 16);
	int w = (int)g.below(3);
	size_t e = n / (w == 0 ? 1 : w == 1 ? 2 : 4), bytes = e * (w == 0 ? 1 : w == 1 ? 2 : 4);
	bool flag = g.boolean(), ok = true, fault = g.chance(1, 4) && bytes > 0;
	g.note() << bytes << " bytes" << (fault ? " short" : "");
	g.nontrivial(bytes > 1);
	faultMode = fault ? 2 : 0;
	try {
		if (w == 0) { if (flag) rg.read(&ok, b.get(), e); else rg.read(b.get(), e); }
		else if (w == 1) { if (flag) rg.read(&ok, (uint16_t*)b.get(), e); else rg.read((uint16_t*)b.get(), e); }
		else { if (flag) rg.read(&ok, (uint32_t*)b.get(), e); else rg.read((uint32_t*)b.get(), e); }
	} catch (cybozu::Exception&) { ok = false; }
	faultMode = 0;
	REQUIRE_EQ(ok, !fault);
	for (size_t i = bytes; i < n + 16; i++) REQUIRE_EQ((int)b[i], 0x5A);
	if (bytes >= 64 && !fault) { size_t c = 0; for (size_t i = bytes - 32; i < bytes; i++) c += b[i] == 0x5A; REQUIRE(c < 16); } // the tail is filled, too
	if (bytes >= 64 && !fault) { size_t c = 0; for (size_t i = 0; i < 32; i++) c += b[i] == 0x5A; REQUIRE(c < 16); }
	if (g.chance(1, 4)) { uint64_t x = rg.get64(), y = rg.get64(), z = rg.get64(); REQUIRE(!(x == y && y == z)); uint32_t p = rg.get32(), q = rg(), r = rg.get32(); uint32_t s = rg.get32(); REQUIRE(!(p == q && q == r && r == s)); }
}
// no descriptor for the device: an error, or random data all the same
PROP_W(system_missing, 0.05)
{
	struct rlimit old, none;
	if (getrlimit(RLIMIT_NOFILE, &old)) DISCARD();
	none = old; none.rlim_cur = 0;
	uint8_t b[64]; memset(b, 0x5A, sizeof(b));
	bool made = false, ok = true, flag = g.boolean();
	if (setrlimit(RLIMIT_NOFILE, &none)) DISCARD();
	try {
		cybozu::RandomGenerator rg;
		made = true;
		if (flag) rg.read(&ok, b, 64); else rg.read(b, 64);
	} catch (std::exception&) { ok = false; }
	setrlimit(RLIMIT_NOFILE, &old);
	g.note() << "constructed " << made << " read " << ok;
	g.nontrivial();
	size_t c = 0; for (size_t i = 0; i < 64; i++) c += b[i] == 0x5A;
	if (ok) REQUIRE_MSG(c < 32, "the buffer is not filled, but no error is reported");
	cybozu::RandomGenerator rg; // and later it works
	rg.read(&ok, b, 64);
	REQUIRE(ok);
}
PROP_W(system_large, 0.005)
{
	const size_t n = ((size_t)1 << 31) + g.below(3); // over the range of int
	void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) DISCARD();
	cybozu::RandomGenerator rg;
	faultMode = 1; lastAsked = n;
	bool ok = false;
	try { rg.read(&ok, (uint8_t*)p, n); } catch (...) {}
	faultMode = 0;
	munmap(p, n);
	g.note() << n << " bytes";
	g.nontrivial();
	REQUIRE(ok);
	REQUIRE_EQ(lastAsked, n);
}
// the outputs of XorShift are affine functions of the seed over GF(2): find a seed for which chosen bits of the outputs k and k + 1 are all ones (or zeros)
static bool seedFor(size_t k, uint32_t mask0, uint32_t mask1, bool ones, uint32_t& seed)
{
	auto out = [&](uint32_t x) { RefXor r = { x, 362436069, 521288629, 88675123 }; for (size_t i = 0; i < k; i++) r.next(); uint64_t h = r.next(); return h << 32 | r.next(); };
	const uint64_t mask = (uint64_t)mask0 << 32 | mask1, c = out(0);
	uint64_t col[32]; for (int i = 0; i < 32; i++) col[i] = (out(1u << i) ^ c) & mask;
	uint64_t need = ((ones ? ~(uint64_t)0 : 0) ^ c) & mask; uint32_t comb[32]; for (int i = 0; i < 32; i++) comb[i] = 1u << i;
	seed = 0; bool used[32] = {};
	for (int bit = 63; bit >= 0; bit--) {
		uint64_t m = (uint64_t)1 << bit; if (!(mask & m)) continue;
		int p = -1; for (int i = 0; i < 32; i++) if (!used[i] && (col[i] & m)) { p = i; break; }
		if (p < 0) { if (need & m) return false; continue; }
		used[p] = true;
		if (need & m) { need ^= col[p]; seed ^= comb[p]; }
		for (int i = 0; i < 32; i++) if (i != p && (col[i] & m)) { col[i] ^= col[p]; comb[i] ^= comb[p]; }
	}
	return need == 0 && seed != 0;
}
PROP_W(extremes, 0.3) // the largest and the smallest values
{
	size_t k = 2 * g.below(20); bool top = g.boolean(); uint32_t seed;
	if (!seedFor(k, 0xffffffe0, g.pick(std::vector<uint32_t>{ 0x80000000u, 0xc0000000u, 0xe0000000u, 0xf8000000u }), top, seed)) DISCARD();
	double a = (double)g.irange(-8, 8), b = a + (double)(1 + g.below(8)); if (g.boolean()) { a = 0; b = 1; }
	g.note() << "[" << a << "," << b << ") seed " << seed << ", draw " << k / 2; g.nontrivial();
	cybozu::nlp::UniformRandomGenerator v(a, b, (int)seed);
	for (size_t i = 0; i < k / 2; i++) { double y = v.getDouble(); REQUIRE(a <= y && y <= b); }
	double x = v.getDouble();
	REQUIRE_MSG(a <= x && (a == 0 && b == 1 ? x < b : x <= b), x << " is outside of the interval");
	if (top) REQUIRE_MSG(b - x < (b - a) * 1e-6, x); else REQUIRE_MSG(x - a < (b - a) * 1e-6, x);
}
PROP(distributions)
{
	double a = (double)g.irange(-1000, 1000) / 8, b = a + (double)(1 + g.below(1000)) / 8;
	int seed = g.chance(1, 3) ? 0 : (int)g.irange(-100000, 100000);
	g.note() << "[" << a << "," << b << ") seed " << seed;
	g.nontrivial();
	cybozu::nlp::UniformRandomGenerator u(a, b, seed), u0(a, b, seed), unit(0, 1, seed);
	if (g.boolean()) { u.getDouble(); u.init(seed); }
	double sum = 0;
	for (int i = 0; i < 200; i++) { double x = u.getDouble(); REQUIRE(a <= x && x < b); REQUIRE_EQ(x, u0.getDouble()); double z = unit.getDouble(); REQUIRE(fabs(x - (a + (b - a) * z)) < 1e-6); sum += z; }
	REQUIRE(fabs(sum / 200 - 0.5) < 0.25); // about 12 sigma
	cybozu::nlp::UniformRandomGenerator v(a, b, seed);
	cybozu::XorShift xs((uint32_t)seed);
	REQUIRE_EQ(v.get32(), xs.get32()); REQUIRE_EQ(v.get64(), xs.get64()); REQUIRE_EQ(v(), xs.get32());
	// sum of 12 uniform values
	double s = (double)(1 + g.below(40)) / 4, m = 0, q = 0;
	cybozu::nlp::NormalRandomGenerator n(a, s, seed), n2(a, s, 0);
	n2.init(seed);
	const int N = 400;
	for (int i = 0; i < N; i++) { double x = n.get(); REQUIRE_EQ(x, n2.get()); double z = (x - a) / s; REQUIRE(-6.001 < z && z < 6.001); m += z; q += z * z; }
	m /= N; q = q / N - m * m;
	REQUIRE_MSG(fabs(m) < 0.6 && q > 0.4 && q < 1.9, "mean " << m << " variance " << q); // 12 sigma
}
