// AlignedArray and ScopedArray as sequences
#include <pbt.h>
#include <leak.h>
#include <cybozu/array.hpp>
#include <memory>
#include <sys/resource.h>
using pbt::G; using pbt::show;
static const char *asanOpt() { return "allocator_may_return_null=1:detect_leaks=0:exitcode=77"; }
template<class T> struct Elem { bool known; T v; };
template<class A, class T, size_t N, bool defClear> static void run(G& g)
{
	struct M { std::vector<Elem<T>> v; };
	std::vector<std::unique_ptr<A>> a;
	std::vector<M> m;
	auto add = [&](A *p, const M& x) { a.emplace_back(p); m.push_back(x); };
	add(new A, M());
	size_t nops = 1 + g.size(20);
	g.note() << "elements of " << sizeof(T) << " bytes aligned " << N << " clear " << defClear << ":";
	auto grow = [&](M& x, size_t n, bool clear) { size_t o = x.v.size(); x.v.resize(n); for (size_t i = o; i < n; i++) { x.v[i].known = clear; x.v[i].v = 0; } };
	for (size_t k = 0; k < nops; k++) {
		size_t i = g.below(a.size()), j = g.below(a.size());
		size_t n = g.chance(1, 8) ? 100 + g.below(200) : g.size(20);
		switch (g.below(11)) {
		case 0: { bool c = g.boolean(), d = g.boolean(); if (a.size() > 5) break; M x; g.note() << " new " << n; if (d) { add(new A(n), x); grow(m.back(), n, defClear); } else { add(new A(n, c), x); grow(m.back(), n, c); } break; }
		case 1: if (a.size() > 5) break; g.note() << " copy " << i; add(new A(*a[i]), m[i]); break;
		case 2: g.note() << " assign " << i << "=" << j; *a[i] = *a[j]; m[i] = m[j]; break;
		case 3: case 4: case 5: { bool d = g.boolean(), c = g.boolean(); g.note() << " resize " << i << " " << n << (d ? "" : c ? " clear" : " keep"); if (d) a[i]->resize(n); else a[i]->resize(n, c); grow(m[i], n, d ? defClear : c); break; }
		case 6: g.note() << " clear " << i; a[i]->clear(); m[i].v.clear(); break;
		case 7: g.note() << " swap " << i << " " << j; a[i]->swap(*a[j]); std::swap(m[i].v, m[j].v); break;
		case 8: if (i == j) break; g.note() << " move " << i << "=" << j; *a[i] = std::move(*a[j]); m[i] = m[j]; m[j].v.clear(); break;
		case 9: if (a.size() > 5) break; { g.note() << " moved " << i; A *p = new A(std::move(*a[i])); M x = m[i]; m[i].v.clear(); add(p, x); } break;
		default: for (size_t q = 0; q < 5 && a[i]->size(); q++) { size_t at = g.below(a[i]->size()); T v = (T)g.bits(32); if (g.boolean()) (*a[i])[at] = v; else a[i]->data()[at] = v; m[i].v[at].known = true; m[i].v[at].v = v; } break;
		}
		for (size_t q = 0; q < a.size(); q++) {
			const A& c = *a[q];
			REQUIRE_EQ(c.size(), m[q].v.size());
			REQUIRE_EQ(c.empty(), m[q].v.empty());
			REQUIRE(c.begin() == c.data() && c.end() == c.begin() + c.size() && c.cbegin() == c.begin() && c.cend() == c.end() && a[q]->begin() == c.begin() && a[q]->end() == c.end());
			REQUIRE((uintptr_t)c.data() % N == 0);
			for (size_t e = 0; e < c.size(); e++) { T v = c[e]; if (m[q].v[e].known) REQUIRE_MSG(v == m[q].v[e].v, "array " << q << " element " << e); else { (*a[q])[e] = v; } }
		}
		g.nontrivial(k > 2);
	}
}
PROP_W(aligned, 3)
{
	switch (g.below(6)) {
	case 0: run<cybozu::AlignedArray<uint8_t>, uint8_t, 16, true>(g); break;
	case 1: run<cybozu::AlignedArray<int>, int, 16, true>(g); break;
	case 2: run<cybozu::AlignedArray<uint64_t, 64>, uint64_t, 64, true>(g); break;
	case 3: run<cybozu::AlignedArray<uint16_t, 32, false>, uint16_t, 32, false>(g); break;
	case 4: run<cybozu::AlignedArray<double, 128>, double, 128, true>(g); break;
	default: run<cybozu::AlignedArray<float, 4096, false>, float, 4096, false>(g); break;
	}
}
PROP_W(too_large, 0.2)
{
	size_t n = g.pick(std::vector<size_t>{~size_t(0) / 8, ~size_t(0) / 8 + 1, ~size_t(0) / 8 + 2, ~size_t(0) / 4, ~size_t(0), ~size_t(0) / 2 + 1, ~size_t(0) / 8 * 3 + 7});
	n -= g.below(2);
	g.note() << n << " elements of 8 bytes";
	g.nontrivial();
	cybozu::AlignedArray<uint64_t> a(g.below(5));
	for (size_t i = 0; i < a.size(); i++) a[i] = i + 100;
	size_t old = a.size();
	bool t = false;
	try { a.resize(n, false); } catch (std::bad_alloc&) { t = true; }
	REQUIRE_MSG(t, "an impossible size was accepted");
	REQUIRE_EQ(a.size(), old);
	for (size_t i = 0; i < old; i++) REQUIRE_EQ(a[i], (uint64_t)i + 100);
	// and it goes on as before
	size_t more = old + 1 + g.below(40), zero = g.below(2); g.note() << ", then " << more;
	if (g.boolean()) { a.resize(more, true); for (size_t i = 0; i < old; i++) REQUIRE_EQ(a[i], (uint64_t)i + 100); for (size_t i = old; i < more; i++) { REQUIRE_EQ(a[i], 0u); a[i] = zero; } }
	else { cybozu::AlignedArray<uint64_t> b(more); for (size_t i = 0; i < more; i++) b[i] = i; a = b; REQUIRE_EQ(a.size(), more); for (size_t i = 0; i < more; i++) REQUIRE_EQ(a[i], (uint64_t)i); }
}
struct Counted { static long live; int x; Counted() : x(7) { live++; } ~Counted() { live--; } };
long Counted::live;
PROP(scoped)
{
	size_t n = g.size(40);
	g.note() << n;
	g.nontrivial(n > 1);
	long l0 = leak::live();
	{
		cybozu::ScopedArray<Counted> a(n);
		REQUIRE_EQ(Counted::live, (long)n);
		REQUIRE_EQ(a.size(), n); REQUIRE_EQ(a.empty(), n == 0);
		const cybozu::ScopedArray<Counted>& c = a;
		REQUIRE(a.end() == a.begin() + n && c.begin() == a.begin() && c.end() == a.end() && a.data() == a.begin() && c.data() == a.data());
		for (size_t i = 0; i < n; i++) { REQUIRE_EQ(a[i].x, 7); a[i].x = (int)i; }
		for (size_t i = 0; i < n; i++) REQUIRE_EQ(c[i].x, (int)i);
	}
	REQUIRE_EQ(Counted::live, 0L);
	REQUIRE_EQ((long)leak::live(), l0);
	for (size_t al = 16; al <= 4096; al *= 4) { size_t sz = 1 + g.below(100); void *p = cybozu::AlignedMalloc(sz, al); REQUIRE(p && (uintptr_t)p % al == 0); memset(p, 1, sz); cybozu::AlignedFree(p); }
	cybozu::AlignedFree(0);
}
extern "C" const char *__asan_default_options() { return asanOpt(); }
