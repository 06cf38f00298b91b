// the unit test framework: no failure is lost and no success is reported as a failure
#include <pbt.h>
#include <math.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdexcept>
#define CYBOZU_TEST_DISABLE_AUTO_RUN
#include <cybozu/test.hpp>
using pbt::G; using pbt::show;
// what the modules do in this case
enum Kind { ASSERT, EQ_INT, EQ_MIXED, EQ_STR, EQ_STRING, EQ_DOUBLE, EQ_FLOAT, NEAR, POINTER, ARRAY, FAIL, EXC, EXC_MSG, NO_EXC, KINDS };
struct Check { Kind kind; uint64_t a, b; std::string s, t; double x, y; std::vector<int> v, w; int how; };
struct Module { std::vector<Check> checks; int stop; std::string what; }; // stop: 0 = no exception, 1 = std::exception, 2 = other
struct Plan {
	std::vector<Module> mods;
	int initStop, termStop; std::string what;
	int inits, terms, fixtures, fixturesEnd; std::vector<int> order;
	int ok, ng, exc; std::vector<std::string> lines, details; // expected
} P;
static double dbl(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float flt(uint64_t v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
static void expect(bool ok, const char *macro, int line) { if (ok) P.ok++; else { P.ng++; std::ostringstream o; o << "(" << line << "):ctest:" << macro << "("; P.lines.push_back(o.str()); } }
// what a failed check prints after its line
static void detail(const std::string& s) { P.details.push_back(s); }
template<class A, class B> static void values(bool ok, const A& a, const B& b, const std::string& head = "")
{
	if (ok) return;
	std::ostringstream o; o << head << "ctest:  lhs=" << a << "\nctest:  rhs=" << b << "\n";
	detail(o.str());
}
static void act(int how, const std::string& what)
{
	if (how == 1) throw std::runtime_error(what);
	if (how == 2) throw std::logic_error(what);
	if (how == 3) throw 5;
}
static void run(const Check& c)
{
	switch (c.kind) {
	case ASSERT: expect(c.a != 0, "CYBOZU_TEST_ASSERT", __LINE__); CYBOZU_TEST_ASSERT(c.a); break;
	case EQ_INT: expect((int64_t)c.a == (int64_t)c.b, "CYBOZU_TEST_EQUAL", __LINE__); CYBOZU_TEST_EQUAL((int64_t)c.a, (int64_t)c.b); values(c.a == c.b, (int64_t)c.a, (int64_t)c.b); break;
	case EQ_MIXED: { int i = (int)c.b; size_t z = (size_t)c.a; bool eq = z == (size_t)i; if (c.how & 1) { expect(eq, "CYBOZU_TEST_EQUAL", __LINE__); CYBOZU_TEST_EQUAL(z, i); values(eq, z, i); } else { expect(eq, "CYBOZU_TEST_EQUAL", __LINE__); CYBOZU_TEST_EQUAL(i, z); values(eq, i, z); } break; }
	case EQ_STR: {
		const char *p = c.s.c_str(), *q = c.t.c_str(); bool eq = c.s == c.t;
		std::vector<char> pb(p, p + c.s.size() + 1), qb(q, q + c.t.size() + 1);
		switch (c.how) {
		case 0: expect(eq, "CYBOZU_TEST_EQUAL", __LINE__); CYBOZU_TEST_EQUAL(p, q); break;
		case 1: expect(eq, "CYBOZU_TEST_EQUAL", __LINE__); CYBOZU_TEST_EQUAL(pb.data(), q); break;
		case 2: expect(eq, "CYBOZU_TEST_EQUAL", __LINE__); CYBOZU_TEST_EQUAL(p, qb.data()); break;
		default: expect(eq, "CYBOZU_TEST_EQUAL", __LINE__); CYBOZU_TEST_EQUAL(pb.data(), qb.data()); break;
		}
		values(eq, c.s, c.t);
		break;
	}
	case EQ_STRING: expect(c.s == c.t, "CYBOZU_TEST_EQUAL", __LINE__); CYBOZU_TEST_EQUAL(c.s, c.t); values(c.s == c.t, c.s, c.t); break;
	case EQ_DOUBLE: expect(c.a == c.b, "CYBOZU_TEST_EQUAL", __LINE__); CYBOZU_TEST_EQUAL(dbl(c.a), dbl(c.b)); values(c.a == c.b, dbl(c.a), dbl(c.b)); break;
	case EQ_FLOAT: expect((uint32_t)c.a == (uint32_t)c.b, "CYBOZU_TEST_EQUAL", __LINE__); CYBOZU_TEST_EQUAL(flt(c.a), flt(c.b)); values((uint32_t)c.a == (uint32_t)c.b, flt(c.a), flt(c.b)); break;
	case NEAR: { double e = (double)c.how / 4; expect(fabs(c.x - c.y) < e, "CYBOZU_TEST_NEAR", __LINE__); CYBOZU_TEST_NEAR(c.x, c.y, e); values(fabs(c.x - c.y) < e, c.x, c.y); break; }
	case POINTER: { const int *p = &P.ok + (c.a & 1), *q = &P.ok + (c.b & 1); expect((c.a & 1) == (c.b & 1), "CYBOZU_TEST_EQUAL_POINTER", __LINE__); CYBOZU_TEST_EQUAL_POINTER(p, q); values(p == q, (const void*)p, (const void*)q); break; }
	case ARRAY: { const std::vector<int>& v = c.v; const std::vector<int>& w = c.w; size_t n = std::min(v.size(), w.size()); for (size_t i = 0; i < n; i++) expect(v[i] == w[i], "CYBOZU_TEST_EQUAL_ARRAY", __LINE__); CYBOZU_TEST_EQUAL_ARRAY(v, w, n); for (size_t i = 0; i < n; i++) { std::ostringstream o; o << "ctest:  i=" << i << "\n"; values(v[i] == w[i], v[i], w[i], o.str()); } break; }
	case FAIL: expect(false, "CYBOZU_TEST_FAIL", __LINE__); CYBOZU_TEST_FAIL(c.s); break;
	case EXC: expect(c.how == 1, "CYBOZU_TEST_EXCEPTION", __LINE__); CYBOZU_TEST_EXCEPTION(act(c.how, c.s), std::runtime_error); if (c.how != 1) detail(c.how == 0 ? "ctest:  no exception\n" : "ctest:  unexpected exception\n"); break;
	case EXC_MSG: expect((c.how == 1 || c.how == 2) && strstr(c.s.c_str(), c.t.c_str()), "CYBOZU_TEST_EXCEPTION_MESSAGE", __LINE__); CYBOZU_TEST_EXCEPTION_MESSAGE(act(c.how, c.s), std::exception, c.t); if (c.how == 0) detail("ctest:  no exception\n"); else if (c.how == 3) detail("ctest:  unexpected exception\n"); else if (!strstr(c.s.c_str(), c.t.c_str())) detail("ctest:  bad exception msg:" + c.s + "\n"); break;
	default: expect(c.how == 0, "CYBOZU_TEST_NO_EXCEPTION", __LINE__); CYBOZU_TEST_NO_EXCEPTION(act(c.how, c.s)); break;
	}
}
static void runModule(int n)
{
	P.order.push_back(n);
	if (n >= (int)P.mods.size()) return;
	for (size_t i = 0; i < P.mods[n].checks.size(); i++) run(P.mods[n].checks[i]);
	if (P.mods[n].stop == 1) throw std::runtime_error(P.mods[n].what);
	if (P.mods[n].stop == 2) throw 1;
}
template<int N> static void mod() { runModule(N); }
struct Fix { Fix() { P.fixtures++; } ~Fix() { P.fixturesEnd++; } };
struct Setup {
	Setup() { P.inits++; if (P.initStop == 1) throw std::runtime_error(P.what); if (P.initStop == 2) throw 'x'; }
	~Setup() noexcept(false) { P.terms++; if (P.termStop == 1) throw std::runtime_error(P.what); if (P.termStop == 2) throw 'x'; }
};
CYBOZU_TEST_SETUP_FIXTURE(Setup)
CYBOZU_TEST_AUTO(first) { runModule(0); }
CYBOZU_TEST_AUTO_WITH_FIXTURE(second, Fix) { if (P.fixtures != P.fixturesEnd + 1) P.fixtures = -100; runModule(1); }
static cybozu::test::AutoRun& base() { static cybozu::test::AutoRun r(cybozu::test::autoRun); return r; }
static std::string capture(cybozu::test::AutoRun& r, const std::string& arg0, int& ret)
{
	static int fd = memfd_create("out", MFD_CLOEXEC), keep = dup(1);
	fflush(stdout); std::cout.flush();
	if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) abort();
	dup2(fd, 1);
	std::vector<char> a(arg0.begin(), arg0.end()); a.push_back(0);
	char *argv[] = { a.data(), 0 };
	std::string err; bool thrown = false;
	try { ret = r.run(1, argv); } catch (...) { thrown = true; }
	std::cout.flush(); fflush(stdout); dup2(keep, 1);
	REQUIRE_MSG(!thrown, "an exception left run()");
	off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0);
	if (n && pread(fd, &s[0], n, 0) != n) abort();
	return s;
}
PROP_W(run, 3)
{
	static const char *const names[] = { "first", "second", "m2", "m3", "m4", "m5" };
	static void (*const fn[])() = { 0, 0, mod<2>, mod<3>, mod<4>, mod<5> };
	P = Plan();
	size_t nm = 2 + g.below(5);
	bool faulty = g.chance(2, 3);
	auto text = [&] { return g.text(g.size(g.chance(1, 6) ? 80 : 6), "ab%\n "); };
	for (size_t m = 0; m < nm; m++) {
		Module M; M.stop = faulty && g.chance(1, 8) ? 1 + (int)g.below(2) : 0; M.what = text();
		size_t k = g.size(5);
		while (k--) {
			Check c = Check(); c.kind = (Kind)g.below(KINDS); c.how = 0; c.x = c.y = 0;
			bool bad = faulty && g.chance(1, 5);
			static const uint64_t vals[] = { 0, 1, 2, 0x80000000u, 0xffffffffu, 0x7fffffff, ~uint64_t(0), uint64_t(1) << 32, 0x8000000000000000u, 0x7ff8000000000000u, 0x7ff0000000000000u, 0x3ff0000000000000u, 0x7fc00000, 0x7f800000, 0x3f800000, 0xffffffff80000000u };
			auto val = [&] { return g.chance(1, 3) ? g.bits(64) : vals[g.below(16)]; };
			c.a = val(); c.b = c.a; c.s = text(); c.t = c.s; c.v.clear();
			if (bad) { c.b = val(); if (g.chance(1, 3)) c.b = c.a ^ (uint64_t(1) << g.below(64)); c.t = text(); }
			switch (c.kind) {
			case ASSERT: c.a = !bad; break;
			case EQ_MIXED: c.b = bad ? val() : g.boolean() ? g.below(100) : (uint64_t)(int64_t)-(int)g.below(100); c.a = bad ? c.a : (size_t)(int)c.b; c.how = (int)g.below(2); break;
			case EQ_STR: c.how = (int)g.below(4); break;
			case NEAR: c.x = (double)g.below(9) / 8; c.how = 1 + (int)g.below(3); c.y = c.x + (bad ? 1 : -1) * (double)c.how / 8; if (bad) { c.y = g.pick(std::vector<double>{ c.x + c.how / 4., c.x - c.how / 4., NAN, INFINITY, -INFINITY, c.x + c.how / 4. - 1. / 1024 }); } break;
			case POINTER: break;
			case ARRAY: { size_t n = g.chance(1, 400) ? 60000 + g.below(20000) : g.chance(1, 30) ? g.below(400) : g.size(4); for (size_t i = 0; i < n; i++) c.v.push_back((int)g.below(3)); c.w = c.v; if (bad && n) c.w[g.below(n)]++; break; }
			case FAIL: if (!bad) c.kind = ASSERT, c.a = 1; break;
			case EXC: c.how = bad ? (int)g.below(4) : 1; break;
			case EXC_MSG: c.how = bad ? (int)g.below(4) : 1 + (int)g.below(2); if (!bad && c.s.size()) c.t = c.s.substr(g.below(c.s.size())); break;
			case NO_EXC: c.how = bad ? (int)g.below(4) : 0; break;
			default: break;
			}
			M.checks.push_back(c);
		}
		P.mods.push_back(M);
	}
	P.initStop = faulty && g.chance(1, 20) ? 1 + (int)g.below(2) : 0; P.termStop = faulty && g.chance(1, 20) ? 1 + (int)g.below(2) : 0; P.what = text();
	std::string dir = g.pick(std::vector<std::string>{ "", "./", "/a/b/", "x.y/", "/", "a//" }), stem = g.text(1 + g.size(5), "abc_-"), ext = g.pick(std::vector<std::string>{ "", ".exe", ".x.y", "." });
	cybozu::test::autoRun = base();
	for (size_t m = 2; m < nm; m++) cybozu::test::autoRun.append(names[m], fn[m]);
	g.note() << nm << " modules";
	for (size_t m = 0; m < nm; m++) { g.note() << " [" << P.mods[m].checks.size() << " checks, stop " << P.mods[m].stop << "]"; for (const Check& c : P.mods[m].checks) g.note() << " kind" << c.kind << "(" << c.a << "," << c.b << "," << show(c.s) << "," << show(c.t) << "," << c.x << "," << c.y << "," << c.how << ")"; }
	g.note() << " init " << P.initStop << " term " << P.termStop << " name " << show(dir + stem + ext);
	int ret = -1;
	std::string out = capture(cybozu::test::autoRun, dir + stem + ext, ret);
	g.nontrivial(P.ok + P.ng > 1);
	bool any = P.initStop || P.termStop || P.ng;
	size_t at = 0;
	REQUIRE_EQ(P.inits, 1);
	if (P.initStop) { REQUIRE(P.order.empty()); REQUIRE_EQ(P.terms, 0); }
	else {
		REQUIRE_EQ(P.terms, 1); REQUIRE_EQ(P.order.size(), nm);
		REQUIRE_EQ(P.fixtures, 1); REQUIRE_EQ(P.fixturesEnd, 1);
		for (size_t m = 0; m < nm; m++) {
			REQUIRE_EQ(P.order[m], (int)m);
			std::string s = std::string("ctest:module=") + names[m] + "\n"; size_t p = out.find(s, at); REQUIRE_MSG(p != std::string::npos, "module " << names[m] << " is not announced in " << show(out)); at = p;
			if (P.mods[m].stop) { P.exc++; any = true; s = std::string(names[m]) + " is stopped by "; p = out.find(s, at); REQUIRE_MSG(p != std::string::npos, "the exception in " << names[m] << " is not reported"); if (P.mods[m].stop == 1) REQUIRE(out.compare(p + s.size(), 10 + P.mods[m].what.size(), "exception " + P.mods[m].what) == 0); }
		}
	}
	REQUIRE_MSG(ret == (any ? 1 : 0), "exit code " << ret << " with " << P.ng << " failed checks, output " << show(out));
	at = 0; // the values and reasons, in order
	for (auto& d : P.details) { size_t p = out.find(d, at); REQUIRE_MSG(p != std::string::npos, "the output does not show " << show(d) << " after " << at << " in " << show(out)); at = p + d.size(); }
	{ size_t n = 0, m = 0; for (auto& d : P.details) n += d.find("ctest:  lhs=") != std::string::npos; for (size_t p = 0; (p = out.find("ctest:  lhs=", p)) != std::string::npos; p++) m++; REQUIRE_MSG(n == m, m << " pairs of values for " << n << " failed comparisons"); }
	at = 0; // every failed check is shown with its line, in order
	std::map<std::string, int> need; for (auto& l : P.lines) need[l]++;
	for (auto& i : need) { int n = 0; for (size_t p = 0; (p = out.find(i.first, p)) != std::string::npos; p++) n++; REQUIRE_MSG(n == i.second, i.first << " is reported " << n << " times instead of " << i.second); }
	int shown = 0; for (size_t p = 0; (p = out.find("):ctest:CYBOZU_TEST_", p)) != std::string::npos; p++) shown++;
	REQUIRE_EQ(shown, P.ng);
	std::ostringstream o; o << "ctest:name=" << stem << ", module=" << nm << ", total=" << P.ok + P.ng + P.exc << ", ok=" << P.ok << ", ng=" << P.ng << ", exception=" << P.exc << "\n";
	if (P.initStop || P.termStop) REQUIRE(out.find("ctest:err:") != std::string::npos && out.find(o.str()) == std::string::npos);
	else REQUIRE_MSG(out.size() >= o.str().size() && out.compare(out.size() - o.str().size(), std::string::npos, o.str()) == 0, "the summary is not " << o.str() << " in " << show(out));
}
PROP(compare)
{
	using cybozu::test::isEqual;
	uint64_t a = g.chance(1, 2) ? g.bits(64) : g.bits(12), b = g.chance(1, 3) ? a : g.chance(1, 2) ? a ^ (uint64_t(1) << g.below(64)) : g.bits(64);
	g.note() << a << " and " << b;
	g.nontrivial(a != b);
	REQUIRE_EQ(isEqual((size_t)a, (size_t)b), a == b);
	REQUIRE_EQ(isEqual((uint64_t)a, (uint64_t)b), a == b);
	REQUIRE_EQ(isEqual((int)a, (int)b), (int)a == (int)b);
	REQUIRE_EQ(isEqual((size_t)a, (int)b), (size_t)a == (size_t)(int)b);
	REQUIRE_EQ(isEqual((int)a, (size_t)b), (size_t)(int)a == (size_t)b);
	REQUIRE_EQ(isEqual((uint8_t)a, (int)(b & 255)), (a & 255) == (b & 255));
	REQUIRE_EQ(isEqual(dbl(a), dbl(b)), a == b);
	REQUIRE_EQ(isEqual(flt(a), flt(b)), (uint32_t)a == (uint32_t)b);
	std::string s = g.text(g.size(5), "ab"), t = g.chance(1, 3) ? s : g.text(g.size(5), "ab");
	REQUIRE_EQ(isEqual(s.c_str(), t.c_str()), s == t);
	REQUIRE_EQ(isEqual(s, t), s == t);
	REQUIRE_EQ(isEqual(s, t.c_str()), s == t);
	REQUIRE_EQ(isEqual(s.c_str(), t), s == t);
}
