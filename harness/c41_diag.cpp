// quit signals, stack traces, names and benchmark counters
#define CYBOZU_EXCEPTION_WITH_STACKTRACE
#include <pbt.h>
#include <cybozu/quit_signal_handler.hpp>
#include <cybozu/stacktrace.hpp>
#include <cybozu/exception.hpp>
#include <dlfcn.h>
#include <execinfo.h>
#include <cxxabi.h>
#include <cybozu/benchmark.hpp>
#include <sstream>
#include <memory>
#include <typeinfo>
#include <signal.h>
#include <stdio.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using pbt::G;

struct App {
	int quits = 0, depth = 0, maxDepth = 0, inside = 0;
	int raiseInside = 0;
	void quit()
	{
		quits++;
		depth++;
		maxDepth = std::max(maxDepth, depth);
		if (raiseInside) { int s = raiseInside; raiseInside = 0; raise(s); inside += quits; }
		depth--;
	}
};
struct App2 : App {};
static const int sigs[] = { SIGINT, SIGQUIT, SIGABRT, SIGTERM };
static int otherCount;
static void other(int) { otherCount++; }
PROP(quit)
{
	struct sigaction save[4], sa;
	for (int i = 0; i < 4; i++) { signal(sigs[i], SIG_IGN); sigaction(sigs[i], 0, &save[i]); }
	struct Restore { struct sigaction *s; ~Restore() { for (int i = 0; i < 4; i++) sigaction(sigs[i], &s[i], 0); signal(SIGUSR1, SIG_DFL); } } restore = { save };
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = other;
	sigaction(SIGUSR1, &sa, 0);
	otherCount = 0;
	std::unique_ptr<App[]> apps(new App[3]);
	App2 app2;
	int want[3] = { 0, 0, 0 }, want2 = 0, wantOther = 0, cur = -1, hooked = 0; // hooked : 1 App, 2 App2
	size_t n = 1 + g.size(15);
	bool nested = false;
	for (size_t i = 0; i < n; i++) {
		switch (g.below(6)) {
		case 0: cur = (int)g.below(3); hooked = 1; g.note() << "app" << cur << " "; { cybozu::QuitSignalHandler<App> h(apps[cur]); } break; // stays in force
		case 1: if (g.chance(1, 3)) { hooked = 2; g.note() << "app2 "; cybozu::QuitSignalHandler<App2> h(app2); } break;
		case 2: wantOther++; raise(SIGUSR1); g.note() << "usr1 "; break;
		default:
			{
				int s = sigs[g.below(4)];
				g.note() << "signal" << s << " ";
				App *a = hooked == 1 ? &apps[cur] : hooked == 2 ? (App*)&app2 : 0;
				int k = 1;
				if (a && g.chance(1, 3)) { a->raiseInside = sigs[g.below(4)]; g.note() << "(and " << a->raiseInside << " inside) "; k = 2; nested = true; }
				raise(s);
				if (hooked == 1) want[cur] += k; else if (hooked == 2) want2 += k;
			}
		}
	}
	g.nontrivial(nested);
	for (int i = 0; i < 3; i++) { REQUIRE_EQ(apps[i].quits, want[i]); REQUIRE_MSG(apps[i].maxDepth <= 1, "quit is entered again by a signal"); }
	REQUIRE_EQ(app2.quits, want2);
	REQUIRE_MSG(app2.maxDepth <= 1, "quit is entered again by a signal");
	REQUIRE_EQ(otherCount, wantOther);
}
// _Z names made from a small grammar
struct Name { std::string mangled, plain; };
static Name genType(G& g, int depth)
{
	static const char *t[][2] = { { "i", "int" }, { "c", "char" }, { "m", "unsigned long" }, { "d", "double" }, { "b", "bool" }, { "x", "long long" } };
	if (depth > 0 && g.chance(1, 3)) {
		Name n = genType(g, depth - 1);
		if (g.boolean()) return { "P" + n.mangled, n.plain + "*" };
		return { "PK" + n.mangled, n.plain + " const*" };
	}
	auto& e = t[g.below(6)];
	return { e[0], e[1] };
}
static std::string genId(G& g, size_t k)
{
	std::string s = std::string(1, char('a' + k)) + g.text(k == 0 && g.chance(1, 10) ? 100 + g.below(500) : g.below(8), "xyz_1");
	return s;
}
PROP(demangle)
{
	std::string out = g.boolean() ? "old" : "";
	if (g.chance(1, 4)) {
		// not a mangled name
		std::string s = g.pick(std::vector<std::string>{ "", "main", "_Z", "_ZN", "_ZN3fo", "printf@GLIBC", "(", "foo()", "a b" });
		if (s.compare(0, 2, "_Z") != 0) s += g.text(g.below(3), "? ");
		g.note() << "plain " << s;
		g.nontrivial(s.size() > 1);
		REQUIRE(!cybozu::Demangle(out, s));
		REQUIRE_STREQ(out, s);
		return;
	}
	std::string m = "_Z", p;
	size_t depth = g.below(4);
	if (depth) m += "N";
	for (size_t i = 0; i <= depth; i++) { std::string id = genId(g, i); m += std::to_string(id.size()) + id; p += (i ? "::" : "") + id; }
	if (depth) m += "E";
	if (g.chance(3, 4)) {
		// each builtin only once: substitutions are not generated
		Name a = genType(g, 0);
		m += a.mangled; p += "(" + a.plain;
		size_t n = g.below(3);
		for (size_t i = 0; i < n; i++) { Name b = genType(g, 0); m += b.mangled; p += ", " + b.plain; }
		if (g.chance(1, 3)) { Name b = genType(g, 1); m += b.mangled; p += ", " + b.plain; }
		p += ")";
	}
	g.note() << m;
	g.nontrivial(depth > 0);
	REQUIRE_MSG(cybozu::Demangle(out, m), "not demangled");
	REQUIRE_STREQ(out, p);
	// memory of the runtime is given back
	size_t before = __sanitizer_get_current_allocated_bytes();
	for (int i = 0; i < 3; i++) { std::string t; cybozu::Demangle(t, m); }
	REQUIRE_MSG(__sanitizer_get_current_allocated_bytes() <= before, "memory is lost");
	// into itself
	std::string s = m;
	REQUIRE(cybozu::Demangle(s, s));
	REQUIRE_STREQ(s, p);
}
namespace c41ns {
struct Rec { int *path; int n; cybozu::StackTrace *st; bool fail, trace; const char *name; };
__attribute__((noinline)) void stepA(Rec& r, int i);
__attribute__((noinline)) void stepB(Rec& r, int i);
__attribute__((noinline)) void stepC(Rec& r, int i);
__attribute__((noinline)) static void go(Rec& r, int i)
{
	if (i == r.n) { if (r.fail) throw cybozu::Exception(r.name, r.trace) << 12 << "x"; *r.st = cybozu::StackTrace(); asm volatile("" ::: "memory"); return; }
	switch (r.path[i]) { case 0: stepA(r, i + 1); break; case 1: stepB(r, i + 1); break; default: stepC(r, i + 1); }
	asm volatile("" ::: "memory");
}
void stepA(Rec& r, int i) { go(r, i); asm volatile("" ::: "memory"); }
void stepB(Rec& r, int i) { go(r, i); asm volatile("nop" ::: "memory"); }
void stepC(Rec& r, int i) { go(r, i); asm volatile("nop\nnop" ::: "memory"); }
}
// the frames of steps, innermost first
static void checkFrames(const std::string& s, const int *path, int n)
{
	std::vector<std::string> lines;
	std::istringstream is(s);
#ifdef NDEBUG
	REQUIRE_MSG(s.find('\n') == std::string::npos, "not one line");
	for (std::string l; is >> l;) {
		// addresses only
		char *end = 0;
		REQUIRE_MSG(l.compare(0, 2, "0x") == 0, "address " << l);
		void *p = (void*)strtoull(l.c_str(), &end, 16);
		REQUIRE_MSG(*end == 0 && p, "address " << l);
		Dl_info info;
		std::string name;
		if (dladdr((char*)p - 1, &info) && info.dli_sname) cybozu::Demangle(name, info.dli_sname);
		lines.push_back(name);
	}
#else
	REQUIRE_MSG(s.empty() || s[s.size() - 1] != '\n', "an empty line at the end");
	for (std::string l; std::getline(is, l);) {
		// object(function+offset) [address], as far as they are known
		size_t p = l.rfind("[0x");
		REQUIRE_MSG(p != std::string::npos, "no address in " << l);
		void *addr = (void*)strtoull(l.c_str() + p + 1, 0, 16);
		char **sym = backtrace_symbols(&addr, 1);
		if (!sym) DISCARD();
		std::string want = sym[0];
		free(sym);
		size_t a = want.find('('), b = a == std::string::npos ? a : want.find('+', a);
		if (b != std::string::npos) {
			std::string f = want.substr(a + 1, b - a - 1), name = f;
			int status = -1;
			if (char *d = f.empty() ? 0 : abi::__cxa_demangle(f.c_str(), 0, 0, &status)) { if (status == 0) name = d; free(d); }
			want = want.substr(0, a + 1) + name + want.substr(b);
		}
		REQUIRE_STREQ(l, want + " ");
		lines.push_back(l);
	}
#endif
	REQUIRE_MSG(lines.size() <= 32, "more frames than recorded");
	std::string got, want;
	for (auto& l : lines) { size_t p = l.find("c41ns::step"); if (p != std::string::npos) { REQUIRE_MSG(l.compare(p + 12, 16, "(c41ns::Rec&, in") == 0, "line " << l); got += l[p + 11]; } }
	for (int i = n - 1; i >= 0; i--) want += char('A' + path[i]);
	// at most 32 frames in all: the outer ones may be cut
	if (lines.size() == 32) { REQUIRE_MSG(got.size() >= 10 && want.compare(0, got.size(), got) == 0, "frames " << got << " must start " << want); }
	else REQUIRE_STREQ(got, want);
}
PROP(trace)
{
	int path[20];
	int n = (int)g.below(20);
	g.note() << "path";
	for (int i = 0; i < n; i++) { path[i] = (int)g.below(3); g.note() << " " << path[i]; }
	g.nontrivial(n > 1);
	cybozu::StackTrace st;
	REQUIRE(!st.empty());
	c41ns::Rec r = { path, n, &st, false, false, 0 };
	c41ns::go(r, 0);
	std::string s = st.toString();
	std::ostringstream os;
	os << st;
	REQUIRE_STREQ(os.str(), s);
	checkFrames(s, path, n);
	cybozu::StackTrace copy(st);
	st.clear();
	REQUIRE(st.empty());
	REQUIRE_STREQ(st.toString(), "");
	REQUIRE_STREQ(copy.toString(), s);
}
PROP(exception)
{
	int path[20];
	int n = (int)g.below(20);
	bool trace = g.chance(3, 4), nothing = g.chance(1, 5);
	g.note() << "trace " << trace << " path";
	for (int i = 0; i < n; i++) { path[i] = (int)g.below(3); g.note() << " " << path[i]; }
	g.nontrivial(n > 1);
	std::string name = g.text(g.below(10), "ab:<\n");
	c41ns::Rec r = { path, n, 0, true, trace, name.c_str() };
	try {
		c41ns::go(r, 0);
		REQUIRE(!"not thrown");
	} catch (cybozu::Exception& e) {
		std::string want = name + ":12:x";
		if (!nothing) { e << 5; want += ":5"; }
		cybozu::Exception copy(e);
		std::string s = g.boolean() ? e.toString() : e.what();
		REQUIRE_STREQ(s.substr(0, want.size()), want);
		REQUIRE_STREQ(std::string(e.what()), s); // not appended twice
		REQUIRE_STREQ(copy.toString(), s);
		REQUIRE_STREQ(copy.toString(), s);
		s.erase(0, want.size());
		if (!trace) REQUIRE_STREQ(s, "");
		else {
#ifdef NDEBUG
			const std::string head = "\n<<<STACKTRACE>>> ", tail = "";
#else
			const std::string head = "\n<<<STACKTRACE\n", tail = "\n>>>STACKTRACE";
#endif
			REQUIRE_MSG(s.size() > head.size() + tail.size(), "no trace");
			REQUIRE_STREQ(s.substr(0, head.size()), head);
			REQUIRE_STREQ(s.substr(s.size() - tail.size()), tail);
			checkFrames(s.substr(head.size(), s.size() - head.size() - tail.size()), path, n);
		}
	}
}
static int calls, sum;
static void work(int a, int b) { calls++; sum += a * b; }
static double shown; static int nShown;
static void show(double t) { shown = t; nShown++; }
// what f prints
template<class F> static std::string captured(F f)
{
	static int fd = -1;
	if (fd < 0) { FILE *t = tmpfile(); if (!t) throw std::runtime_error("tmpfile"); fd = fileno(t); }
	fflush(stdout);
	int keep = dup(1);
	if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) throw std::runtime_error("capture");
	dup2(fd, 1);
	f();
	fflush(stdout);
	dup2(keep, 1);
	close(keep);
	char buf[256];
	ssize_t n = pread(fd, buf, sizeof(buf), 0);
	return std::string(buf, n < 0 ? 0 : n);
}
PROP(bench)
{
	int N = 1 + (int)(g.chance(1, 30) ? 65530 + g.below(70000) : g.below(g.boolean() ? 10 : 3000)), a = (int)g.irange(-3, 3), b = (int)g.irange(-3, 3);
	g.note() << "count " << N << " parameters " << a << " " << b;
	g.nontrivial(N > 1);
	calls = sum = 0;
	cybozu::bench::setPutCallback(show);
	nShown = 0;
	CYBOZU_BENCH_C("", N, work, a, b);
	REQUIRE_EQ(calls, N); REQUIRE_EQ(sum, N * a * b);
	REQUIRE_EQ(cybozu::bench::g_loopNum, N);
	REQUIRE_EQ(cybozu::bench::g_clk.getCount(), 1);
	REQUIRE_EQ(nShown, 0);
	REQUIRE(cybozu::bench::g_clk.getClock() > 0 && cybozu::bench::g_clk.getClock() < (1ull << 60));
	cybozu::bench::g_clk.put(0, N);
	REQUIRE_EQ(nShown, 1);
	REQUIRE_EQ(shown, cybozu::bench::g_clk.getClock() / 1.0 / N);
	// a clock used several times
	cybozu::CpuClock c;
	int k = 1 + (int)g.below(5);
	const int many = g.chance(1, 200) ? 65530 + (int)g.below(10) : 0;
	uint64_t prev = 0;
	for (int i = 0; i < many; i++) { c.begin(); c.end(); }
	prev = c.getClock();
	for (int i = 0; i < k; i++) {
		uint64_t t0 = cybozu::CpuClock::getCpuClk();
		c.begin();
		for (volatile int j = 0; j < 200; j = j + 1) {}
		c.end();
		uint64_t t1 = cybozu::CpuClock::getCpuClk();
		REQUIRE_EQ(c.getCount(), many + i + 1);
		REQUIRE_MSG(c.getClock() >= prev && c.getClock() - prev <= t1 - t0, "the clock is not the sum of the intervals");
		prev = c.getClock();
	}
	c.put("", 7);
	REQUIRE_EQ(nShown, 2);
	REQUIRE_EQ(shown, prev / double(many + k) / 7);
	// the text
	{
		cybozu::bench::setPutCallback(0);
		cybozu::CpuClock one;
		one.begin();
		const uint64_t until = cybozu::CpuClock::getCpuClk() + (uint64_t(1) << g.below(24));
		while (cybozu::CpuClock::getCpuClk() < until) {}
		one.end();
		const int div = g.chance(2, 3) ? 1 : 1 + (int)g.below(5000);
		std::string msg = g.boolean() ? "" : g.text(1 + g.below(6), "ab %d"), out = captured([&]() { if (msg.empty() && g.boolean()) one.put(0, div); else if (div == 1) one.put(msg.c_str()); else one.put(msg.c_str(), div); });
		double t = one.getClock() / 1.0 / div;
		char buf[64];
#ifdef CYBOZU_BENCH_DONT_USE_RDTSC
		const char *const unit[] = { "msec", "usec", "nsec" };
#else
		const char *const unit[] = { "Mclk", "Kclk", " clk" };
#endif
		if (t > 1e6) snprintf(buf, sizeof(buf), "%7.3f%s", t * 1e-6, unit[0]);
		else if (t > 1e3) snprintf(buf, sizeof(buf), "%7.3f%s", t * 1e-3, unit[1]);
		else snprintf(buf, sizeof(buf), "%6.2f%s", t, unit[2]);
		REQUIRE_STREQ(out, msg.empty() ? std::string(buf) : msg + " " + buf + "\n");
	}
	c.clear();
	REQUIRE_EQ(c.getCount(), 0); REQUIRE_EQ(c.getClock(), (uint64_t)0);
#ifdef CYBOZU_BENCH_DONT_USE_RDTSC
	{ // nanoseconds of this process
		auto now = [] { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return uint64_t(t.tv_sec) * 1000000000 + t.tv_nsec; };
		uint64_t t0 = now(), t = cybozu::CpuClock::getCpuClk(), t1 = now();
		REQUIRE_MSG(t0 <= t && t <= t1, "the clock shows " << t << " between " << t0 << " and " << t1);
	}
#endif
	if (g.chance(1, 50)) {
		calls = 0;
		CYBOZU_BENCH("", work, a, b);
		const int n1 = cybozu::bench::g_loopNum, cnt = cybozu::bench::g_clk.getCount();
		REQUIRE_MSG(cnt > 0 && calls == n1 * cnt, "calls " << calls << " loops " << n1 << "*" << cnt);
		calls = 0;
		double clk = -1;
		const uint64_t t0 = cybozu::CpuClock::getCpuClk();
		CYBOZU_BENCH_T(clk, work, a, b);
		const uint64_t t1 = cybozu::CpuClock::getCpuClk();
		REQUIRE_MSG(clk * calls <= (t1 - t0) * 1.0001, "each of " << calls << " calls takes " << clk << " of " << t1 - t0);
		REQUIRE_MSG(clk > 0 && calls > 0 && calls % n1 == 0, "calls " << calls << " clock " << clk);
	}
}
