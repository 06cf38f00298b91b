// the log: every message of sufficient priority arrives exactly once, complete and in order, at the current destinations
#include <pbt.h>
#include <cybozu/log.hpp>
#include <map>
#include <memory>
#include <thread>
#include <atomic>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <syslog.h>
#include <stdarg.h>
using pbt::G; using pbt::show;
static std::vector<std::pair<int, std::string>> sys; // what went to syslog
static void toSys(int pri, const char *fmt, va_list a) { char *p; if (vasprintf(&p, fmt, a) < 0) abort(); std::string s(p); free(p); if (s.size() && s[s.size() - 1] == '\n') s.resize(s.size() - 1); sys.push_back(std::make_pair(pri, s)); }
static int failClose;
static std::atomic<int> shake; // another thread may run between two calls
static void yieldNow() { if (!shake) return; static std::atomic<unsigned> n; unsigned x = (n++) * 2654435761u >> 28; if (x < 6) sched_yield(); else if (x < 10) usleep(x * 8); }
extern "C" {
int __real_fclose(FILE*);
int __wrap_fclose(FILE *fp) { int r = __real_fclose(fp); if (failClose && --failClose == 0) { errno = EIO; return EOF; } return r; }
int __real_fflush(FILE*); int __real_fputs(const char*, FILE*); int __real_fputc(int, FILE*); size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __wrap_fprintf(FILE *fp, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = (vfprintf)(fp, fmt, a); va_end(a); yieldNow(); return r; }
int __real_vfprintf(FILE*, const char*, va_list); int __wrap_vfprintf(FILE *fp, const char *fmt, va_list a) { int r = __real_vfprintf(fp, fmt, a); yieldNow(); return r; }
int __wrap_fputs(const char *s, FILE *fp) { int r = __real_fputs(s, fp); yieldNow(); return r; }
int __wrap_fputc(int c, FILE *fp) { int r = __real_fputc(c, fp); yieldNow(); return r; }
int __real_putc(int, FILE*); int __wrap_putc(int c, FILE *fp) { int r = __real_putc(c, fp); yieldNow(); return r; }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *fp) { size_t r = __real_fwrite(p, s, n, fp); yieldNow(); return r; }
int __wrap_fflush(FILE *fp) { int r = __real_fflush(fp); yieldNow(); return r; }
void __wrap_syslog(int pri, const char *fmt, ...) { va_list a; va_start(a, fmt); toSys(pri, fmt, a); va_end(a); }
void __wrap_vsyslog(int pri, const char *fmt, va_list a) { toSys(pri, fmt, a); }
void __wrap___syslog_chk(int pri, int, const char *fmt, ...) { va_list a; va_start(a, fmt); toSys(pri, fmt, a); va_end(a); }
void __wrap___vsyslog_chk(int pri, int, const char *fmt, va_list a) { toSys(pri, fmt, a); }
}
struct Scratch {
	char name[32];
	Scratch() { strcpy(name, "c33_XXXXXX"); if (!mkdtemp(name)) throw std::runtime_error("mkdtemp"); }
	std::string path(const std::string& s) const { return std::string(name) + "/" + s; }
	~Scratch() { for (const char *f : { "a", "b", "c", "t0" }) unlink(path(f).c_str()); rmdir(path("d").c_str()); rmdir(name); }
};
static std::string slurp(const std::string& p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof(b), f)) > 0) s.append(b, n); fclose(f); return s; }
static int openFds() { int n = 0; for (int i = 0; i < 128; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
struct Err { // standard error is collected while this lives
	int keep, fd;
	Err() : keep(dup(2)), fd(memfd_create("err", MFD_CLOEXEC)) { fflush(stderr); dup2(fd, 2); }
	std::string text() { fflush(stderr); off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); if (n && pread(fd, &s[0], n, 0) != n) abort(); return s; }
	void clear() { fflush(stderr); if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) abort(); }
	~Err() { fflush(stderr); dup2(keep, 2); close(keep); close(fd); }
};
static time_t now() { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec; } // time() may lag behind
struct Line { std::string msg; bool msec; time_t from, to; };
static void compare(const std::string& where, const std::string& text, const std::vector<Line>& want)
{
	size_t at = 0;
	for (size_t i = 0; i < want.size(); i++) {
		const Line& w = want[i];
		size_t n = w.msec ? 23 : 19;
		REQUIRE_MSG(text.size() >= at + n + 2 + w.msg.size(), "message " << i << " of " << want.size() << " is missing in " << where << ", which holds " << show(text.substr(at)));
		std::string stamp = text.substr(at, n);
		struct tm tm; memset(&tm, 0, sizeof(tm));
		int ms = 0, used = 0;
		int got = w.msec ? sscanf(stamp.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%3d%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &ms, &used) : sscanf(stamp.c_str(), "%4d-%2d-%2d %2d:%2d:%2d%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &used);
		REQUIRE_MSG(got == (w.msec ? 7 : 6) && used == (int)n && text[at + n] == ' ', "bad time in " << show(text.substr(at, n + 1)));
		tm.tm_year -= 1900; tm.tm_mon--;
		time_t t = timegm(&tm);
		REQUIRE_MSG(t >= w.from && t <= w.to, "time " << show(stamp) << " is not that of the message");
		REQUIRE_MSG(text.compare(at + n + 1, w.msg.size(), w.msg) == 0 && text[at + n + 1 + w.msg.size()] == '\n', "message " << i << " in " << where << " should be " << show(w.msg) << " and is " << show(text.substr(at + n + 1, w.msg.size() + 1)));
		at += n + 2 + w.msg.size();
	}
	REQUIRE_MSG(at == text.size(), where << " holds more than the " << want.size() << " messages: " << show(text.substr(at)));
}
static int sysPri(int p) { return p == cybozu::LogDebug ? LOG_DEBUG : p == cybozu::LogInfo ? LOG_INFO : p == cybozu::LogWarning ? LOG_WARNING : LOG_CRIT; }
PROP_W(history, 3)
{
	Scratch dir; sys.clear();
	std::vector<std::pair<int, std::string>> sysWant;
	Err err;
	static const char *const names[] = { "a", "b", "c" };
	FILE *own[2]; std::string ownPath[2]; size_t cap[2];
	char *mem[2]; for (int i = 0; i < 2; i++) { own[i] = open_memstream(&mem[i], &cap[i]); }
	std::map<int, std::vector<Line>> want; // 0..2 files, 3..4 own streams, 5 stderr
	int fds = openFds();
	// through the functions of the library (one logger for the process) or a logger object
	bool global = g.boolean();
	std::unique_ptr<cybozu::log_local::Logger> L(global ? 0 : new cybozu::log_local::Logger);
	cybozu::log_local::Logger& G1 = cybozu::log_local::Logger::getInstance();
	cybozu::log_local::Logger *lg = global ? &G1 : L.get();
	int dest = 5, prio = cybozu::LogInfo; bool useSys = true, msec = false;
	if (global) { cybozu::SetLogFILE(stderr); cybozu::useSyslog(true); cybozu::SetLogPriority(cybozu::LogInfo); cybozu::SetLogUseMsec(false); }
	size_t nops = 1 + g.size(14), puts = 0;
	g.note() << (global ? "global" : "object");
	for (size_t k = 0; k < nops; k++) {
		cybozu::LogPriority p = (cybozu::LogPriority)g.below(4);
		switch (g.below(16)) {
		case 0: case 1: { int f = (int)g.below(3); g.note() << " open " << names[f]; if (global) cybozu::OpenLogFile(dir.path(names[f])); else lg->openFile(dir.path(names[f])); dest = f; useSys = false; break; }
		case 2: { int f = (int)g.below(4); g.note() << " set " << f; FILE *fp = f == 0 ? 0 : f < 3 ? own[f - 1] : stderr; if (global) cybozu::SetLogFILE(fp); else lg->set(fp); dest = f == 0 ? -1 : f < 3 ? 2 + f : 5; useSys = false; break; }
		case 3: useSys = g.boolean(); g.note() << " syslog " << useSys; if (global) cybozu::useSyslog(useSys); else lg->useSyslog(useSys); break;
		case 4: prio = (int)p; g.note() << " priority " << prio; if (global) cybozu::SetLogPriority(p); else lg->setPriority(p); break;
		case 5: msec = g.boolean(); g.note() << " msec " << msec; if (global) cybozu::SetLogUseMsec(msec); else lg->setUseMsec(msec); break;
		case 6: { // a path which can not be opened changes nothing
			g.note() << " open fails"; mkdir(dir.path("d").c_str(), 0700);
			std::string bad = g.boolean() ? dir.path("d") : dir.path("no/such");
			if (global) { REQUIRE_THROWS(cybozu::OpenLogFile(bad)); } else { REQUIRE_THROWS(lg->openFile(bad)); }
			break;
		}
		case 7: if (!global || g.boolean()) { g.note() << " close"; REQUIRE(lg->closeFile()); if (dest >= 0 && dest < 3) dest = -1; } break;
		default: {
			std::string t = g.text(g.chance(1, 8) ? g.below(9000) : g.size(20), "abc %\n\xe3"); int v = (int)g.bits(32); std::string m;
			g.note() << " put " << (int)p << " " << show(t);
			Line w; w.msec = msec; w.from = now();
			int how = global ? (int)g.below(4) : 4;
			switch (how) {
			case 0: cybozu::PutLog(p, "%s", t.c_str()); m = t; break;
			case 1: cybozu::PutLog(p, "<%s>%d %5.2f", t.c_str(), v, 2.5); m = "<" + t + ">" + std::to_string(v) + "  2.50"; break;
			case 2: { cybozu::Log log(p); log << t << v << 'c' << 2.5; m = t + std::to_string(v) + "c2.5"; break; }
			case 3: cybozu::Log(p) << t; m = t; break;
			default: lg->put(p, t); m = t; break;
			}
			if (how == 3 && p == cybozu::LogInfo && g.boolean()) { w.msg = m; w.to = now(); if ((int)p >= prio) { if (dest >= 0) want[dest].push_back(w); if (useSys) sysWant.push_back(std::make_pair(sysPri(p), m)); } cybozu::Log() << "default"; m = "default"; }
			w.msg = m; w.to = now();
			if ((int)p >= prio) { puts++; if (dest >= 0) want[dest].push_back(w); if (useSys) sysWant.push_back(std::make_pair(sysPri(p), m)); }
		}
		}
		// the message is there at once, no flush is needed
		if (dest >= 0 && dest < 3) compare(names[dest], slurp(dir.path(names[dest])), want[dest]);
		g.nontrivial(puts > 1);
	}
	if (global) { cybozu::SetLogFILE(0); REQUIRE(lg->closeFile()); } else L.reset();
	for (int i = 0; i < 3; i++) compare(names[i], slurp(dir.path(names[i])), want[i]);
	compare("stderr", err.text(), want[5]);
	for (int i = 0; i < 2; i++) { REQUIRE(fputs("still open", own[i]) >= 0); REQUIRE_EQ(fclose(own[i]), 0); std::string s(mem[i], cap[i]); free(mem[i]); REQUIRE(s.size() >= 10); compare("stream", s.substr(0, s.size() - 10), want[3 + i]); }
	REQUIRE_EQ(sys.size(), sysWant.size());
	for (size_t i = 0; i < sys.size(); i++) {
		REQUIRE_MSG(sys[i].second == sysWant[i].second, "syslog got " << show(sys[i].second));
		REQUIRE_EQ(sys[i].first & 7, sysWant[i].first);
	}
	REQUIRE_MSG(openFds() == fds, "a descriptor is left open or was closed");
}
PROP_W(append, 0.7) // a log file is continued, also when two loggers write to it
{
	Scratch dir; std::string path = dir.path("a");
	std::string old = g.chance(1, 2) ? g.text(g.size(30), "old\n") : "";
	if (old.size()) { FILE *f = fopen(path.c_str(), "wb"); fwrite(old.data(), 1, old.size(), f); fclose(f); }
	size_t n = 1 + g.size(8), who = 0;
	g.note() << n << " messages after " << show(old);
	g.nontrivial(n > 1);
	int fds = openFds();
	std::vector<Line> want;
	{
		std::unique_ptr<cybozu::log_local::Logger> l[2]; for (auto& x : l) { x.reset(new cybozu::log_local::Logger); x->openFile(path); }
		for (size_t i = 0; i < n; i++) {
			who = g.below(2); g.note() << " " << who;
			Line w; w.msec = false; w.msg = g.text(g.size(10), "xyz"); w.from = now(); l[who]->put(cybozu::LogError, w.msg); w.to = now(); want.push_back(w);
			if (g.chance(1, 5)) { l[who].reset(new cybozu::log_local::Logger); l[who]->openFile(path); g.note() << "reopened"; }
		}
	}
	std::string s = slurp(path);
	REQUIRE(s.compare(0, old.size(), old) == 0);
	compare("file", s.substr(std::min(s.size(), old.size())), want);
	REQUIRE_EQ(openFds(), fds);
}
PROP_W(full, 0.5) // a full disk: reported on standard error, no exception, nothing leaks, and the log goes on with another file
{
	if (access("/dev/full", W_OK) != 0) DISCARD();
	Scratch dir; Err err;
	int fds = openFds();
	size_t n = 1 + g.below(3);
	g.note() << n << " messages to a full device";
	g.nontrivial();
	{
		cybozu::log_local::Logger l;
		l.openFile("/dev/full"); l.useSyslog(false);
		for (size_t i = 0; i < n; i++) l.put(cybozu::LogError, "lost" + std::to_string(i));
		std::string t = err.text();
		for (size_t i = 0; i < n; i++) REQUIRE_MSG(t.find("lost" + std::to_string(i)) != std::string::npos, "the failure is not reported");
		failClose = (int)g.below(2); g.note() << (failClose ? ", then a failing close" : ""); bool viaSet = g.chance(1, 3);
		try { if (viaSet) l.set(0); else l.openFile(dir.path("b")); } catch (std::exception&) { g.label("close reported"); }
		failClose = 0;
		REQUIRE_EQ(l.closeFile(), true);
		l.openFile(dir.path("b")); l.put(cybozu::LogError, "ok");
		std::string s = slurp(dir.path("b")); REQUIRE(s.size() > 4 && s.compare(s.size() - 4, 4, " ok\n") == 0);
	}
	REQUIRE_MSG(openFds() == fds, "a descriptor is left open");
}
PROP_W(threads, 0.3)
{
	Scratch dir; cybozu::OpenLogFile(dir.path("a")); cybozu::SetLogPriority(cybozu::LogInfo); cybozu::SetLogUseMsec(false);
	size_t nt = 2 + g.below(g.chance(1, 4) ? 10 : 3), per = 1 + g.below(20), len = g.chance(1, 10) ? g.below(5000) : g.size(60);
	bool sh = !g.chance(1, 4);
	g.note() << nt << " threads, " << per << " messages of " << len << (sh ? ", perturbed" : "");
	g.nontrivial();
	std::vector<std::thread> th; shake = sh;
	for (size_t t = 0; t < nt; t++) th.emplace_back([=] { for (size_t i = 0; i < per; i++) { std::string x(len, char('a' + t)); if (i & 1) cybozu::PutLog(cybozu::LogError, "%zu %zu %s|", t, i, x.c_str()); else cybozu::Log(cybozu::LogError) << t << ' ' << i << ' ' << x << '|'; } });
	for (auto& t : th) t.join();
	shake = 0;
	std::string s = slurp(dir.path("a")); cybozu::SetLogFILE(0);
	std::vector<size_t> next(nt, 0); size_t at = 0, lines = 0;
	while (at < s.size()) {
		size_t e = s.find('\n', at); REQUIRE(e != std::string::npos);
		std::string l = s.substr(at, e - at); at = e + 1; lines++;
		REQUIRE_MSG(l.size() > 20, "short line " << show(l));
		size_t t, i; int used = 0; REQUIRE_MSG(sscanf(l.c_str() + 20, "%zu %zu %n", &t, &i, &used) == 2 && t < nt, "line " << show(l));
		REQUIRE_EQ(i, next[t]); next[t]++;
		REQUIRE_MSG(l.substr(20 + std::to_string(t).size() + std::to_string(i).size() + 2) == std::string(len, char('a' + t)) + "|", "mixed line " << show(l));
	}
	REQUIRE_EQ(lines, nt * per);
}
