// starting processes: arguments, descriptors, end and exit code, and every failure on the way
#include <pbt.h>
#include <cybozu/process.hpp>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <signal.h>
#include <stdarg.h>
#include <set>
#include <map>
#include <memory>
using pbt::G; using pbt::show;
// faults
static pid_t self;
static int failFork, failPipe, failFcntl, intrRead, failNull, failDup; // failNull: which open of /dev/null fails in the child
extern "C" {
pid_t __real_fork(); int __real_pipe(int*); ssize_t __real_read(int, void*, size_t); int __real_open(const char*, int, ...); int __real_fcntl(int, int, ...); int __real_dup2(int, int); int __real_pipe2(int*, int);
pid_t __wrap_fork() { if (failFork) { errno = EAGAIN; return -1; } return __real_fork(); }
int __wrap_pipe(int *p) { if (failPipe) { errno = EMFILE; return -1; } return __real_pipe(p); }
int __wrap_pipe2(int *p, int f) { if (failPipe) { errno = EMFILE; return -1; } return __real_pipe2(p, f); }
ssize_t __wrap_read(int fd, void *p, size_t n) { if (intrRead > 0) { intrRead--; errno = EINTR; return -1; } return __real_read(fd, p, n); }
int __wrap_open(const char *path, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); if (getpid() != self && failNull && --failNull == 0) { errno = EMFILE; return -1; } return __real_open(path, f, m); }
int __wrap_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a); if (failFcntl && cmd == F_SETFD) { errno = EINVAL; return -1; } return __real_fcntl(fd, cmd, v); }
int __wrap_dup2(int a, int b) { if (getpid() != self && failDup && --failDup == 0) { errno = EBADF; return -1; } return __real_dup2(a, b); }
}
static void clearFaults() { failFork = failPipe = failFcntl = intrRead = failNull = failDup = 0; }
static struct rlimit lim;
static void limit(rlim_t n) { struct rlimit r = { std::min(n, lim.rlim_max), lim.rlim_max }; setrlimit(RLIMIT_NOFILE, &r); }
struct Scratch {
	char name[32];
	Scratch() { self = getpid(); clearFaults(); static bool once = false; if (!once) { once = true; getrlimit(RLIMIT_NOFILE, &lim); } limit(256); strcpy(name, "c34_XXXXXX"); if (!mkdtemp(name)) throw std::runtime_error("mkdtemp"); }
	std::string path(const std::string& s) const { return std::string(name) + "/" + s; }
	~Scratch() { clearFaults(); reap(); for (const char *f : { "out", "err", "fifo", "noexec", "buf", "x", "in" }) unlink(path(f).c_str()); rmdir(path("dir").c_str()); rmdir(name); }
	static void reap() { while (waitpid(-1, 0, 0) > 0 || errno == EINTR) {} }
};
static std::string slurp(const std::string& p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof(b), f)) > 0) s.append(b, n); fclose(f); return s; }
static int openFds() { int n = 0; for (int i = 0; i < 6000; i++) if (__real_fcntl(i, F_GETFD) >= 0) n++; return n; }
static bool ended(cybozu::Process& p, int *code) // wait for the end
{
	for (int i = 0; i < 20000; i++) { int c = 77; if (!p.isAlive(&c)) { *code = c; return true; } REQUIRE_MSG(c == 0, "exit code of a running process"); usleep(500); }
	return false;
}
static bool noChild() { siginfo_t si; memset(&si, 0, sizeof(si)); return waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) < 0 && errno == ECHILD; }
PROP_W(arguments, 2)
{
	Scratch dir; std::string out = dir.path("out");
	std::vector<std::string> arg, given;
	size_t n = g.size(8);
	bool list = g.boolean();
	if (!list && n > 6) n = 6;
	for (size_t i = 0; i < n; i++) given.push_back(g.text(g.chance(1, 12) ? g.below(5000) : g.size(8), "ab \"'\\$*`;|&<>\n\t%\xe3\xff-"));
	arg.push_back("-c"); arg.push_back("printf '%s\\0' \"$@\" > \"$0\""); arg.push_back(out); 
	for (auto& s : given) arg.push_back(s);
	bool null = g.boolean();
	g.note() << (list ? null ? "list, no stdio" : "list" : "parameters") << ":"; for (auto& s : given) g.note() << " " << show(s);
	g.nontrivial(n > 0);
	cybozu::Process p; int fds = openFds(); bool ok;
	if (list) ok = p.run("/bin/sh", arg, null);
	else { arg.resize(9); ok = p.run("/bin/sh", arg[0], arg[1], arg[2], arg[3], arg[4], arg[5], arg[6], arg[7], arg[8]); std::vector<std::string> v; for (auto& s : given) if (!s.empty()) v.push_back(s); given = v; }
	REQUIRE(ok && p.isValid());
	int code = 77; REQUIRE(ended(p, &code)); REQUIRE_EQ(code, 0);
	std::string want; for (auto& s : given) want += s + std::string(1, 0);
	if (given.empty()) want = std::string(1, 0);
	std::string got = slurp(out);
	REQUIRE_MSG(got == want, "the process got " << show(got) << " instead of " << show(want));
	REQUIRE_EQ(openFds(), fds); REQUIRE(noChild());
}
PROP_W(end, 1.5) // alive until it ends, then the exit code
{
	Scratch dir; std::string fifo = dir.path("fifo"); if (mkfifo(fifo.c_str(), 0600)) DISCARD();
	int code = g.chance(1, 3) ? (int)g.below(256) : (int)g.below(4); bool sig = g.chance(1, 4); int signo = sig ? g.pick(std::vector<int>{ SIGKILL, SIGTERM, SIGHUP }) : 0;
	std::string script = "read x < " + fifo + "; " + (sig ? "kill -" + std::to_string(signo) + " $$; exit 3" : "exit " + std::to_string(code));
	g.note() << script;
	g.nontrivial();
	std::vector<std::string> arg; arg.push_back("-c"); arg.push_back(script);
	cybozu::Process p, q; if (g.boolean()) intrRead = (int)g.below(3);
	REQUIRE(p.run("/bin/sh", arg, g.boolean())); intrRead = 0;
	int c = 77; for (int i = 0; i < 3; i++) { REQUIRE(p.isAlive(&c)); REQUIRE_EQ(c, 0); REQUIRE(p.isAlive()); }
	bool moved = g.boolean();
	if (moved) { // the copy takes the process over
		if (g.boolean()) { q = p; REQUIRE(!p.isValid()); p = p; } else { cybozu::Process r(p); REQUIRE(!p.isValid() && r.isValid()); q = r; REQUIRE(!r.isValid()); }
		c = 77; REQUIRE(!p.isAlive(&c)); REQUIRE_EQ(c, 0); REQUIRE(q.isValid() && q.isAlive());
	}
	cybozu::Process& l = moved ? q : p;
	int fd = __real_open(fifo.c_str(), O_WRONLY); if (fd >= 0) { if (write(fd, "x\n", 2) != 2) DISCARD(); close(fd); }
	REQUIRE_MSG(ended(l, &c), "the process is reported alive after its end");
	REQUIRE_EQ(c, sig ? -1 : code);
	REQUIRE(!l.isAlive()); REQUIRE(noChild());
}
static std::string readLink(int fd) { char b[300], p[40]; snprintf(p, sizeof(p), "/proc/self/fd/%d", fd); ssize_t n = readlink(p, b, sizeof(b)); return n < 0 ? "" : std::string(b, n); }
PROP_W(descriptors, 1.5) // the process gets standard input, output and error only
{
	Scratch dir; std::string out = dir.path("out");
	std::set<int> extra; size_t n = g.size(6); int top = 256;
	if (g.chance(1, 3)) { top = (int)std::min<rlim_t>(lim.rlim_max, g.pick(std::vector<int>{ 300, 600, 1024, 1025, 1500, 2100, 4100, 5000 })); limit((rlim_t)top); if (n == 0) n = 1; }
	struct Back { ~Back() { limit(256); } } back;
	for (size_t i = 0; i < n; i++) { int want = g.chance(1, 4) ? top - 1 - (int)g.below(3) : 3 + (int)g.below(g.boolean() ? 20 : (uint64_t)top - 16), fd; if (__real_fcntl(want, F_GETFD) >= 0) continue; int pp[2]; if (__real_pipe(pp)) continue; __real_dup2(pp[0], want); fd = want; if (fd != pp[0]) close(pp[0]); if (fd != pp[1]) close(pp[1]); extra.insert(fd); }
	bool null = g.boolean();
	g.note() << (null ? "no stdio" : "stdio") << ", limit " << top << ", the parent has"; for (int f : extra) g.note() << " " << f;
	g.nontrivial(!extra.empty());
	std::set<std::string> names; for (int f : extra) names.insert(readLink(f));
	std::string std0 = readLink(0), std2 = readLink(2);
	std::vector<std::string> arg; arg.push_back("-c"); arg.push_back("exec ls -l /proc/self/fd/ > " + out);
	cybozu::Process p; bool ok = p.run("/bin/sh", arg, null);
	int fds = openFds();
	for (int f : extra) close(f);
	REQUIRE(ok);
	int c = 77; REQUIRE(ended(p, &c)); REQUIRE_EQ(c, 0);
	REQUIRE_EQ(fds, openFds() + (int)extra.size());
	std::istringstream is(slurp(out)); std::string l; std::map<int, std::string> m;
	while (std::getline(is, l)) { size_t a = l.find(" -> "); if (a == std::string::npos) continue; size_t b = l.rfind(' ', a - 1); m[atoi(l.substr(b + 1, a - b - 1).c_str())] = l.substr(a + 4); }
	REQUIRE_MSG(m.size() >= 3 && m[1].find(out) != std::string::npos, "output of ls: " << show(is.str()));
	for (auto& i : m) { if (i.first < 3) continue; REQUIRE_MSG(!names.count(i.second) && i.second.find("pipe:") == std::string::npos, "descriptor " << i.first << " is open in the process: " << i.second); }
	if (null) { REQUIRE_STREQ(m[0], "/dev/null"); REQUIRE_STREQ(m[2], "/dev/null"); } else { REQUIRE_STREQ(m[0], std0); REQUIRE_STREQ(m[2], std2); }
}
PROP_W(stdio, 0.7) // without stdio nothing reaches the output of the parent and the input is empty
{
	Scratch dir; std::string out = dir.path("x");
	int fd = __real_open(out.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), keep[3]; for (int i = 0; i < 3; i++) keep[i] = dup(i);
	bool null = g.boolean(); g.note() << (null ? "no stdio" : "stdio"); g.nontrivial();
	int in = __real_open(dir.path("in").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (write(in, "text\n", 5) != 5 || lseek(in, 0, SEEK_SET)) abort();
	fflush(0); for (int i = 0; i < 3; i++) __real_dup2(i ? fd : in, i);
	close(in);
	std::vector<std::string> arg; arg.push_back("-c"); arg.push_back("echo a || exit 9; echo b >&2 || exit 8; x=$(cat) || exit 1; if [ -z \"$x\" ]; then exit 2; else exit 3; fi");
	cybozu::Process p; bool ok = p.run("/bin/sh", arg, null); int c = 77; bool e = false;
	try { e = ok && ended(p, &c); } catch (...) { for (int i = 0; i < 3; i++) { __real_dup2(keep[i], i); close(keep[i]); } close(fd); throw; }
	for (int i = 0; i < 3; i++) { __real_dup2(keep[i], i); close(keep[i]); } close(fd);
	REQUIRE(ok && e); REQUIRE_EQ(c, null ? 2 : 3);
	REQUIRE_STREQ(slurp(out), null ? "" : "a\nb\n");
}
PROP_W(failure, 2) // a process which cannot be started: false, and no trace of it
{
	Scratch dir;
	std::string exe = dir.path("none"); int kind = (int)g.below(9); std::vector<std::string> arg(g.below(3), "a"); bool null = g.boolean();
	std::string text = g.text(1 + g.size(30), "pending");
	FILE *f = fopen(dir.path("buf").c_str(), "wb"); fputs(text.c_str(), f); // not written yet
	int fds = openFds();
	static const char *const what[] = { "no such file", "not executable", "directory", "fork fails", "pipe fails", "descriptor flag fails", "/dev/null fails", "dup2 fails", "no such file, interrupted" };
	g.note() << what[kind] << (null ? ", no stdio" : ""); g.nontrivial();
	bool maybe = false;
	switch (kind) {
	case 1: { exe = dir.path("noexec"); FILE *x = fopen(exe.c_str(), "wb"); fputs("#!/bin/sh\n", x); fclose(x); chmod(exe.c_str(), 0600); break; }
	case 2: exe = dir.path("dir"); mkdir(exe.c_str(), 0700); break;
	case 3: exe = "/bin/true"; failFork = 1; break;
	case 4: exe = "/bin/true"; failPipe = 1; break;
	case 5: exe = "/bin/true"; failFcntl = 1; maybe = true; break; // another way to set the flag may be used
	case 6: exe = "/bin/true"; null = true; failNull = 1 + (int)g.below(3); break;
	case 7: exe = "/bin/true"; null = true; failDup = 1 + (int)g.below(3); break;
	case 8: intrRead = 1 + (int)g.below(2); break;
	}
	cybozu::Process p; bool ok = false; int c = 77;
	if (g.chance(1, 2)) { // an object which had a process before
		int keep[] = { failFork, failPipe, failFcntl, intrRead, failNull, failDup }; clearFaults(); g.note() << ", second use"; REQUIRE(p.run("/bin/sh", std::vector<std::string>{ "-c", "exit 5" }) && ended(p, &c)); REQUIRE_EQ(c, 5);
		failFork = keep[0]; failPipe = keep[1]; failFcntl = keep[2]; intrRead = keep[3]; failNull = keep[4]; failDup = keep[5];
	}
	ok = p.run(exe, arg, null); clearFaults();
	if (ok && maybe) { ended(p, &c); fclose(f); return; }
	if (ok) fclose(f);
	REQUIRE_MSG(!ok, "run reports success"); REQUIRE(!p.isValid()); c = 77; REQUIRE(!p.isAlive(&c)); REQUIRE_EQ(c, 0);
	bool none = noChild(); int after = openFds(); fclose(f);
	REQUIRE_MSG(none, "a child is left behind");
	REQUIRE_MSG(after == fds, "a descriptor is left open");
	REQUIRE_STREQ(slurp(dir.path("buf")), text);
	// the object can be used again
	REQUIRE(p.run("/bin/true", std::vector<std::string>())); REQUIRE(ended(p, &c)); REQUIRE_EQ(c, 0);
}
PROP_W(escape, 0.3)
{
	std::string s = g.text(g.size(20), "a\"\\b"), r; g.note() << show(s); g.nontrivial(s.size() > 1);
	for (char c : s) { if (c == '"') r += '\\'; r += c; }
	REQUIRE_STREQ(cybozu::process::escape(s), r);
}
