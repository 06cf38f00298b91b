// Socket and SocketAddr: connections over UNIX sockets standing in for TCP (no ports are used up), with partial, interrupted and failing system calls
#include <pbt.h>
#include <cybozu/socket.hpp>
#include <memory>
#include <map>
#include <set>
#include <thread>
#include <sys/un.h>
#include <sys/select.h>
#include <fcntl.h>
#include <stddef.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <stdarg.h>
#include <chrono>
using pbt::G; using pbt::show;
static G *gp; // faults are drawn from here while not null
static bool allowError, simulate;
static int nError, nShort, inProgress, soError;
static int lastFd = -1; // the last descriptor made
static int nInfo; // addrinfo lists not freed yet
static std::set<int> fds; // open sockets
static bool badClose, noSignal;
static struct sockaddr_storage peerAddr; static socklen_t peerLen; // given to accept
static struct sockaddr_storage seenAddr; static socklen_t seenLen; // given to bind and connect
static bool connected; // the last connect has made a connection
static bool place; // descriptors get unusual numbers
static int neverPeer = -1; // of a connection which is never ready
static char *giantBase; static size_t giantSize, giantPos; static int giantZero; static bool giantBad; // transfers of gigabytes are recorded only
static bool inject(int err, int err2 = 0) { if (!gp || !allowError || !gp->chance(1, 14)) return false; if (err2 && gp->boolean()) err = err2; nError++; errno = err; return true; }
static int placed(int fd); // moved to an unusual number
static void fill(int fd) { static char z[4096]; int f = fcntl(fd, F_GETFL); fcntl(fd, F_SETFL, f | O_NONBLOCK); for (size_t n = sizeof(z); n > 0; n /= 2) while (::send(fd, z, n, MSG_NOSIGNAL) > 0); fcntl(fd, F_SETFL, f); }
static int portOf(const struct sockaddr *a) { return a->sa_family == AF_INET ? ntohs(((const struct sockaddr_in*)a)->sin_port) : ntohs(((const struct sockaddr_in6*)a)->sin6_port); }
static socklen_t makeUn(struct sockaddr_un& u, int port) { memset(&u, 0, sizeof(u)); u.sun_family = AF_UNIX; return (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + snprintf(u.sun_path + 1, sizeof(u.sun_path) - 1, "c28.%d.%d", (int)getpid(), port)); }
static void seen(const struct sockaddr *a, socklen_t n) { seenLen = n; memset(&seenAddr, 0, sizeof(seenAddr)); memcpy(&seenAddr, a, std::min<size_t>(n, sizeof(seenAddr))); }
extern "C" {
int __real_socket(int, int, int); int __real_bind(int, const struct sockaddr*, socklen_t); int __real_connect(int, const struct sockaddr*, socklen_t); int __real_accept(int, struct sockaddr*, socklen_t*); int __real_accept4(int, struct sockaddr*, socklen_t*, int);
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int); int __real_close(int);
int __real_setsockopt(int, int, int, const void*, socklen_t); int __real_getsockopt(int, int, int, void*, socklen_t*);
int __real_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**); void __real_freeaddrinfo(struct addrinfo*);
int __wrap_socket(int d, int t, int p) { if (inject(EMFILE)) return -1; int fd = simulate ? __real_socket(AF_UNIX, t, 0) : __real_socket(d, t, p); if (fd >= 0) { fd = placed(fd); fds.insert(fd); lastFd = fd; } return fd; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n)
{
	seen(a, n);
	if (inject(EADDRINUSE)) return -1;
	if (!simulate) return __real_bind(fd, a, n);
	struct sockaddr_un u; n = makeUn(u, portOf(a)); return __real_bind(fd, (struct sockaddr*)&u, n);
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n)
{
	seen(a, n); connected = false;
	if (inject(ENETUNREACH)) return -1;
	if (!simulate) return __real_connect(fd, a, n);
	struct sockaddr_un u; n = makeUn(u, portOf(a)); 
	if (inProgress == 2) { // nobody answers
		int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0) return -1;
		int f = fcntl(fd, F_GETFL); dup2(sv[0], fd); __real_close(sv[0]); neverPeer = sv[1]; fill(fd); fcntl(fd, F_SETFL, f); errno = EINPROGRESS; return -1;
	}
	int r = __real_connect(fd, (struct sockaddr*)&u, n);
	connected = r == 0;
	if ((fcntl(fd, F_GETFL) & O_NONBLOCK) && inProgress) { soError = r == 0 ? 0 : errno; if (r != 0) { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0) { dup2(sv[0], fd); __real_close(sv[0]); __real_close(sv[1]); } fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); } errno = EINPROGRESS; return -1; }
	return r;
}
static int accepted(int fd, struct sockaddr *a, socklen_t *n)
{
	if (fd >= 0) { fd = placed(fd); fds.insert(fd); lastFd = fd; if (simulate && a && n) { memcpy(a, &peerAddr, std::min(*n, peerLen)); *n = peerLen; } }
	return fd;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) { if (inject(EMFILE)) return -1; return accepted(simulate ? __real_accept(fd, 0, 0) : __real_accept(fd, a, n), a, n); }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *n, int f) { if (inject(EMFILE)) return -1; return accepted(simulate ? __real_accept4(fd, 0, 0, f) : __real_accept4(fd, a, n, f), a, n); }
static bool before(size_t& n) // true if the call fails
{
	if (!gp) return false;
	if (inject(ECONNRESET, EAGAIN)) return true;
	if (gp->chance(1, 6)) { errno = EINTR; return true; }
	if (n > 1 && nShort < 60 && gp->chance(1, 3)) { nShort++; n = 1 + gp->below(n); }
	return false;
}
static ssize_t giant(const void *p, size_t n)
{
	if ((ssize_t)n < 0) { errno = EINVAL; return -1; }
	if (p != giantBase + giantPos || n > giantSize - giantPos) giantBad = true;
	if (n == 0 && giantPos < giantSize && ++giantZero > 100) giantBad = true;
	if (giantBad) { errno = ECONNRESET; return -1; }
	if (gp->chance(1, 5)) { errno = EINTR; return -1; }
	size_t r = std::min<size_t>(n, 0x7ffff000); if (r > 100 && gp->chance(1, 4)) r = r / 4 + gp->below(r - r / 4);
	giantPos += r; return (ssize_t)r;
}
ssize_t __wrap_read(int fd, void *p, size_t n) { if (giantBase && fds.count(fd)) return giant(p, n); if (fds.count(fd) && before(n)) return -1; return __real_read(fd, p, n); }
ssize_t __wrap_write(int fd, const void *p, size_t n) { noSignal = false; if (giantBase && fds.count(fd)) return giant(p, n); if (fds.count(fd) && before(n)) return -1; return __real_write(fd, p, n); }
ssize_t __wrap_recv(int fd, void *p, size_t n, int f) { if (giantBase && fds.count(fd)) return giant(p, n); if (fds.count(fd) && before(n)) return -1; return __real_recv(fd, p, n, f); }
ssize_t __wrap_send(int fd, const void *p, size_t n, int f) { noSignal = (f & MSG_NOSIGNAL) != 0; if (giantBase && fds.count(fd)) return giant(p, n); if (fds.count(fd) && before(n)) return -1; return __real_send(fd, p, n, f); }
int __wrap_close(int fd)
{
	if (fds.erase(fd)) { int r = __real_close(fd); if (inject(EIO)) return -1; return r; }
	if (simulate) badClose = true; // not a socket, or closed before
	return __real_close(fd);
}
int __wrap_setsockopt(int fd, int l, int o, const void *p, socklen_t n) { if (inject(ENOBUFS)) return -1; if (simulate && l == IPPROTO_IPV6) return 0; return __real_setsockopt(fd, l, o, p, n); }
int __wrap_getsockopt(int fd, int l, int o, void *p, socklen_t *n) { int r = __real_getsockopt(fd, l, o, p, n); if (simulate && inProgress && l == SOL_SOCKET && o == SO_ERROR && r == 0) *(int*)p = soError; return r; }
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hint, struct addrinfo **res)
{
	struct addrinfo x = *hint; x.ai_flags |= AI_NUMERICHOST; // no name server here
	int r = __real_getaddrinfo(h, s, &x, res); if (r == 0) nInfo++; return r;
}
int __real_listen(int, int); int __wrap_listen(int fd, int n) { if (inject(EADDRINUSE)) return -1; return __real_listen(fd, n); }
int __real_ioctl(int, unsigned long, ...); int __wrap_ioctl(int fd, unsigned long r, ...) { va_list v; va_start(v, r); void *p = va_arg(v, void*); va_end(v); if (fds.count(fd) && inject(EIO)) return -1; return __real_ioctl(fd, r, p); }
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*); int __wrap_select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *t) { if (inject(ENOMEM)) return -1; return __real_select(n, a, b, c, t); }
int __real_poll(struct pollfd*, nfds_t, int); int __wrap_poll(struct pollfd *p, nfds_t n, int t) { if (inject(ENOMEM)) return -1; return __real_poll(p, n, t); }
int __real_epoll_wait(int, struct epoll_event*, int, int); int __wrap_epoll_wait(int e, struct epoll_event *p, int n, int t) { if (inject(ENOMEM)) return -1; return __real_epoll_wait(e, p, n, t); }
int __real_epoll_create1(int); int __wrap_epoll_create1(int f) { int fd = __real_epoll_create1(f); if (fd >= 0) fds.insert(fd); return fd; }
void __wrap_freeaddrinfo(struct addrinfo *p) { nInfo--; __real_freeaddrinfo(p); }
}
__attribute__((constructor(101))) static void defaultPipe() { signal(SIGPIPE, SIG_DFL); } // before the initialisers of the library
static int placed(int fd)
{
	if (!place || !gp || !gp->chance(1, 3)) return fd;
	int nr = gp->chance(1, 4) ? 0 : FD_SETSIZE - 3 + (int)gp->below(6);
	if (nr == 0 ? fds.count(0) != 0 : fcntl(nr, F_GETFD) >= 0) return fd;
	if (fd == nr || dup2(fd, nr) != nr) return fd; // not so many allowed here
	__real_close(fd);
	return nr;
}
static int manyFiles() { struct rlimit r; if (getrlimit(RLIMIT_NOFILE, &r) == 0 && r.rlim_cur < 4096) { r.rlim_cur = std::min<rlim_t>(4096, r.rlim_max); setrlimit(RLIMIT_NOFILE, &r); } return 0; }
static int many = manyFiles();
struct World {
	World(G& g, bool faults, bool err, bool sim = true) { gp = faults ? &g : 0; allowError = err; simulate = sim; nError = nShort = inProgress = soError = 0; badClose = false; lastFd = -1; nInfo = 0; place = connected = false; giantBase = 0; for (int fd : fds) __real_close(fd); fds.clear(); }
	~World() { gp = 0; simulate = place = false; giantBase = 0; if (neverPeer >= 0) { __real_close(neverPeer); neverPeer = -1; } for (int fd : fds) __real_close(fd); fds.clear(); }
};
struct NoFaults { G *s; NoFaults() : s(gp) { gp = 0; } ~NoFaults() { gp = s; } };
template<class F> static bool throws(F f) { try { f(); return false; } catch (cybozu::Exception&) { return true; } }
static std::string addrText(G& g, bool& v6, std::string& bytes)
{
	v6 = g.boolean();
	bytes.clear();
	char buf[INET6_ADDRSTRLEN];
	if (!v6) {
		for (int i = 0; i < 4; i++) bytes += (char)(g.boolean() ? g.below(3) : g.bits(8));
	} else if (g.chance(1, 4)) { // mapped
		bytes = std::string(10, '\0') + "\xff\xff"; for (int i = 0; i < 4; i++) bytes += (char)g.below(3);
		if (g.chance(1, 3)) bytes[g.below(12)] ^= (char)(1 + g.below(255));
	} else for (int i = 0; i < 16; i++) bytes += (char)(g.boolean() ? g.below(2) : g.bits(8));
	return inet_ntop(v6 ? AF_INET6 : AF_INET, bytes.data(), buf, sizeof(buf));
}

PROP(address)
{
	World w(g, false, false);
	bool v6a, v6b; std::string ba, bb;
	std::string a = addrText(g, v6a, ba), b = addrText(g, v6b, bb);
	if (g.boolean()) { // the same address in the other form
		if (!v6a) { v6b = true; bb = std::string(10, '\0') + "\xff\xff" + ba; if (g.chance(1, 3)) bb[g.below(16)] ^= (char)(1u << g.below(8)); char buf[INET6_ADDRSTRLEN]; b = inet_ntop(AF_INET6, bb.data(), buf, sizeof(buf)); }
		else { b = a; bb = ba; v6b = v6a; }
	}
	uint16_t pa = (uint16_t)g.bits(16), pb = (uint16_t)(g.boolean() ? g.below(2000) : g.bits(16));
	bool fa = g.chance(1, 3), fb = g.chance(1, 3);
	g.note() << a << " " << pa << " " << fa << "\n" << b << " " << pb << " " << fb << "\n";
	g.nontrivial();
	auto mk = [&](const std::string& t, bool v6, std::string& raw, uint16_t port, bool force) {
		std::unique_ptr<cybozu::SocketAddr> s;
		if (g.boolean()) s.reset(new cybozu::SocketAddr(t, port, force)); else { s.reset(new cybozu::SocketAddr); if (g.boolean()) s->set("1.2.3.4", 5); REQUIRE(!throws([&] { s->set(t, port, force); })); }
		if (v6 && !force && raw.substr(0, 12) == std::string(10, '\0') + "\xff\xff") { v6 = false; raw = raw.substr(12); } // getaddrinfo takes a mapped address as IPv4
		if (!v6 && force) raw = std::string(10, '\0') + "\xff\xff" + raw;
		bool as6 = v6 || force;
		REQUIRE_EQ(s->getFamily(), as6 ? AF_INET6 : AF_INET);
		REQUIRE_EQ(s->getPort(), port);
		REQUIRE_EQ((size_t)s->getSize(), as6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in));
		REQUIRE_EQ(s->get()->sa_family, as6 ? AF_INET6 : AF_INET);
		std::string got = as6 ? std::string((const char*)&((const struct sockaddr_in6*)s->get())->sin6_addr, 16) : std::string((const char*)&((const struct sockaddr_in*)s->get())->sin_addr, 4);
		REQUIRE_STREQ(got, raw);
		char buf[INET6_ADDRSTRLEN]; inet_ntop(as6 ? AF_INET6 : AF_INET, raw.data(), buf, sizeof(buf));
		std::string want = as6 ? std::string("[") + buf + "]:" + std::to_string(port) : std::string(buf) + ":" + std::to_string(port);
		REQUIRE_STREQ(s->toStr(), want);
		REQUIRE_EQ(nInfo, 0);
		return s;
	};
	auto x = mk(a, v6a, ba, pa, fa), y = mk(b, v6b, bb, pb, fb);
	auto canon = [](const std::string& r) { return r.size() == 4 ? std::string(10, '\0') + "\xff\xff" + r : r; };
	bool same = canon(ba) == canon(bb);
	if (same) g.label("same address");
	REQUIRE_EQ(x->hasSameAddr(*y), same); REQUIRE_EQ(y->hasSameAddr(*x), same); REQUIRE(x->hasSameAddr(*x));
	cybozu::SocketAddr none;
	REQUIRE(!x->hasSameAddr(none)); REQUIRE(!none.hasSameAddr(*x)); REQUIRE(!none.hasSameAddr(none));
	REQUIRE(throws([&] { none.toStr(); })); REQUIRE(throws([&] { none.getPort(); }));
}

PROP(bad_address)
{
	World w(g, false, false);
	std::string t = g.boolean() ? g.text(g.size(20), "0123456789.:abfx[] ") : std::to_string(g.below(300)) + "." + std::to_string(g.below(300)) + "." + std::to_string(g.below(300)) + (g.boolean() ? "" : "." + std::to_string(g.below(300)));
	bool force = g.boolean();
	if (t.find('\0') != std::string::npos) DISCARD();
	g.note() << show(t) << " " << force << "\n";
	struct addrinfo hints; memset(&hints, 0, sizeof(hints)); hints.ai_flags = AI_NUMERICHOST; hints.ai_socktype = SOCK_STREAM;
	struct addrinfo *r = 0; bool valid = __real_getaddrinfo(t.c_str(), 0, &hints, &r) == 0;
	if (valid) __real_freeaddrinfo(r); else g.nontrivial();
	bool th = throws([&] { cybozu::SocketAddr s(t, 80, force); });
	REQUIRE_EQ(th, !valid);
	REQUIRE_EQ(nInfo, 0);
	if (!valid) { cybozu::Socket s; REQUIRE(throws([&] { s.connect(t, 80); })); REQUIRE(!s.isValid()); REQUIRE(fds.empty()); }
}

struct Conn { std::string buf[2]; bool done[2], closed[2], broken; Conn() : broken(false) { done[0] = done[1] = closed[0] = closed[1] = false; } }; // buf[s]: to be read by side s; done[s]: side s writes no more
struct Slot { std::unique_ptr<cybozu::Socket> s; int kind, port, side, fd; std::shared_ptr<Conn> c; bool cut; Slot() : s(new cybozu::Socket), kind(0), port(0), side(0), fd(-1), cut(false) {} };
typedef std::map<int, std::vector<std::shared_ptr<Conn> > > Queues;
struct Model {
	G& g; std::vector<Slot> v; Queues q;
	Model(G& g, size_t n) : g(g), v(n) {}
	void drop(Slot& x) // the model of close
	{
		if (x.kind == 1) { for (auto& c : q[x.port]) c->broken = true; q.erase(x.port); }
		if (x.kind == 2) { if (!x.c->buf[x.side].empty()) x.c->broken = true; x.c->done[x.side] = x.c->closed[x.side] = true; }
		x.kind = 0; x.c.reset(); x.cut = false;
	}
	void move(Slot& to, Slot& from) { to.kind = from.kind; to.port = from.port; to.side = from.side; to.fd = from.fd; to.c = from.c; to.cut = from.cut; from.kind = 0; from.c.reset(); from.cut = false; }
	void check()
	{
		size_t n = 0;
		for (auto& x : v) { REQUIRE_EQ(x.s->isValid(), x.kind != 0); n += x.kind != 0; }
		REQUIRE_MSG(fds.size() == n, std::to_string(fds.size()) + " descriptors are open and " + std::to_string(n) + " sockets are valid");
		REQUIRE_MSG(!badClose, "closed twice");
	}
};

PROP_W(history, 4)
{
	bool err = g.chance(1, 2);
	if (err) g.label("with errors");
	World w(g, true, err);
	place = g.chance(1, 3);
	if (place) g.label("unusual descriptors");
	{
	Model m(g, 5);
	size_t nops = 4 + g.size(40), moved = 0;
	for (size_t k = 0; k < nops; k++) {
		int e0 = nError; auto bad = [&] { return nError != e0; };
		Slot& x = m.v[g.below(m.v.size())];
		int me = x.side, you = 1 - me;
		int op = 3 + (int)g.below(12);
		if (x.kind == 0) op = (int)g.pick({0, 1, 1, 2, 2, 2, 12, 13, 14}); else if (x.kind == 1) op = (int)g.pick({3, 3, 9, 10, 11, 12, 13});
		switch (op) {
		case 0: { // bind
			int port = 100 + (int)g.below(3), mode = 1 + (int)g.below(3);
			g.note() << "bind " << port << " mode " << mode << "\n";
			bool t = throws([&] { mode == 3 && port == 100 ? x.s->bind((uint16_t)port) : x.s->bind((uint16_t)port, mode); });
			if (m.q.count(port)) { REQUIRE(t); break; }
			if (t) { REQUIRE_MSG(bad(), "bind failed"); break; }
			REQUIRE(!bad());
			REQUIRE_EQ(seenAddr.ss_family, (mode & 2) ? AF_INET6 : AF_INET); REQUIRE_EQ(portOf((struct sockaddr*)&seenAddr), port);
			if (mode & 2) { struct in6_addr z = IN6ADDR_ANY_INIT; REQUIRE_EQ(seenLen, sizeof(struct sockaddr_in6)); REQUIRE(memcmp(&((struct sockaddr_in6*)&seenAddr)->sin6_addr, &z, sizeof(z)) == 0); }
			else { REQUIRE_EQ(seenLen, sizeof(struct sockaddr_in)); REQUIRE(((struct sockaddr_in*)&seenAddr)->sin_addr.s_addr == 0); }
			x.kind = 1; x.port = port; x.fd = lastFd; m.q[port];
			break;
		}
		case 1: { // connect
			int port = 100 + (int)g.below(3), msec = g.boolean() ? 0 : 1 + (int)g.below(5000);
			if (!m.q.empty() && g.boolean()) { auto it = m.q.begin(); std::advance(it, g.below(m.q.size())); port = it->first; }
			if (m.q.count(port) && m.q[port].size() > 30) break;
			inProgress = msec && g.boolean(); soError = 0; connected = false;
			bool v6 = g.boolean();
			g.note() << "connect " << port << " " << msec << " in progress " << inProgress << "\n";
			bool t;
			if (g.boolean()) t = throws([&] { x.s->connect(v6 ? "::1" : "127.0.0.1", (uint16_t)port, msec); });
			else { cybozu::SocketAddr a(v6 ? "::1" : "127.0.0.1", (uint16_t)port); t = throws([&] { msec ? x.s->connect(a, msec) : x.s->connect(a); }); }
			bool tooLarge = inProgress && lastFd >= FD_SETSIZE; // select cannot be used
			inProgress = 0;
			if (t && connected && m.q.count(port)) { std::shared_ptr<Conn> c(new Conn); c->done[0] = c->closed[0] = true; m.q[port].push_back(c); }
			if (!m.q.count(port)) { REQUIRE_MSG(t, "connected to nothing"); break; }
			if (t) { REQUIRE_MSG(bad() || tooLarge, "connect failed"); break; }
			REQUIRE(!bad());
			REQUIRE_EQ(seenAddr.ss_family, v6 ? AF_INET6 : AF_INET); REQUIRE_EQ(portOf((struct sockaddr*)&seenAddr), port); REQUIRE_EQ(seenLen, v6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in));
			REQUIRE_MSG((fcntl(lastFd, F_GETFL) & O_NONBLOCK) == 0, "left non-blocking");
			x.kind = 2; x.side = 0; x.fd = lastFd; x.c.reset(new Conn); m.q[port].push_back(x.c);
			break;
		}
		case 2: { // accept
			if (m.q.empty()) break;
			auto it = m.q.begin(); std::advance(it, g.below(m.q.size()));
			if (it->second.empty()) break;
			Slot *srv = 0; for (auto& y : m.v) if (y.kind == 1 && y.port == it->first) srv = &y;
			REQUIRE(srv);
			bool withAddr = g.boolean(), v6; std::string raw; std::string txt = addrText(g, v6, raw); int port = (int)g.bits(16);
			memset(&peerAddr, 0, sizeof(peerAddr)); peerAddr.ss_family = v6 ? AF_INET6 : AF_INET; peerLen = v6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
			if (v6) { struct sockaddr_in6 *p = (struct sockaddr_in6*)&peerAddr; memcpy(&p->sin6_addr, raw.data(), 16); p->sin6_port = htons((uint16_t)port); } else { struct sockaddr_in *p = (struct sockaddr_in*)&peerAddr; memcpy(&p->sin_addr, raw.data(), 4); p->sin_port = htons((uint16_t)port); }
			cybozu::SocketAddr a; if (g.boolean()) a.set(g.boolean() ? "::1" : "127.0.0.1", 1);
			g.note() << "accept " << it->first << (withAddr ? " with address" : "") << "\n";
			bool t = throws([&] { withAddr ? srv->s->accept(*x.s, &a) : srv->s->accept(*x.s); });
			if (t) { REQUIRE_MSG(bad(), "accept failed"); break; }
			REQUIRE(!bad());
			if (withAddr) { REQUIRE_EQ(a.getFamily(), v6 ? AF_INET6 : AF_INET); REQUIRE_EQ(a.getPort(), port); REQUIRE_STREQ(a.toStr(), (v6 ? "[" + txt + "]:" : txt + ":") + std::to_string(port)); }
			x.kind = 2; x.side = 1; x.fd = lastFd; x.c = it->second.front(); it->second.erase(it->second.begin());
			break;
		}
		case 3: { // ready?
			g.note() << "query\n";
			bool want = x.kind == 1 ? !m.q[x.port].empty() : false;
			if (x.kind == 2) { if (x.c->broken || x.cut) break; want = !x.c->buf[me].empty() || x.c->done[you]; }
			if (x.kind == 1) { bool skip = false; for (auto& c : m.q[x.port]) skip |= c->closed[0]; if (skip) break; }
			int ms = (int)g.below(2);
			if (g.boolean()) {
				bool r = false, t = throws([&] { r = x.s->queryAccept(ms); });
				if (bad()) REQUIRE_MSG(t, "the error of queryAccept was not reported"); else if (x.fd >= FD_SETSIZE && t) ; else { REQUIRE(!t); REQUIRE_EQ(r, want); }
			} else {
				int r = x.s->queryAcceptNoThrow(ms);
				if (x.fd >= FD_SETSIZE && r == -EMFILE) ; else if (bad()) REQUIRE_EQ(r, -ENOMEM); else { REQUIRE_EQ(r > 0, want); REQUIRE(r >= 0); }
			}
			break;
		}
		case 4: case 5: { // write
			if (x.c->broken || x.c->done[me]) break;
			std::string s = g.blob(g.size(g.chance(1, 10) ? 3000 : 60));
			if (x.c->buf[you].size() + s.size() > 8000) break;
			bool flag = g.boolean(), ok = true, t;
			g.note() << "write " << s.size() << " from side " << me << "\n";
			std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size());
			if (flag) { ok = false; t = throws([&] { x.s->write(&ok, p.get(), s.size()); }); REQUIRE(!t); } else { t = throws([&] { x.s->write(p.get(), s.size()); }); ok = !t; }
			if (s.empty()) { REQUIRE(ok); break; }
			if (x.c->closed[you]) { REQUIRE_MSG(pbt::initialSigpipe() == SIG_IGN || noSignal, "writing to a closed connection ends the process (SIGPIPE)"); REQUIRE_MSG(!ok, "written to a closed connection"); x.c->broken = true; break; }
			if (!ok) { REQUIRE_MSG(bad(), "write failed"); x.c->broken = true; break; }
			REQUIRE_MSG(!bad(), "the error of a write was not reported");
			x.c->buf[you] += s; moved += s.size();
			break;
		}
		case 6: case 7: { // read
			if (x.c->broken || x.cut) break;
			std::string& b = x.c->buf[me];
			size_t n = g.size(b.size() + 3);
			if (n > b.size() && !x.c->done[you]) break;
			g.note() << "read " << n << " of " << b.size() << "\n";
			std::unique_ptr<char[]> p(new char[n]);
			bool t = throws([&] { x.s->read(p.get(), n); });
			if (t) { REQUIRE_MSG(bad() || n > b.size(), "read failed"); if (bad()) x.c->broken = true; else { REQUIRE(n > b.size()); b.clear(); } break; }
			REQUIRE_MSG(!bad(), "the error of a read was not reported");
			REQUIRE_MSG(n <= b.size(), "read more than was sent");
			REQUIRE_STREQ(std::string(p.get(), n), b.substr(0, n)); b.erase(0, n);
			break;
		}
		case 8: { // readSome
			if (x.c->broken || x.cut) break;
			std::string& b = x.c->buf[me];
			size_t n = 1 + g.size(100);
			if (b.empty() && !x.c->done[you]) break;
			g.note() << "readSome " << n << " of " << b.size() << "\n";
			std::unique_ptr<char[]> p(new char[n]); size_t r = 0;
			bool t = throws([&] { r = x.s->readSome(p.get(), n); });
			if (t) { REQUIRE_MSG(bad(), "readSome failed"); x.c->broken = true; break; }
			REQUIRE(!bad()); REQUIRE(r <= n && r <= b.size()); REQUIRE_EQ(r == 0, b.empty());
			REQUIRE_STREQ(std::string(p.get(), r), b.substr(0, r)); b.erase(0, r);
			break;
		}
		case 9: { // close
			bool quiet = g.boolean(), r = true;
			g.note() << "close\n";
			bool t = throws([&] { r = quiet ? x.s->close(cybozu::DontThrow) : x.s->close(); });
			if (quiet) { REQUIRE(!t); REQUIRE_EQ(r, !bad()); } else { REQUIRE_EQ(t, bad()); if (!t) REQUIRE(r); }
			m.drop(x);
			REQUIRE(x.s->close());
			break;
		}
		case 10: { // shutdown or wait
			if (x.kind != 2 || x.c->broken || x.c->done[me]) break;
			if (x.c->done[you] || !x.c->buf[me].empty()) {
				if (x.cut || !g.boolean()) break;
				g.note() << "waitForClose with " << x.c->buf[me].size() << " bytes left\n";
				bool t = throws([&] { x.s->waitForClose(); });
				bool e = bad();
				if (e) { x.c->broken = true; REQUIRE(t); } else { REQUIRE_EQ(t, !x.c->buf[me].empty()); if (t) x.c->buf[me].erase(0, 1); }
				x.c->done[me] = true;
			} else {
				if (x.c->closed[you]) break;
				g.note() << "shutdown write\n";
				x.s->shutdown(1); x.c->done[me] = true;
			}
			break;
		}
		case 11: { // connect twice
			if (x.kind == 0) break;
			REQUIRE(throws([&] { x.s->connect("127.0.0.1", 100); }));
			break;
		}
		case 12: case 13: { // move
			Slot& y = m.v[g.below(m.v.size())];
			if (&y == &x) break;
			g.note() << "move\n";
			NoFaults nf;
			switch (g.below(3)) {
			case 0: x.s->moveFrom(*y.s); m.drop(x); m.move(x, y); break;
			case 1: *x.s = std::move(*y.s); m.drop(x); m.move(x, y); break;
			default: { std::unique_ptr<cybozu::Socket> z(new cybozu::Socket(std::move(*y.s))); REQUIRE(!y.s->isValid()); x.s.swap(z); z.reset(); m.drop(x); m.move(x, y); }
			}
			break;
		}
		default: { g.note() << "destroy\n"; NoFaults nf; x.s.reset(new cybozu::Socket); m.drop(x); }
		}
		m.check();
	}
	if (moved >= 2) g.nontrivial();
	gp = 0;
	}
	REQUIRE_MSG(fds.empty(), "descriptors left open");
	REQUIRE(!badClose);
	REQUIRE_EQ(nInfo, 0);
}

// large transfers with a concurrent peer
PROP(large)
{
	World w(g, false, false);
	std::string data; size_t n = g.size(g.chance(1, 4) ? 600000 : 40000);
	data.resize(n); uint32_t a = (uint32_t)g.bits(32); for (auto& c : data) { a = a * 1664525 + 1013904223; c = (char)(a >> 24); }
	cybozu::Socket srv, cl, ac; srv.bind(900); cl.connect("127.0.0.1", 900); REQUIRE(srv.queryAccept()); srv.accept(ac);
	if (g.boolean()) { cl.setSendBufferSize(4096 + (int)g.below(20000)); ac.setReceiveBufferSize(4096); }
	std::vector<size_t> pieces, reads; size_t t = 0;
	while (t < n) { size_t k = std::min(n - t, 1 + g.size(n)); pieces.push_back(k); t += k; if (pieces.size() > 30) { if (t < n) pieces.push_back(n - t); break; } }
	t = 0; while (t < n) { size_t k = std::min(n - t, 1 + g.size(n)); reads.push_back(k); t += k; if (reads.size() > 30) { if (t < n) reads.push_back(n - t); break; } }
	g.note() << n << " bytes in " << pieces.size() << " writes and " << reads.size() << " reads\n";
	if (n > 1) g.nontrivial();
	bool wrote = true;
	std::thread th([&] { size_t p = 0; try { for (size_t k : pieces) { cl.write(data.data() + p, k); p += k; } cl.waitForClose(); } catch (std::exception&) { wrote = false; } });
	std::string got(n, 0); bool ok = true, eof = false; size_t p = 0;
	try { for (size_t k : reads) { ac.read(&got[p], k); p += k; } char c; eof = ac.readSome(&c, 1) == 0; } catch (std::exception&) { ok = false; }
	ac.close(); th.join();
	REQUIRE(ok); REQUIRE_MSG(wrote, "write failed"); REQUIRE(got == data); REQUIRE(eof);
}

PROP(options)
{
	World w(g, false, false);
	cybozu::Socket s; s.bind(901);
	g.nontrivial();
	auto msec = [&] { return (int)(g.boolean() ? g.below(100000) : g.below(2147480000)); }; int sms = msec(), rms = msec();
	s.setSendTimeout(sms); s.setReceiveTimeout(rms);
	g.note() << "timeouts " << sms << " " << rms << "\n";
	auto near = [](int got, int want) { return want <= got && got <= want + 10; }; // the kernel rounds up to its tick
	REQUIRE_MSG(near(s.getSendTimeout(), sms), std::to_string(s.getSendTimeout())); REQUIRE_MSG(near(s.getReceiveTimeout(), rms), std::to_string(s.getReceiveTimeout()));
	struct linger l; uint16_t on = (uint16_t)g.below(2), sec = (uint16_t)g.below(1000);
	s.setLinger(on, sec); s.getSocketOption(SO_LINGER, &l);
	REQUIRE_EQ(l.l_onoff != 0, on != 0); if (on) REQUIRE_EQ(l.l_linger, sec);
	int sb = 5000 + (int)g.below(50000), rb = 5000 + (int)g.below(50000);
	s.setSendBufferSize(sb); s.setReceiveBufferSize(rb);
	REQUIRE(s.getSendBufferSize() >= sb && s.getSendBufferSize() <= 3 * sb); REQUIRE(s.getReceiveBufferSize() >= rb && s.getReceiveBufferSize() <= 3 * rb);
	REQUIRE(s.getSendBufferSize() == s.getSocketOption(SO_SNDBUF)); REQUIRE(s.getReceiveBufferSize() == s.getSocketOption(SO_RCVBUF));
	s.close();
	REQUIRE(throws([&] { s.setLinger(1, 1); })); REQUIRE(throws([&] { s.getSendTimeout(); })); REQUIRE(throws([&] { s.queryAccept(0); })); REQUIRE(s.queryAcceptNoThrow(0) < 0);
	s.waitForClose();
}

// writes and reads of gigabytes: what the system is asked for
PROP_W(giant, 0.3)
{
	static char *area = (char*)mmap(0, (size_t)9 << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (area == MAP_FAILED) DISCARD();
	World w(g, false, false);
	cybozu::Socket srv, cl, ac; srv.bind(902); cl.connect("127.0.0.1", 902); srv.accept(ac);
	size_t n = g.pick({(size_t)0x7ffff000, (size_t)0x7fffffff, (size_t)0x80000000, (size_t)0xffffffff, (size_t)0x100000000, (size_t)0x17fffffff, (size_t)0x180000000, (size_t)0x1ffffffff, (size_t)0x200000000}) + g.below(9) - 4;
	gp = &g; giantBase = area; giantSize = n; giantPos = 0; giantZero = 0; giantBad = false;
	int op = (int)g.below(4); size_t r = 0; bool ok = false;
	g.note() << (op == 0 ? "write " : op == 1 ? "write with flag " : op == 2 ? "read " : "readSome ") << n << " bytes\n";
	g.nontrivial();
	bool t = throws([&] { if (op == 0) cl.write(area, n), ok = true; else if (op == 1) cl.write(&ok, area, n); else if (op == 2) cl.read(area, n), ok = true; else r = cl.readSome(area, n), ok = true; });
	giantBase = 0; gp = 0;
	REQUIRE_MSG(!giantBad, "the system is asked for another part than the next of the buffer");
	REQUIRE_MSG(!t && ok, "failed after " << giantPos << " of " << n << " bytes");
	if (op == 3) { REQUIRE_EQ(r, giantPos); REQUIRE(r > 0); } else REQUIRE_EQ(giantPos, n);
}

// ready for reading and for writing are different things; a timeout of a read or write is an error
PROP(ready)
{
	World w(g, false, false);
	cybozu::Socket srv, cl, ac; srv.bind(903); cl.connect("127.0.0.1", 903); int fd = lastFd; srv.accept(ac);
	bool full = g.boolean(), incoming = g.boolean(), gone = g.chance(1, 4);
	g.note() << (full ? "full " : "") << (incoming ? "data to read" : "") << "\n";
	g.nontrivial();
	if (full) fill(fd);
	if (incoming) ac.write("abc", 3);
	int ms = (int)g.below(3);
	REQUIRE_EQ(cl.queryAccept(ms), incoming); REQUIRE_EQ(cl.queryAcceptNoThrow(ms), (int)incoming);
	REQUIRE_EQ(cl.queryAccept(ms, false), !full); REQUIRE_EQ(cl.queryAcceptNoThrow(ms, false), (int)!full);
	REQUIRE_EQ(cl.queryAccept(ms, true), incoming);
	char b[4];
	if (full) { cl.setSendTimeout(1 + (int)g.below(9)); bool ok = true; cl.write(&ok, "abc", 3); REQUIRE_MSG(!ok, "a write which timed out is taken for done"); REQUIRE(throws([&] { cl.write("abc", 3); })); }
	cl.setReceiveTimeout(1 + (int)g.below(9));
	if (gone) { ac.close(); if (incoming) { cl.read(b, 3); REQUIRE(memcmp(b, "abc", 3) == 0); } if (!full) { REQUIRE_EQ(cl.readSome(b, 4), (size_t)0); REQUIRE(cl.queryAccept(ms)); } }
	else { REQUIRE_MSG(throws([&] { cl.read(b, 4); }), "a read which timed out is taken for done"); REQUIRE(throws([&] { cl.readSome(b, 1); })); }
}

static double now() { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
PROP(waiting)
{
	static int slow;
	World w(g, false, false);
	int op = (int)g.below(4), msec = 1 + (int)g.below(30);
	bool big = slow < 5 && g.chance(1, 3);
	if (big) { slow++; msec = 990 + (int)g.below(60); }
	g.note() << (op == 3 ? "waitForClose " : op == 2 ? "connect " : "query ") << msec << " msec\n";
	g.nontrivial();
	if (op == 3) { // the peer takes its time
		cybozu::Socket srv, cl, ac; srv.bind(904); cl.connect("127.0.0.1", 904); srv.accept(ac); cl.write("abc", 3);
		double t0 = now(); if (big) msec += 100;
		std::thread th([&] { usleep((useconds_t)msec * 1000); ac.close(); });
		bool t = throws([&] { char b[3]; ac.read(b, 3); cl.waitForClose(); }); double d = now() - t0;
		th.join();
		REQUIRE_MSG(!t, "waitForClose throws"); REQUIRE_MSG(d >= msec - 5, "waitForClose returns after " << d << " msec");
		return;
	}
	for (int k = 0;; k++) {
		cybozu::Socket s; double t0, d; int used = msec;
		if (op == 2) {
			inProgress = 2; t0 = now();
			bool t = throws([&] { s.connect("127.0.0.1", 905, msec); }); d = now() - t0;
			inProgress = 0; if (neverPeer >= 0) { __real_close(neverPeer); neverPeer = -1; }
			REQUIRE_MSG(t, "connected though nobody answers"); REQUIRE(!s.isValid()); REQUIRE(fds.empty());
		} else {
			s.bind(905); bool r; t0 = now();
			if (big && op == 0) { used = 1000; r = s.queryAccept(); } else r = op ? s.queryAccept(msec) : s.queryAcceptNoThrow(msec) != 0;
			d = now() - t0;
			REQUIRE_MSG(!r, "something to accept");
		}
		REQUIRE_MSG(d >= used - 5, "waited only " << d << " msec of " << used);
		if (d <= used + 400) break;
		REQUIRE_MSG(k < 3, "waited " << d << " msec instead of " << used); // the machine may be busy
	}
}

// the same over the real loopback
PROP(loopback)
{
	static int used;
	if (used >= 150) DISCARD();
	World w(g, true, false, false);
	int mode = 1 + (int)g.below(3);
	cybozu::Socket srv, cl, ac;
	try { srv.bind(0, mode); } catch (cybozu::Exception&) { DISCARD(); } // no such network here
	struct sockaddr_storage a; socklen_t n = sizeof(a); getsockname(lastFd, (struct sockaddr*)&a, &n); uint16_t port = (uint16_t)portOf((struct sockaddr*)&a);
	used++;
	REQUIRE_EQ(a.ss_family, mode == 1 ? AF_INET : AF_INET6);
	if (mode != 1) { int only = -1; socklen_t l = sizeof(only); REQUIRE(__real_getsockopt(lastFd, IPPROTO_IPV6, IPV6_V6ONLY, &only, &l) == 0); REQUIRE_MSG(only == (mode == 2), "IPv4 is " << (only ? "refused" : "accepted")); }
	bool v6 = mode == 2 || (mode == 3 && g.boolean()); int msec = g.boolean() ? 0 : 2000;
	g.note() << "mode " << mode << " v6 " << v6 << " msec " << msec << "\n";
	try { cl.connect(v6 ? "::1" : "127.0.0.1", port, msec); } catch (cybozu::Exception&) { if (v6) DISCARD(); throw; }
	REQUIRE((fcntl(lastFd, F_GETFL) & O_NONBLOCK) == 0);
	REQUIRE(srv.queryAccept(5000)); cybozu::SocketAddr pa; srv.accept(ac, &pa);
	cybozu::SocketAddr want(v6 ? "::1" : "127.0.0.1", 1); REQUIRE(pa.hasSameAddr(want));
	REQUIRE(!srv.queryAccept(0));
	g.nontrivial();
	for (int k = 0; k < 4; k++) {
		cybozu::Socket& from = g.boolean() ? cl : ac; cybozu::Socket& to = &from == &cl ? ac : cl;
		std::string s = g.blob(g.size(2000)); from.write(s.data(), s.size());
		std::string r(s.size(), 0); to.read(&r[0], r.size()); REQUIRE_STREQ(r, s);
	}
	cybozu::Socket& first = g.boolean() ? cl : ac; cybozu::Socket& other = &first == &cl ? ac : cl;
	first.shutdown(1); char c; REQUIRE_EQ(other.readSome(&c, 1), 0u); REQUIRE(throws([&] { other.read(&c, 1); }));
	other.close(); if (g.boolean()) REQUIRE_EQ(first.readSome(&c, 1), 0u);
	srv.close(); cybozu::Socket again; int ms = g.boolean() ? 0 : 1000;
	REQUIRE(throws([&] { again.connect(v6 ? "::1" : "127.0.0.1", port, ms); })); REQUIRE(!again.isValid());
	// the port can be used again at once
	if (g.boolean()) { first.close(); cl.close(); ac.close(); }
	bool ok = false;
	for (int k = 0; k < 40 && !ok; k++) { if (k) usleep(5000); ok = !throws([&] { cybozu::Socket s; s.bind(port, mode); }); }
	REQUIRE_MSG(ok, "the port cannot be bound again");
}
