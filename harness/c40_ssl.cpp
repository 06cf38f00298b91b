// the TLS client against a TLS server in a thread; the connection is a socket pair, no port is used
#include <pbt.h>
#include <cybozu/ssl.hpp>
#include <openssl/x509.h>
#include <openssl/ec.h>
#include <thread>
#include <memory>
#include <atomic>
#include <set>
#include <signal.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <poll.h>
#include <sys/mman.h>
using pbt::G;
static std::atomic<int> peerFd(-1); // end of the server
static int connectError;
static std::set<int> fds;
extern "C" {
int __real_socket(int, int, int);
int __real_close(int);
int __wrap_socket(int d, int t, int p) { int fd = __real_socket(d, t, p); if (fd >= 0) fds.insert(fd); return fd; }
static int closeError; // of a socket
int __wrap_close(int fd) { bool ours = fds.erase(fd) != 0; int r = __real_close(fd); if (ours && closeError) { errno = closeError; return -1; } return r; }
// the socket as seen by the TLS library: interrupted and short calls
static uint32_t perturb; // state of the generator, 0 if nothing is disturbed
static unsigned roll() { perturb = perturb * 1664525 + 1013904223; return perturb >> 16; }
static int bioFd(BIO *b) { return (int)(intptr_t)BIO_get_data(b); }
static int bioRead(BIO *b, char *p, int n)
{
	BIO_clear_retry_flags(b);
	if (perturb) { if (roll() % 4 == 0) { BIO_set_retry_read(b); return -1; } if (n > 1 && roll() % 4 == 0) n = 1 + (int)(roll() % (unsigned)n); }
	int r; do { r = (int)::recv(bioFd(b), p, (size_t)n, 0); } while (r < 0 && errno == EINTR);
	if (r == 0) BIO_set_flags(b, BIO_FLAGS_IN_EOF);
	return r;
}
static int bioWrite(BIO *b, const char *p, int n)
{
	BIO_clear_retry_flags(b);
	if (perturb) { if (roll() % 4 == 0) { BIO_set_retry_write(b); return -1; } if (n > 1 && roll() % 4 == 0) n = 1 + (int)(roll() % (unsigned)n); }
	int r; do { r = (int)::send(bioFd(b), p, (size_t)n, MSG_NOSIGNAL); } while (r < 0 && errno == EINTR);
	return r;
}
static long bioCtrl(BIO *b, int cmd, long, void *) { if (cmd == BIO_CTRL_FLUSH) return 1; if (cmd == BIO_CTRL_EOF) return BIO_test_flags(b, BIO_FLAGS_IN_EOF) != 0; return 0; }
static bool useBio;
int __real_SSL_set_fd(SSL*, int);
int __wrap_SSL_set_fd(SSL *s, int fd)
{
	if (!useBio || fds.count(fd) == 0) return __real_SSL_set_fd(s, fd);
	static BIO_METHOD *m = 0;
	if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "perturbed"); BIO_meth_set_read(m, bioRead); BIO_meth_set_write(m, bioWrite); BIO_meth_set_ctrl(m, bioCtrl); }
	BIO *b = BIO_new(m); BIO_set_data(b, (void*)(intptr_t)fd); BIO_set_init(b, 1); SSL_set_bio(s, b, b);
	return 1;
}
// transfers of gigabytes are recorded only
static char *giantBase; static size_t giantSize, giantPos; static int giantZero; static bool giantBad; static G *giantG; static int giantError;
static int giant(const void *p, size_t n)
{
	if (p != giantBase + giantPos || n > giantSize - giantPos) giantBad = true;
	if (n == 0 && giantPos < giantSize && ++giantZero > 100) giantBad = true;
	giantError = SSL_ERROR_SSL;
	if (giantBad) return -1;
	if (giantG->chance(1, 5)) { giantError = giantG->boolean() ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE; return -1; }
	size_t r = std::min<size_t>(n, 0x7fffffff); if (r > 100 && giantG->chance(1, 4)) r = r / 4 + giantG->below(r - r / 4);
	giantPos += r; return (int)r;
}
int __real_SSL_read(SSL*, void*, int); int __real_SSL_write(SSL*, const void*, int); int __real_SSL_read_ex(SSL*, void*, size_t, size_t*); int __real_SSL_write_ex(SSL*, const void*, size_t, size_t*); int __real_SSL_get_error(const SSL*, int);
int __wrap_SSL_read(SSL *s, void *p, int n) { if (!giantBase) return __real_SSL_read(s, p, n); if (n < 0) { giantBad = true; return -1; } return giant(p, (size_t)n); }
int __wrap_SSL_write(SSL *s, const void *p, int n) { if (!giantBase) return __real_SSL_write(s, p, n); if (n < 0) { giantBad = true; return -1; } return giant(p, (size_t)n); }
int __wrap_SSL_read_ex(SSL *s, void *p, size_t n, size_t *r) { if (!giantBase) return __real_SSL_read_ex(s, p, n, r); int k = giant(p, n); *r = k > 0 ? (size_t)k : 0; return k > 0; }
int __wrap_SSL_write_ex(SSL *s, const void *p, size_t n, size_t *r) { if (!giantBase) return __real_SSL_write_ex(s, p, n, r); int k = giant(p, n); *r = k > 0 ? (size_t)k : 0; return k > 0; }
int __wrap_SSL_get_error(const SSL *s, int r) { return giantBase ? giantError : __real_SSL_get_error(s, r); }
int __wrap_connect(int fd, const struct sockaddr *, socklen_t)
{
	if (connectError) { errno = connectError; return -1; }
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0) return -1;
	dup2(sv[0], fd);
	__real_close(sv[0]);
	peerFd = sv[1];
	return 0;
}
}
static SSL_CTX *serverCtx()
{
	static SSL_CTX *ctx = 0;
	if (ctx) return ctx;
	ctx = SSL_CTX_new(TLS_server_method());
	EVP_PKEY *key = EVP_EC_gen("P-256");
	X509 *x = X509_new();
	ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
	X509_gmtime_adj(X509_getm_notBefore(x), 0);
	X509_gmtime_adj(X509_getm_notAfter(x), 3600 * 24 * 365);
	X509_set_pubkey(x, key);
	X509_NAME *name = X509_get_subject_name(x);
	X509_NAME_add_entry_by_txt(name, "CN", MBSTRING_ASC, (const unsigned char*)"localhost", -1, -1, 0);
	X509_set_issuer_name(x, name);
	X509_sign(x, key, EVP_sha256());
	SSL_CTX_use_certificate(ctx, x);
	SSL_CTX_use_PrivateKey(ctx, key);
	X509_free(x);
	EVP_PKEY_free(key);
	return ctx;
}
enum End { NOTIFY, CUT, WAIT };
struct Server {
	int fd;
	std::vector<std::string> chunks; // sent one record each
	End end; // after the chunks
	int maxVersion;
	size_t readSize; // of one SSL_read
	bool readFirst; // all of want bytes before anything is sent
	size_t want;
	size_t junk; // of the handshake: bytes sent instead of it, 0 if none
	std::string alert; // sent instead of the handshake
	std::string got;
	bool accepted, notified;
	std::thread th;
	Server() : fd(-1), end(WAIT), maxVersion(0), readSize(100), readFirst(true), want(0), junk(0), accepted(false), notified(false) {}
	void start(int f) { fd = f; th = std::thread([this] { run(); }); }
	~Server() { if (th.joinable()) th.join(); }
	void readSome(SSL *s)
	{
		std::string buf(readSize, 0);
		int r = SSL_read(s, &buf[0], (int)buf.size());
		if (r > 0) got.append(buf, 0, r);
		else { if (SSL_get_error(s, r) == SSL_ERROR_ZERO_RETURN) notified = true; broken = true; }
	}
	bool broken = false;
	void run()
	{
		if (junk) {
			std::string t(junk, 'x');
			if (!alert.empty()) t = alert;
			char c[512];
			if (::recv(fd, c, sizeof(c), 0) > 0 && junk > 1) (void)!::send(fd, t.data(), t.size(), MSG_NOSIGNAL);
			__real_close(fd);
			return;
		}
		SSL *s = SSL_new(serverCtx());
		if (maxVersion) SSL_set_max_proto_version(s, maxVersion);
		SSL_set_fd(s, fd);
		accepted = SSL_accept(s) == 1;
		if (accepted) {
			if (readFirst) while (got.size() < want && !broken) readSome(s);
			for (auto& c : chunks) if (!c.empty() && SSL_write(s, c.data(), (int)c.size()) <= 0) { broken = true; break; }
			if (end == NOTIFY) SSL_shutdown(s);
			if (end != CUT) while (!broken) readSome(s); // until the client closes
		}
		ERR_clear_error();
		SSL_free(s);
		__real_close(fd);
	}
};
static int ignorePipe = (signal(SIGPIPE, SIG_IGN), 0);
static std::string genData(G& g, size_t n)
{
	std::string s;
	uint64_t x = g.below(0);
	for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += (char)(x >> 56); }
	return s;
}
static size_t genLen(G& g)
{
	switch (g.below(5)) {
	case 0: return g.below(3);
	case 1: return 16384 - 2 + g.below(5); // a record
	case 2: return g.below(60000);
	default: return g.size(500);
	}
}
static void quiet(const std::function<void()>& f)
{
	// errors are printed by the wrapper
	fflush(stderr);
	int save = dup(2), null = ::open("/dev/null", O_WRONLY);
	dup2(null, 2);
	try { f(); } catch (...) { fflush(stderr); dup2(save, 2); __real_close(save); __real_close(null); throw; }
	fflush(stderr);
	dup2(save, 2); __real_close(save); __real_close(null);
}
static void session(G& g, cybozu::ssl::ClientSocket& c)
{
	Server sv;
	std::string up = genData(g, genLen(g)), down = genData(g, genLen(g));
	sv.want = up.size();
	sv.readSize = 1 + g.below(g.boolean() ? 20000 : 40);
	for (size_t pos = 0; pos < down.size();) { size_t n = std::min(down.size() - pos, 1 + (size_t)g.below(g.boolean() ? 100 : 20000)); sv.chunks.push_back(down.substr(pos, n)); pos += n; if (sv.chunks.size() > 60) { sv.chunks.push_back(down.substr(pos)); break; } }
	sv.end = (End)g.below(3);
	sv.maxVersion = g.boolean() ? TLS1_2_VERSION : 0;
	g.note() << "write " << up.size() << " read " << down.size() << " in " << sv.chunks.size() << " records, end " << (int)sv.end << (sv.maxVersion ? " TLS1.2" : " TLS1.3") << ";";
	g.nontrivial(up.size() + down.size() > 10);
	useBio = g.chance(2, 3); perturb = 0; closeError = 0;
	uint32_t seed = useBio && g.chance(3, 4) ? 1 + (uint32_t)g.below(1u << 20) : 0;
	if (seed) g.label("interrupted");
	struct Calm { ~Calm() { perturb = 0; useBio = false; closeError = 0; } } calm;
	cybozu::SocketAddr addr;
	struct Wait { Server& s; cybozu::ssl::ClientSocket& c; bool done; ~Wait() { if (!done) try { c.close(true); } catch (...) {} } } wait = { sv, c, false };
	// the server thread has to run while the client connects
	std::thread starter([&] { while (peerFd < 0) std::this_thread::yield(); int f = peerFd.exchange(-1); sv.start(f); });
	try {
		if (g.boolean()) c.connect("127.0.0.1", (uint16_t)(1 + g.below(65535)));
		else { addr.set("127.0.0.1", 443); c.connect(addr); }
	} catch (std::exception& e) { if (peerFd < 0 && !sv.th.joinable()) peerFd = ::open("/dev/null", O_RDONLY); starter.join(); REQUIRE_MSG(false, "connect : " << e.what()); }
	starter.join();
	perturb = seed;
	for (size_t pos = 0; pos < up.size();) { size_t n = std::min(up.size() - pos, 1 + (size_t)g.below(up.size())); c.write(up.data() + pos, n); pos += n; }
	if (g.boolean()) c.write("", 0);
	std::string got;
	size_t use = g.chance(1, 4) ? g.below(down.size() + 1) : down.size(); // bytes the client reads
	while (got.size() < use) {
		size_t n = 1 + g.below(use - got.size());
		std::string buf(n + 1, 'Z');
		if (g.boolean()) { c.read(&buf[0], n); got.append(buf, 0, n); }
		else { size_t r = c.readSome(&buf[0], n); REQUIRE_MSG(r > 0 && r <= n, "readSome returns " << r << " of " << n); got.append(buf, 0, r); REQUIRE(buf[r] == 'Z'); }
		REQUIRE_MSG(buf[n] == 'Z', "written beyond the buffer");
	}
	REQUIRE_MSG(got == down.substr(0, use), "the data received are not those sent");
	bool sawEnd = false, closeFails = g.chance(1, 5);
	if (use == down.size() && sv.end != WAIT && g.chance(3, 4)) {
		char b[8];
		sawEnd = true;
		if (sv.end == NOTIFY) {
			if (g.boolean()) REQUIRE_EQ(c.readSome(b, sizeof(b)), (size_t)0);
			REQUIRE_THROWS(c.read(b, sizeof(b)));
		} else {
			// cut off: never taken for the end
			perturb = 0; // also the alert sent then is not disturbed
			bool thrown = false;
			quiet([&] { try { c.readSome(b, sizeof(b)); } catch (cybozu::Exception&) { thrown = true; } });
			REQUIRE_MSG(thrown, "a connection cut off is taken for its end");
			REQUIRE_THROWS(quiet([&] { c.read(b, sizeof(b)); }));
		}
	}
	perturb = 0;
	if (closeFails) { closeError = EIO; g.label("close fails"); }
	if (closeFails && g.boolean()) {
		bool thrown = false;
		quiet([&] { try { c.close(); } catch (cybozu::Exception&) { thrown = true; } });
		wait.done = true;
		REQUIRE_MSG(thrown, "the error of close is not reported");
	} else if (closeFails) {
		quiet([&] { try { c.close(cybozu::DontThrow); } catch (...) { wait.done = true; REQUIRE_MSG(false, "close throws though told not to"); } });
	} else if (sv.end == WAIT || (sv.end == NOTIFY && sawEnd)) {
		// nothing has failed
		try { c.close(); } catch (std::exception& e) { wait.done = true; REQUIRE_MSG(false, "close throws " << e.what()); }
	} else quiet([&] { c.close(true); });
	wait.done = true; closeError = 0;
	c.close(); // nothing to do
	sv.th.join();
	REQUIRE_MSG(sv.accepted, "handshake of the server");
	REQUIRE_MSG(sv.got == up, "the server has got " << sv.got.size() << " of " << up.size() << " bytes or other ones");
	if (sv.end == WAIT && use == down.size()) REQUIRE_MSG(sv.notified, "the server is not told of the end");
	REQUIRE_MSG(fds.empty(), "a socket is left open");
}
PROP_W(session, 5)
{
	fds.clear(); connectError = 0; peerFd = -1;
	serverCtx();
	std::unique_ptr<cybozu::ssl::ClientSocket> c(new cybozu::ssl::ClientSocket());
	session(g, *c);
	if (g.boolean()) { g.note() << " again:"; session(g, *c); }
}
PROP(bad_server)
{
	fds.clear(); connectError = 0; peerFd = -1;
	Server sv;
	sv.junk = g.chance(1, 3) ? 1 : 2 + g.below(200);
	bool refuse = g.chance(1, 4);
	if (g.chance(1, 3)) { // an alert, also the one of a proper end
		sv.junk = 7;
		sv.alert = std::string("\x15\x03", 2) + (char)(1 + g.below(3)) + std::string("\0\2", 2) + (char)(1 + g.below(2)) + (char)g.pick({0, 0, 10, 40, 70, 80, 90, 112});
		if (g.chance(1, 3)) sv.alert += g.blob(g.size(20));
	}
	g.note() << (refuse ? "refused" : "no TLS, bytes ") << sv.junk;
	g.nontrivial();
	bool thrown = false;
	{
		cybozu::ssl::ClientSocket c;
		if (refuse) {
			connectError = ECONNREFUSED;
			quiet([&] { try { c.connect("127.0.0.1", 443); } catch (cybozu::Exception&) { thrown = true; } });
			connectError = 0;
		} else {
			std::thread starter([&] { while (peerFd < 0) std::this_thread::yield(); int f = peerFd.exchange(-1); sv.start(f); });
			quiet([&] { try { c.connect("127.0.0.1", 443); } catch (cybozu::Exception&) { thrown = true; } });
			starter.join();
		}
		REQUIRE_MSG(thrown, "connect does not throw");
		bool byHand = g.boolean();
		quiet([&] { if (byHand) c.close(true); });
		if (byHand) { g.note() << " then a good one:"; session(g, c); }
		else quiet([&] { cybozu::ssl::ClientSocket d; });
	}
	REQUIRE_MSG(fds.empty(), "a socket is left open");
}
// buffers of gigabytes: what the TLS library is asked for
PROP_W(giant_buffers, 0.3)
{
	static char *area = (char*)mmap(0, (size_t)9 << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (area == MAP_FAILED) DISCARD();
	cybozu::ssl::ClientSocket c;
	size_t n = g.pick({(size_t)0x7ffff000, (size_t)0x7fffffff, (size_t)0x80000000, (size_t)0xffffffff, (size_t)0x100000000, (size_t)0x17fffffff, (size_t)0x180000000, (size_t)0x1ffffffff, (size_t)0x200000000}) + g.below(9) - 4;
	giantSize = n; giantPos = 0; giantZero = 0; giantBad = false; giantG = &g; giantBase = area;
	int op = (int)g.below(3); size_t r = 0; bool ok = false;
	g.note() << (op == 0 ? "write " : op == 1 ? "read " : "readSome ") << n << " bytes";
	g.nontrivial();
	quiet([&] { try { if (op == 0) c.write(area, n); else if (op == 1) c.read(area, n); else r = c.readSome(area, n); ok = true; } catch (cybozu::Exception&) {} });
	giantBase = 0;
	REQUIRE_MSG(!giantBad, "another part than the next of the buffer is asked for");
	REQUIRE_MSG(ok, "failed after " << giantPos << " of " << n << " bytes");
	if (op == 2) { REQUIRE_EQ(r, giantPos); REQUIRE(r > 0); } else REQUIRE_EQ(giantPos, n);
}
// a program which has used a socket ends normally
PROP(process_end)
{
	g.nontrivial();
	bool use = g.boolean();
	pid_t pid = fork();
	if (pid == 0) {
		if (use) { cybozu::ssl::ClientSocket c; }
		exit(42);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	REQUIRE_MSG(WIFEXITED(st) && WEXITSTATUS(st) == 42, "exit status " << st);
}
