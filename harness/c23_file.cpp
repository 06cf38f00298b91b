// File, Mmap and directory functions against a model, with partial, interrupted and failing system calls
#include <pbt.h>
#include <cybozu/file.hpp>
#include <cybozu/mmap.hpp>
#include <memory>
#include <map>
#include <set>
#include <stdarg.h>
#include <errno.h>
using pbt::G; using pbt::show;
// ---- stand-ins of system calls
static G *gp; // faults are drawn from here while not null
static bool allowError; // EIO and the like, not only partial and interrupted calls
static int nError; // injected since the last reset
static std::vector<std::pair<uintptr_t, size_t>> *ranges; // record the calls only
static bool inject(int err) { if (!gp || !allowError || !gp->chance(1, 12)) return false; nError++; errno = err; return true; }
extern "C" {
int __real_open(const char*, int, ...); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_close(int); int __real_fstat(int, struct stat*);
void *__real_mmap(void*, size_t, int, int, int, off_t); off_t __real_lseek(int, off_t, int);
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = (mode_t)va_arg(a, int); va_end(a); if (inject(EMFILE)) return -1; return __real_open(p, f, m); }
ssize_t __wrap_read(int fd, void *p, size_t n)
{
	if (ranges) { ssize_t m = (ssize_t)(n > 0x7ffff000 ? 0x7ffff000 : n); ranges->push_back(std::make_pair((uintptr_t)p, (size_t)m)); return ranges->size() > 100 ? 0 : m; }
	if (gp) { if (inject(EIO)) return -1; if (gp->chance(1, 5)) { errno = EINTR; return -1; } if (n > 1 && gp->chance(1, 3)) n = 1 + gp->below(n); }
	return __real_read(fd, p, n);
}
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
	if (ranges) { ssize_t m = (ssize_t)(n > 0x7ffff000 ? 0x7ffff000 : n); ranges->push_back(std::make_pair((uintptr_t)p, (size_t)m)); if (ranges->size() > 100) { errno = EIO; return -1; } return m; }
	if (gp) { if (inject(ENOSPC)) return -1; if (gp->chance(1, 5)) { errno = EINTR; return -1; } if (n > 1 && gp->chance(1, 3)) n = 1 + gp->below(n); }
	return __real_write(fd, p, n);
}
int __wrap_close(int fd) { int r = __real_close(fd); if (inject(EIO)) return -1; return r; }
int __wrap_fstat(int fd, struct stat *st) { if (inject(EIO)) return -1; return __real_fstat(fd, st); }
int __wrap_fdatasync(int) { return inject(EIO) ? -1 : 0; } // no real sync: slow
int __wrap_fsync(int) { return inject(EIO) ? -1 : 0; }
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (inject(ENOMEM)) return MAP_FAILED; return __real_mmap(a, n, p, f, fd, o); }
off_t __wrap_lseek(int fd, off_t o, int w) { if (inject(EINVAL)) return -1; return __real_lseek(fd, o, w); }
}
struct Faults { Faults(G& g, bool err) { gp = &g; allowError = err; nError = 0; } ~Faults() { gp = 0; } };
struct NoFaults { G *s; NoFaults() : s(gp) { gp = 0; } ~NoFaults() { gp = s; } };
static int openFds() { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1; return n; }
struct Scratch { // a directory of this case
	char name[32];
	std::vector<std::string> made;
	Scratch() { strcpy(name, "c23_XXXXXX"); if (!mkdtemp(name)) throw std::runtime_error("mkdtemp"); }
	~Scratch()
	{
		gp = 0;
		DIR *d = opendir(name);
		if (d) { while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { std::string p = path(e->d_name); if (unlink(p.c_str()) != 0) rmdir(p.c_str()); } closedir(d); }
		rmdir(name);
	}
	std::string path(const std::string& s) const { return std::string(name) + "/" + s; }
};
static bool slurp(const std::string& p, std::string& s)
{
	FILE *f = fopen(p.c_str(), "rb");
	if (!f) return false;
	s.clear(); char b[4096]; size_t n;
	while ((n = fread(b, 1, sizeof(b), f)) > 0) s.append(b, n);
	fclose(f);
	return true;
}
static void spill(const std::string& p, const std::string& s) { FILE *f = fopen(p.c_str(), "wb"); if (!f) throw std::runtime_error("spill"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
template<class F> static bool throws(F f) { try { f(); return false; } catch (cybozu::Exception&) { return true; } }

PROP_W(history, 3)
{
	Scratch sc;
	const int fds = openFds();
	std::map<std::string, std::string> disk; // the model
	bool err = g.chance(1, 3);
	if (err) g.label("with errors");
	{
		std::unique_ptr<cybozu::File> f(new cybozu::File);
		bool open = false, ro = false, app = false;
		std::string cur; size_t pos = 0;
		Faults flt(g, err);
		size_t nops = 1 + g.size(15);
		for (size_t k = 0; k < nops; k++) {
			int e0 = nError;
			auto bad = [&] { return nError != e0; };
			std::string name = std::string(1, (char)('a' + g.below(3)));
			switch (g.below(10)) {
			case 0: case 1: case 2: { // open
				int how = (int)g.below(4);
				g.note() << "open " << name << " mode " << how << "\n";
				auto go = [&] { switch (how) { case 0: g.boolean() ? f->openR(sc.path(name)) : f->open(sc.path(name), std::ios::in); break; case 1: f->openW(sc.path(name)); break; case 2: f->open(sc.path(name), std::ios::out); break; default: f->open(sc.path(name), std::ios::out | std::ios::app); } };
				bool t = throws(go);
				if (open) { REQUIRE(t); break; }
				bool exist = disk.count(name) != 0;
				if (how == 0 && !exist) { REQUIRE(t); break; }
				if (t) { REQUIRE_MSG(bad(), "open failed"); NoFaults nf; std::string s; if (slurp(sc.path(name), s)) { if (exist && how == 3) REQUIRE_STREQ(s, disk[name]); disk[name] = s; } f.reset(new cybozu::File); break; }
				REQUIRE(f->isOpen());
				open = true; ro = how == 0; app = how == 3; cur = name;
				if (how == 1 || how == 2) disk[name].clear();
				if (how == 3 && !exist) disk[name];
				pos = app ? disk[name].size() : 0;
				break;
			}
			case 3: case 4: case 5: { // write
				if (!open) break;
				std::string s = g.blob(g.size(200));
				g.note() << "write " << s.size() << "\n";
				bool t = throws([&] { f->write(s.data(), s.size()); });
				if (ro) { REQUIRE(t || s.empty()); break; }
				std::string want = disk[cur];
				if (app) pos = want.size();
				if (want.size() < pos) want.resize(pos);
				NoFaults nf;
				std::string got; REQUIRE(slurp(sc.path(cur), got));
				if (t) {
					REQUIRE_MSG(bad(), "write failed");
					bool ok = false; // a prefix was written
					for (size_t n = 0; n <= s.size() && !ok; n++) { std::string w = n ? want : disk[cur]; if (w.size() < pos + n && n) w.resize(pos + n); if (n) w.replace(pos, n, s, 0, n); if (w == got) { ok = true; pos += n; } }
					REQUIRE(ok);
					disk[cur] = got;
				} else {
					REQUIRE(!bad());
					if (s.empty()) { REQUIRE(got == disk[cur]); break; }
					if (want.size() < pos + s.size()) want.resize(pos + s.size());
					want.replace(pos, s.size(), s);
					REQUIRE_STREQ(got, want);
					disk[cur] = want; pos += s.size();
				}
				break;
			}
			case 6: { // read
				if (!open) break;
				size_t n = g.size(300);
				std::unique_ptr<char[]> b(new char[n + 1]);
				b[n] = 77;
				size_t avail = ro && pos < disk[cur].size() ? disk[cur].size() - pos : 0;
				if (g.boolean()) {
					size_t r = 0;
					bool t = throws([&] { r = f->readSome(b.get(), n); });
					g.note() << "readSome " << n << " -> " << (t ? -1 : (int)r) << "\n";
					if (!ro) { REQUIRE(t || n == 0); break; }
					if (t) { REQUIRE(bad()); break; }
					REQUIRE(r <= n && r <= avail && (r > 0 || n == 0 || avail == 0));
					REQUIRE(disk[cur].compare(std::min(pos, disk[cur].size()), r, b.get(), r) == 0);
					pos += r;
				} else {
					g.note() << "read " << n << " of " << avail << "\n";
					bool t = throws([&] { f->read(b.get(), n); });
					if (!ro) { REQUIRE(t || n == 0); break; }
					if (t) { REQUIRE(bad() || n > avail); off_t p = 0; { NoFaults nf; f->seek(0, std::ios::end); } pos = disk[cur].size(); (void)p; break; }
					REQUIRE(n <= avail);
					REQUIRE(disk[cur].compare(std::min(pos, disk[cur].size()), n, b.get(), n) == 0);
					pos += n;
				}
				REQUIRE(b[n] == 77);
				break;
			}
			case 7: { // seek
				if (!open) { REQUIRE(throws([&] { f->seek(0, std::ios::beg); })); break; }
				int64_t p = g.irange(-20, 250);
				int d = (int)g.below(3);
				int64_t w = p + (d == 0 ? 0 : d == 1 ? (int64_t)pos : (int64_t)disk[cur].size());
				g.note() << "seek " << p << " " << d << "\n";
				bool t = throws([&] { f->seek(p, d == 0 ? std::ios::beg : d == 1 ? std::ios::cur : std::ios::end); });
				if (bad()) { REQUIRE(t); break; }
				REQUIRE_EQ(t, w < 0);
				if (!t) pos = (size_t)w;
				break;
			}
			case 8: { // size, sync
				if (!open) { REQUIRE(throws([&] { f->getSize(); })); break; }
				uint64_t n = 0;
				bool t = throws([&] { n = f->getSize(); });
				REQUIRE_EQ(t, bad());
				if (!t) REQUIRE_EQ(n, (uint64_t)disk[cur].size());
				e0 = nError;
				t = throws([&] { f->sync(g.boolean()); });
				REQUIRE_EQ(t, bad());
				break;
			}
			default: { // close or destroy
				g.note() << "close\n";
				if (g.boolean()) { bool t = throws([&] { f->close(); }); REQUIRE_EQ(t, bad()); REQUIRE(!f->isOpen()); }
				else f.reset(new cybozu::File);
				open = false;
				break;
			}
			}
			g.nontrivial(k > 2);
		}
	}
	REQUIRE_EQ(openFds(), fds);
	for (auto& i : disk) { std::string s; REQUIRE(slurp(sc.path(i.first), s)); REQUIRE_STREQ(s, i.second); REQUIRE_EQ(cybozu::GetFileSize(sc.path(i.first)), (uint64_t)s.size()); }
}
PROP(open_modes)
{
	Scratch sc;
	const int fds = openFds();
	spill(sc.path("x"), "old");
	std::ios::openmode m = std::ios::openmode();
	bool in = g.boolean(), out = g.boolean(), app = g.boolean(), trunc = g.boolean();
	if (in) m |= std::ios::in;
	if (out) m |= std::ios::out;
	if (app) m |= std::ios::app;
	if (trunc) m |= std::ios::trunc;
	if (g.boolean()) m |= std::ios::binary;
	bool ok = in != out && !(in && (app || trunc)) && !(app && trunc);
	g.note() << "in " << in << " out " << out << " app " << app << " trunc " << trunc;
	g.nontrivial();
	bool t = throws([&] { cybozu::File f(sc.path("x"), m); REQUIRE(f.isOpen()); if (out) f.write("new", 3); });
	REQUIRE_EQ(t, !ok);
	std::string s; REQUIRE(slurp(sc.path("x"), s));
	REQUIRE_STREQ(s, !ok || in ? "old" : app ? "oldnew" : "new");
	// a file of a handle stays open
	int fd = open(sc.path("x").c_str(), O_RDWR);
	{ cybozu::File f(fd); REQUIRE(f.isOpen()); f.write("A", 1); }
	REQUIRE(fcntl(fd, F_GETFD) != -1);
	close(fd);
	REQUIRE_EQ(openFds(), fds);
	REQUIRE(throws([&] { cybozu::File f(sc.path("no/such"), std::ios::out); }));
	{
		Faults flt(g, true); // a constructor which fails loses no descriptor
		bool app2 = g.boolean();
		bool t = throws([&] { cybozu::File f(sc.path("x"), std::ios::out | (app2 ? std::ios::app : std::ios::trunc)); });
		if (t) REQUIRE(nError > 0);
	}
	REQUIRE_EQ(openFds(), fds);
}
PROP(mmap_file)
{
	Scratch sc;
	std::string s = g.blob(g.chance(1, 5) ? g.pick(std::vector<size_t>{4095, 4096, 4097, 8192, 20000}) : g.size(300));
	spill(sc.path("m"), s);
	const int fds = openFds();
	bool err = g.chance(1, 3), exist = g.chance(7, 8);
	g.note() << "size " << s.size() << " errors " << err << " exist " << exist;
	g.nontrivial(s.size() > 1);
	{
		Faults flt(g, err);
		bool t = throws([&] {
			cybozu::Mmap m(sc.path(exist ? "m" : "n"));
			REQUIRE_EQ(m.size(), (uint64_t)s.size());
			if (!s.empty()) REQUIRE(memcmp(m.get(), s.data(), s.size()) == 0);
		});
		if (!exist) REQUIRE(t); else if (t) REQUIRE(nError > 0);
		if (!nError && exist) REQUIRE(!t);
	}
	REQUIRE_EQ(openFds(), fds);
}
static bool onlyShort(const std::string& n, const std::string& e) { return n.size() <= e.size(); }
PROP(directory)
{
	Scratch sc;
	const int fds = openFds();
	std::map<std::string, bool> want; // name -> is directory
	std::map<std::string, std::string> content;
	static const char *ext[] = { "", ".cpp", ".hpp", ".c", ".cpp.bak", ".", ".CPP", "cpp", "..cpp" };
	for (size_t n = g.size(12); n > 0; n--) {
		std::string nm = g.text(g.below(4), "ab.c") + ext[g.below(9)];
		if (nm.empty() || nm == "." || nm == ".." || want.count(nm)) continue;
		bool d = g.chance(1, 4);
		if (d) { if (mkdir(sc.path(nm).c_str(), 0755)) DISCARD(); } else { content[nm] = g.text(g.below(5), "xyz"); spill(sc.path(nm), content[nm]); }
		want[nm] = d;
		g.note() << nm << (d ? "/" : "") << " ";
	}
	g.nontrivial(want.size() > 1);
	std::string e = g.pick(std::vector<std::string>{"", "cpp", "hpp", "c", "bak", "pp", "cpp.bak"});
	auto has = [&](const std::string& n, const std::string& x) { return x.empty() || (n.size() > x.size() && n.compare(n.size() - x.size() - 1, std::string::npos, "." + x) == 0); };
	bool custom = g.chance(1, 4);
	std::string dir = std::string(sc.name) + (g.boolean() ? "/" : "");
	cybozu::FileList l;
	std::string keep;
	if (g.boolean()) { l = custom ? cybozu::GetFileList(dir, e, onlyShort) : cybozu::GetFileList(dir, e); }
	else { if (g.boolean()) { keep = "before"; l.push_back(cybozu::FileInfo(keep, DT_REG)); } REQUIRE(custom ? cybozu::GetFileList(l, dir, e, onlyShort) : cybozu::GetFileList(l, dir, e)); }
	std::set<std::string> got;
	for (size_t i = 0; i < l.size(); i++) {
		if (i == 0 && !keep.empty()) { REQUIRE_STREQ(l[0].name, keep); continue; }
		REQUIRE_MSG(want.count(l[i].name), l[i].name);
		REQUIRE(got.insert(l[i].name).second);
		if (!l[i].isUnknown()) { REQUIRE_EQ(l[i].isDirectory(), want[l[i].name]); REQUIRE_EQ(l[i].isFile(), !want[l[i].name]); }
	}
	for (auto& i : want) {
		REQUIRE_EQ(got.count(i.first) != 0, custom ? onlyShort(i.first, e) : has(i.first, e));
		REQUIRE_EQ(cybozu::HasExtension(i.first, e), has(i.first, e));
		REQUIRE(cybozu::DoesFileExist(sc.path(i.first)));
		if (i.second) REQUIRE(cybozu::DoesFileExist(sc.path(i.first) + "/"));
	}
	REQUIRE(throws([&] { cybozu::GetFileList(sc.path("nosuchdir")); }));
	REQUIRE(!cybozu::GetFileList(l, sc.path("nosuchdir")));
	REQUIRE(!cybozu::DoesFileExist("") && !cybozu::DoesFileExist(sc.path("nosuchdir")) && cybozu::DoesFileExist("/") && cybozu::DoesFileExist("."));
	REQUIRE(throws([&] { cybozu::GetFileSize(sc.path("nosuchdir")); }));
	// rename and remove
	std::vector<std::string> names;
	for (auto& i : content) names.push_back(i.first);
	names.push_back("new1"); names.push_back("new2");
	for (int k = 0; k < 4; k++) {
		std::string a = g.pick(names), b = g.pick(names);
		if (g.boolean()) {
			g.note() << "rename " << a << " " << b << " ";
			bool t = throws([&] { cybozu::RenameFile(sc.path(a), sc.path(b)); });
			bool ok = content.count(a) && !content.count(b);
			REQUIRE_EQ(t, !ok);
			if (ok) { content[b] = content[a]; content.erase(a); }
		} else {
			g.note() << "remove " << a << " ";
			bool t = throws([&] { cybozu::RemoveFile(sc.path(a)); });
			REQUIRE_EQ(t, !content.count(a));
			content.erase(a);
		}
		for (auto& n : names) { std::string s; bool x = slurp(sc.path(n), s); REQUIRE_EQ(x, content.count(n) != 0); if (x) REQUIRE_STREQ(s, content[n]); }
	}
	REQUIRE_EQ(openFds(), fds);
}
PROP_W(large, 0.02) // files and requests of more than 2 and 4 GiB (the files have holes)
{
	Scratch sc; std::string p = sc.path("a");
	const uint64_t size = g.pick(std::vector<uint64_t>{ 1ull << 31, 1ull << 32, 5ull << 30, 3ull << 31 }) + g.below(5000) - 2500;
	int fd = __real_open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || ftruncate(fd, (off_t)size)) { if (fd >= 0) __real_close(fd); DISCARD(); }
	__real_close(fd);
	std::string t = g.blob(1 + g.below(20)); uint64_t at = size - t.size() - g.below(1000);
	g.note() << size << " bytes, at " << at << " " << show(t); g.nontrivial();
	REQUIRE_EQ(cybozu::GetFileSize(p), size);
	{ // the end is found when a large file is continued
		cybozu::File f(p, std::ios::out | std::ios::app); REQUIRE_EQ(f.getSize(), size); f.write(t.data(), t.size());
	}
	{
		cybozu::File f(p, std::ios::in); REQUIRE_EQ(f.getSize(), size + t.size());
		f.seek((int64_t)size, std::ios::beg); std::string s(t.size(), 'x'); f.read(&s[0], s.size()); REQUIRE_STREQ(s, t); REQUIRE_EQ(f.readSome(&s[0], 1), 0u);
		f.seek(-(int64_t)(size + t.size() - at), std::ios::end); s.assign(size + t.size() - at, 'x'); f.read(&s[0], s.size());
		REQUIRE_STREQ(s, std::string(size - at, 0) + t);
		f.seek(-(int64_t)at, std::ios::cur); f.seek((int64_t)at, std::ios::cur); REQUIRE_EQ(f.readSome(&s[0], 1), 0u);
	}
	{
		cybozu::Mmap m(p); REQUIRE_EQ(m.size(), size + t.size()); REQUIRE(memcmp(m.get() + size, t.data(), t.size()) == 0); REQUIRE_EQ((int)m.get()[at - 1], 0);
	}
	// one call for many bytes
	const size_t n = (size_t)size; std::vector<std::pair<uintptr_t, size_t>> r;
	void *q = __real_mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) DISCARD();
	struct Unmap { void *q; size_t n; ~Unmap() { ranges = 0; munmap(q, n); } } um = { q, n };
	for (int k = 0; k < 2; k++) {
		r.clear(); bool threw = false;
		{ cybozu::File f(p, k == 0 ? std::ios::out | std::ios::app : std::ios::in); ranges = &r; try { if (k == 0) f.write(q, n); else f.read(q, n); } catch (cybozu::Exception&) { threw = true; } ranges = 0; }
		uintptr_t e = (uintptr_t)q; for (auto& i : r) { REQUIRE_MSG(i.first == e, "a piece is skipped or repeated"); e += i.second; }
		REQUIRE_MSG(!threw && e == (uintptr_t)q + n, (k ? "read" : "write") << " of " << n << " bytes transfers " << e - (uintptr_t)q);
	}
}
// another program under any name says where it is
static struct Where { Where() { if (!getenv("C23_WHERE")) return; std::string nm, p = cybozu::GetExePath(&nm), q = cybozu::GetExePath(); printf("%s\n%s\n%s\n", p.c_str(), nm.c_str(), q.c_str()); fflush(stdout); _exit(0); } } where;
PROP_W(program, 0.01)
{
	Scratch sc; char self[4096], full[4096]; ssize_t l = readlink("/proc/self/exe", self, sizeof(self) - 1); if (l <= 0) DISCARD(); self[l] = 0;
	if (!realpath(sc.name, full)) DISCARD();
	std::string nm = g.text(1 + g.below(g.boolean() ? 5 : 180), "ab.x") + g.pick(std::vector<std::string>{ "", "", ".exe", ".sh", "exe", ".EXE", ".exe.exe" });
	if (nm == "." || nm == "..") DISCARD();
	g.note() << nm; g.nontrivial();
	std::string path = std::string(full) + "/" + nm;
	if (link(self, path.c_str())) DISCARD();
	fflush(0); std::string got; FILE *f; setenv("C23_WHERE", "1", 1); f = popen(("'" + path + "'").c_str(), "r"); unsetenv("C23_WHERE");
	if (!f) DISCARD();
	char b[512]; size_t n; while ((n = fread(b, 1, sizeof(b), f)) > 0) got.append(b, n); pclose(f);
	std::string base = nm; if (base.size() >= 4 && base.compare(base.size() - 4, 4, ".exe") == 0) base.resize(base.size() - 4);
	REQUIRE_STREQ(got, std::string(full) + "/\n" + base + "\n" + full + "/\n");
}
PROP(names)
{
	std::string s = g.text(g.size(8), "ab./\\.c"), suf = "zz", base;
	g.note() << s;
	g.nontrivial(s.size() > 1);
	size_t p = s.rfind('.');
	base = cybozu::GetBaseName(s, &suf);
	REQUIRE_STREQ(base, p == std::string::npos ? s : s.substr(0, p));
	REQUIRE_STREQ(suf, p == std::string::npos ? "" : s.substr(p + 1));
	REQUIRE_STREQ(cybozu::GetBaseName(s), base);
	std::string r = s, w = s;
	for (char& c : w) if (c == '\\') c = '/';
	cybozu::ReplaceBackSlash(r);
	REQUIRE_STREQ(r, w);
	std::string nm, path = cybozu::GetExePath(&nm);
	char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof(b));
	std::string exe(b, n > 0 ? n : 0);
	size_t q = exe.rfind('/');
	REQUIRE_STREQ(path, exe.substr(0, q + 1));
	std::string en = exe.substr(q + 1);
	if (en.size() > 4 && en.compare(en.size() - 4, 4, ".exe") == 0) en.resize(en.size() - 4);
	REQUIRE_STREQ(nm, en);
}
