// Small property-based testing engine.
//  * every generated value comes from a choice sequence (G::below), so a case is its choices
//  * cases are run in forked workers: a crash, a sanitizer report or a hang is a failure of that case
//  * failures are shrunk on the choice sequence and written out as a replay
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {
typedef void (*SigHandler)(int);
inline SigHandler& initialSigpipe() { static SigHandler h; return h; } // the disposition of SIGPIPE when main starts, after the static initialisers

inline uint64_t mix64(uint64_t z)
{
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
inline uint64_t hashStr(const char *s)
{
	uint64_t h = 1469598103934665603ull;
	for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
	return h;
}

struct Failure {
	std::string msg;
	explicit Failure(const std::string& m) : msg(m) {}
};
struct Discard {};
struct EndOfInput {};

struct SharedCase { // written by a child while it runs one case
	volatile uint32_t nChoices;
	volatile uint32_t status; // 0 running, 1 passed, 2 failed, 3 discarded
	volatile uint32_t nontrivial;
	char msg[8192];
	char note[65536];
	
	uint64_t choices[1u << 17];
};

class G {
	enum Mode { RANDOM, REPLAY, BYTES } mode_;
	uint64_t st_;
	std::vector<uint64_t> rec_;
	const std::vector<uint64_t> *rep_;
	size_t pos_;
	const uint8_t *data_;
	size_t dataSize_;
	SharedCase *sh_;
	bool verbose_;
	std::ostringstream note_;
public:
	bool nontrivial_;
	int scale; // 1 quick, 2 thorough
	std::vector<const char*> labels_;
	bool discarded_;
	explicit G(uint64_t seed)
		: mode_(RANDOM), st_(seed), rep_(0), pos_(0), data_(0), dataSize_(0), sh_(0), verbose_(false)
		, nontrivial_(false), scale(1), discarded_(false) { rec_.reserve(64); }
	explicit G(const std::vector<uint64_t>& rep)
		: mode_(REPLAY), st_(0), rep_(&rep), pos_(0), data_(0), dataSize_(0), sh_(0), verbose_(true)
		, nontrivial_(false), scale(1), discarded_(false) {}
	G(const uint8_t *d, size_t n)
		: mode_(BYTES), st_(0), rep_(0), pos_(0), data_(d), dataSize_(n), sh_(0), verbose_(false)
		, nontrivial_(false), scale(1), discarded_(false) {}
	void setShared(SharedCase *sh) { sh_ = sh; verbose_ = true; }
	void setVerbose(bool b) { verbose_ = b; }
	bool verbose() const { return verbose_; }
	const std::vector<uint64_t>& rec() const { return rec_; }
	std::string noteStr() const { return note_.str(); }
	void flushNote()
	{
		if (!sh_) return;
		std::string s = note_.str();
		size_t n = std::min(s.size(), sizeof(sh_->note) - 1);
		memcpy(sh_->note, s.data(), n);
		sh_->note[n] = 0;
	}
	// uniform in [0, n) ; n == 0 means the whole 64 bit range
	uint64_t below(uint64_t n)
	{
		uint64_t v = 0;
		switch (mode_) {
		case RANDOM:
			{
				uint64_t r = mix64(st_);
				st_ += 0x9E3779B97F4A7C15ull;
				if (n == 0) v = r;
				else v = (uint64_t)(((unsigned __int128)r * n) >> 64);
			}
			break;
		case REPLAY:
			v = pos_ < rep_->size() ? (*rep_)[pos_++] : 0;
			if (n && v >= n) v = n - 1;
			break;
		case BYTES:
			{
				int len = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
				if (n == 1) len = 0;
				for (int i = 0; i < len; i++) {
					if (pos_ >= dataSize_) break;
					v |= (uint64_t)data_[pos_++] << (8 * i);
				}
				if (n) v %= n;
			}
			break;
		}
		rec_.push_back(v);
		if (sh_ && rec_.size() <= (1u << 17)) {
			sh_->choices[rec_.size() - 1] = v;
			sh_->nChoices = (uint32_t)rec_.size();
		}
		return v;
	}
	bool exhausted() const { return mode_ == BYTES && pos_ >= dataSize_; }
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); } // [lo, hi]
	int64_t irange(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + below((uint64_t)hi - (uint64_t)lo + 1)); }
	bool boolean() { return below(2) != 0; }
	bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; } // shrinks to false
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	template<class T, size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
	// sizes: small ones, log-uniform ones, and ones near block boundaries
	size_t size(size_t maxSize)
	{
		if (maxSize == 0) return 0;
		size_t r = 0;
		switch (below(5)) {
		case 0: r = below(4); break;
		case 1: r = below(17); break;
		case 2: case 3:
			{
				int b = 0;
				while ((maxSize >> b) > 1) b++;
				int k = (int)below(b + 1);
				r = ((size_t)1 << k) + below((size_t)1 << k);
			}
			break;
		case 4:
			{
				int b = 0;
				while ((maxSize >> b) > 1) b++;
				int k = (int)below(b + 1);
				size_t m = ((size_t)1 << k) * (1 + below(3));
				r = m + below(5);
				r = r >= 2 ? r - 2 : 0;
			}
			break;
		}
		return std::min(r, maxSize);
	}
	// w-bit integers biased to boundaries (powers of two and of ten, all ones, ...)
	uint64_t bits(int w)
	{
		uint64_t mask = w == 64 ? ~0ull : ((1ull << w) - 1);
		uint64_t v = 0;
		switch (below(8)) {
		case 0: v = below(16); break;
		case 1: v = below(1000); break;
		case 2: v = (1ull << below(w)) + below(7) - 3; break;
		case 3: { uint64_t p = 1; for (uint64_t k = below(20); k; k--) p *= 10; v = p * (1 + below(9)) + below(5) - 2; } break;
		case 4: { int b = 1 + (int)below(w); v = below(0); if (b < 64) v &= (1ull << b) - 1; } break;
		case 5: v = mask - below(4); break;
		case 6: v = (mask >> 1) + below(5) - 2; break;
		case 7: v = below(0); break;
		}
		return v & mask;
	}
	std::string bytes(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)below(256); return s; }
	std::string text(size_t n, const char *alphabet)
	{
		size_t a = strlen(alphabet);
		std::string s(n, 0);
		for (size_t i = 0; i < n; i++) s[i] = alphabet[below(a)];
		return s;
	}
	// long data from few choices: mode (random / runs / periodic / text) + a seed
	std::string blob(size_t n)
	{
		int kind = (int)below(5);
		uint64_t seed = below(1u << 30);
		std::string s(n, 0);
		uint64_t x = seed;
		switch (kind) {
		case 0: for (size_t i = 0; i < n; i++) s[i] = (char)(seed & 0xff); break;
		case 1: for (size_t i = 0; i < n; i++) { x = mix64(x + i); s[i] = "abcd\n ,\""[x & 7]; } break;
		case 2: { size_t per = 1 + seed % 67; for (size_t i = 0; i < n; i++) s[i] = (char)(mix64(seed + i % per)); } break;
		case 3: for (size_t i = 0; i < n;) { x = mix64(x + i); size_t run = 1 + (x >> 8) % 200; for (; run && i < n; run--) s[i++] = (char)x; } break;
		case 4: for (size_t i = 0; i < n; i++) { x = mix64(x + i); s[i] = (char)x; } break;
		}
		return s;
	}
	void nontrivial(bool b = true) { if (b) { nontrivial_ = true; if (sh_) sh_->nontrivial = 1; } }
	void label(const char *s) { labels_.push_back(s); }
	struct Note {
		G *g;
		template<class T> Note& operator<<(const T& t) { if (g) { g->note_ << t; } return *this; }
		~Note() { if (g) { g->note_ << "\n"; g->flushNote(); } }
		Note(G *g) : g(g) {}
		Note(Note&& o) : g(o.g) { o.g = 0; }
	};
	Note note() { return Note(verbose_ && note_.tellp() < 60000 ? this : 0); }
};

inline std::string show(const void *p, size_t n, size_t lim = 200)
{
	const unsigned char *s = (const unsigned char*)p;
	std::string o = "\"";
	char b[8];
	for (size_t i = 0; i < n && i < lim; i++) {
		if (s[i] == '"' || s[i] == '\\') { o += '\\'; o += (char)s[i]; }
		else if (s[i] >= 0x20 && s[i] < 0x7f) o += (char)s[i];
		else { snprintf(b, sizeof(b), "\\x%02x", s[i]); o += b; }
	}
	o += '"';
	if (n > lim) { snprintf(b, sizeof(b), "..."); o += b; }
	char c[32];
	snprintf(c, sizeof(c), "(%zu)", n);
	return o + c;
}
inline std::string show(const std::string& s, size_t lim = 200) { return show(s.data(), s.size(), lim); }

typedef void (*PropFn)(G&);
struct Prop { const char *name; PropFn fn; double weight; };
inline std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
struct Reg { Reg(const char *n, PropFn f, double w) { Prop p = { n, f, w }; props().push_back(p); } };

} // pbt

#define PROP_W(name, w) static void name(pbt::G& g); static pbt::Reg reg_##name(#name, name, w); static void name(pbt::G& g)
#define PROP(name) PROP_W(name, 1.0)
#define REQUIRE_MSG(c, m) do { if (!(c)) { std::ostringstream os_; os_ << __FILE__ << ":" << __LINE__ << ": " #c " : " << m; throw pbt::Failure(os_.str()); } } while (0)
#define REQUIRE(c) REQUIRE_MSG(c, "")
#define REQUIRE_EQ(a, b) do { const auto& a_ = (a); const auto& b_ = (b); if (!(a_ == b_)) { std::ostringstream os_; os_ << __FILE__ << ":" << __LINE__ << ": " #a " == " #b " : got " << a_ << " want " << b_; throw pbt::Failure(os_.str()); } } while (0)
#define REQUIRE_STREQ(a, b) do { const std::string a_ = (a); const std::string b_ = (b); if (a_ != b_) { std::ostringstream os_; os_ << __FILE__ << ":" << __LINE__ << ": " #a " == " #b " : got " << pbt::show(a_) << " want " << pbt::show(b_); throw pbt::Failure(os_.str()); } } while (0)
// e must throw something derived from std::exception
#define REQUIRE_THROWS(e) do { bool t_ = false; try { e; } catch (pbt::Failure&) { throw; } catch (std::exception&) { t_ = true; } if (!t_) { std::ostringstream os_; os_ << __FILE__ << ":" << __LINE__ << ": no exception from " #e; throw pbt::Failure(os_.str()); } } while (0)
#define DISCARD() throw pbt::Discard()

