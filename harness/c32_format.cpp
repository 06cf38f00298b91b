// format, Exception, ErrorNo and the environment deliver the exact text
#include <pbt.h>
#include <cybozu/format.hpp>
#include <cybozu/exception.hpp>
#include <cybozu/env.hpp>
#include <map>
#include <memory>
#include <stdarg.h>
#include <wchar.h>
#include <math.h>
using pbt::G; using pbt::show;
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat"
static void viaV(std::string& s, const char *fmt, ...) { va_list a; va_start(a, fmt); cybozu::vformat(s, fmt, a); va_end(a); }
template<class... A> static void same(G& g, const std::string& fmt, A... a)
{
	static std::vector<char> buf(1 << 17);
	int n = snprintf(buf.data(), buf.size(), fmt.c_str(), a...);
	std::string old = g.chance(1, 3) ? std::string(g.size(40), 'o') : std::string();
	if (n < 0) {
		REQUIRE_THROWS((cybozu::format(fmt.c_str(), a...)));
		REQUIRE_THROWS((cybozu::format(old, fmt.c_str(), a...)));
		return;
	}
	if ((size_t)n >= buf.size()) DISCARD();
	std::string want(buf.data(), n), got;
	g.nontrivial(n > 1);
	switch (g.below(3)) {
	case 0: got = cybozu::format(fmt.c_str(), a...); break;
	case 1: got = old; cybozu::format(got, fmt.c_str(), a...); break;
	default: got = old; viaV(got, fmt.c_str(), a...); break;
	}
	REQUIRE_EQ(got.size(), want.size());
	REQUIRE_MSG(got == want, "got " << show(got) << " want " << show(want));
}
static std::string spec(G& g, const char *flags, bool prec, const char *len)
{
	std::string s = "%";
	size_t k = g.below(3); while (k--) s += flags[g.below(strlen(flags))];
	if (g.chance(1, 2)) s += std::to_string(g.chance(1, 12) ? g.below(5000) : g.below(20));
	if (prec && g.chance(1, 2)) { s += '.'; if (g.chance(3, 4)) s += std::to_string(g.chance(1, 12) ? g.below(400) : g.below(20)); }
	return s + len;
}
static double real(G& g) { switch (g.below(5)) { case 0: return (double)g.irange(-1000, 1000) / 8; case 1: { uint64_t v = g.bits(64); double d; memcpy(&d, &v, 8); return d; } case 2: return (double)g.bits(40); case 3: return g.boolean() ? HUGE_VAL : -HUGE_VAL; default: return 1.0 / (double)(1 + g.below(1000)); } }
static std::string lit(G& g) { std::string s = g.text(g.size(8), "ab :\xe3\x81\n"), r; for (char c : s) { r += c; } if (g.chance(1, 8)) r += "%%"; return r; }
PROP_W(format, 3)
{
	std::string a = lit(g), b = lit(g), f;
	uint64_t v = g.chance(1, 2) ? g.bits(64) : g.bits(8);
	switch (g.below(9)) {
	case 0: f = a + spec(g, "-+ 0", true, "") + "di"[g.below(2)] + b; g.note() << show(f) << " " << (int)v; same(g, f, (int)v); break;
	case 1: f = a + spec(g, "-#0", true, "") + "uxXo"[g.below(4)] + b; g.note() << show(f) << " " << (unsigned)v; same(g, f, (unsigned)v); break;
	case 2: f = a + spec(g, "-+ 0", true, "ll") + "d" + b; g.note() << show(f) << " " << (long long)v; same(g, f, (long long)v); break;
	case 3: { double d = real(g); f = a + spec(g, "-+ 0#", true, "") + "feEgGa"[g.below(6)] + b; g.note() << show(f) << " " << d; same(g, f, d); break; }
	case 4: { std::string s = g.text(g.chance(1, 10) ? g.below(6000) : g.size(30), "xyz%\n\xff"); f = a + spec(g, "-", true, "") + "s" + b; g.note() << show(f) << " " << show(s); same(g, f, s.c_str()); break; }
	case 5: { int c = (int)g.below(256); f = a + spec(g, "-", false, "") + "c" + b; g.note() << show(f) << " char " << c; same(g, f, c); break; } // NUL included
	case 6: { int w = (int)g.irange(-40, 40), p = (int)g.irange(-3, 20); std::string s = g.text(g.size(12), "pq"); f = a + "%*d:%.*s:%5u" + b; g.note() << show(f) << " " << w << " " << (int)v << " " << p << " " << show(s); same(g, f, w, (int)v, p, s.c_str(), (unsigned)(v >> 3)); break; }
	case 7: { wchar_t w[3] = { (wchar_t)(g.boolean() ? 'a' + g.below(26) : 128 + g.below(60000)), L'b', 0 }; f = a + "%ls" + b; g.note() << show(f) << " wide " << (int)w[0]; same(g, f, (const wchar_t*)w); break; }
	default: { std::string s = g.text(g.size(12), "pq"); double d = real(g); f = a + "%s|%zu|%.3f|%p" + b; g.note() << show(f) << " " << show(s) << " " << v << " " << d; same(g, f, s.c_str(), (size_t)v, d, (void*)s.c_str()); break; }
	}
}
PROP(format_of_itself) // the arguments may lie in the string which receives the result
{
	std::string s = g.text(1 + (g.chance(1, 6) ? g.below(3000) : g.size(40)), "abc"), t = s, x = g.text(g.size(6), "xyz");
	s.reserve(g.chance(1, 2) ? 2 * s.size() + 20 : s.size());
	size_t p = g.below(s.size());
	g.note() << show(t) << " from " << p << " with " << show(x);
	g.nontrivial(s.size() > 1);
	cybozu::format(s, "%s<%s>%d", x.c_str(), s.c_str() + p, 12);
	REQUIRE_MSG(s == x + "<" + t.substr(p) + ">12", "got " << show(s));
}
struct Pt { int x, y; };
static std::ostream& operator<<(std::ostream& os, const Pt& p) { return os << '(' << p.x << ',' << p.y << ')'; }
struct Rude { int how; }; // leaves the stream in another state
static std::ostream& operator<<(std::ostream& os, const Rude& p) { os << "rude" << p.how; if (p.how == 0) os << std::hex << std::showbase; else if (p.how == 1) os.setstate(std::ios::failbit); else { os.precision(2); os.fill('*'); os.width(9); } return os; }
struct Derived : cybozu::Exception { Derived() : cybozu::Exception("derived") {} };
PROP_W(exception, 2)
{
	std::string name = g.text(g.size(20), "ab:\n ");
	std::vector<cybozu::Exception> e; std::vector<std::string> m;
	e.push_back(cybozu::Exception(name)); m.push_back(name);
	if (g.chance(1, 4)) { e[0] = cybozu::Exception(); m[0] = ""; }
	if (g.chance(1, 4)) { e[0] = Derived(); m[0] = "derived"; }
	size_t n = g.size(12);
	g.note() << show(m[0]) << ":";
	for (size_t k = 0; k < n; k++) {
		size_t i = g.below(e.size());
		std::string t = g.text(g.chance(1, 10) ? g.below(2000) : g.size(10), "xyz:% \xe3"); int64_t v = (int64_t)(g.chance(1, 2) ? g.bits(64) : g.bits(7));
		std::ostringstream o; cybozu::Exception *r = &e[i];
		switch (g.below(15)) {
		case 0: case 1: o << t; r = &(e[i] << t); break;
		case 2: o << t; r = &(e[i] << t.c_str()); break;
		case 3: o << v; r = &(e[i] << v); break;
		case 4: o << (int)v; r = &(e[i] << (int)v); break;
		case 5: o << (uint64_t)v; r = &(e[i] << (uint64_t)v); break;
		case 6: { char c = (char)(1 + g.below(255)); o << c; r = &(e[i] << c); break; }
		case 7: { double d = (double)v / 7; o << d; r = &(e[i] << d); break; }
		case 8: { Pt p = { (int)v, (int)(v >> 32) }; o << p; r = &(e[i] << p); break; }
		case 14: { Rude p = { (int)g.below(3) }; o << "rude" << p.how; r = &(e[i] << p); break; }
		case 9: { std::vector<char> c(t.begin(), t.end()); c.push_back(0); char *p = c.data(); o << t; r = &(e[i] << p); break; }
		case 10: { int err = (int)g.below(140); o << strerror(err) << "(" << err << ")"; if (g.boolean()) { cybozu::ErrorNo no(err); r = &(e[i] << no); } else { errno = err; cybozu::ErrorNo no; errno = 0; r = &(e[i] << no); } break; }
		case 11: if (e.size() < 4) { e.push_back(e[i]); m.push_back(m[i]); } goto next; // a copy is independent
		case 12: { size_t j = g.below(e.size()); e[i] = e[j]; m[i] = m[j]; goto next; }
		default: { bool caught = false; try { throw e[i]; } catch (std::exception& x) { caught = true; REQUIRE_MSG(m[i] == x.what(), "caught with " << show(x.what())); } REQUIRE(caught); goto next; }
		}
		REQUIRE(r == &e[i]);
		m[i] += ":" + o.str();
next:
		g.nontrivial(k > 0);
		for (size_t j = 0; j < e.size(); j++) {
			REQUIRE_MSG(e[j].toString() == m[j], "got " << show(e[j].toString()) << " want " << show(m[j]));
			REQUIRE(std::string(e[j].what()) == m[j]);
		}
	}
}
PROP(excerpt) // at most 16 characters, up to the first NUL, and nothing beyond the size is looked at
{
	std::string s = g.text(g.size(40), "abc");
	if (g.boolean() && !s.empty()) s[g.below(s.size())] = 0;
	g.note() << show(s);
	g.nontrivial(s.size() > 1);
	std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size());
	std::string want = s.substr(0, 16); want = want.substr(0, want.find('\0'));
	REQUIRE_STREQ(cybozu::exception::makeString(p.get(), s.size()), want);
}
PROP(error_number)
{
	int err = g.chance(1, 4) ? (int)g.bits(32) : (int)g.irange(-5, 200);
	g.note() << err;
	g.nontrivial();
	std::string want = std::string(strerror(err)) + "(" + std::to_string(err) + ")";
	REQUIRE_STREQ(cybozu::ConvertErrorNoToString(err), want);
	REQUIRE_STREQ(cybozu::ErrorNo(err).toString(), want);
	errno = err; cybozu::ErrorNo e; errno = 1;
	REQUIRE_STREQ(e.toString(), want);
	std::ostringstream o; o << e; REQUIRE_STREQ(o.str(), want);
	errno = err; REQUIRE_EQ(e.getLatestNativeErrorNo(), err);
}
PROP(env)
{
	std::map<std::string, std::string> m;
	auto key = [&] { return "CZ_" + g.text(1 + g.size(2), "AB"); };
	size_t n = 1 + g.size(12);
	std::vector<std::string> used;
	for (size_t k = 0; k < n; k++) {
		std::string a = key(), v = g.text(g.chance(1, 10) ? g.below(9000) : g.size(10), "vw= \n\xe3");
		switch (g.below(4)) {
		case 0: case 1: g.note() << " " << a << "=" << show(v); setenv(a.c_str(), v.c_str(), 1); m[a] = v; used.push_back(a); break;
		case 2: g.note() << " unset " << a; unsetenv(a.c_str()); m.erase(a); break;
		default: break;
		}
		a = key();
		std::string got = "untouched";
		bool has = m.count(a) != 0;
		REQUIRE_EQ(cybozu::QueryEnv(got, a), has);
		REQUIRE_MSG(got == (has ? m[a] : "untouched"), "value of " << a << " is " << show(got));
		std::string d = g.text(g.size(3), "d");
		REQUIRE_STREQ(cybozu::GetEnv(a, d), has ? m[a] : d);
		if (has) REQUIRE_STREQ(cybozu::GetEnv(a), m[a]);
		else { REQUIRE_THROWS((cybozu::GetEnv(a))); }
		g.nontrivial(m.size() > 1);
	}
	for (auto& a : used) unsetenv(a.c_str());
}
