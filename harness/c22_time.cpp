// Time: calendar text, FILETIME and ordering against civil calendar arithmetic
#include <pbt.h>
#include <cybozu/time.hpp>
#include <memory>
#include <cmath>
using pbt::G; using pbt::show;
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mdays(int y, int m) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : d[m - 1]; }
static int64_t days(int y, int m, int d) // from 1970-01-01, by counting
{
	static std::vector<int64_t> cum;
	if (cum.empty()) { cum.push_back(0); for (int i = 1970; i < 10001; i++) cum.push_back(cum.back() + (leap(i) ? 366 : 365)); }
	int64_t n = cum[y - 1970];
	for (int i = 1; i < m; i++) n += mdays(y, i);
	return n + d - 1;
}
struct D { int y, mo, d, h, mi, s, ms; int64_t t() const { return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s; } };
static D gen(G& g, int maxY = 3000)
{
	D x;
	x.y = g.chance(1, 3) ? (int)g.pick(std::vector<int>{1970, 1999, 2000, 2001, 2004, 2038, 2099, 2100, 2400, 2900, 2999, maxY}) : 1970 + (int)g.below(maxY - 1970 + 1);
	x.mo = 1 + (int)g.below(12); if (g.chance(1, 4)) x.mo = 2;
	x.d = g.chance(1, 3) ? mdays(x.y, x.mo) : 1 + (int)g.below(mdays(x.y, x.mo));
	x.h = g.chance(1, 4) ? (g.boolean() ? 0 : 23) : (int)g.below(24);
	x.mi = g.chance(1, 4) ? (g.boolean() ? 0 : 59) : (int)g.below(60);
	x.s = g.chance(1, 4) ? (g.boolean() ? 0 : 59) : (int)g.below(60);
	x.ms = g.chance(1, 3) ? (int)g.pick(std::vector<int>{0, 1, 9, 10, 99, 100, 999}) : (int)g.below(1000);
	return x;
}
static std::string pad(int v, int n) { std::string s = std::to_string(v); while ((int)s.size() < n) s = "0" + s; return s; }
static const char *MON[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static bool digits(const std::string& s, size_t p, size_t n, int lo, int hi, int& v)
{
	if (p + n > s.size()) return false;
	v = 0;
	for (size_t i = 0; i < n; i++) { if (s[p + i] < '0' || s[p + i] > '9') return false; v = v * 10 + (s[p + i] - '0'); }
	return lo <= v && v <= hi;
}
static bool refParse(const std::string& s, D& x)
{
	size_t p = 0;
	if (!digits(s, 0, 4, 1970, 3000, x.y)) return false;
	p = 4;
	if (p >= s.size() || (s[p] != '-' && s[p] != '/')) return false;
	char sep = s[p++];
	x.mo = 0;
	for (int i = 0; i < 12; i++) if (s.compare(p, 3, MON[i]) == 0) x.mo = i + 1;
	if (x.mo) p += 3; else { if (!digits(s, p, 2, 1, 12, x.mo)) return false; p += 2; }
	if (p >= s.size() || s[p++] != sep) return false;
	if (!digits(s, p, 2, 1, 31, x.d)) return false;
	p += 2;
	if (p >= s.size() || (s[p] != 'T' && s[p] != ' ')) return false;
	p++;
	if (!digits(s, p, 2, 0, 23, x.h)) return false;
	p += 2;
	if (p >= s.size() || s[p++] != ':') return false;
	if (!digits(s, p, 2, 0, 59, x.mi)) return false;
	p += 2;
	if (p >= s.size() || s[p++] != ':') return false;
	if (!digits(s, p, 2, 0, 59, x.s)) return false;
	p += 2;
	x.ms = 0;
	std::string rest = s.substr(p);
	if (rest.empty() || rest == "Z") {}
	else {
		if (rest[0] != '.' || !digits(rest, 1, 3, 0, 999, x.ms)) return false;
		if (!(rest.size() == 4 || (rest.size() == 5 && rest[4] == 'Z'))) return false;
	}
	return x.d <= mdays(x.y, x.mo);
}
static std::string text(G& g, const D& x)
{
	char sep = g.boolean() ? '-' : '/';
	std::string s = pad(x.y, 4) + sep + (g.chance(1, 3) ? std::string(MON[x.mo - 1]) : pad(x.mo, 2)) + sep + pad(x.d, 2) + (g.boolean() ? 'T' : ' ') + pad(x.h, 2) + ":" + pad(x.mi, 2) + ":" + pad(x.s, 2);
	if (x.ms || g.boolean()) s += "." + pad(x.ms, 3);
	if (g.boolean()) s += "Z";
	return s;
}
// 0: rejected
static bool read(G& g, const std::string& s, cybozu::Time& t)
{
	std::unique_ptr<char[]> b(new char[s.size()]);
	memcpy(b.get(), s.data(), s.size());
	const char *p = b.get(), *e = p + s.size();
	bool ok = g.boolean();
	switch (g.below(s.find('\0') == std::string::npos ? 6 : 4)) {
	case 0: t.fromString(&ok, p, e); return ok;
	case 1: try { t.fromString(p, e); return true; } catch (cybozu::Exception&) { return false; }
	case 2: t.fromString(&ok, s); return ok;
	case 3: try { t = cybozu::Time(s); return true; } catch (cybozu::Exception&) { return false; }
	case 4: try { t = cybozu::Time(s.c_str()); return true; } catch (cybozu::Exception&) { return false; }
	default: try { t.fromString(s); return true; } catch (cybozu::Exception&) { return false; }
	}
}
PROP_W(from_text, 3)
{
	D x = gen(g);
	std::string s = text(g, x);
	bool bad = g.boolean();
	if (bad) for (size_t k = 1 + g.below(2); k > 0; k--) switch (g.below(6)) {
	case 0: s.resize(g.below(s.size() + 1)); break;
	case 1: if (!s.empty()) s[g.below(s.size())] = g.chance(1, 4) ? (char)g.below(256) : g.pick(std::vector<char>{'0', '1', '3', '9', '-', '/', ':', '.', 'T', ' ', 'Z', '\0', '+', 'a', 'J', '6'}); break;
	case 2: s.insert(g.below(s.size() + 1), 1, "0-:.Z "[g.below(6)]); break;
	case 3: if (!s.empty()) s.erase(g.below(s.size()), 1 + g.below(3)); break;
	case 4: s += g.pick(std::vector<std::string>{"Z", ".1", ".123", ".1234", " ", "+09:00"}); break;
	default: if (s.size() > 10) { D y = x; y.d = 27 + (int)g.below(6); y.mo = (int)g.below(14); s.replace(5, std::string::npos, pad(y.mo, 2) + s[4] + pad(y.d, 2) + "T" + pad((int)g.below(26), 2) + ":" + pad((int)g.below(62), 2) + ":" + pad((int)g.below(62), 2)); }
	}
	D w;
	bool ok = refParse(s, w);
	g.note() << show(s) << " want " << (ok ? "accepted" : "rejected");
	g.label(ok ? "accepted" : "rejected");
	g.nontrivial(s.size() >= 10);
	cybozu::Time t;
	bool got = read(g, s, t);
	REQUIRE_EQ(got, ok);
	if (!ok) return;
	REQUIRE_EQ((int64_t)t.getTime(), w.t());
	REQUIRE_EQ(t.getMsec(), w.ms);
}
PROP_W(to_text, 2)
{
	D x = gen(g, 9999);
	int64_t v = x.t();
	g.note() << x.y << " " << x.mo << " " << x.d << " " << x.h << " " << x.mi << " " << x.s << " " << x.ms << " time " << v;
	g.nontrivial();
	cybozu::Time t(v, x.ms);
	if (g.boolean()) { t = cybozu::Time(); t.setTime(v, x.ms); }
	std::string base = pad(x.y, 4) + "-" + pad(x.mo, 2) + "-" + pad(x.d, 2) + " " + pad(x.h, 2) + ":" + pad(x.mi, 2) + ":" + pad(x.s, 2);
	REQUIRE_STREQ(t.toString(), base + "." + pad(x.ms, 3));
	REQUIRE_STREQ(t.toString(false), base);
	std::ostringstream os; os << t;
	REQUIRE_STREQ(os.str(), base + "." + pad(x.ms, 3));
	std::string pre = g.text(g.below(4), "ab");
	std::string out = pre;
	bool clear = g.boolean(), ms = g.boolean();
	t.toString(out, ms, clear);
	REQUIRE_STREQ(out, (clear ? "" : pre) + base + (ms ? "." + pad(x.ms, 3) : ""));
	out = pre;
	t.toString(out, "%Y-%b-%dT%H:%M:%S.", ms, clear);
	REQUIRE_STREQ(out, (clear ? "" : pre) + pad(x.y, 4) + "-" + MON[x.mo - 1] + "-" + pad(x.d, 2) + "T" + pad(x.h, 2) + ":" + pad(x.mi, 2) + ":" + pad(x.s, 2) + "." + (ms ? pad(x.ms, 3) : ""));
	if (x.y <= 3000) {
		cybozu::Time u(t.toString());
		REQUIRE(u == t && !(u != t) && !(u < t));
		if (ms) { cybozu::Time z(out.substr(clear ? 0 : pre.size())); REQUIRE(z == t); }
	}
	{ // longer formats; a text which is too long is an error and never cut off
		std::string f, want; size_t len = 1 + g.below(130);
		while (want.size() < len) switch (g.below(4)) { case 0: f += "%Y"; want += pad(x.y, 4); break; case 1: f += "%d/%m"; want += pad(x.d, 2) + "/" + pad(x.mo, 2); break; case 2: f += "%%"; want += "%"; break; default: { std::string q = g.text(1 + g.below(20), "xyz :\xe3"); f += q; want += q; } }
		bool threw = false; out = pre;
		try { t.toString(out, f.c_str(), ms, clear); } catch (cybozu::Exception&) { threw = true; }
		if (threw) REQUIRE_MSG(want.size() >= 128, "a text of " << want.size() << " characters is refused"); else REQUIRE_STREQ(out, (clear ? "" : pre) + want + (ms ? pad(x.ms, 3) : ""));
	}
	REQUIRE(fabs(t.getTimeSec() - ((double)v + x.ms / 1000.0)) < 1e-3);
}
PROP(filetime_and_order)
{
	D x = gen(g), y = gen(g);
	if (g.boolean()) { y = x; if (g.boolean()) y.ms = (y.ms + 1) % 1000; if (g.chance(1, 3)) y.s = (y.s + 1) % 60; }
	cybozu::Time t(x.t(), x.ms), u(y.t(), y.ms);
	g.note() << x.t() << "." << x.ms << " " << y.t() << "." << y.ms;
	g.nontrivial(x.t() > 1);
	bool lt = x.t() < y.t() || (x.t() == y.t() && x.ms < y.ms), eq = x.t() == y.t() && x.ms == y.ms;
	REQUIRE_EQ(t < u, lt); REQUIRE_EQ(t == u, eq); REQUIRE_EQ(t != u, !eq);
	uint32_t lo, hi;
	t.getFILETIME(lo, hi);
	unsigned __int128 w = ((unsigned __int128)x.t() * 1000 + x.ms) * 10000 + 116444736000000000ull;
	REQUIRE_EQ((uint64_t)hi << 32 | lo, (uint64_t)w);
	uint64_t sub = (uint64_t)w + g.below(10000); // fractions of a millisecond are cut
	cybozu::Time v;
	v.setByFILETIME((uint32_t)sub, (uint32_t)(sub >> 32));
	REQUIRE(v == t);
	int add = (int)g.irange(-100000, 2000000000);
	if (x.t() + add < 0) add = -add;
	v.addSec(add);
	REQUIRE_EQ((int64_t)v.getTime(), x.t() + add);
	REQUIRE_EQ(v.getMsec(), x.ms);
}
PROP_W(now, 0.05)
{
	struct timeval a, b;
	gettimeofday(&a, 0);
	cybozu::Time t(true);
	if (g.boolean()) { t.setTime(5, 5); t.setCurrentTime(); }
	double s = cybozu::GetCurrentTimeSec();
	gettimeofday(&b, 0);
	if (b.tv_sec < a.tv_sec || b.tv_sec - a.tv_sec > 100) DISCARD(); // the clock was changed
	int64_t ta = a.tv_sec * 1000LL + a.tv_usec / 1000, tb = b.tv_sec * 1000LL + b.tv_usec / 1000, m = (int64_t)t.getTime() * 1000 + t.getMsec();
	REQUIRE_MSG(ta <= m && m <= tb, ta << " " << m << " " << tb);
	REQUIRE(s * 1000 >= ta - 2 && s * 1000 <= tb + 2);
	g.nontrivial();
}
