// configuration text
#include <pbt.h>
#include <cybozu/config.hpp>
#include <limits>
using pbt::G; using pbt::show;
typedef std::map<std::string, std::map<std::string, std::string>> M;
static bool name(const std::string& s) { for (char c : s) if (!(isalnum((unsigned char)c) && (unsigned char)c < 128) && c != '_') return false; return !s.empty(); }
static bool ref(const std::string& text, M& m)
{
	m.clear();
	m[""];
	std::string sec;
	size_t i = 0;
	while (i < text.size()) {
		size_t e = text.find('\n', i);
		std::string l = text.substr(i, e == std::string::npos ? std::string::npos : e - i);
		i = e == std::string::npos ? text.size() : e + 1;
		if (!l.empty() && l.back() == '\r') l.pop_back();
		if (l.empty() || l[0] == ';' || l[0] == '#') continue;
		if (l[0] == '[') {
			if (l.back() != ']' || !name(l.substr(1, l.size() - 2))) return false;
			sec = l.substr(1, l.size() - 2);
			m[sec];
			continue;
		}
		size_t q = l.find('=');
		if (q == std::string::npos) return false;
		std::string k = l.substr(0, q);
		while (!k.empty() && (k.back() == ' ' || k.back() == '\t')) k.pop_back();
		if (!name(k)) return false;
		if (!m[sec].insert(std::make_pair(k, l.substr(q + 1))).second) return false;
	}
	return true;
}
static std::string genName(G& g) { return g.below(4) ? g.text(1 + g.below(3), "ab1_Z") : g.text(1 + g.below(12), "abcxyzABCXYZ0123456789_"); }
static std::string genValue(G& g)
{
	switch (g.below(5)) {
	case 0: return g.text(g.below(8), "ab =;#[]\t\"");
	case 1: { std::string s; for (size_t n = g.below(10); n > 0; n--) { char c = (char)g.below(256); if (c != '\r' && c != '\n') s += c; } return s; }
	case 2: return std::to_string((long long)g.bits(64) >> g.below(64));
	case 3: return std::to_string(g.bits(64) >> g.below(64)) + (g.chance(1, 3) ? g.text(1, " x-.") : "");
	default: { static const char *t[] = { "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "", "0", "-0", "00" }; return g.pick(t); }
	}
}
static std::string showM(const M& m) { std::ostringstream os; for (auto& s : m) { os << "[" << s.first << "] "; for (auto& k : s.second) os << k.first << "=" << show(k.second, 30) << " "; } return os.str(); }
static void verify(const cybozu::Config& c, const M& m)
{
	REQUIRE_EQ(c.getMap().size(), m.size());
	for (auto& s : m) {
		const cybozu::Config::Section *q = c.querySection(s.first);
		REQUIRE_MSG(q, "no section " << s.first);
		REQUIRE(&c.getSection(s.first) == q);
		REQUIRE_MSG(q->getMap() == s.second, "section " << show(s.first) << " differs: " << show(q->toString()));
		for (auto& k : s.second) {
			REQUIRE(q->queryValue(k.first) && *q->queryValue(k.first) == k.second);
			const std::string& v = q->getValue(k.first);
			REQUIRE_STREQ(v, k.second);
			REQUIRE_STREQ(q->getValue(k.first, std::string("default")), k.second);
		}
	}
}
template<class T> static bool refInt(const std::string& s0, T& x)
{
	std::string s = s0.substr(0, s0.find('\0'));
	size_t i = 0;
	bool neg = std::numeric_limits<T>::is_signed && !s.empty() && s[0] == '-';
	if (neg) i++;
	if (i == s.size()) return false;
	__int128 v = 0;
	for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > ((__int128)1 << 70)) return false; }
	if (neg) v = -v;
	if (v < (__int128)std::numeric_limits<T>::min() || v > (__int128)std::numeric_limits<T>::max()) return false;
	x = (T)v;
	return true;
}
template<class T> static void ints(const cybozu::Config::Section& s, const std::string& key, const std::string *val)
{
	T want = 77, got = 0, got2 = 0;
	bool ok = !val || refInt<T>(*val, want), t1 = false, t2 = false;
	try { got = s.getValue(key, (T)77); } catch (std::exception&) { t1 = true; }
	REQUIRE_EQ(t1, !ok);
	if (ok) REQUIRE_EQ(got, want);
	try { got2 = (T)s.getValue(key); } catch (std::exception&) { t2 = true; }
	REQUIRE_EQ(t2, !ok || !val);
	if (!t2) REQUIRE_EQ(got2, want);
}
PROP_W(load, 3)
{
	std::string text;
	for (size_t n = g.below(10); n > 0; n--) {
		std::string l;
		switch (g.below(8)) {
		case 0: break;
		case 1: l = (g.boolean() ? ";" : "#") + genValue(g); break;
		case 2: l = "[" + genName(g) + "]"; break;
		case 3: if (g.chance(1, 6)) { static const char *bad[] = { "[", "[]", "[a", "[a] ", "[a-b]", "a]", "=1", " =1", "noequal", " a=1", "a b=1", "a-b=1", "[a]]", "[[a]", " ", "\t", "a\t b=", "\xe3=1", "[ ]", "]" }; l = g.pick(bad); break; }
			// fall through
		default: l = genName(g) + (g.chance(1, 3) ? g.text(g.below(4), " \t") : "") + "=" + genValue(g); break;
		}
		text += l;
		if (n > 1 || g.boolean()) text += g.boolean() ? "\n" : "\r\n";
	}
	if (g.chance(1, 20) && !text.empty()) { char c = (char)g.below(256); if (c != '\r') text[g.below(text.size())] = c; }
	M m;
	bool ok = ref(text, m);
	// CR elsewhere than before LF is not in the format
	for (size_t i = 0; i < text.size(); i++) if (text[i] == '\r' && i + 1 < text.size() && text[i + 1] != '\n') DISCARD();
	g.note() << show(text, 500) << " -> " << (ok ? showM(m) : std::string("error"));
	g.label(ok ? "accepted" : "rejected");
	g.nontrivial(text.size() > 3);
	cybozu::Config c;
	std::istringstream is(text);
	bool thrown = false;
	try { c.load(is); } catch (std::exception&) { thrown = true; }
	REQUIRE_EQ(thrown, !ok);
	if (!ok) return;
	verify(c, m);
	// what it prints is a configuration with the same contents
	std::istringstream is2(c.toString());
	cybozu::Config d;
	d.load(is2);
	verify(d, m);
	REQUIRE_STREQ(d.toString(), c.toString());
	for (int k = 0; k < 3; k++) {
		auto it = m.begin(); std::advance(it, g.below(m.size()));
		std::string key = it->second.empty() || g.chance(1, 4) ? genName(g) : [&] { auto j = it->second.begin(); std::advance(j, g.below(it->second.size())); return j->first; }();
		const std::string *v = it->second.count(key) ? &it->second[key] : 0;
		const cybozu::Config::Section& s = c.getSection(it->first);
		ints<short>(s, key, v); ints<unsigned short>(s, key, v); ints<int>(s, key, v); ints<unsigned int>(s, key, v); ints<int64_t>(s, key, v); ints<uint64_t>(s, key, v);
		if (!v) { REQUIRE(s.queryValue(key) == 0); REQUIRE_STREQ(s.getValue(key, std::string("dflt")), "dflt"); }
		std::string none = genName(g);
		if (!m.count(none)) { REQUIRE(c.querySection(none) == 0); REQUIRE_THROWS(c.getSection(none)); }
	}
}
PROP_W(build, 1)
{
	cybozu::Config c;
	M m;
	cybozu::Config::Section *cur = c.appendSection("");
	m[""];
	std::string sec;
	for (size_t n = g.below(15); n > 0; n--) {
		switch (g.below(4)) {
		case 0: sec = genName(g); cur = c.appendSection(sec); m[sec]; break;
		case 1:
			{
				cybozu::Config::Section s;
				std::string nm = genName(g);
				std::map<std::string, std::string> w;
				for (size_t k = g.below(3); k > 0; k--) { std::string key = genName(g), v = genValue(g); if (w.count(key)) REQUIRE_THROWS(s.append(key, v)); else { s.append(key, v); w[key] = v; } }
				c.appendSection(nm, s);
				m[nm] = w;
			}
			break;
		default:
			{
				std::string key = g.chance(1, 8) ? g.text(g.below(3), "a -=\xe3\n[") : genName(g), v = genValue(g);
				g.note() << "append " << show(key) << "=" << show(v) << " to " << sec;
				if (!name(key) || m[sec].count(key)) REQUIRE_THROWS(cur->append(key, v));
				else { cur->append(key, v); m[sec][key] = v; }
			}
		}
	}
	if (g.chance(1, 5)) { std::string bad = g.text(1 + g.below(3), "a] -\n"); if (!name(bad)) REQUIRE_THROWS(c.appendSection(bad)); }
	verify(c, m);
	g.nontrivial(m.size() > 1);
	char file[] = "cfg_XXXXXX";
	int fd = mkstemp(file);
	REQUIRE(fd >= 0);
	std::string t = c.toString();
	REQUIRE(write(fd, t.data(), t.size()) == (ssize_t)t.size());
	close(fd);
	std::string err;
	try { cybozu::Config d(file); verify(d, m); } catch (pbt::Failure& f) { err = f.msg; } catch (std::exception& e) { err = e.what(); }
	unlink(file);
	REQUIRE_MSG(err.empty(), err);
	REQUIRE_THROWS(cybozu::Config(std::string("no/such/file")));
}
