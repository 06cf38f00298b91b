// regular expressions over cybozu::String against the underlying engine on plain wide strings
#include <pbt.h>
#include <cybozu/regex.hpp>
#include <memory>
using pbt::G; using pbt::show;
typedef std::wstring W;
typedef boost::basic_regex<wchar_t> RE;
namespace rc = boost::regex_constants;
static W chars(G& g, size_t n) { static const wchar_t t[] = { 'a', 'a', 'b', 'b', 'c', 'A', '1', ' ', '\n', '-', 0x3042, 0x3044, 0xff71, 0x20bb7, '.', '$', 0 }; W r; while (n--) r += t[g.below(17)]; return r; }
static W atom(G& g, int d);
static W alt(G& g, int d)
{
	W r; size_t n = 1 + (g.chance(1, 4) ? 1 + g.below(2) : 0);
	for (size_t i = 0; i < n; i++) { if (i) r += '|'; size_t k = g.below(4); if (i == 0 && n == 1 && k == 0) k = 1; while (k--) r += atom(g, d); }
	return r;
}
static W atom(G& g, int d)
{
	W r; bool rep = true;
	switch (g.below(d > 0 ? 13 : 9)) {
	case 0: case 1: case 2: { static const wchar_t t[] = { 'a', 'b', 'c', 'A', '1', ' ', '-', 0x3042, 0x20bb7 }; r += t[g.below(9)]; break; }
	case 3: r += '.'; break;
	case 4: { static const wchar_t *t[] = { L"[ab]", L"[^a]", L"[\x3041-\x3050]", L"[a-c1]", L"[[:alpha:]]", L"[^\x3042\xff71]" }; r += t[g.below(6)]; break; }
	case 5: { static const wchar_t *t[] = { L"\\d", L"\\w", L"\\s", L"\\W", L"\\.", L"\\$" }; r += t[g.below(6)]; break; }
	case 6: { static const wchar_t *t[] = { L"^", L"$", L"\\b", L"\\B" }; r += t[g.below(4)]; rep = false; break; }
	case 7: if (g.chance(1, 3)) { r += L"\\1"; break; } r += 'a'; break;
	case 8: r += 'b'; break;
	case 9: case 10: r += '('; r += alt(g, d - 1); r += ')'; break;
	case 11: r += L"(?:"; r += alt(g, d - 1); r += ')'; break;
	default: r += g.boolean() ? L"(?=" : L"(?!"; r += alt(g, d - 1); r += ')'; rep = false; break;
	}
	if (rep) switch (g.below(8)) { case 0: r += '*'; break; case 1: r += '+'; break; case 2: r += '?'; break; case 3: r += L"{1,2}"; break; case 4: if (g.boolean()) r += L"+?"; break; default: break; }
	return r;
}
static std::string u8(const W& w) { std::ostringstream o; for (wchar_t c : w) if (c >= 32 && c < 127) o << (char)c; else o << "\\x{" << std::hex << (int)c << "}"; return o.str(); }
static cybozu::String S(const W& w) { return cybozu::String(w.data(), w.data() + w.size()); }
static W back(const cybozu::String& s) { return s.get(); }
static W gen(G& g) { if (g.chance(1, 15)) { W r = chars(g, 1 + g.size(6)); static const wchar_t t[] = { '(', ')', '[', '*', '{', '\\', '?' }; r += t[g.below(7)]; return r; } return alt(g, 2); }
static void compare(const cybozu::String& s, const W& w, bool got, const cybozu::smatch& m, bool want, const boost::match_results<W::const_iterator>& n)
{
	REQUIRE_MSG(got == want, "found " << got);
	if (!got) return;
	REQUIRE_EQ(m.size(), n.size());
	for (size_t i = 0; i < n.size(); i++) {
		REQUIRE_EQ(m[i].matched, n[i].matched);
		REQUIRE_MSG(back(m.str((int)i)) == n.str((int)i), "group " << i << " is " << u8(back(m.str((int)i))) << " instead of " << u8(n.str((int)i)));
		if (n[i].matched) { REQUIRE_EQ((long)m.position((int)i), (long)n.position((int)i)); REQUIRE_EQ((long)m.length((int)i), (long)n.length((int)i)); }
	}
	REQUIRE(back(m.str()) == n.str(0));
	REQUIRE_MSG(back(m.prefix().str()) == n.prefix().str(), "prefix " << u8(back(m.prefix().str())));
	REQUIRE_MSG(back(m.suffix().str()) == n.suffix().str(), "suffix " << u8(back(m.suffix().str())));
	cybozu::String p = m.prefix(); REQUIRE(back(p) == n.prefix().str());
}
static cybozu::regex build(G& g, const W& p, rc::syntax_option_type f, bool plain)
{
	switch (p.find(L'\0') != W::npos ? 2 + g.below(2) : g.below(6)) { // a NUL only with a length
	case 0: if (plain) return cybozu::regex(p.c_str()); return cybozu::regex(p.c_str(), f);
	case 1: if (plain) return cybozu::regex(S(p)); return cybozu::regex(S(p), f);
	case 2: return cybozu::regex(p.data(), p.data() + p.size(), f);
	case 3: return cybozu::regex(p.data(), p.size(), f);
	case 4: { std::vector<cybozu::Char16> v; for (wchar_t c : p) { if (c >= 0x10000) { v.push_back(0xd800 | ((c - 0x10000) >> 10)); v.push_back(0xdc00 | ((c - 0x10000) & 0x3ff)); } else v.push_back((cybozu::Char16)c); } v.push_back(0); if (plain) return cybozu::regex(v.data()); return cybozu::regex(v.data(), f); }
	default: { cybozu::regex a(S(p), f); cybozu::regex b(a); return b; }
	}
}
PROP_W(regex, 3)
{
	W p = gen(g), w = chars(g, g.size(g.chance(1, 20) ? 120 : 14)), fmt;
	if (g.chance(1, 8)) p.insert(g.below(p.size() + 1), 1, L'\0');
	{ static const wchar_t *t[] = { L"x", L"$1", L"$&", L"\x3042", L"$2", L"$$", L"<", L">", L"$`", L"\\n" }; size_t k = g.below(4); while (k--) if (g.chance(1, 10)) fmt += L'\0'; else fmt += t[g.below(10)]; }
	bool plain = g.chance(2, 3);
	rc::syntax_option_type f = rc::ECMAScript; if (!plain && g.boolean()) f |= rc::icase;
	rc::match_flag_type mf = rc::match_default; if (g.chance(1, 3)) { static const rc::match_flag_type t[] = { rc::match_not_bol, rc::match_not_eol, rc::match_not_null, rc::match_continuous, rc::format_first_only, rc::format_no_copy, rc::match_not_dot_newline }; mf |= t[g.below(7)]; }
	bool useMf = mf != rc::match_default;
	g.note() << "/" << u8(p) << "/" << (f == rc::ECMAScript ? "" : "i") << " on " << u8(w) << " flags " << (int)mf << " replaced by " << u8(fmt);
	std::unique_ptr<RE> re;
	try { re.reset(new RE(p.data(), p.size(), f)); } catch (std::exception&) {}
	if (!re) { REQUIRE_THROWS(build(g, p, f, plain)); g.label("bad pattern"); g.nontrivial(false); return; }
	cybozu::regex r = build(g, p, f, plain);
	cybozu::String s = S(w); const cybozu::String cs = s;
	size_t a = g.chance(1, 3) ? g.below(w.size() + 1) : 0, b = g.chance(1, 3) ? a + g.below(w.size() - a + 1) : w.size();
	bool whole = a == 0 && b == w.size() && g.boolean();
	const W::const_iterator wb = w.cbegin() + a, we = w.cbegin() + b;
	const cybozu::String::const_iterator sb = cs.begin() + a, se = cs.begin() + b;
	try {
		boost::match_results<W::const_iterator> n; cybozu::smatch m;
		bool want = boost::regex_search(wb, we, n, *re, mf), got;
		if (whole) { got = useMf ? cybozu::regex_search(cs, m, r, mf) : cybozu::regex_search(cs, m, r); REQUIRE_EQ(useMf ? cybozu::regex_search(cs, r, mf) : cybozu::regex_search(cs, r), want); }
		else { got = useMf ? cybozu::regex_search(sb, se, m, r, mf) : cybozu::regex_search(sb, se, m, r); REQUIRE_EQ(useMf ? cybozu::regex_search(sb, se, r, mf) : cybozu::regex_search(sb, se, r), want); }
		compare(cs, w, got, m, want, n);
		g.nontrivial(want && p.size() > 1);
		cybozu::smatch m2; boost::match_results<W::const_iterator> n2;
		want = boost::regex_match(wb, we, n2, *re, mf);
		if (whole) { got = useMf ? cybozu::regex_match(cs, m2, r, mf) : cybozu::regex_match(cs, m2, r); REQUIRE_EQ(useMf ? cybozu::regex_match(cs, r, mf) : cybozu::regex_match(cs, r), want); }
		else { got = useMf ? cybozu::regex_match(sb, se, m2, r, mf) : cybozu::regex_match(sb, se, m2, r); REQUIRE_EQ(useMf ? cybozu::regex_match(sb, se, r, mf) : cybozu::regex_match(sb, se, r), want); }
		compare(cs, w, got, m2, want, n2);
		W out; boost::regex_replace(std::back_inserter(out), wb, we, *re, fmt, mf);
		cybozu::String rep = whole ? (useMf ? cybozu::regex_replace(cs, r, S(fmt), mf) : cybozu::regex_replace(cs, r, S(fmt))) : useMf ? cybozu::regex_replace(sb, se, r, S(fmt), mf) : cybozu::regex_replace(sb, se, r, S(fmt));
		REQUIRE_MSG(back(rep) == out, "replaced to " << u8(back(rep)) << " instead of " << u8(out));
		REQUIRE(back(cs) == w);
		// all matches
		boost::regex_iterator<W::const_iterator> i(wb, we, *re, mf), ie;
		cybozu::sregex_iterator j = useMf ? cybozu::sregex_iterator(sb, se, r, mf) : cybozu::sregex_iterator(sb, se, r), je;
		size_t cnt = 0;
		for (; i != ie; ++i, ++cnt) {
			REQUIRE_MSG(j != je, "match " << cnt << " is missing");
			cybozu::sregex_iterator keep(j);
			compare(cs, w, true, *j, true, *i);
			REQUIRE(back(j->str()) == i->str(0));
			if (g.boolean()) ++j; else j++;
			REQUIRE(back(keep->str()) == i->str(0));
		}
		REQUIRE_MSG(j == je, "more than " << cnt << " matches");
		// tokens
		int kind = (int)g.below(3); int sub = (int)g.irange(-1, 2); std::vector<int> subs; size_t k = 1 + g.below(3); while (k--) subs.push_back((int)g.irange(-1, 2)); int arr[2] = { -1, (int)g.below(2) };
		typedef boost::regex_token_iterator<W::const_iterator> TI; typedef cybozu::sregex_token_iterator TJ;
		TI ti, tie; TJ tj, tje;
		if (kind == 0) { ti = sub == 0 && !useMf ? TI(wb, we, *re) : TI(wb, we, *re, sub, mf); tj = sub == 0 && !useMf ? TJ(sb, se, r) : useMf ? TJ(sb, se, r, sub, mf) : TJ(sb, se, r, sub); }
		else if (kind == 1) { ti = TI(wb, we, *re, subs, mf); tj = useMf ? TJ(sb, se, r, subs, mf) : TJ(sb, se, r, subs); }
		else { ti = TI(wb, we, *re, arr, mf); tj = useMf ? TJ(sb, se, r, arr, mf) : TJ(sb, se, r, arr); }
		cnt = 0;
		for (; ti != tie; ++ti, ++cnt) {
			REQUIRE_MSG(tj != tje, "token " << cnt << " is missing");
			W x(ti->first, ti->second); cybozu::String y;
			switch (g.below(3)) { case 0: y = *tj; ++tj; break; case 1: y = *tj++; break; default: y = (*tj).str(); REQUIRE_EQ((bool)(*tj).matched, (bool)ti->matched); ++tj; break; }
			if (ti->matched) REQUIRE_MSG(back(y) == x, "token " << cnt << " is " << u8(back(y)) << " instead of " << u8(x)); else REQUIRE(y.empty());
		}
		REQUIRE_MSG(tj == tje, "more than " << cnt << " tokens");
	} catch (pbt::Failure&) { throw; } catch (std::runtime_error&) { DISCARD(); } // too complex for the engine
}
