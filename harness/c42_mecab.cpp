// the wrapper of MeCab against MeCab itself
#include <pbt.h>
#include <string.h>
#include <cybozu/nlp/mecab.hpp>
#include <memory>
#include <sstream>
using pbt::G;
struct Tok { const char *pos; size_t len; bool noun; bool eos; };
static std::string genText(G& g)
{
	static const char *w[] = { "\xe3\x81\x99\xe3\x82\x82\xe3\x82\x82", "\xe3\x82\x82", "\xe3\x81\xae", "\xe3\x81\x86\xe3\x81\xa1", "\xe6\x9d\xb1\xe4\xba\xac", "\xe9\x83\xbd", "\xe3\x80\x82", "\xe8\xb5\xb0\xe3\x82\x8b", "\xe3\x81\x8d\xe3\x82\x8c\xe3\x81\x84", "abc", "x", "12", " ", "  ", "\t", "\n", ".", "!", "\xe3\x80\x80", "\xef\xbc\xa1", "\xe3\x83\x86\xe3\x82\xb9\xe3\x83\x88", "\r", "\r\n", "\t\r", " \r " };
	std::string s;
	size_t n = g.size(14);
	for (size_t i = 0; i < n; i++) s += w[g.below(sizeof(w) / sizeof(w[0]))];
	if (g.chance(1, 12)) s += std::string(200 + g.below(400), g.boolean() ? 'q' : '7') + (g.boolean() ? " end" : "");
	return s;
}
static const char *options[] = { "-O wakati", "-O wakati --max-grouping-size=600", "--node-format=%m\\s --eos-format=END" };
static MeCab::Tagger& oracle(int k)
{
	static std::unique_ptr<MeCab::Tagger> t[3];
	if (!t[k]) t[k].reset(MeCab::createTagger(options[k]));
	if (!t[k]) throw std::runtime_error("no dictionary");
	return *t[k];
}
static std::vector<std::string> words(int k, const char *p, size_t n)
{
	std::vector<std::string> v;
	const char *r = oracle(k).parse(p, n);
	std::string all = r ? r : "", cur;
	for (char c : all) { if (c == ' ' || (cur.empty() && (c == '\n' || c == '\t' || c == '\r'))) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += c; }
	if (!cur.empty()) v.push_back(cur);
	return v;
}
static cybozu::nlp::Mecab& wrapper(int k)
{
	static std::unique_ptr<cybozu::nlp::Mecab> m[3];
	if (!m[k]) m[k].reset(k ? new cybozu::nlp::Mecab(options[k]) : new cybozu::nlp::Mecab());
	return *m[k];
}
PROP(split)
{
	std::string s = genText(g);
	const int k = (int)g.below(3);
	cybozu::nlp::Mecab& m = wrapper(k);
	size_t n = g.chance(1, 4) ? g.below(s.size() + 1) : s.size();
	while (n < s.size() && ((unsigned char)s[n] & 0xc0) == 0x80) n++;
	g.note() << s << " [" << n << "]";
	// 0 means up to the end
	std::vector<std::string> want = words(k, s.c_str(), n ? n : s.size()), got;
	g.nontrivial(want.size() > 2);
	bool b = n == s.size() && g.boolean() ? m.parse(got, s.c_str()) : m.parse(got, s.c_str(), n);
	REQUIRE(b);
	REQUIRE_EQ(got.size(), want.size());
	for (size_t i = 0; i < got.size(); i++) REQUIRE_STREQ(got[i], want[i]);
}
PROP(walk)
{
	std::string s = genText(g);
	const bool nul = g.chance(1, 8); // also a text with a NUL character
	if (nul) s += std::string(1, '\0') + genText(g);
	const int k = (int)g.below(3);
	g.note() << s << " option " << k;
	cybozu::nlp::Mecab& m = wrapper(k);
	if (g.chance(1, 10)) { std::unique_ptr<cybozu::nlp::Mecab> fresh(new cybozu::nlp::Mecab()); REQUIRE(fresh->isEnd()); }
	std::vector<Tok> want;
	for (const MeCab::Node *p = oracle(k).parseToNode(s.c_str(), s.size()); p; p = p->next) {
		Tok t = { s.c_str() + (p->surface - s.c_str()), p->length, p->length >= 2 && strncmp(p->feature, "\xe5\x90\x8d", 3) == 0, p->stat == MECAB_EOS_NODE };
		want.push_back(t);
	}
	g.nontrivial(want.size() > 4);
	if (g.boolean()) m.set(s); else if (!nul && g.boolean()) m.set(s.c_str()); else m.set(s.c_str(), s.size());
	size_t i = 0;
	for (; !m.isEnd(); m.next(), i++) {
		REQUIRE_MSG(i < want.size() && !want[i].eos, "too many words");
		REQUIRE_EQ((size_t)(m.getPos() - s.c_str()), (size_t)(want[i].pos - s.c_str()));
		REQUIRE_EQ(m.getSize(), want[i].len);
		REQUIRE_EQ(m.isNoun(), want[i].noun);
	}
	REQUIRE_MSG(i < want.size() && want[i].eos, "word " << i << " is taken for the end");
}
PROP(refuse)
{
	std::string opt = g.pick(std::vector<std::string>{ "-r /nonexistent/mecabrc", "-d /nonexistent/dic", "--unknown-option" });
	g.note() << opt;
	g.nontrivial();
	REQUIRE_THROWS(cybozu::nlp::Mecab(opt.c_str()));
}
