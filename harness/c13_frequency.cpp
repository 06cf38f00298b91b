#include "streams.h"
#include <sstream>
#include <memory>
#include <cybozu/frequency.hpp>
using pbt::G;
using pbt::show;
template<class E> static E genElem(G& g, uint64_t dom, uint64_t base) { return (E)(base + g.below(dom)); }
template<> std::string genElem<std::string>(G& g, uint64_t dom, uint64_t base) { return std::string(1 + g.below(3), (char)('a' + g.below(std::min<uint64_t>(dom, 26)))); }
template<class F, class E> static void verify(G& g, const F& f, const std::map<E, size_t>& m, const std::vector<E>& absent, bool throwsOnMissing, bool ready = true)
{
	REQUIRE_EQ(f.size(), m.size());
	std::set<E> seen;
	size_t prev = ~size_t(0);
	for (size_t i = 0; i < f.size(); i++) {
		E e = f.getElement(i);
		auto it = m.find(e);
		REQUIRE_MSG(it != m.end(), "element " << i << " was never counted");
		REQUIRE_MSG(seen.insert(e).second, "element " << i << " appears twice");
		REQUIRE_EQ((size_t)f.getFrequency(e), it->second);
		REQUIRE_MSG(it->second <= prev, "element " << i << " is more frequent than the one before");
		REQUIRE_EQ((size_t)f.getIndex(e), i);
		prev = it->second;
	}
	for (auto& a : absent) if (!m.count(a)) {
		REQUIRE_EQ((size_t)f.getFrequency(a), 0u);
		if (throwsOnMissing) REQUIRE_THROWS(f.getIndex(a));
		else if (ready) REQUIRE_MSG((size_t)f.getIndex(a) >= f.size(), "an element never counted has the index " << (size_t)f.getIndex(a) << " of another one");
	}
	if (throwsOnMissing) REQUIRE_THROWS(f.getElement(f.size() + g.below(3)));
}
template<class F, class E> static void check(G& g, uint64_t dom, uint64_t base, bool throwsOnMissing)
{
	F f;
	std::map<E, size_t> m;
	std::vector<E> absent;
	int rounds = 1 + (int)g.below(3);
	for (int k = 0; k < rounds; k++) {
		std::vector<E> v;
		uint64_t d = 1 + g.below(dom);
		size_t n = g.below(4) == 0 ? g.size(3000) : g.below(30);
		if (g.chance(1, 8)) { f.clear(); m.clear(); verify(g, f, m, absent, throwsOnMissing, false); }
		bool many = g.chance(1, 60); // counts beyond 16 bits
		if (many) { size_t c = 60000 + g.below(80000); v.assign(c, genElem<E>(g, d, base)); g.label("more than 60000 of one"); }
		for (size_t i = 0; i < n; i++) v.push_back(g.boolean() || v.empty() ? genElem<E>(g, d, base) : v[g.below(v.size())]);
		g.note() << "count " << n << " elements of " << d << " kinds";
		int how = (int)g.below(3);
		if (how == 0) { f.clear(); m.clear(); f.init(v.begin(), v.end()); }
		else if (how == 1) { F t(v.begin(), v.end()); f.clear(); m.clear(); for (auto& e : v) { f.append(e); } f.ready(); verify(g, t, [&]{ std::map<E, size_t> w; for (auto& e : v) w[e]++; return w; }(), absent, throwsOnMissing); }
		else { for (auto& e : v) f.append(e); f.ready(); }
		for (auto& e : v) m[e]++;
		for (int i = 0; i < 5; i++) absent.push_back(genElem<E>(g, dom, base));
		verify(g, f, m, absent, throwsOnMissing);
		if (g.boolean()) {
			std::ostringstream os;
			f.save(os);
			F h;
			if (g.boolean()) { std::vector<E> o(3, genElem<E>(g, dom, base)); h.init(o.begin(), o.end()); }
			ChunkIn is(g, os.str());
			h.load(is);
			REQUIRE_EQ(is.pos, os.str().size());
			verify(g, h, m, absent, throwsOnMissing);
			for (size_t i = 0; i < f.size(); i++) REQUIRE_MSG(h.getElement(i) == f.getElement(i), "index changed by save and load");
			g.label("saved and loaded");
		}
		if (g.chance(1, 3)) { // a copy does not depend on its original
			std::unique_ptr<F> p(new F(f));
			F q;
			if (g.boolean()) { std::vector<E> o(3, genElem<E>(g, dom, base)); q.init(o.begin(), o.end()); }
			std::vector<E> order;
			for (size_t i = 0; i < f.size(); i++) order.push_back(f.getElement(i));
			f.clear();
			verify(g, *p, m, absent, throwsOnMissing);
			q = *p;
			p->clear();
			p.reset();
			verify(g, q, m, absent, throwsOnMissing);
			for (size_t i = 0; i < order.size(); i++) REQUIRE_MSG(q.getElement(i) == order[i], "index changed by a copy");
			if (g.boolean()) q = *&q;
			f = q;
			q.clear();
			verify(g, f, m, absent, throwsOnMissing);
			g.label("copied");
		}
		if (g.chance(1, 4)) { // counting goes on after loading
			std::ostringstream os;
			f.save(os);
			ChunkIn is(g, os.str());
			f.load(is);
			verify(g, f, m, absent, throwsOnMissing);
		}
		g.nontrivial(m.size() > 1);
	}
}
PROP(of_uint8) { typedef cybozu::Frequency<uint8_t, uint32_t> F; check<F, uint8_t>(g, 256, 0, false); }
PROP(of_char) { typedef cybozu::Frequency<char> F; check<F, char>(g, 256, 0, false); }
PROP(of_uint16) { typedef cybozu::Frequency<uint16_t, uint32_t> F; check<F, uint16_t>(g, 5000, 60000, true); }
PROP(of_int) { typedef cybozu::Frequency<int> F; check<F, int>(g, 300, 0xffffff00u, true); }
PROP(of_string) { typedef cybozu::Frequency<std::string> F; check<F, std::string>(g, 26, 0, true); }
