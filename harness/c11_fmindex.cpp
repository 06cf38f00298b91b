#include "streams.h"
#include <memory>
#include <cybozu/fmindex.hpp>
using pbt::G;
using pbt::show;
typedef std::vector<uint16_t> V16;
template<class S> static S genText(G& g, size_t maxSize, uint64_t lo, uint64_t hi)
{
	typedef typename S::value_type C;
	size_t n = g.below(3) == 0 ? g.below(6) : g.below(2) ? g.below(80) : g.size(maxSize);
	S s(n, C());
	int kind = (int)g.below(5);
	uint64_t seed = g.below(1u << 20), dom = 1 + g.below(4), base = lo + g.below(hi - lo + 1);
	auto ch = [&](uint64_t x) { return (C)(lo + (base - lo + x) % (hi - lo + 1)); };
	for (size_t i = 0; i < n; i++) {
		uint64_t r = pbt::mix64(seed + i), x = 0;
		switch (kind) {
		case 0: x = r % (dom + 1); break; // tiny alphabet
		case 1: x = 0; break;
		case 2: x = i % dom; break; // periodic
		case 3: x = r % (hi - lo + 1); break;
		case 4: x = (uint64_t)__builtin_popcountll(i) & 1; break; // Thue-Morse
		}
		s[i] = ch(x);
	}
	return s;
}
template<class S> static std::string showT(const S& s) { return show(s.data(), s.size() * sizeof(s[0]), 80); }
template<class S> static size_t findNext(const S& t, const S& k, size_t from)
{
	for (size_t i = from; i + k.size() <= t.size(); i++) if (std::equal(k.begin(), k.end(), t.begin() + i)) return i;
	return ~size_t(0);
}
template<class F, class S> static void verify(G& g, const F& f, const S& text, uint64_t lo, uint64_t hi)
{
	typedef typename S::value_type C;
	for (int q = 0; q < 6; q++) {
		S key;
		switch (g.below(4)) {
		case 0: { size_t n = 1 + g.below(4); for (size_t i = 0; i < n; i++) key.push_back(text.empty() || g.chance(1, 5) ? (C)g.range(lo, hi) : text[g.below(text.size())]); } break;
		case 3: if (!text.empty()) { key.assign(1, text[g.below(text.size())]); break; } // fall through
		default:
			if (!text.empty()) {
				size_t p = g.below(text.size()), n = 1 + g.below(g.boolean() ? 5 : 40);
				key.assign(text.begin() + p, text.begin() + std::min(text.size(), p + n));
				if (g.chance(1, 6)) key.push_back((C)g.range(lo, hi));
			}
			break;
		}
		if (g.chance(1, 20)) key.clear();
		if (!text.empty() && g.chance(1, 12)) { // about as long as the text or longer, perhaps with one other character
			size_t p = g.chance(1, 2) ? 0 : g.below(text.size());
			key.assign(text.begin() + p, text.end());
			if (g.chance(1, 4)) key.insert(key.end(), text.begin(), text.end());
			if (g.boolean()) key[g.chance(1, 2) ? key.size() - 1 - g.below(std::min<size_t>(key.size(), 20)) : g.below(key.size())] = (C)g.range(lo, hi);
			g.label("long key");
		}
		std::set<size_t> want;
		if (!key.empty()) for (size_t p = findNext(text, key, 0); p != ~size_t(0); p = findNext(text, key, p + 1)) want.insert(p);
		size_t b = 7, e = 3;
		bool found = f.getRange(&b, &e, key);
		g.note() << "key " << showT(key) << " occurs " << want.size();
		REQUIRE_MSG(found == !want.empty(), "getRange returned " << found << " but the key occurs " << want.size() << " times");
		if (!found) continue;
		REQUIRE_EQ(e - b, want.size());
		std::set<size_t> got;
		if (want.size() > 2000) continue;
		for (size_t i = b; i < e; i++) {
			size_t pos = f.convertPosition(i);
			got.insert(pos);
			if (i - b > 20) continue;
			// the text before the occurrence
			size_t len = g.chance(1, 12) ? g.size(text.size() + 3) : g.below(12);
			S prev;
			f.getPrevString(prev, i, len);
			size_t l = std::min(len, pos);
			S w(text.begin() + (pos - l), text.begin() + pos);
			REQUIRE_MSG(prev == w, "getPrevString(" << len << ") before " << pos << " is " << showT(prev) << " want " << showT(w));
		}
		REQUIRE_MSG(got == want, "positions differ");
		g.nontrivial();
		if (want.size() > 1) g.label("several occurrences");
	}
	// the whole text from the end mark
	S all;
	f.getPrevString(all, 0, text.size() + g.below(3));
	REQUIRE_MSG(all == text, "recovered text is " << showT(all));
}
template<class F, class S> static void check(G& g, uint64_t lo, uint64_t hi)
{
	F f;
	int rounds = g.chance(1, 4) ? 2 : 1;
	for (int k = 0; k < rounds; k++) {
		const bool far = g.chance(1, 15);
		S text = genText<S>(g, far ? 600 : g.scale > 1 ? 20000 : g.chance(1, 60) ? 10000 : 3000, lo, hi);
		int skip = g.boolean() ? 8 : 1 + (int)g.below(40);
		if (far) { // few or no positions are sampled
			static const int tbl[] = { 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 0x7fffffff };
			switch (g.below(3)) {
			case 0: skip = tbl[g.below(sizeof(tbl) / sizeof(tbl[0]))]; break;
			case 1: skip = (int)text.size() + (int)g.below(4); if (skip == 0) skip = 1; break;
			default: skip = 41 + (int)g.below(1000); break;
			}
			g.label("far samples");
		}
		g.note() << "skip " << skip << " text " << showT(text);
		if (skip == 8 && g.boolean()) f.init(text.begin(), text.end()); else f.init(text.begin(), text.end(), skip);
		verify(g, f, text, lo, hi);
		if (g.boolean()) {
			std::ostringstream os;
			f.save(os);
			std::string data = os.str();
			F h;
			if (g.boolean()) { S o = genText<S>(g, 100, lo, hi); h.init(o.begin(), o.end()); }
			ChunkIn is(g, data);
			h.load(is);
			REQUIRE_EQ(is.pos, data.size());
			verify(g, h, text, lo, hi);
			g.label("saved and loaded");
		}
	}
	if (g.chance(1, 4)) { // a copy does not depend on its original
		std::unique_ptr<F> p(new F);
		S text = genText<S>(g, 1000, lo, hi);
		p->init(text.begin(), text.end(), 1 + (int)g.below(12));
		f = *p;
		F h(*p);
		p.reset();
		g.note() << "copies of the index of " << showT(text);
		verify(g, f, text, lo, hi);
		verify(g, h, text, lo, hi);
		g.label("copied");
	}
	if (g.chance(1, 20)) { S t(3, (typename S::value_type)lo); REQUIRE_THROWS(f.init(t.begin(), t.end(), -(int)g.below(3))); }
}
// non raw: the alphabet is any 255 characters
static void dummy() {}
PROP_W(bytes, 2) { check<cybozu::FMindex, std::string>(g, 1, 255); }
PROP_W(bytes_zero, 1) { check<cybozu::FMindex, std::string>(g, 0, 200); }
PROP_W(raw8, 1.5) { typedef cybozu::FMindexT<uint8_t, true> F; check<F, std::string>(g, 1, 255); }
PROP_W(wide16, 1) { typedef cybozu::FMindexT<uint16_t> F; check<F, V16>(g, 0, 60000); }
PROP_W(raw_zero_rejected, 0.1)
{
	cybozu::FMindexT<uint8_t, true> f;
	std::string t = g.text(1 + g.below(20), "abc");
	t[g.below(t.size())] = 0;
	REQUIRE_THROWS(f.init(t.begin(), t.end()));
	g.note() << show(t);
	g.nontrivial();
}
// more than 255 kinds of bytes do not fit the index
PROP_W(too_many_kinds, 0.1)
{
	std::string t;
	for (int i = 0; i < 256; i++) t += (char)i;
	for (size_t n = g.below(10); n > 0; n--) t += (char)g.below(256);
	cybozu::FMindex f;
	REQUIRE_THROWS(f.init(t.begin(), t.end()));
	t.erase(std::remove(t.begin(), t.end(), (char)g.below(256)), t.end());
	cybozu::FMindex h;
	h.init(t.begin(), t.end());
	verify(g, h, t, 0, 255);
}
