#include <pbt.h>
#include <cybozu/atoi.hpp>
#include <limits>
#include <type_traits>
using pbt::show;
typedef __int128 I;

// exact-size heap copy, so that reading outside [p, p + n) is an ASan report
struct Buf {
	char *p; size_t n;
	Buf(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
	~Buf() { free(p); }
};

static bool refDec(const std::string& s, bool isSigned, I lo, I hi, I *out)
{
	size_t i = 0;
	bool neg = false;
	if (isSigned && !s.empty() && s[0] == '-') { neg = true; i = 1; }
	if (i == s.size()) return false;
	I x = 0;
	bool over = false;
	for (; i < s.size(); i++) {
		if (s[i] < '0' || s[i] > '9') return false;
		x = x * 10 + (s[i] - '0');
		if (x > ((I)1 << 70)) { over = true; x = (I)1 << 70; }
	}
	if (over) return false;
	if (neg) x = -x;
	if (x < lo || x > hi) return false;
	*out = x;
	return true;
}
static bool refHex(const std::string& s, I hi, I *out)
{
	if (s.empty()) return false;
	I x = 0;
	for (size_t i = 0; i < s.size(); i++) {
		int d;
		char c = s[i];
		if (c >= '0' && c <= '9') d = c - '0';
		else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
		else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
		else return false;
		x = x * 16 + d;
		if (x > hi) { // the value is out of range, but the rest must still be scanned for the reference's sake
			return false;
		}
	}
	*out = x;
	return true;
}
static std::string toS(I x)
{
	if (x == 0) return "0";
	bool n = x < 0;
	unsigned __int128 u = n ? -(unsigned __int128)x : x;
	std::string s;
	while (u) { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; }
	return n ? "-" + s : s;
}
static std::string toHex(unsigned __int128 x, bool up)
{
	if (x == 0) return "0";
	std::string s;
	while (x) { s.insert(s.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[(int)(x & 15)]); x >>= 4; }
	return s;
}

template<class T, class Conv>
void checkConv(pbt::G& g, const std::string& full, bool isHex)
{
	const I lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
	// how the text is handed over: NUL terminated, (pointer, size), or std::string
	int way = (int)g.below(3);
	std::string eff = full; // what the parser is supposed to see
	size_t size = full.size();
	if (way == 1) size = g.boolean() ? full.size() : g.below(full.size() + 1);
	eff = full.substr(0, way == 1 ? size : full.size());
	size_t nul = eff.find('\0');
	if (nul != std::string::npos) eff.resize(nul);
	I want = 0;
	bool ok = isHex ? refHex(eff, hi, &want) : refDec(eff, std::is_signed<T>::value, lo, hi, &want);
	g.note() << (isHex ? "hextoi" : "atoi") << " bits=" << sizeof(T) * 8 << " signed=" << std::is_signed<T>::value << " way=" << way << " text=" << show(full) << " size=" << size << " want=" << (ok ? toS(want) : std::string("reject"));
	g.label(ok ? "accepted" : "rejected");
	if (ok && (want == lo || want == hi) && eff.size() > 2) g.label("at a limit");
	g.nontrivial(full.size() >= 2);
	T got = 0;
	bool threw = false, b = !ok;
	if (way == 0) {
		Buf buf(full + std::string(1, '\0'));
		bool useB = g.boolean();
		if (useB) {
			got = Conv(&b, buf.p);
			REQUIRE_MSG(b == ok, "bool result " << b);
			if (!ok) REQUIRE_MSG(got == 0, "value must be 0 when rejected");
		} else {
			try { got = Conv(buf.p); } catch (std::exception&) { threw = true; }
			REQUIRE_MSG(threw == !ok, "threw=" << threw);
		}
	} else if (way == 1) {
		Buf buf(full.substr(0, size));
		bool useB = g.boolean();
		if (useB) {
			got = Conv(&b, buf.p, buf.n);
			REQUIRE_MSG(b == ok, "bool result " << b);
			if (!ok) REQUIRE_MSG(got == 0, "value must be 0 when rejected");
		} else {
			try { got = Conv(buf.p, buf.n); } catch (std::exception&) { threw = true; }
			REQUIRE_MSG(threw == !ok, "threw=" << threw);
		}
	} else {
		bool useB = g.boolean();
		if (useB) {
			got = Conv(&b, full);
			REQUIRE_MSG(b == ok, "bool result " << b);
			if (!ok) REQUIRE_MSG(got == 0, "value must be 0 when rejected");
		} else {
			try { got = Conv(full); } catch (std::exception&) { threw = true; }
			REQUIRE_MSG(threw == !ok, "threw=" << threw);
		}
	}
	if (ok) REQUIRE_MSG((I)got == want, "got " << toS((I)got) << " want " << toS(want));
}

template<class T>
std::string genDec(pbt::G& g)
{
	std::string s;
	const I lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
	switch (g.below(6)) {
	case 0: s = toS(hi + (I)g.below(12) - 5); break;
	case 1: s = toS(lo - (I)g.below(12) + 5); break;
	case 2: s = toS((I)(T)g.bits(64)); break;
	case 3: s = toS((hi + 1) * (I)g.range(1, 20) + (I)g.below(5) - 2); if (g.boolean()) s = "-" + s; break;
	case 4: s = std::string(g.below(3), '-') + g.text(g.below(24), "0123456789"); break;
	case 5: { std::string a = "0123456789-+ xabAF."; s = g.text(g.below(12), a.c_str()); } break;
	}
	if (g.chance(1, 3)) { // leading zeros, after the sign
		size_t at = !s.empty() && s[0] == '-' ? 1 : 0;
		s.insert(at, std::string(g.chance(1, 8) ? g.below(400) : g.below(25), '0'));
	}
	if (g.chance(1, 3)) { // something after the number, or inside it
		static const char junk[] = { '0', '9', 'a', ' ', '-', '\0', '/', ':', '.', 'x', '\n', '\x80', '\xff' };
		char c = g.chance(1, 4) ? (char)g.below(256) : g.pick(junk);
		size_t at = g.boolean() ? s.size() : g.below(s.size() + 1);
		s.insert(at, std::string(1 + g.below(3), c));
	}
	if (g.chance(1, 20)) s.insert(0, 1, g.boolean() ? '+' : ' ');
	return s;
}
template<class T>
std::string genHex(pbt::G& g)
{
	const I hi = std::numeric_limits<T>::max();
	std::string s;
	bool up = g.boolean();
	switch (g.below(5)) {
	case 0: s = toHex(hi + (I)g.below(9) - 4, up); break;
	case 1: s = toHex((unsigned __int128)g.bits(64), up); break;
	case 2: s = toHex(((unsigned __int128)hi + 1) * g.range(1, 40) - g.below(2), up); break;
	case 3: s = g.text(g.below(20), "0123456789abcdefABCDEF"); break;
	case 4: s = g.text(g.below(10), "019afAFgG@`/:xX- "); break;
	}
	if (g.chance(1, 3)) s.insert(0, std::string(g.chance(1, 8) ? g.below(400) : g.below(20), '0'));
	if (g.chance(1, 4)) {
		static const char junk[] = { '0', 'f', 'g', 'G', ' ', '-', '\0', '/', ':', '@', '`', 'x', '\x80', '\xc1' };
		size_t at = g.boolean() ? s.size() : g.below(s.size() + 1);
		s.insert(at, 1, g.chance(1, 3) ? (char)g.below(256) : g.pick(junk));
	}
	return s;
}
PROP(decimal)
{
	switch (g.below(8)) {
	case 0: checkConv<signed char, cybozu::atoi>(g, genDec<signed char>(g), false); break;
	case 1: checkConv<unsigned char, cybozu::atoi>(g, genDec<unsigned char>(g), false); break;
	case 2: checkConv<short, cybozu::atoi>(g, genDec<short>(g), false); break;
	case 3: checkConv<unsigned short, cybozu::atoi>(g, genDec<unsigned short>(g), false); break;
	case 4: checkConv<int, cybozu::atoi>(g, genDec<int>(g), false); break;
	case 5: checkConv<unsigned int, cybozu::atoi>(g, genDec<unsigned int>(g), false); break;
	case 6: if (g.boolean()) checkConv<long, cybozu::atoi>(g, genDec<long>(g), false); else checkConv<long long, cybozu::atoi>(g, genDec<long long>(g), false); break;
	case 7: if (g.boolean()) checkConv<unsigned long, cybozu::atoi>(g, genDec<unsigned long>(g), false); else checkConv<unsigned long long, cybozu::atoi>(g, genDec<unsigned long long>(g), false); break;
	}
}
PROP(hexadecimal)
{
	switch (g.below(9)) {
	case 0: checkConv<signed char, cybozu::hextoi>(g, genHex<signed char>(g), true); break;
	case 1: checkConv<unsigned char, cybozu::hextoi>(g, genHex<unsigned char>(g), true); break;
	case 2: checkConv<short, cybozu::hextoi>(g, genHex<short>(g), true); break;
	case 3: checkConv<unsigned short, cybozu::hextoi>(g, genHex<unsigned short>(g), true); break;
	case 4: checkConv<int, cybozu::hextoi>(g, genHex<int>(g), true); break;
	case 5: checkConv<unsigned int, cybozu::hextoi>(g, genHex<unsigned int>(g), true); break;
	case 6: if (g.boolean()) checkConv<long, cybozu::hextoi>(g, genHex<long>(g), true); else checkConv<long long, cybozu::hextoi>(g, genHex<long long>(g), true); break;
	case 7: if (g.boolean()) checkConv<unsigned long, cybozu::hextoi>(g, genHex<unsigned long>(g), true); else checkConv<unsigned long long, cybozu::hextoi>(g, genHex<unsigned long long>(g), true); break;
	case 8: checkConv<char, cybozu::hextoi>(g, genHex<char>(g), true); break;
	}
}
