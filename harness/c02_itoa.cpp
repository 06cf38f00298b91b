#include <pbt.h>
#include <assert.h>
#include <cybozu/itoa.hpp>
#include <cybozu/atoi.hpp>
#include <type_traits>
#include <limits>
using pbt::show;
typedef __int128 I;
template<class T> std::string refDec(T v)
{
	I x = v;
	bool n = x < 0;
	if (n) x = -x;
	std::string s;
	do { s.insert(s.begin(), (char)('0' + (int)(x % 10))); x /= 10; } while (x);
	return n ? "-" + s : s;
}
template<class T> std::string refBase(T v, int bits, bool up, size_t width)
{
	uint64_t x = v;
	std::string s;
	do { s.insert(s.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[x & ((1 << bits) - 1)]); x >>= bits; } while (x);
	while (s.size() < width) s.insert(s.begin(), '0');
	return s;
}
template<class T> T gen(pbt::G& g) { return (T)g.bits(sizeof(T) * 8); }

template<class T> void dec(pbt::G& g)
{
	T x = gen<T>(g);
	std::string want = refDec(x);
	g.note() << "itoa bits=" << sizeof(T) * 8 << " signed=" << std::is_signed<T>::value << " x=" << want;
	g.nontrivial(want.size() >= 2);
	if (x == std::numeric_limits<T>::min() || x == std::numeric_limits<T>::max()) g.label("extreme");
	if (x < 0) g.label("negative");
	REQUIRE_STREQ(cybozu::itoa(x), want);
	std::string out = g.text(g.below(30), "xyz");
	cybozu::itoa(out, x);
	REQUIRE_STREQ(out, want);
	T back = cybozu::atoi(want);
	REQUIRE(back == x);
	size_t len = g.chance(1, 30) ? g.below(200000) : g.below(28);
	char pad = g.boolean() ? '0' : (char)g.pick(std::vector<char>{ ' ', '*', '0', 'x' });
	std::string w = want;
	if (w.size() < len) w = (x < 0 ? "-" : "") + std::string(len - w.size(), pad) + (x < 0 ? want.substr(1) : want);
	std::string got = pad == '0' && g.boolean() ? cybozu::itoaWithZero(x, len) : cybozu::itoaWithZero(x, len, pad);
	g.note() << "itoaWithZero len=" << len << " pad=" << pad;
	REQUIRE_STREQ(got, w);
}
template<class T> void hexbin(pbt::G& g)
{
	T x = gen<T>(g);
	g.note() << "hex/bin bits=" << sizeof(T) * 8 << " x=" << (uint64_t)x;
	g.nontrivial(x != 0);
	for (int up = 0; up < 2; up++) {
		for (int zero = 0; zero < 2; zero++) {
			std::string want = refBase(x, 4, up, zero ? sizeof(T) * 2 : 1);
			REQUIRE_STREQ(cybozu::itohex(x, up != 0, zero != 0), want);
			std::string out = "garbage-garbage-garbage-garbage";
			out.resize(g.below(out.size()));
			cybozu::itohex(out, x, up != 0, zero != 0);
			REQUIRE_STREQ(out, want);
			T back = cybozu::hextoi(want);
			REQUIRE(back == x);
			// caller-supplied buffer of any length : low digits, right aligned, zero padded
			size_t len = g.below(20);
			std::string ref = refBase(x, 4, up, len);
			ref = ref.substr(ref.size() - len);
			char *buf = (char*)malloc(len ? len : 1);
			cybozu::itohex(buf, len, x, up != 0);
			std::string s(buf, len);
			free(buf);
			REQUIRE_STREQ(s, ref);
		}
	}
	for (int zero = 0; zero < 2; zero++) {
		std::string want = refBase(x, 1, false, zero ? sizeof(T) * 8 : 1);
		REQUIRE_STREQ(cybozu::itobin(x, zero != 0), want);
		std::string out = "zz";
		cybozu::itobin(out, x, zero != 0);
		REQUIRE_STREQ(out, want);
		size_t len = g.below(70);
		std::string ref = refBase(x, 1, false, len);
		ref = ref.substr(ref.size() - len);
		char *buf = (char*)malloc(len ? len : 1);
		cybozu::itobin(buf, len, x);
		std::string s(buf, len);
		free(buf);
		REQUIRE_STREQ(s, ref);
	}
	REQUIRE_STREQ(cybozu::itohex(x), refBase(x, 4, true, sizeof(T) * 2));
	{ // the defaults
		std::string s = "zz", low = refBase(x, 4, false, sizeof(T) * 2);
		cybozu::itohex(s, x); REQUIRE_STREQ(s, refBase(x, 4, true, sizeof(T) * 2));
		cybozu::itohex(s, x, false); REQUIRE_STREQ(s, low);
		REQUIRE_STREQ(cybozu::itohex(x, false), low);
		cybozu::itobin(s, x); REQUIRE_STREQ(s, refBase(x, 1, true, sizeof(T) * 8));
	}
	REQUIRE_STREQ(cybozu::itobin(x), refBase(x, 1, true, sizeof(T) * 8));
	REQUIRE_EQ((size_t)cybozu::getHexLength(x), refBase(x, 4, true, 1).size());
	REQUIRE_EQ((size_t)cybozu::getBinLength(x), refBase(x, 1, true, 1).size());
}
// the conversions into a buffer of the caller: right aligned, 0 when the buffer is too short, nothing outside it touched
template<class F> void intoBuf(const std::string& want, size_t size, const char *name, F f)
{
	const size_t edge = 4;
	std::string buf(size + edge * 2, '#');
	size_t n = f(&buf[edge], size);
	size_t expect = want.size() <= size ? want.size() : 0;
	REQUIRE_MSG(n == expect, name << " into " << size << " bytes gives " << n << " but " << expect << " expected");
	REQUIRE_STREQ(buf.substr(0, edge), std::string(edge, '#'));
	REQUIRE_STREQ(buf.substr(edge + size), std::string(edge, '#'));
	if (n) REQUIRE_STREQ(buf.substr(edge + size - n, n), want);
}
template<class T> void ubuf(pbt::G& g)
{
	T x = gen<T>(g);
	int what = (int)g.below(3);
	bool up = g.boolean();
	std::string want = what == 0 ? refDec(x) : refBase(x, what == 1 ? 4 : 1, up, 1);
	size_t size = g.boolean() ? (size_t)std::max<int64_t>(0, (int64_t)want.size() - 2 + (int64_t)g.below(5)) : g.below(70);
	g.note() << "unsigned " << sizeof(T) * 8 << " what=" << what << " x=" << want << " size=" << size;
	g.nontrivial(want.size() >= 2 && size > 0);
	if (want.size() == size) g.label("fits exactly");
	if (want.size() == size + 1) g.label("one short");
	if (what == 0) intoBuf(want, size, "uintToDec", [&](char *p, size_t n) { return cybozu::itoa_local::uintToDec(p, n, x); });
	else if (what == 1) intoBuf(want, size, "uintToHex", [&](char *p, size_t n) { return cybozu::itoa_local::uintToHex(p, n, x, up); });
	else intoBuf(want, size, "uintToBin", [&](char *p, size_t n) { return cybozu::itoa_local::uintToBin(p, n, x); });
}
template<class T> void ibuf(pbt::G& g)
{
	T x = gen<T>(g);
	if (g.chance(1, 10)) x = std::numeric_limits<T>::min();
	std::string want = refDec(x);
	size_t size = g.boolean() ? (size_t)std::max<int64_t>(0, (int64_t)want.size() - 2 + (int64_t)g.below(5)) : g.below(30);
	g.note() << "signed " << sizeof(T) * 8 << " x=" << want << " size=" << size;
	g.nontrivial(want.size() >= 2 && size > 0);
	if (want.size() == size) g.label("fits exactly");
	if (want.size() == size + 1) g.label("one short");
	intoBuf(want, size, "intToDec", [&](char *p, size_t n) { return cybozu::itoa_local::intToDec(p, n, x); });
}
PROP(caller_buffer)
{
	switch (g.below(8)) {
	case 0: ubuf<unsigned char>(g); break;
	case 1: ubuf<unsigned short>(g); break;
	case 2: ubuf<unsigned int>(g); break;
	case 3: ubuf<unsigned long>(g); break;
	case 4: ubuf<unsigned long long>(g); break;
	case 5: ibuf<short>(g); break;
	case 6: ibuf<int>(g); break;
	case 7: ibuf<long long>(g); break;
	}
}
PROP(decimal)
{
	switch (g.below(8)) {
	case 0: dec<short>(g); break;
	case 1: dec<unsigned short>(g); break;
	case 2: dec<int>(g); break;
	case 3: dec<unsigned int>(g); break;
	case 4: dec<long>(g); break;
	case 5: dec<unsigned long>(g); break;
	case 6: dec<long long>(g); break;
	case 7: dec<unsigned long long>(g); break;
	}
}
PROP(hex_and_binary)
{
	switch (g.below(5)) {
	case 0: hexbin<unsigned char>(g); break;
	case 1: hexbin<unsigned short>(g); break;
	case 2: hexbin<unsigned int>(g); break;
	case 3: hexbin<unsigned long>(g); break;
	case 4: hexbin<unsigned long long>(g); break;
	}
}
