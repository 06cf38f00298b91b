// memory and standard streams with more than 2^31 and more than 2^32 bytes
#include <pbt.h>
#include <sstream>
#include <cybozu/stream.hpp>
#include "mirror.h"
using pbt::G;
struct BigBuf : std::streambuf { // a standard stream over a big memory
	char *p; size_t n, pos;
	BigBuf(char *p, size_t n) : p(p), n(n), pos(0) {}
	std::streamsize xsgetn(char *b, std::streamsize s) { size_t r = std::min<size_t>((size_t)s, n - pos); memcpy(b, p + pos, r); pos += r; return (std::streamsize)r; }
	int_type underflow() { return pos < n ? traits_type::to_int_type(p[pos]) : traits_type::eof(); }
	int_type uflow() { return pos < n ? traits_type::to_int_type(p[pos++]) : traits_type::eof(); }
	std::streamsize xsputn(const char *b, std::streamsize s) { size_t r = std::min<size_t>((size_t)s, n - pos); memcpy(p + pos, b, r); pos += r; return (std::streamsize)r; }
	int_type overflow(int_type c) { if (pos >= n) return traits_type::eof(); p[pos++] = (char)c; return c; }
};
static size_t genBig(G& g) { return (g.boolean() ? size_t(1) << 31 : size_t(1) << 32) + (size_t)g.below(5000) - 5; }
static Mirror& src() { static Mirror m((size_t(1) << 32) + (1 << 20)); return m; }
static Mirror& dst() { static Mirror m((size_t(1) << 32) + (1 << 20)); return m; }
template<class IS, class Pos> static void readBig(G& g, IS& is, size_t total, Pos getPos)
{
	const size_t rest = 64, n = total - rest;
	dst().zero();
	bool b = false;
	if (g.boolean()) { cybozu::read(&b, dst().p, n, is); REQUIRE(b); } else cybozu::read(dst().p, n, is);
	REQUIRE_EQ(getPos(), n);
	REQUIRE_MSG(dst().same(src()), "the bytes differ");
	char buf[rest + 10];
	if (g.boolean()) { b = true; cybozu::read(&b, buf, rest + 1, is); REQUIRE_MSG(!b, "a read past the end succeeds"); }
	else REQUIRE_EQ(cybozu::readSome(buf, rest + 10, is), rest);
	REQUIRE_MSG(memcmp(buf, src().p + n, rest) == 0, "the last bytes differ");
}
PROP(big_input)
{
	size_t total = genBig(g) + 64;
	src().fill(g.bits(32));
	int kind = (int)g.below(2);
	g.note() << (kind ? "istream" : "memory") << " stream of " << total << " bytes";
	g.nontrivial();
	if (kind == 0) { cybozu::MemoryInputStream is(src().p, total); readBig(g, is, total, [&] { return is.getPos(); }); }
	else { BigBuf b(src().p, total); std::istream is(&b); readBig(g, is, total, [&] { return b.pos; }); }
}
PROP(big_output)
{
	size_t n = genBig(g);
	src().fill(g.bits(32));
	dst().zero();
	bool full = g.chance(1, 3);
	size_t cap = full ? 1 + (size_t)g.below(n - 1) : n + (size_t)g.below(10);
	if (full && g.boolean()) cap = (n & 0x7fffffff) + (size_t)g.below(10);
	int kind = (int)g.below(2);
	g.note() << (kind ? "ostream" : "memory") << " stream for " << cap << " bytes gets " << n;
	g.nontrivial();
	bool b = full;
	size_t pos;
	if (kind == 0) {
		cybozu::MemoryOutputStream os(dst().p, cap);
		if (g.boolean()) cybozu::write(&b, os, src().p, n); else { b = true; try { cybozu::write(os, src().p, n); } catch (std::exception&) { b = false; } }
		pos = os.getPos();
		if (b && cap > n) { os.write(&b, src().p, cap - n + 1); REQUIRE_MSG(!b, "more than the capacity is accepted"); b = true; }
	} else {
		BigBuf buf(dst().p, cap); std::ostream os(&buf);
		if (g.boolean()) cybozu::write(&b, os, src().p, n); else { b = true; try { cybozu::write(os, src().p, n); } catch (std::exception&) { b = false; } }
		pos = buf.pos;
	}
	if (cap >= n) { REQUIRE_MSG(b, "an output with enough room fails"); REQUIRE_EQ(pos, n); REQUIRE_MSG(dst().same(src()), "the bytes differ"); }
	else { REQUIRE_MSG(!b, "more than the capacity is accepted"); if (kind == 0) REQUIRE_EQ(pos, 0u); }
}
// a size which wraps around when it is added to the position
PROP(absurd_size)
{
	char mem[64], from[64] = { 'f' };
	memset(mem, '#', sizeof(mem));
	cybozu::MemoryOutputStream os(mem, 32);
	size_t pos = g.below(33);
	cybozu::write(os, from, pos);
	size_t n = ~size_t(0) - g.below(40);
	if (g.boolean()) n = (size_t(1) << (32 + g.below(32))) + g.below(8);
	g.note() << "size " << n << " at " << pos;
	g.nontrivial();
	bool b = true;
	os.write(&b, from, n);
	REQUIRE_MSG(!b, "a write of " << n << " bytes into " << 32 - pos << " succeeds");
	REQUIRE_EQ(os.getPos(), pos);
	REQUIRE_THROWS(os.write(from, n));
	for (size_t i = pos; i < 64; i++) REQUIRE(mem[i] == '#');
	cybozu::MemoryInputStream is(from, 32);
	size_t skip = g.below(33);
	cybozu::read(mem, skip, is);
	REQUIRE_EQ(cybozu::readSome(mem, n, is), 32 - skip);
	REQUIRE_EQ(is.getPos(), 32u);
	REQUIRE_EQ(cybozu::readSome(mem, n, is), 0u);
	std::string str(from, 32);
	cybozu::StringInputStream si(str);
	cybozu::read(mem, skip, si);
	REQUIRE_EQ(cybozu::readSome(mem, n, si), 32 - skip);
	REQUIRE_EQ(si.getPos(), 32u);
}
