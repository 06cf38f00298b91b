#include "streams.h"
#include <sstream>
#include <cybozu/zlib.hpp>
using pbt::show;
using pbt::G;

// --- the zlib library itself is the reference
static bool refInflate(const std::string& in, int wbits, std::string& out, size_t *used = 0)
{
	z_stream z; memset(&z, 0, sizeof(z));
	if (inflateInit2(&z, wbits) != Z_OK) abort();
	z.next_in = (Bytef*)in.data(); z.avail_in = (uInt)in.size();
	std::string buf(65536, 0);
	out.clear();
	int ret;
	do {
		z.next_out = (Bytef*)&buf[0]; z.avail_out = (uInt)buf.size();
		ret = inflate(&z, Z_NO_FLUSH);
		out.append(buf, 0, buf.size() - z.avail_out);
	} while (ret == Z_OK);
	if (used) *used = in.size() - z.avail_in;
	inflateEnd(&z);
	return ret == Z_STREAM_END;
}
static std::string refDeflate(G& g, const std::string& in, int wbits, gz_header *gh)
{
	z_stream z; memset(&z, 0, sizeof(z));
	int level = (int)g.below(10), mem = 1 + (int)g.below(9), strat = (int)g.below(5);
	if (deflateInit2(&z, level, Z_DEFLATED, wbits, mem, strat) != Z_OK) abort();
	if (gh) deflateSetHeader(&z, gh);
	std::string out, buf(4096, 0);
	size_t pos = 0;
	for (;;) {
		size_t n = std::min(in.size() - pos, (size_t)1 + g.size(60000));
		bool last = pos + n == in.size();
		int fl = last ? Z_FINISH : (int)g.pick(std::vector<int>{Z_NO_FLUSH, Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH});
		z.next_in = (Bytef*)in.data() + pos; z.avail_in = (uInt)n;
		int ret;
		do {
			z.next_out = (Bytef*)&buf[0]; z.avail_out = (uInt)buf.size();
			ret = deflate(&z, fl);
			out.append(buf, 0, buf.size() - z.avail_out);
		} while (z.avail_out == 0);
		pos += n;
		if (last) break;
	}
	deflateEnd(&z);
	return out;
}
static std::string genData(G& g)
{
	switch (g.below(5)) {
	case 0: return g.bytes(g.below(20));
	case 1: return g.blob(g.below(300));
	case 2: return g.blob(g.size(6000));
	case 3: { std::string s; for (int k = 0; k < 3; k++) s += g.blob(g.size(3000)); return s; }
	default: return g.blob(g.below(6) == 0 ? g.size(g.scale > 1 ? 1000000 : 150000) : g.size(20000));
	}
}
template<class C> static void feed(G& g, C& z, const std::string& d, bool nullWrites)
{
	size_t pos = 0;
	int kind = (int)g.below(3);
	while (pos < d.size()) {
		size_t n = kind == 0 ? d.size() - pos : std::min(d.size() - pos, kind == 1 ? (size_t)1 + g.below(9) + d.size() / 20 : (size_t)g.size(20000));
		z.write(d.data() + pos, n);
		if (n == 0) { if (nullWrites) { std::vector<char> e; z.write(e.data(), e.size()); } pos++; z.write(d.data() + pos - 1, 1); continue; }
		pos += n;
	}
}
template<size_t B> static std::string doCompress(G& g, const std::string& d, bool gz)
{
	std::string out;
	int level = (int)g.below(11) - 1;
	int how = (int)g.below(3);
	if (how == 0) {
		cybozu::StringOutputStream os(out);
		cybozu::ZlibCompressorT<cybozu::StringOutputStream, B> z(os, gz, level);
		feed(g, z, d, true);
		// no flush: the destructor finishes the stream
	} else if (how == 1) {
		cybozu::StringOutputStream os(out);
		cybozu::ZlibCompressorT<cybozu::StringOutputStream, B> z(os, gz, level);
		feed(g, z, d, true);
		z.flush();
		if (g.boolean()) z.flush();
	} else {
		std::ostringstream os;
		{
			cybozu::ZlibCompressorT<std::ostringstream, B> z(os, gz);
			feed(g, z, d, true);
			z.flush();
		}
		out = os.str();
	}
	g.note() << (gz ? "gzip" : "zlib") << " buffer " << B << " level " << level << " in " << show(d, 60) << " out " << show(out, 60);
	return out;
}
static std::string compressAny(G& g, const std::string& d, bool gz)
{
	switch (g.below(4)) {
	case 0: return doCompress<1>(g, d, gz);
	case 1: return doCompress<7>(g, d, gz);
	case 2: return doCompress<64>(g, d, gz);
	default: return doCompress<2048>(g, d, gz);
	}
}
// decompress all with the code under test. false: exception
template<size_t B, class IS> static bool drain(G& g, IS& is, bool gz, std::string& out, size_t exactSize)
{
	cybozu::ZlibDecompressorT<IS, B> z(is, gz);
	int kind = (int)g.below(4);
	out.clear();
	try {
		if (kind == 3 && exactSize != ~size_t(0)) { // read() of exact sizes, then the end
			while (out.size() < exactSize) {
				size_t n = std::min(exactSize - out.size(), (size_t)1 + g.size(5000));
				std::string b(n, 0);
				z.read(&b[0], n);
				out += b;
			}
			char c[3];
			size_t r = z.readSome(c, 3);
			REQUIRE_EQ(r, 0u);
			REQUIRE(z.isEmpty());
			REQUIRE_THROWS(z.read(c, 1));
			return true;
		}
		for (;;) {
			size_t n = kind == 0 ? 1 + g.below(4) + exactSize % 50000 / 30 : kind == 1 ? 4096 : 1 + g.size(70000);
			std::string b(n + 8, '#');
			size_t r = z.readSome(&b[0], n);
			REQUIRE_MSG(r <= n, "readSome returned " << r << " for " << n);
			REQUIRE_STREQ(b.substr(n), "########");
			if (r == 0) break;
			out.append(b, 0, r);
		}
		REQUIRE(z.isEmpty());
		char c[3];
		size_t r = z.readSome(c, 3);
		REQUIRE_EQ(r, 0u);
		return true;
	} catch (cybozu::Exception& e) {
		g.note() << "exception " << e.what();
		return false;
	}
}
static bool decompressAny(G& g, const std::string& z, bool gz, std::string& out, size_t exactSize)
{
	int b = (int)g.below(4);
	if (g.below(3) == 0) {
		std::istringstream is(z);
		switch (b) {
		case 0: return drain<1>(g, is, gz, out, exactSize);
		case 1: return drain<5>(g, is, gz, out, exactSize);
		case 2: return drain<100>(g, is, gz, out, exactSize);
		default: return drain<2048>(g, is, gz, out, exactSize);
		}
	}
	ChunkIn is(g, z);
	switch (b) {
	case 0: return drain<1>(g, is, gz, out, exactSize);
	case 1: return drain<5>(g, is, gz, out, exactSize);
	case 2: return drain<100>(g, is, gz, out, exactSize);
	default: return drain<2048>(g, is, gz, out, exactSize);
	}
}
PROP_W(roundtrip, 2)
{
	bool gz = g.boolean();
	std::string d = genData(g);
	std::string z = compressAny(g, d, gz);
	std::string r;
	size_t used;
	REQUIRE_MSG(refInflate(z, gz ? 31 : 15, r, &used), "zlib does not accept the compressed data");
	REQUIRE_STREQ(r, d);
	REQUIRE_EQ(used, z.size());
	REQUIRE_MSG(decompressAny(g, z, gz, r, d.size()), "cannot decompress what was compressed");
	REQUIRE_STREQ(r, d);
	g.nontrivial(d.size() > 1);
	if (z.size() > 2048) g.label("compressed data above 2048");
}
PROP_W(foreign, 1.5)
{
	bool gz = g.boolean();
	std::string d = genData(g);
	gz_header h; memset(&h, 0, sizeof(h));
	std::string extra, name, comment;
	if (gz) {
		h.os = (int)g.below(256); h.time = g.below(1u << 31); h.text = (int)g.below(2); h.hcrc = (int)g.below(2);
		if (g.boolean()) { extra = g.bytes(g.below(4) == 0 ? g.size(65535) : g.below(300)); h.extra = (Bytef*)&extra[0]; h.extra_len = (uInt)extra.size(); }
		if (g.boolean()) { name = g.text(g.below(200), "abc\xe3\xff./"); h.name = (Bytef*)name.c_str(); }
		if (g.boolean()) { comment = g.text(g.below(100), "xyz \n"); h.comment = (Bytef*)comment.c_str(); }
	}
	int wb = 9 + (int)g.below(7);
	std::string z = refDeflate(g, d, gz ? 16 + wb : wb, gz ? &h : 0);
	g.note() << (gz ? "gzip" : "zlib") << " extra " << extra.size() << " name " << name.size() << " comment " << comment.size() << " hcrc " << h.hcrc << " data " << show(d, 60);
	std::string r;
	REQUIRE_MSG(decompressAny(g, z, gz, r, d.size()), "cannot decompress what zlib compressed");
	REQUIRE_STREQ(r, d);
	g.nontrivial(d.size() > 1);
}
// cut or changed zlib data: accepted exactly when the zlib library accepts it, with the same contents
PROP(damaged)
{
	std::string d = g.boolean() ? g.blob(g.below(300)) : genData(g);
	bool gz = g.below(3) == 0;
	std::string z = refDeflate(g, d, gz ? 31 : 15, 0);
	std::string want, got;
	if (gz) { // only cuts inside the deflate data or the header: the decompressor does not claim to check the trailer
		z.resize(g.below(z.size() - 8));
		g.note() << "gzip cut to " << z.size() << " data " << show(d, 60);
		bool b = decompressAny(g, z, gz, got, ~size_t(0));
		REQUIRE_MSG(!b, "truncated gzip data accepted");
		REQUIRE_STREQ(got, d.substr(0, got.size()));
		g.nontrivial(z.size() > 10);
		return;
	}
	int kind = (int)g.below(3);
	if (kind == 0) z.resize(g.below(z.size()));
	else if (kind == 1) { size_t i = g.below(z.size()); z[i] = (char)(z[i] ^ (1 << g.below(8))); }
	else { size_t i = g.below(z.size()); z[i] = (char)g.below(256); }
	bool ok = refInflate(z, 15, want);
	g.note() << "kind " << kind << " in " << show(z, 100) << " reference " << (ok ? "accepts" : "rejects");
	bool b = decompressAny(g, z, false, got, ~size_t(0));
	REQUIRE_EQ(b, ok);
	if (ok) REQUIRE_STREQ(got, want);
	else { g.label("rejected"); REQUIRE_STREQ(got, want.substr(0, got.size())); }
	g.nontrivial();
}
PROP(bad_gzip_header)
{
	std::string d = g.blob(g.below(100));
	std::string z = refDeflate(g, d, 31, 0);
	size_t i = g.pick(std::vector<int>{0, 1, 2, 3});
	char old = z[i];
	if (i == 3) z[i] = (char)(z[i] | (0x20 << g.below(3)));
	else z[i] = (char)(z[i] ^ (1 + g.below(255)));
	if (z[i] == old) DISCARD();
	std::string got;
	bool b = decompressAny(g, z, true, got, ~size_t(0));
	REQUIRE_MSG(!b, "bad gzip header accepted: byte " << i << " is " << (int)(unsigned char)z[i]);
	g.note() << "byte " << i << " " << (int)(unsigned char)z[i];
	g.nontrivial();
}
PROP(one_shot)
{
	std::string d = genData(g);
	int level = (int)g.below(11) - 1;
	size_t need = compressBound(d.size());
	std::string full(need, 0);
	uLongf n = need;
	compress2((Bytef*)&full[0], &n, (const Bytef*)d.data(), d.size(), level);
	full.resize(n);
	size_t cap = g.boolean() ? n + g.below(10) : g.below(n + 3);
	std::string out(cap + 8, '#');
	size_t r = cybozu::ZlibCompress(&out[0], cap, d.data(), d.size(), level);
	g.note() << "level " << level << " compressed size " << n << " capacity " << cap << " result " << r << " data " << show(d, 60);
	REQUIRE_STREQ(out.substr(cap), "########");
	if (cap < n) REQUIRE_EQ(r, 0u);
	else { REQUIRE(r > 0 && r <= cap); full = out.substr(0, r); }
	std::string back;
	REQUIRE(refInflate(full, 15, back));
	REQUIRE_STREQ(back, d);
	size_t cap2 = g.boolean() ? d.size() + g.below(5) : g.below(d.size() + 2);
	if (cap2 == 0) cap2 = 1; // zlib itself accepts one byte too many for capacity 0
	std::string o2(cap2 + 8, '#');
	bool thrown = false;
	size_t r2 = 0;
	try { r2 = cybozu::ZlibUncompress(&o2[0], cap2, full.data(), full.size()); } catch (std::exception&) { thrown = true; }
	REQUIRE_STREQ(o2.substr(cap2), "########");
	REQUIRE_EQ(thrown, cap2 < d.size());
	if (!thrown) { REQUIRE_EQ(r2, d.size()); REQUIRE_STREQ(o2.substr(0, r2), d); }
	full.resize(g.below(full.size()));
	std::string o3(d.size() + 1, 0);
	REQUIRE_THROWS(cybozu::ZlibUncompress(&o3[0], o3.size(), full.data(), full.size()));
	g.nontrivial(d.size() > 1);
}
// a write error of the output is not lost
struct LimitedOut {
	std::string s; size_t cap;
	void write(const void *p, size_t n) { if (s.size() + n > cap) throw cybozu::Exception("full"); s.append((const char*)p, n); }
};
PROP_W(output_error, 0.5)
{
	bool gz = g.boolean();
	std::string d = g.blob(g.size(9000));
	LimitedOut os; os.cap = g.below(d.size() / 2 + 30);
	bool thrown = false;
	fflush(stderr);
	try {
		cybozu::ZlibCompressorT<LimitedOut, 64> z(os, gz);
		feed(g, z, d, false);
		z.flush();
	} catch (std::exception&) { thrown = true; }
	std::string r;
	bool ok = refInflate(os.s, gz ? 31 : 15, r) && r == d;
	REQUIRE_MSG(thrown != ok, "thrown " << thrown << " output complete " << ok);
	g.note() << "capacity " << os.cap << " thrown " << thrown;
	g.nontrivial(d.size() > 20);
}

// sizes which do not fit are refused, not cut
PROP_W(huge_size, 0.1)
{
	std::string d = g.blob(1 + g.below(50)), out;
	size_t big = (size_t(1) << (31 + g.below(3))) + g.below(3);
	bool gz = g.boolean();
	g.note() << "size " << big;
	g.nontrivial();
	{
		cybozu::StringOutputStream os(out);
		cybozu::ZlibCompressorT<cybozu::StringOutputStream, 64> z(os, gz);
		bool before = g.boolean();
		if (before) z.write(d.data(), d.size());
		REQUIRE_THROWS(z.write(d.data(), big));
		if (!before) z.write(d.data(), d.size());
		z.flush();
	}
	std::string r;
	REQUIRE(refInflate(out, gz ? 31 : 15, r));
	REQUIRE_STREQ(r, d);
	cybozu::StringInputStream is(out);
	cybozu::ZlibDecompressorT<cybozu::StringInputStream, 64> z(is, gz);
	std::string b(d.size(), 0);
	REQUIRE_THROWS(z.readSome(&b[0], big));
	z.read(&b[0], b.size());
	REQUIRE_STREQ(b, d);
}

// many megabytes: the trailer of gzip counts all of them
PROP_W(megabytes, 0.02)
{
	bool gz = !g.chance(1, 4);
	size_t total = (size_t(14) << 20) + g.below(20u << 20);
	std::string d(total, 'm'), rnd = g.blob(1 + g.below(100000));
	for (size_t k = 0; k < 8; k++) { size_t at = g.below(total - rnd.size()); memcpy(&d[at], rnd.data(), rnd.size()); }
	g.note() << total << " bytes" << (gz ? " gzip" : " zlib");
	g.nontrivial();
	std::string out;
	{
		cybozu::StringOutputStream os(out);
		cybozu::ZlibCompressorT<cybozu::StringOutputStream> z(os, gz, 1);
		for (size_t pos = 0; pos < total;) { size_t n = std::min(total - pos, g.boolean() ? total / 3 : 1 + (size_t)g.below(1 << 20)); z.write(d.data() + pos, n); pos += n; }
		z.flush();
	}
	std::string r;
	REQUIRE_MSG(refInflate(out, gz ? 31 : 15, r), "the standard library rejects the stream");
	REQUIRE_MSG(r == d, "the standard library gets other data, " << r.size() << " bytes");
	cybozu::StringInputStream is(out);
	cybozu::ZlibDecompressorT<cybozu::StringInputStream> z(is, gz);
	std::string b(total, 0);
	for (size_t pos = 0; pos < total;) { size_t n = z.readSome(&b[pos], std::min(total - pos, 1 + (size_t)g.below(3 << 20))); REQUIRE(n > 0); pos += n; }
	REQUIRE_MSG(b == d, "other data read back");
	char c;
	REQUIRE_EQ(z.readSome(&c, 1), 0u);
	REQUIRE(z.isEmpty());
}
