#include "streams.h"
#include <sstream>
#include <cybozu/base64.hpp>
using pbt::show;
static const char *tbl = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string refEncode(const std::string& in)
{
	std::string out;
	for (size_t i = 0; i < in.size(); i += 3) {
		uint32_t v = 0;
		size_t n = std::min<size_t>(3, in.size() - i);
		for (size_t j = 0; j < 3; j++) v = v * 256 + (j < n ? (unsigned char)in[i + j] : 0);
		for (size_t j = 0; j < 4; j++) out += j <= n ? tbl[(v >> (18 - 6 * j)) & 63] : '=';
	}
	return out;
}
static std::string withLines(const std::string& enc, size_t maxLine, int mode)
{
	if (maxLine == 0) return enc;
	std::string eol = mode == cybozu::base64::useCRLF ? "\r\n" : mode == cybozu::base64::useLF ? "\n" : "";
	std::string out;
	for (size_t i = 0; i < enc.size(); i += maxLine) out += enc.substr(i, maxLine) + eol;
	return out;
}
// bits of the alphabet characters, complete bytes only ; everything else is skipped
static std::string refDecode(const std::string& in)
{
	std::string out;
	uint32_t acc = 0;
	int bits = 0;
	for (char c : in) {
		const char *p = c ? strchr(tbl, c) : 0;
		if (!p) continue;
		acc = (acc << 6) | (uint32_t)(p - tbl);
		bits += 6;
		if (bits >= 8) { bits -= 8; out += (char)(acc >> bits); acc &= (1u << bits) - 1; }
	}
	return out;
}
static std::string genData(pbt::G& g) { size_t n = g.size(g.scale > 1 ? 20000 : 5000); return n <= 64 && g.boolean() ? g.bytes(n) : g.blob(n); }

static std::string encode(pbt::G& g, const std::string& data, size_t maxLine, int mode, bool defaults)
{
	int way = (int)g.below(3);
	g.note() << "encode way=" << way << " n=" << data.size() << " maxLine=" << maxLine << " mode=" << mode << " data=" << show(data, 80);
	if (way == 0) {
		ChunkIn is(g, data);
		StrOut os;
		if (defaults) cybozu::EncodeToBase64(os, is); else cybozu::EncodeToBase64(os, is, maxLine, mode);
		return os.s;
	} else if (way == 1) {
		std::istringstream is(data);
		std::ostringstream os;
		if (defaults) cybozu::EncodeToBase64(os, is); else cybozu::EncodeToBase64(os, is, maxLine, mode);
		return os.str();
	}
	std::string out;
	cybozu::StringInputStream is(data);
	cybozu::StringOutputStream os(out);
	if (defaults) cybozu::EncodeToBase64(os, is); else cybozu::EncodeToBase64(os, is, maxLine, mode);
	return out;
}
static std::string decode(pbt::G& g, const std::string& enc)
{
	int way = (int)g.below(3);
	if (way == 0) {
		ChunkIn is(g, enc);
		StrOut os;
		cybozu::DecodeFromBase64(os, is);
		return os.s;
	} else if (way == 1) {
		std::istringstream is(enc);
		std::ostringstream os;
		cybozu::DecodeFromBase64(os, is);
		return os.str();
	}
	// incremental decoder, with flushes in between
	StrOut os;
	{
		cybozu::Base64Decoder<StrOut> dec(os);
		size_t pos = 0;
		while (pos < enc.size()) {
			size_t n = std::min(enc.size() - pos, g.size(3000));
			ssize_t r = dec.write(enc.data() + pos, n);
			REQUIRE_EQ((size_t)r, n);
			pos += n;
			if (n == 0 && g.exhausted()) { dec.write(enc.data() + pos, enc.size() - pos); break; }
			if (g.chance(1, 5)) dec.flush();
		}
		dec.flush();
		dec.flush();
	}
	return os.s;
}
PROP(roundtrip)
{
	std::string data = genData(g);
	bool defaults = g.chance(1, 8);
	size_t maxLine = defaults ? 76 : 4 * g.below(33);
	int mode = defaults ? (int)cybozu::base64::useCRLF : (int)g.below(3);
	std::string enc = encode(g, data, maxLine, mode, defaults);
	REQUIRE_STREQ(enc, withLines(refEncode(data), maxLine, mode));
	REQUIRE_STREQ(decode(g, enc), data);
	g.nontrivial(data.size() >= 2);
	if (data.size() > 1024) g.label("more than one inner buffer");
	if (maxLine && data.size() > maxLine) g.label("several lines");
}
PROP(decode_skips_noise)
{
	std::string data = genData(g);
	if (data.size() > 3000) data.resize(3000);
	std::string enc = refEncode(data);
	std::string noisy;
	size_t every = 1 + g.below(80);
	static const char noise[] = { '\r', '\n', ' ', '=', '$', '-', '_', '.', '\0', '\x7f', '\x80', '\xff', '@', '[', '`', '{', ':', ',' };
	for (size_t i = 0; i < enc.size(); i++) {
		if (i % every == every - 1) noisy += noise[(i * 7 + every) % sizeof(noise)];
		noisy += enc[i];
	}
	for (size_t k = g.below(6); k > 0; k--) noisy.insert(g.below(noisy.size() + 1), 1 + g.below(3), g.pick(noise));
	g.note() << "noisy=" << show(noisy, 120);
	g.nontrivial(noisy.size() >= 4);
	REQUIRE_STREQ(decode(g, noisy), data);
}
PROP(decode_any)
{
	std::string in = g.boolean() ? g.bytes(g.below(40)) : g.text(g.below(60), "ABCDabcz019+/=\n ");
	g.note() << "in=" << show(in);
	g.nontrivial(in.size() >= 2);
	REQUIRE_STREQ(decode(g, in), refDecode(in));
}
PROP_W(bad_line_size, 0.1)
{
	size_t bad = g.boolean() ? 4 * g.below(40) + 1 + g.below(3) : 4 * g.range(33, 100000);
	std::string data = g.blob(g.size(50));
	g.note() << "maxLine=" << bad;
	g.nontrivial();
	cybozu::StringInputStream is(data);
	std::string out;
	cybozu::StringOutputStream os(out);
	REQUIRE_THROWS(cybozu::EncodeToBase64(os, is, bad));
	REQUIRE(out.empty());
}
