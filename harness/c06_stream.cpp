#include "streams.h"
#include <sstream>
#include <memory>
#include <cybozu/stream.hpp>
#include <cybozu/line_stream.hpp>
using pbt::show;
using pbt::G;

struct Want { std::vector<std::string> lines; std::vector<size_t> ends; bool error; };
// lines end with LF or CR LF; the last data may have no line end
static Want refLines(const std::string& d, size_t maxSize)
{
	Want w; w.error = false;
	size_t pos = 0;
	while (pos < d.size()) {
		size_t lf = d.find('\n', pos);
		std::string s;
		size_t next;
		if (lf == std::string::npos) { s = d.substr(pos); next = d.size(); }
		else { s = d.substr(pos, lf - pos); next = lf + 1; if (!s.empty() && s.back() == '\r') s.pop_back(); }
		if (s.size() > maxSize) { w.error = true; return w; }
		w.lines.push_back(s);
		w.ends.push_back(next);
		pos = next;
	}
	return w;
}
static std::string genLines(G& g, size_t maxSize)
{
	std::string d;
	size_t n = g.below(9);
	for (size_t i = 0; i < n; i++) {
		size_t len;
		switch (g.below(4)) {
		case 0: len = g.below(4); break;
		case 1: len = g.below(maxSize + 1); break;
		case 2: len = maxSize >= 2 ? maxSize - g.below(3) : maxSize; break;
		default: len = g.chance(1, 3) ? maxSize + g.below(2 * maxSize + 6) : g.below(maxSize + 1); break;
		}
		std::string s(len, (char)('a' + i % 26));
		if (len && g.chance(1, 3)) { static const char sp[] = "\r\0\n x"; s[g.below(len)] = sp[g.below(5)]; }
		if (len && g.chance(1, 4)) s[len - 1] = '\r';
		d += s;
		if (i + 1 < n || g.chance(2, 3)) d += g.boolean() ? "\n" : "\r\n";
	}
	return d;
}
// LineStream gives the lines of the whole data however the data is cut into reads
PROP_W(lines, 2)
{
	size_t maxSize = g.below(3) == 0 ? g.below(5) : g.below(4) == 0 ? 2048 : 1 + g.below(40);
	std::string d = genLines(g, maxSize);
	Want w = refLines(d, maxSize);
	g.note() << "max " << maxSize << " data " << show(d, 400) << " lines " << w.lines.size() << (w.error ? " then too long" : "");
	ChunkIn is(g, d);
	const bool dflt = maxSize == 2048;
	std::unique_ptr<cybozu::LineStreamT<ChunkIn>> pls(dflt ? new cybozu::LineStreamT<ChunkIn>(is) : new cybozu::LineStreamT<ChunkIn>(is, maxSize));
	cybozu::LineStreamT<ChunkIn>& ls = *pls;
	if (g.boolean()) REQUIRE_STREQ(ls.getRemain(), "");
	for (size_t i = 0; i < w.lines.size(); i++) {
		std::string line = "old";
		bool b;
		try {
			if (g.boolean()) b = ls.next(line);
			else { const char *p = 0, *e = 0; b = ls.next(&p, &e); if (b) line.assign(p, e); }
		} catch (std::exception& e) { REQUIRE_MSG(false, "exception at line " << i << " : " << e.what()); throw; }
		REQUIRE_MSG(b, "line " << i << " is missing");
		REQUIRE_STREQ(line, w.lines[i]);
		// what is buffered and what is unread is exactly the rest
		std::string rest = ls.getRemain();
		rest += d.substr(is.pos);
		REQUIRE_STREQ(rest, d.substr(w.ends[i]));
		std::string r2 = "old";
		ls.getRemain(r2);
		REQUIRE_STREQ(r2, ls.getRemain());
	}
	std::string line;
	if (w.error) { REQUIRE_THROWS(ls.next(line)); g.label("too long"); }
	else { REQUIRE(!ls.next(line)); REQUIRE(!ls.next(line)); REQUIRE_STREQ(ls.getRemain(), ""); }
	g.nontrivial(w.lines.size() + w.error >= 2);
}
template<class IS> static void readAll(G& g, IS& is, const std::string& d, bool whole)
{
	size_t pos = 0;
	for (int k = 0; k < 30; k++) {
		size_t n = g.below(3) == 0 ? g.size(g.chance(1, 10) ? 100000 : 4000) : g.below(7);
		const size_t remain = d.size() - pos;
		std::string buf(n + 8, '#');
		switch (g.below(4)) {
		case 0: // readSome
			if (n) {
				size_t r = g.boolean() ? cybozu::readSome(&buf[0], n, is) : cybozu::InputStreamTag<IS>::readSome(&buf[0], n, is);
				if (whole) REQUIRE_MSG(r == std::min(n, remain), "readSome(" << n << ") gave " << r << " with " << remain << " left");
				REQUIRE_MSG(r <= n && r <= remain && (r > 0 || remain == 0), "readSome(" << n << ") gave " << r << " with " << remain << " left");
				REQUIRE_STREQ(buf.substr(0, r), d.substr(pos, r));
				REQUIRE_STREQ(buf.substr(n), "########");
				pos += r;
			}
			break;
		case 1: // read with flag
			{
				bool b = n % 2;
				cybozu::read(&b, &buf[0], n, is);
				REQUIRE_EQ(b, n <= remain);
				REQUIRE_STREQ(buf.substr(n), "########");
				if (!b) { REQUIRE_STREQ(buf.substr(0, remain), d.substr(pos)); return; }
				REQUIRE_STREQ(buf.substr(0, n), d.substr(pos, n));
				pos += n;
			}
			break;
		case 2: // read
			{
				bool thrown = false;
				try { cybozu::read(&buf[0], n, is); } catch (std::exception&) { thrown = true; }
				REQUIRE_EQ(thrown, n > remain);
				REQUIRE_STREQ(buf.substr(n), "########");
				if (thrown) { REQUIRE_STREQ(buf.substr(0, remain), d.substr(pos)); return; }
				REQUIRE_STREQ(buf.substr(0, n), d.substr(pos, n));
				pos += n;
			}
			break;
		case 3:
			{
				char c = '?';
				bool b = g.boolean() ? cybozu::readChar(&c, is) : cybozu::InputStreamTag<IS>::readChar(&c, is);
				REQUIRE_EQ(b, remain > 0);
				if (b) { REQUIRE_EQ((int)c, (int)d[pos]); pos++; }
			}
			break;
		}
		if (pos == d.size() && g.boolean()) break;
	}
	g.nontrivial(pos > 0);
}
PROP(input_streams)
{
	std::string d = g.boolean() ? g.bytes(g.below(20)) : g.blob(g.size(g.chance(1, 20) ? 200000 : 20000));
	g.note() << "data " << show(d);
	switch (g.below(4)) {
	case 0: { ChunkIn is(g, d); readAll(g, is, d, false); } break;
	case 1: { std::istringstream is(d); readAll(g, is, d, true); } break;
	case 2: { cybozu::MemoryInputStream is(d.data(), d.size()); REQUIRE_EQ(is.getPos(), 0u); readAll(g, is, d, true); REQUIRE(is.getPos() <= d.size()); } break;
	case 3: { cybozu::StringInputStream is(d); readAll(g, is, d, true); REQUIRE(is.getPos() <= d.size()); } break;
	}
}
PROP(output_streams)
{
	std::string want, str = g.boolean() ? g.bytes(g.below(5)) : std::string();
	const std::string pre = str;
	size_t cap = g.below(60);
	std::vector<char> mem(cap + 1, '#');
	cybozu::MemoryOutputStream ms(mem.data(), cap);
	cybozu::StringOutputStream ss(str);
	std::ostringstream os;
	std::string inMem;
	for (size_t k = g.below(12); k > 0; k--) {
		std::string s = g.bytes(g.below(4) == 0 ? 1 : g.below(20));
		bool one = s.size() == 1;
		const bool fits = s.size() <= cap - inMem.size();
		if (g.boolean()) {
			bool b = !fits;
			if (one) cybozu::writeChar(&b, ms, s[0]); else cybozu::write(&b, ms, s.data(), s.size());
			REQUIRE_EQ(b, fits);
			b = false;
			if (one) cybozu::writeChar(&b, ss, s[0]); else cybozu::write(&b, ss, s.data(), s.size());
			REQUIRE(b);
			b = false;
			if (one) cybozu::writeChar(&b, os, s[0]); else cybozu::write(&b, os, s.data(), s.size());
			REQUIRE(b);
		} else {
			bool thrown = false;
			try { if (one) cybozu::writeChar(ms, s[0]); else cybozu::write(ms, s.data(), s.size()); } catch (std::exception&) { thrown = true; }
			REQUIRE_EQ(thrown, !fits);
			if (one) cybozu::writeChar(ss, s[0]); else cybozu::write(ss, s.data(), s.size());
			if (one) cybozu::writeChar(os, s[0]); else if (g.boolean()) cybozu::write(os, s.data(), s.size()); else cybozu::OutputStreamTag<std::ostringstream>::write(os, s.data(), s.size());
		}
		if (fits) inMem += s; else g.label("does not fit");
		want += s;
		REQUIRE_EQ(ms.getPos(), inMem.size());
		REQUIRE_EQ(ss.getPos(), pre.size() + want.size());
	}
	REQUIRE_STREQ(str, pre + want);
	REQUIRE_STREQ(os.str(), want);
	REQUIRE_STREQ(std::string(mem.data(), inMem.size()), inMem);
	for (size_t i = inMem.size(); i < mem.size(); i++) REQUIRE_EQ(mem[i], '#');
	if (g.chance(1, 3)) { // a broken ostream is reported
		os.setstate(g.pick(std::vector<std::ios::iostate>{std::ios::badbit, std::ios::failbit, std::ios::eofbit | std::ios::failbit}));
		bool b = true;
		size_t n = g.below(2) ? 1 : 1 + g.below(40);
		std::string s = g.bytes(n);
		if (n == 1 && g.boolean()) cybozu::writeChar(&b, os, s[0]); else cybozu::write(&b, os, s.data(), n);
		REQUIRE(!b);
		if (n == 1 && g.boolean()) REQUIRE_THROWS(cybozu::writeChar(os, s[0])); else REQUIRE_THROWS(cybozu::write(os, s.data(), n));
		REQUIRE_STREQ(os.str(), want);
	}
	g.note() << show(want) << " capacity " << cap;
	g.nontrivial(want.size() > 2);
}
