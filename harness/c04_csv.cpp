#include "streams.h"
#include <sstream>
#include <fstream>
#include <list>
#include <deque>
#include <cybozu/csv.hpp>
using pbt::show;
typedef std::vector<std::string> Row;
typedef std::vector<Row> Rows;
static const char seps[] = { ',', '\t', ';', ' ' };

static std::string showRow(const Row& r) { std::string s = "["; for (auto& f : r) s += show(f, 60) + " "; return s + "]"; }
static std::string showRows(const Rows& rs) { std::string s; for (auto& r : rs) s += showRow(r); return s.substr(0, 3000); }

static std::string genField(pbt::G& g, char sep)
{
	std::string s;
	switch (g.below(6)) {
	case 5: s = g.bytes(g.below(12)); for (char& c : s) if (c == '\xff') c = ' '; break;
	case 0: break;
	case 1: s = g.text(1 + g.below(6), "abc"); break;
	case 2: { std::string a = std::string("\"\"\n\r,;\t x") + sep; s = g.text(g.below(10), a.c_str()); } break;
	case 3: for (size_t n = g.below(5); n > 0; n--) s += utf8(genScalar(g)); break;
	case 4: { size_t n = g.size(4000); s.assign(n, 'z'); for (size_t k = g.below(6); k > 0 && n; k--) { static const char sp[] = "\"\n, \"a"; s[g.below(n)] = sp[g.below(6)]; } } break;
	}
	return s;
}
static std::string noCR(std::string s) { s.erase(std::remove(s.begin(), s.end(), '\r'), s.end()); return s; }

static std::string csvEncode(const Rows& rows, char sep)
{
	std::string out;
	for (auto& r : rows) {
		for (size_t i = 0; i < r.size(); i++) {
			if (i) out += sep;
			out += '"';
			for (char c : r[i]) { if (c == '"') out += '"'; out += c; }
			out += '"';
		}
		out += "\r\n";
	}
	return out;
}
template<class Reader> static bool readRow(pbt::G& g, Reader& rd, Row& out)
{
	int k = (int)g.below(3);
	bool b;
	if (k == 0) { std::list<std::string> l(g.below(3), "old"); b = rd.read(l); out.assign(l.begin(), l.end()); }
	else if (k == 1) { std::deque<std::string> l(g.below(3), "old"); b = rd.read(l); out.assign(l.begin(), l.end()); }
	else { out.assign(g.below(3), "old"); b = rd.read(out); }
	return b;
}
// every record written is read back, field by field (CR is documented as ignored)
PROP(write_read)
{
	char sep = g.pick(seps);
	Rows rows;
	size_t n = g.below(6);
	for (size_t i = 0; i < n; i++) {
		Row r;
		for (size_t k = g.below(6); k > 0; k--) r.push_back(genField(g, sep));
		rows.push_back(r);
	}
	g.note() << "sep=" << show(std::string(1, sep)) << " rows=" << showRows(rows);
	std::string text;
	bool useStd = g.boolean();
	if (useStd) {
		std::ostringstream os;
		cybozu::CsvWriterT<std::ostringstream> w(os, sep);
		for (auto& r : rows) w.write(r.begin(), r.end());
		text = os.str();
	} else {
		cybozu::StringOutputStream os(text);
		cybozu::CsvWriterT<cybozu::StringOutputStream> w(os, sep);
		for (auto& r : rows) { std::list<std::string> l(r.begin(), r.end()); w.write(l.begin(), l.end()); }
	}
	REQUIRE_STREQ(text, csvEncode(rows, sep));
	size_t cut = g.chance(1, 3) && !rows.empty() && !rows.back().empty() ? 1 + g.below(2) : 0; // last line end missing
	text.resize(text.size() - cut);
	ChunkIn is(g, text);
	std::istringstream iss(text);
	cybozu::CsvReaderT<ChunkIn> r1(is, sep);
	cybozu::CsvReaderT<std::istringstream> r2(iss, sep);
	for (size_t i = 0; i < rows.size(); i++) {
		Row got;
		bool b = useStd ? readRow(g, r2, got) : readRow(g, r1, got);
		REQUIRE_MSG(b, "row " << i << " of " << rows.size() << " is missing");
		Row want;
		for (auto& f : rows[i]) want.push_back(noCR(f));
		REQUIRE_MSG(got == want, "row " << i << " got " << showRow(got) << " want " << showRow(want));
	}
	Row got;
	bool b = useStd ? r2.read(got) : r1.read(got);
	REQUIRE_MSG(!b, "extra row " << showRow(got));
	g.nontrivial(rows.size() >= 1 && !text.empty());
	if (text.size() > 2048) g.label("longer than the reader's buffer");
	if (cut) g.label("no final line end");
}
// reference reader for arbitrary text
struct Ref { Rows rows; bool error; };
static Ref refRead(const std::string& text, char sep, size_t limit)
{
	Ref r;
	r.error = false;
	std::string t = noCR(text);
	size_t i = 0;
	while (i < t.size()) {
		Row row;
		size_t used = 0;
		bool eol = false, pending = false;
		while (!eol) {
			// start of a field
			if (i == t.size()) { eol = true; break; }
			if (t[i] == '\n') { i++; eol = true; break; }
			std::string f;
			pending = false;
			if (t[i] == '"') {
				i++;
				for (;;) {
					if (i == t.size()) { r.error = true; return r; } // missing quote
					if (t[i] == '"') {
						if (i + 1 < t.size() && t[i + 1] == '"') { f += '"'; i += 2; if (++used >= limit) { r.error = true; return r; } continue; }
						i++;
						break;
					}
					f += t[i++];
					if (++used >= limit) { r.error = true; return r; }
				}
				if (i < t.size() && t[i] != '\n' && t[i] != sep) { r.error = true; return r; }
			} else {
				while (i < t.size() && t[i] != '\n' && t[i] != sep) { f += t[i++]; if (++used >= limit) { r.error = true; return r; } }
			}
			row.push_back(f);
			if (i == t.size()) break;
			if (t[i] == '\n') { i++; break; }
			i++; // separator ; an unquoted empty field at the end of a line is not reported
		}
		(void)pending;
		r.rows.push_back(row);
	}
	return r;
}
template<size_t LIMIT>
static void readAny(pbt::G& g, const std::string& text, char sep)
{
	Ref ref = refRead(text, sep, LIMIT);
	g.note() << "sep=" << show(std::string(1, sep)) << " limit=" << LIMIT << " text=" << show(text, 400) << " want=" << showRows(ref.rows) << (ref.error ? " then error" : " then end");
	ChunkIn is(g, text);
	cybozu::CsvReaderT<ChunkIn, LIMIT> rd(is, sep);
	for (size_t i = 0; i < ref.rows.size(); i++) {
		Row got;
		bool b = false;
		try { b = readRow(g, rd, got); } catch (std::exception& e) { throw pbt::Failure(std::string("exception at a good row: ") + e.what()); }
		REQUIRE_MSG(b, "row " << i << " is missing");
		REQUIRE_MSG(got == ref.rows[i], "row " << i << " got " << showRow(got) << " want " << showRow(ref.rows[i]));
	}
	Row got;
	if (ref.error) {
		REQUIRE_THROWS(rd.read(got));
	} else {
		bool b = rd.read(got);
		REQUIRE_MSG(!b, "extra row " << showRow(got));
		REQUIRE(!rd.read(got));
	}
	g.nontrivial(text.size() >= 3);
	g.label(ref.error ? "malformed" : "well formed");
}
PROP(read_text)
{
	char sep = g.pick(seps);
	std::string a = std::string("\"\"ab\n") + sep + "\r" + sep;
	std::string text;
	// other characters than the special ones are all the same : white space, other separators, controls, any byte but 0xff
	static const char others[] = " \t;,'\\\v\f#\x1a\x7f\x80\xef";
	if (g.boolean()) for (size_t n = g.below(3); n > 0; n--) a += others[g.below(sizeof(others))]; // with NUL
	if (g.chance(1, 4)) a += (char)g.below(255);
	if (g.boolean()) for (size_t n = g.below(24); n > 0; n--) text += a[g.below(a.size())];
	else for (size_t n = g.below(8); n > 0; n--) {
		bool q = g.boolean();
		std::string f = g.text(g.below(4), q ? "ab,\n" : "ab\"");
		if (!q && !f.empty() && f[0] == '"') f[0] = 'c';
		if (!f.empty() && g.chance(1, 3)) f[g.below(f.size())] = others[g.below(sizeof(others))];
		if (!q && !f.empty() && g.chance(1, 3)) f = " " + f; // white space is part of the field
		text += q ? "\"" + f + "\"" : f;
		if (g.chance(1, 10)) text += others[g.below(sizeof(others))];
		static const char *ends[] = { ",", "\n", "\r\n", ",", "" };
		std::string e = ends[g.below(5)];
		text += e == "," ? std::string(1, sep) : e;
	}
	if (g.chance(1, 4)) readAny<20>(g, text, sep);
	else readAny<10 * 1024 * 1024>(g, text, sep);
}
// the size limit is a limit on one line, whatever has been read before
PROP(long_input)
{
	char sep = ',';
	std::string text;
	size_t lines = 1 + g.below(40);
	for (size_t i = 0; i < lines; i++) {
		size_t n = g.chance(1, 10) ? g.below(25) : g.below(19);
		std::string f(n, (char)('a' + i % 26));
		if (n > 3 && g.boolean()) f[n / 2] = sep;
		text += f + "\n";
	}
	readAny<20>(g, text, sep);
	if (text.size() > 60) g.label("total above the limit");
}
// the default limit is 10 MiB for a line
PROP_W(default_limit, 0.0004)
{
	const size_t limit = 10 * 1024 * 1024;
	size_t n = limit - 2 + g.below(3), m = g.below(1000);
	std::string text(n, 'x');
	bool two = n > 10 && g.boolean();
	if (two) text.insert(n / 2, 1, ','); // separators do not count
	text = std::string(m, 'y') + "\n" + text + "\nz\n";
	g.note() << "line of " << n << " characters after one of " << m;
	g.nontrivial();
	std::istringstream is(text);
	cybozu::CsvReaderT<std::istringstream> rd(is, ',');
	Row r;
	REQUIRE(rd.read(r));
	REQUIRE_EQ(r.size(), m ? 1u : 0u);
	if (n >= limit) { REQUIRE_THROWS(rd.read(r)); return; }
	REQUIRE(rd.read(r));
	REQUIRE_EQ(r.size(), two ? 2u : 1u);
	REQUIRE_EQ(r[0].size() + (two ? r[1].size() : 0), n);
	REQUIRE(rd.read(r));
	REQUIRE(r == Row(1, "z"));
}
// files
PROP_W(file, 0.3)
{
	char sep = g.pick(seps);
	Rows rows;
	for (size_t i = 1 + g.below(4); i > 0; i--) {
		Row r;
		for (size_t k = 1 + g.below(4); k > 0; k--) r.push_back(genField(g, sep));
		rows.push_back(r);
	}
	char name[] = "csv_XXXXXX";
	int fd = mkstemp(name);
	REQUIRE(fd >= 0);
	close(fd);
	{
		cybozu::CsvWriter w(name, sep);
		for (auto& r : rows) w.write(r.begin(), r.end());
	}
	std::string err;
	{
		cybozu::CsvReader rd(name, sep);
		for (size_t i = 0; i < rows.size(); i++) {
			Row got, want;
			for (auto& f : rows[i]) want.push_back(noCR(f));
			if (!rd.read(got) || got != want) err = "row differs: got " + showRow(got) + " want " + showRow(want);
		}
		Row got;
		if (rd.read(got)) err = "extra row";
	}
	unlink(name);
	g.note() << showRows(rows);
	g.nontrivial();
	REQUIRE_MSG(err.empty(), err);
}
PROP_W(separators, 0.05)
{
	char c = (char)g.below(256);
	bool ok = c == ',' || c == '\t' || c == ';' || c == ' ';
	std::string s;
	cybozu::StringOutputStream os(s);
	cybozu::StringInputStream is(s);
	g.note() << "separator " << (int)(unsigned char)c;
	g.nontrivial();
	bool t1 = false, t2 = false;
	try { cybozu::CsvWriterT<cybozu::StringOutputStream> w(os, c); } catch (std::exception&) { t1 = true; }
	try { cybozu::CsvReaderT<cybozu::StringInputStream> w(is, c); } catch (std::exception&) { t2 = true; }
	REQUIRE_EQ(t1, !ok);
	REQUIRE_EQ(t2, !ok);
}
