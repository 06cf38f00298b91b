#pragma once
#include <pbt.h>
// input stream that hands out its data in generated chunk sizes (never more than asked, never 0 before the end)
struct ChunkIn {
	std::string data;
	size_t pos;
	std::vector<size_t> chunks;
	size_t ci;
	ChunkIn(pbt::G& g, const std::string& d) : data(d), pos(0), ci(0)
	{
		int kind = (int)g.below(4);
		size_t n = kind == 0 ? 0 : 1 + g.below(6);
		for (size_t i = 0; i < n; i++) chunks.push_back(kind == 1 ? 1 : kind == 2 ? 1 + g.below(5) : 1 + g.size(5000));
	}
	size_t readSome(void *buf, size_t size)
	{
		size_t n = std::min(size, data.size() - pos);
		if (!chunks.empty()) n = std::min(n, chunks[ci++ % chunks.size()]);
		memcpy(buf, data.data() + pos, n);
		pos += n;
		return n;
	}
};
struct StrOut {
	std::string s;
	void write(const void *buf, size_t size) { s.append((const char*)buf, size); }
	void write(bool *pb, const void *buf, size_t size) { s.append((const char*)buf, size); *pb = true; }
};
inline std::string utf8(uint32_t c)
{
	std::string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xc0 | (c >> 6)); s += (char)(0x80 | (c & 0x3f)); }
	else if (c < 0x10000) { s += (char)(0xe0 | (c >> 12)); s += (char)(0x80 | ((c >> 6) & 0x3f)); s += (char)(0x80 | (c & 0x3f)); }
	else { s += (char)(0xf0 | (c >> 18)); s += (char)(0x80 | ((c >> 12) & 0x3f)); s += (char)(0x80 | ((c >> 6) & 0x3f)); s += (char)(0x80 | (c & 0x3f)); }
	return s;
}
// a scalar value (no surrogates), biased to the borders of the encodings
inline uint32_t genScalar(pbt::G& g)
{
	static const uint32_t edge[] = { 0, 1, 0x7e, 0x7f, 0x80, 0x81, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x3000, 0x30a1, 0xff21, 0xfeff };
	switch (g.below(6)) {
	case 0: return g.pick(edge);
	case 1: return (uint32_t)g.below(0x80);
	case 2: return (uint32_t)g.range(0x80, 0x7ff);
	case 3: { uint32_t c = (uint32_t)g.range(0x800, 0xffff); return c >= 0xd800 && c < 0xe000 ? c - 0x800 : c; }
	case 4: return (uint32_t)g.range(0x10000, 0x10ffff);
	default: return (uint32_t)g.range(0x20, 0x7e);
	}
}
