#pragma once
#include <pbt.h>
typedef std::vector<bool> Bits;
// bit patterns: random density, runs, periodic, single bits; sizes near 64, 256 and 1024 multiples
inline Bits genBits(pbt::G& g, size_t maxSize)
{
	size_t n;
	switch (g.below(5)) {
	case 0: n = g.below(70); break;
	case 1: n = 64 * g.below(20) + g.below(5); n = n >= 2 ? n - 2 : 0; break;
	case 2: n = 256 * g.below(20) + g.below(5); n = n >= 2 ? n - 2 : 0; break;
	case 3: n = g.below(3000); break;
	default: n = g.size(maxSize); break;
	}
	n = std::min(n, maxSize);
	Bits b(n);
	// a few segments with their own pattern
	size_t pos = 0;
	int segs = 1 + (int)g.below(4);
	for (int s = 0; s < segs && pos < n; s++) {
		size_t end = s + 1 == segs ? n : pos + g.below(n - pos + 1);
		int kind = (int)g.below(6);
		uint64_t seed = g.below(1u << 20);
		size_t per = 1 + seed % 300;
		for (size_t i = pos; i < end; i++) {
			switch (kind) {
			case 0: b[i] = false; break;
			case 1: b[i] = true; break;
			case 2: b[i] = pbt::mix64(seed + i) & 1; break;
			case 3: b[i] = pbt::mix64(seed + i) % 64 == 0; break;
			case 4: b[i] = pbt::mix64(seed + i) % 64 != 0; break;
			case 5: b[i] = i % per == 0; break;
			}
		}
		pos = end;
	}
	return b;
}
inline std::string descBits(const Bits& b)
{
	std::ostringstream os;
	os << b.size() << " bits: ";
	size_t shown = 0;
	for (size_t i = 0; i < b.size() && shown < 30; shown++) { // run lengths
		size_t j = i;
		while (j < b.size() && b[j] == b[i]) j++;
		os << (b[i] ? "1x" : "0x") << (j - i) << " ";
		i = j;
		if (i < b.size() && shown == 29) os << "...";
	}
	return os.str();
}
inline std::vector<uint64_t> toBlocks(const Bits& b, bool dirtyTail)
{
	std::vector<uint64_t> v((b.size() + 63) / 64);
	for (size_t i = 0; i < b.size(); i++) if (b[i]) v[i / 64] |= 1ull << (i % 64);
	if (dirtyTail && b.size() % 64) v.back() |= ~0ull << (b.size() % 64);
	return v;
}
struct BitRef { // prefix counts and positions
	const Bits& b;
	std::vector<uint64_t> ones;
	std::vector<uint64_t> pos[2];
	explicit BitRef(const Bits& b) : b(b), ones(b.size() + 1)
	{
		for (size_t i = 0; i < b.size(); i++) { ones[i + 1] = ones[i] + b[i]; pos[b[i]].push_back(i); }
	}
	uint64_t rank(bool v, size_t i) const { return v ? ones[i] : i - ones[i]; }
};
