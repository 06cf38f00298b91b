#pragma once
// gigabytes of virtual memory backed by a few megabytes: the same pages are mapped again and again
#include <sys/mman.h>
#include <unistd.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
struct Mirror {
	static const size_t period = size_t(29) << 20; // not a power of two, so a size cut to 32 bits shows
	char *p; size_t n;
	explicit Mirror(size_t size)
	{
		n = (size + period - 1) / period * period;
		int fd = (int)memfd_create("mirror", 0);
		if (fd < 0 || ftruncate(fd, (off_t)period) != 0) abort();
		p = (char*)mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) abort();
		for (size_t i = 0; i < n; i += period) if (mmap(p + i, period, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
		close(fd);
	}
	~Mirror() { munmap(p, n); }
	void fill(uint64_t seed) { uint64_t *q = (uint64_t*)p; for (size_t i = 0; i < period / 8; i++) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; q[i] = seed ^ (seed >> 29); } }
	void zero() { memset(p, 0, period); }
	bool same(const Mirror& m) const { return memcmp(p, m.p, period) == 0; }
private:
	Mirror(const Mirror&); void operator=(const Mirror&);
};
