// arrays of more than 2^32 bytes through the serializer
#include <pbt.h>
#include <cybozu/serializer.hpp>
#include "mirror.h"
using pbt::G;
static Mirror& src() { static Mirror m((size_t(1) << 32) + (1 << 20)); return m; }
static Mirror& dst() { static Mirror m((size_t(1) << 32) + (1 << 20)); return m; }
struct Out { // the head is kept, the rest is compared
	std::string head; size_t headSize, body; bool same;
	explicit Out(size_t h) : headSize(h), body(0), same(true) {}
	void write(const void *p, size_t n)
	{
		const char *q = (const char*)p;
		while (n > 0 && head.size() < headSize) { head += *q++; n--; }
		for (size_t i = 0; i < n; ) { size_t off = (body + i) % Mirror::period, k = std::min(n - i, Mirror::period - off); same = same && memcmp(q + i, src().p + off, k) == 0; i += k; }
		body += n;
	}
};
struct In { // the head and then the pattern
	std::string head; size_t pos, total, maxChunk;
	size_t readSome(void *p, size_t n)
	{
		char *q = (char*)p;
		n = std::min(std::min(n, maxChunk), total - pos);
		for (size_t i = 0; i < n; ) {
			if (pos + i < head.size()) { q[i] = head[pos + i]; i++; continue; }
			size_t off = (pos + i - head.size()) % Mirror::period, k = std::min(n - i, Mirror::period - off);
			memcpy(q + i, src().p + off, k);
			i += k;
		}
		pos += n;
		return n;
	}
};
template<class T> struct BigVec { // as much of a vector as savePodVec and loadPodVec need
	typedef T value_type; typedef T& reference; typedef const T& const_reference; typedef T *iterator; typedef const T *const_iterator; typedef size_t size_type;
	size_t n;
	BigVec(size_t n = 0) : n(n) {}
	T *data() { return (T*)dst().p; }
	const T *data() const { return (const T*)src().p; }
	T *begin() { return data(); }
	T *end() { return data() + n; }
	const T *begin() const { return data(); }
	const T *end() const { return data() + n; }
	T& front() { return *data(); }
	const T& front() const { return *data(); }
	T& back() { return data()[n - 1]; }
	const T& back() const { return data()[n - 1]; }
	void clear() { n = 0; }
	void reserve(size_t) {}
	size_t capacity() const { return n; }
	void swap(BigVec& v) { std::swap(n, v.n); }
	size_t size() const { return n; }
	bool empty() const { return n == 0; }
	void resize(size_t s) { n = s; if (n * sizeof(T) > dst().n) throw std::bad_alloc(); }
	T& operator[](size_t i) { return ((T*)dst().p)[i]; }
	const T& operator[](size_t i) const { return ((const T*)src().p)[i]; }
};
template<class T> static void check(G& g)
{
	src().fill(g.bits(32));
	dst().zero();
	size_t bytes = (g.boolean() ? size_t(1) << 32 : size_t(1) << 31) + (size_t)g.below(4000) - 40, n = bytes / sizeof(T);
	bytes = n * sizeof(T);
	// the number of elements in the documented format
	std::string head;
	bool wide = n >> 32;
	head += wide ? '\x83' : '\x82';
	for (int i = 0; i < (wide ? 8 : 4); i++) head += (char)(n >> 8 * i);
	g.note() << n << " elements of " << sizeof(T) << " bytes";
	g.nontrivial();
	BigVec<T> v; v.n = n;
	Out os(head.size());
	const BigVec<T>& cv = v;
	cybozu::savePodVec(os, cv);
	REQUIRE_STREQ(os.head, head);
	REQUIRE_EQ(os.body, bytes);
	REQUIRE_MSG(os.same, "the saved bytes differ");
	In is; is.head = head; is.pos = 0; is.maxChunk = g.boolean() ? ~size_t(0) : (size_t)g.range(1 << 20, uint64_t(1) << 33);
	bool cut = g.chance(1, 3);
	is.total = head.size() + bytes - (cut ? 1 + g.below(3) : 0);
	BigVec<T> w; w.n = 5;
	bool thrown = false;
	try { cybozu::loadPodVec(w, is); } catch (std::exception&) { thrown = true; }
	REQUIRE_EQ(thrown, cut);
	if (!cut) { REQUIRE_EQ(w.n, n); REQUIRE_EQ(is.pos, is.total); REQUIRE_MSG(dst().same(src()), "the loaded bytes differ"); }
}
PROP(big_bytes) { check<char>(g); }
PROP(big_words) { if (g.boolean()) check<uint64_t>(g); else check<uint16_t>(g); }
