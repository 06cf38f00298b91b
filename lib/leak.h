#pragma once
// counts live blocks of operator new; include in exactly one source of a harness
#include <new>
#include <cstdlib>
#include <atomic>
namespace leak {
inline std::atomic<long>& live() { static std::atomic<long> n(0); return n; }
inline std::atomic<size_t>& limit() { static std::atomic<size_t> n(~size_t(0)); return n; } // blocks of this size and more are refused
inline void *get(size_t n) { if (n >= limit()) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live()++; return p; }
inline void put(void *p) { if (p) { live()--; free(p); } }
// true if repeating f loses memory: what the first run allocates for good (caches, statics) does not count
template<class F> bool loses(F f) { f(); const long a = live(); f(); f(); return live() > a; }
}
void *operator new(size_t n) { return leak::get(n); }
void *operator new[](size_t n) { return leak::get(n); }
void operator delete(void *p) noexcept { leak::put(p); }
void operator delete[](void *p) noexcept { leak::put(p); }
void operator delete(void *p, size_t) noexcept { leak::put(p); }
void operator delete[](void *p, size_t) noexcept { leak::put(p); }
