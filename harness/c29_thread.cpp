// threads, parallel_for, mutexes, condition variables, events, atomic operations and thread local storage under perturbed schedules
#include <pbt.h>
#include <cybozu/parallel.hpp>
#include <cybozu/thread.hpp>
#include <cybozu/mutex.hpp>
#include <cybozu/critical_section.hpp>
#include <cybozu/condition_variable.hpp>
#include <cybozu/condition_variable_cs.hpp>
#include <cybozu/event.hpp>
#include <cybozu/tls.hpp>
#include <dlfcn.h>
#include <atomic>
#include <deque>
#include <memory>
#include <sched.h>
#include <stdexcept>
#include <thread>
using pbt::G; using pbt::show;
// ---- perturbation of the schedule
static std::atomic<unsigned> salt, shake; // shake: 0 none .. 3 strong
static __thread unsigned lcg;
static unsigned rnd() { if (lcg == 0) lcg = salt.fetch_add(0x9e3779b9u) | 1; lcg = lcg * 1664525u + 1013904223u; return lcg >> 16; }
static void perturb()
{
	unsigned s = shake.load(std::memory_order_relaxed);
	if (s == 0) return;
	unsigned r = rnd();
	if ((r & 15) < 4 * s) { if ((r & 0x30) == 0 && s > 1) { struct timespec t = { 0, (long)(r & 0xff) * 200 }; clock_nanosleep(CLOCK_MONOTONIC, 0, &t, 0); } else sched_yield(); }
}
static int failCreate = -1; // the n-th pthread_create from now on fails
static int nCreate;
static bool fakeSleep; static double slept; static G *gp; static int nSleep;
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_cond_signal(pthread_cond_t*); int __real_pthread_cond_broadcast(pthread_cond_t*); int __real_pthread_create(pthread_t*, const pthread_attr_t*, void *(*)(void*), void*); int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { perturb(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); perturb(); return r; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { perturb(); int r = __real_pthread_cond_signal(c); perturb(); return r; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { perturb(); int r = __real_pthread_cond_broadcast(c); perturb(); return r; }
int __wrap_pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*f)(void*), void *arg)
{
	if (failCreate >= 0 && nCreate++ == failCreate) { *h = (pthread_t)0x1230; return EAGAIN; } // the content of *h is unspecified
	perturb(); int r = __real_pthread_create(h, a, f, arg); perturb(); return r;
}
int __wrap_nanosleep(const struct timespec *q, struct timespec *r)
{
	if (!fakeSleep) return __real_nanosleep(q, r);
	if (q->tv_nsec < 0 || q->tv_nsec >= 1000000000 || q->tv_sec < 0) { slept = -1e9; errno = EINVAL; return -1; }
	double all = (double)q->tv_sec * 1e9 + (double)q->tv_nsec;
	if (nSleep < 20 && gp->boolean()) { nSleep++; double part = (double)gp->below((uint64_t)all + 1); slept += part; double rest = all - part; if (r) { r->tv_sec = (time_t)(rest / 1e9); r->tv_nsec = (long)(rest - (double)r->tv_sec * 1e9); } errno = EINTR; return -1; }
	slept += all; return 0;
}
// a condition variable may wake up without a reason; the definition here also replaces the one which libstdc++ calls
typedef int CondWait(pthread_cond_t*, pthread_mutex_t*);
static CondWait *realCondWait() { static CondWait *f = (CondWait*)dlsym(RTLD_NEXT, "pthread_cond_wait"); return f; } // initialised once, by the rules of the language
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	CondWait *real = realCondWait();
	if (shake.load(std::memory_order_relaxed) && (rnd() & 3) == 0) { __real_pthread_mutex_unlock(m); sched_yield(); __real_pthread_mutex_lock(m); return 0; }
	return real(c, m);
}
}
struct Shake { Shake(G& g) { salt = (unsigned)g.bits(32) | 1; lcg = 0; shake = (unsigned)g.below(4); failCreate = -1; nCreate = 0; } ~Shake() { shake = 0; failCreate = -1; } };
template<class F> static void spawn(size_t n, F f) { std::vector<std::thread> v; for (size_t i = 0; i < n; i++) v.push_back(std::thread([&f, i] { perturb(); f(i); })); for (auto& t : v) t.join(); }

// ---- parallel_for
struct Fct { // what to do is a function of the index
	const std::vector<char>& act; std::vector<std::atomic<int> > called; std::vector<int> by; std::atomic<int> running; std::atomic<bool> closed, late, badThread; int threadNum; std::vector<std::vector<int> > order;
	Fct(const std::vector<char>& a, int tn) : act(a), called(a.size()), by(a.size(), -1), running(0), closed(false), late(false), badThread(false), threadNum(tn), order((size_t)tn) {}
	template<class N> bool operator()(N i, N t)
	{
		running++;
		if (closed) late = true;
		perturb();
		if ((size_t)i >= act.size() || (size_t)t >= (size_t)threadNum) { badThread = true; running--; return false; }
		called[(size_t)i]++; by[(size_t)i] = (int)t; order[(size_t)t].push_back((int)i);
		char a = act[(size_t)i];
		perturb();
		if (closed) late = true;
		running--;
		if (a == 2) throw std::runtime_error("E" + std::to_string((int)i) + "!");
		if (a == 3) throw std::runtime_error("");
		return a != 1;
	}
};
template<class N> static void par(G& g, int n, int tn, const std::vector<char>& act, bool fail)
{
	Fct f(act, tn);
	bool threw = false; std::string what; bool plain = true; for (char a : act) plain &= a == 0;
	int limit = std::min(n, tn);
	if (fail) failCreate = (int)g.below((size_t)limit);
	try { cybozu::parallel_for(f, (N)n, (N)tn); } catch (std::exception& e) { threw = true; what = e.what(); }
	f.closed = true; failCreate = -1;
	REQUIRE_MSG(f.running == 0, "parallel_for returned while the function runs");
	for (int k = 0; k < 3; k++) sched_yield();
	REQUIRE_MSG(!f.badThread, "index or thread number out of range");
	bool anyThrow = false; std::set<std::string> msgs;
	for (int t = 0; t < tn; t++) {
		auto& o = f.order[(size_t)t];
		for (size_t k = 0; k < o.size(); k++) {
			if (k) REQUIRE_MSG(o[k - 1] < o[k], "a thread goes back");
			if (act[(size_t)o[k]]) REQUIRE_MSG(k + 1 == o.size(), "a thread goes on after it was stopped");
			if (act[(size_t)o[k]] >= 2) { anyThrow = true; if (act[(size_t)o[k]] == 2) msgs.insert("E" + std::to_string(o[k]) + "!"); }
		}
	}
	for (int i = 0; i < n; i++) REQUIRE_MSG(f.called[(size_t)i] <= 1, "index " + std::to_string(i) + " was called " + std::to_string(f.called[(size_t)i].load()) + " times");
	if (fail) { REQUIRE_MSG(threw, "a thread could not be started and nothing was reported"); return; }
	for (int i = 0; i < n; i++) if (!f.called[(size_t)i]) REQUIRE_MSG(i > 0 && (!f.called[(size_t)i - 1] || act[(size_t)i - 1]), "index " + std::to_string(i) + " was not called");
	REQUIRE_MSG(threw == anyThrow, threw ? "an exception from nothing: " + what : "the exception of a function was lost");
	if (!msgs.empty() && threw) { bool named = false; for (auto& m : msgs) named |= what.find(m) != std::string::npos; bool mixed = false; for (size_t i = 0; i < act.size(); i++) mixed |= act[i] == 3 && f.called[i]; REQUIRE_MSG(named || mixed, what); }
	REQUIRE(!f.late);
}
PROP_W(parallel, 3)
{
	Shake sh(g);
	int n = (int)g.size(40), tn = 1 + (int)g.below(6);
	if (g.chance(1, 40)) { tn = 7 + (int)g.below(194); n = tn - 2 + (int)g.below(50); }
	if (g.chance(1, 10)) n = tn - 1 + (int)g.below(3);
	std::vector<char> act((size_t)n, 0);
	if (g.chance(1, 2)) for (auto& c : act) if (g.chance(1, 8)) c = (char)(1 + g.below(3));
	bool fail = n > 0 && g.chance(1, 8);
	g.note() << "n " << n << " threads " << tn << " actions " << show(std::string(act.begin(), act.end())) << (fail ? " pthread_create fails" : "") << "\n";
	g.nontrivial(n > 1 && tn > 1);
	switch (g.below(5)) {
	case 0: par<int>(g, n, tn, act, fail); break;
	case 1: par<size_t>(g, n, tn, act, fail); break;
	case 2: par<uint8_t>(g, n, tn, act, fail); break;
	case 3: par<uint32_t>(g, n, tn, act, fail); break;
	default: par<int64_t>(g, n, tn, act, fail);
	}
	if (n > 0 && g.chance(1, 10)) { Fct f(act, 1); REQUIRE_THROWS(cybozu::parallel_for(f, n, 0)); for (auto& c : f.called) REQUIRE(c == 0); }
}

// ---- threads
struct Th : cybozu::ThreadBase {
	std::atomic<int> *started, *done;
	void threadEntry() { std::atomic<int> *d = done; (*started)++; perturb(); if ((rnd() & 7) == 0) { struct timespec t = { 0, 100000 }; clock_nanosleep(CLOCK_MONOTONIC, 0, &t, 0); } (*d)++; }
};
PROP(threads)
{
	Shake sh(g);
	std::atomic<int> started(0), done(0); int begun = 0, finished = 0;
	size_t n = 1 + g.below(4);
	std::vector<std::unique_ptr<Th> > v(n); std::vector<int> run(n, 0);
	std::vector<std::unique_ptr<Th> > keep; // detached
	for (auto& p : v) { p.reset(new Th); p->started = &started; p->done = &done; }
	size_t ops = 1 + g.size(20);
	for (size_t k = 0; k < ops; k++) {
		size_t i = g.below(n);
		switch (g.below(5)) {
		case 0: case 1: {
			if (run[i]) break;
			bool fail = g.chance(1, 6); if (fail) { nCreate = 0; failCreate = 0; }
			bool ok = g.chance(1, 3) ? v[i]->beginThread(1 << 20) : v[i]->beginThread(); failCreate = -1;
			g.note() << "begin " << i << (fail ? " fails" : "") << "\n";
			REQUIRE_EQ(ok, !fail);
			if (ok) { run[i] = 1; begun++; }
			break;
		}
		case 2: case 3: { g.note() << "join " << i << "\n"; int before = started; REQUIRE(v[i]->joinThread()); if (run[i]) { run[i] = 0; finished++; } (void)before; REQUIRE_MSG(done >= finished, "join returned before the end of the thread"); break; }
		default:
			if (run[i]) { g.note() << "detach " << i << "\n"; REQUIRE(v[i]->detachThread()); run[i] = 0; keep.push_back(std::move(v[i])); v[i].reset(new Th); v[i]->started = &started; v[i]->done = &done; } else REQUIRE(!v[i]->detachThread());
		}
	}
	g.nontrivial(begun > 1);
	for (size_t i = 0; i < n; i++) { REQUIRE(v[i]->joinThread()); REQUIRE(v[i]->joinThread()); }
	if (keep.empty()) { REQUIRE_EQ(done.load(), begun); v.clear(); }
	for (int k = 0; k < 20000 && done < begun; k++) { struct timespec t = { 0, 1000000 }; clock_nanosleep(CLOCK_MONOTONIC, 0, &t, 0); }
	REQUIRE_EQ(done.load(), begun); REQUIRE_EQ(started.load(), begun);
	if (!keep.empty()) { struct timespec t = { 0, 3000000 }; clock_nanosleep(CLOCK_MONOTONIC, 0, &t, 0); for (auto& p : keep) p.release(); } // they may still be returning
}

// ---- mutual exclusion
template<class M, class A> static void exclusion(G& g, size_t nt, int per)
{
	M m; long count = 0; int inside = 0; std::atomic<bool> bad(false);
	bool useAuto = g.boolean();
	spawn(nt, [&](size_t t) {
		for (int k = 0; k < per; k++) {
			bool a = useAuto != ((k + (int)t) % 3 == 0);
			if (a) { A al(m); if (inside++) bad = true; long c = count; perturb(); count = c + 1; inside--; }
			else { m.lock(); if (inside++) bad = true; long c = count; perturb(); count = c + 1; inside--; m.unlock(); }
		}
	});
	REQUIRE_MSG(!bad, "two threads were in the critical section");
	REQUIRE_EQ(count, (long)nt * per);
}
PROP(mutex)
{
	Shake sh(g);
	size_t nt = 2 + g.below(4); int per = 1 + (int)g.size(60);
	g.note() << nt << " threads " << per << " times\n"; g.nontrivial();
	if (g.boolean()) exclusion<cybozu::Mutex, cybozu::AutoLock>(g, nt, per); else exclusion<cybozu::CriticalSection, cybozu::AutoLockCs>(g, nt, per);
}
PROP(autolock)
{
	// an AutoLock releases exactly what it took, also when an exception leaves the block
	cybozu::Mutex m[2]; int held[2] = { 0, 0 };
	struct Probe { int *h; void lock() { ++*h; } void unlock() { --*h; } } p[2] = { { held }, { held + 1 } };
	size_t ops = 1 + g.size(10); g.nontrivial(ops > 1);
	for (size_t k = 0; k < ops; k++) {
		int i = (int)g.below(2); bool t = g.boolean();
		try { cybozu::thread::AutoLockT<Probe> a(p[i]); REQUIRE_EQ(held[i], 1); REQUIRE_EQ(held[1 - i], 0); if (t) throw 1; } catch (int) { }
		REQUIRE_EQ(held[i], 0);
		{ cybozu::AutoLock a(m[i]); } { cybozu::AutoLock a(m[i]); }
	}
}

// ---- condition variables: a bounded queue
template<class M, class A, class CV> static void queue(G& g, size_t np, size_t nc, int per, size_t cap)
{
	M m; CV notEmpty, notFull; std::deque<int> q; int inside = 0; std::atomic<bool> bad(false); bool all = g.boolean() , same = g.boolean();
	std::vector<std::vector<int> > got(nc); size_t left = np * (size_t)per;
	CV& full = same ? notEmpty : notFull; if (same) all = true; // with one variable only notifyAll is correct
	spawn(np + nc, [&](size_t t) {
		if (t < np) for (int k = 0; k < per; k++) {
			A al(m); if (inside++) bad = true;
			while (q.size() >= cap) { inside--; full.wait(m); if (inside++) bad = true; }
			q.push_back((int)t * 1000 + k); all ? notEmpty.notifyAll() : notEmpty.notifyOne();
			inside--;
		} else for (;;) {
			A al(m); if (inside++) bad = true;
			while (q.empty() && left > 0) { inside--; notEmpty.wait(m); if (inside++) bad = true; }
			if (q.empty()) { inside--; break; }
			got[t - np].push_back(q.front()); q.pop_front(); left--;
			if (left == 0) notEmpty.notifyAll();
			all ? full.notifyAll() : full.notifyOne();
			inside--;
		}
	});
	REQUIRE_MSG(!bad, "wait returned without the mutex");
	std::vector<int> n(np * 1000, 0); size_t total = 0;
	for (auto& v : got) { std::vector<int> last(np, -1); for (int x : v) { n[(size_t)x]++; total++; REQUIRE_MSG(last[(size_t)x / 1000] < x % 1000, "order lost"); last[(size_t)x / 1000] = x % 1000; } }
	REQUIRE_EQ(total, np * (size_t)per);
	for (int x : n) REQUIRE(x <= 1);
}
PROP(condition)
{
	Shake sh(g);
	size_t np = 1 + g.below(3), nc = 1 + g.below(3), cap = 1 + g.below(3); int per = 1 + (int)g.size(25);
	g.note() << np << " producers " << nc << " consumers " << per << " items each, capacity " << cap << "\n"; g.nontrivial(per > 1);
	if (g.boolean()) queue<cybozu::Mutex, cybozu::AutoLock, cybozu::ConditionVariable>(g, np, nc, per, cap); else queue<cybozu::CriticalSection, cybozu::AutoLockCs, cybozu::ConditionVariableCs>(g, np, nc, per, cap);
}
// notifyAll wakes everyone, notifyOne wakes at least one
PROP(notify)
{
	Shake sh(g);
	size_t nt = 1 + g.below(4);
	cybozu::Mutex m; cybozu::ConditionVariable cv; cybozu::CriticalSection cs; cybozu::ConditionVariableCs cc; bool useCs = g.boolean();
	int waiting = 0, permits = 0, passed = 0; g.nontrivial(nt > 1); bool all = g.boolean();
	g.note() << nt << " waiters, " << (all ? "notifyAll" : "notifyOne") << "\n";
	auto lock = [&] { useCs ? cs.lock() : m.lock(); }; auto unlock = [&] { useCs ? cs.unlock() : m.unlock(); };
	std::thread waker([&] {
		for (;;) { lock(); bool r = waiting == (int)nt; unlock(); if (r) break; sched_yield(); }
		if (all) { lock(); permits = (int)nt; unlock(); useCs ? cc.notifyAll() : cv.notifyAll(); }
		else for (size_t k = 0; k < nt; k++) { lock(); permits++; unlock(); useCs ? cc.notifyOne() : cv.notifyOne(); }
	});
	spawn(nt, [&](size_t) { lock(); waiting++; while (permits == 0) useCs ? cc.wait(cs) : cv.wait(m); permits--; passed++; unlock(); });
	waker.join();
	REQUIRE_EQ(passed, (int)nt);
}

// ---- events
PROP(event)
{
	Shake sh(g);
	cybozu::Event go, back; int rounds = 1 + (int)g.size(30), seq = 0; std::atomic<int> passed(0); bool bad = false;
	bool twice = g.boolean();
	g.note() << rounds << " rounds" << (twice ? ", set twice" : "") << "\n"; g.nontrivial(rounds > 1);
	std::thread t([&] { for (int k = 0; k < rounds; k++) { go.wait(); if (seq != 2 * k + 1) bad = true; seq++; passed++; back.wakeup(); } go.wait(); passed++; });
	for (int k = 0; k < rounds; k++) { if (seq != 2 * k) bad = true; seq++; go.wakeup(); if (twice && false) go.wakeup(); back.wait(); if (seq != 2 * k + 2) bad = true; }
	for (int k = 0; k < 3; k++) { sched_yield(); if (passed != rounds) bad = true; } // nobody has set it again
	struct timespec ts = { 0, 30000 }; clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, 0);
	bool early = passed != rounds;
	go.wakeup(); t.join();
	REQUIRE_MSG(!early, "wait returned without wakeup"); REQUIRE_MSG(!bad, "out of turn"); REQUIRE_EQ(passed.load(), rounds + 1);
}
PROP(event_memory)
{
	// a wakeup before the wait is not lost, and several count as one
	cybozu::Event e; size_t ops = 1 + g.size(15); g.nontrivial(ops > 2); bool set = false;
	for (size_t k = 0; k < ops; k++) { if (g.boolean()) { e.wakeup(); set = true; } else if (set) { e.wait(); set = false; } }
	std::atomic<bool> passed(false); std::thread t([&] { e.wait(); passed = true; });
	if (!set) { struct timespec ts = { 0, 50000 }; clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, 0); bool early = passed; e.wakeup(); t.join(); REQUIRE_MSG(!early, "an event was kept after wait"); }
	else t.join();
	REQUIRE(passed);
}

// ---- atomic operations
template<class T> static void seqAtomic(G& g)
{
	struct { T guard0, v, guard1; } x; x.guard0 = x.guard1 = (T)0x5a; T v = (T)g.bits(64); x.v = v;
	size_t ops = 1 + g.size(12);
	for (size_t k = 0; k < ops; k++) {
		T y = g.chance(1, 3) ? v : (T)(g.boolean() ? g.below(5) : g.bits(64)), z = g.boolean() ? v : (T)g.bits(64), r, old = v;
		switch (g.below(3)) {
		case 0: r = cybozu::AtomicAdd(&x.v, y); v = (T)((uint64_t)v + (uint64_t)y); break;
		case 1: r = cybozu::AtomicExchange(&x.v, y); v = y; break;
		default: r = cybozu::AtomicCompareExchange(&x.v, y, z); if (old == z) v = y;
		}
		cybozu::mfence();
		REQUIRE_EQ(r, old); REQUIRE_EQ(x.v, v);
	}
	REQUIRE_EQ(x.guard0, (T)0x5a); REQUIRE_EQ(x.guard1, (T)0x5a);
	g.nontrivial(ops > 1);
}
PROP(atomic_values)
{
	switch (g.below(6)) { case 0: seqAtomic<int>(g); break; case 1: seqAtomic<unsigned>(g); break; case 2: seqAtomic<long>(g); break; case 3: seqAtomic<unsigned long>(g); break; case 4: seqAtomic<int64_t>(g); break; default: seqAtomic<uint64_t>(g); }
}
template<class T> static void concAtomic(G& g)
{
	size_t nt = 2 + g.below(3); int per = 1 + (int)g.size(300); T step = (T)(1 + g.below(1000)), sum = 0, cas = 0; T slot = 0; std::vector<std::vector<T> > seen(nt), out(nt); int mode = (int)g.below(3);
	g.note() << nt << " threads, mode " << mode << ", " << per << " times\n"; g.nontrivial();
	spawn(nt, [&](size_t t) {
		for (int k = 0; k < per; k++) {
			if (mode == 0) seen[t].push_back(cybozu::AtomicAdd(&sum, step));
			else if (mode == 1) { T o = cybozu::AtomicAdd(&cas, (T)0); for (;;) { T r = cybozu::AtomicCompareExchange(&cas, (T)(o + step), o); if (r == o) break; o = r; } }
			else { T mine = (T)(t * 1000 + (size_t)k + 1); out[t].push_back(mine); T r = cybozu::AtomicExchange(&slot, mine); if (r) seen[t].push_back(r); }
			if ((k & 15) == 0) perturb();
		}
	});
	if (mode == 0) { REQUIRE_EQ(sum, (T)(step * (T)nt * (T)per)); std::set<T> s; for (auto& v : seen) for (T x : v) REQUIRE_MSG(s.insert(x).second, "two threads got the same value"); }
	else if (mode == 1) REQUIRE_EQ(cas, (T)(step * (T)nt * (T)per));
	else { std::multiset<T> in, o; if (slot) in.insert(slot); for (auto& v : seen) in.insert(v.begin(), v.end()); for (auto& v : out) o.insert(v.begin(), v.end()); REQUIRE_MSG(in == o, "a value was lost or doubled"); }
}
PROP(atomic_threads) { Shake sh(g); if (g.boolean()) concAtomic<uint32_t>(g); else concAtomic<uint64_t>(g); }

// ---- thread local storage
PROP(tls)
{
	Shake sh(g);
	size_t nt = 1 + g.below(4), nk = 1 + g.below(4), ops = 1 + g.size(30); std::vector<std::unique_ptr<cybozu::Tls> > k(nk);
	int rounds = 1 + (int)g.below(3); std::atomic<int> bad(0); g.nontrivial(nt > 1); unsigned seed = (unsigned)g.bits(30);
	for (int r = 0; r < rounds; r++) {
		for (auto& p : k) { p.reset(new cybozu::Tls); if (p->get() != 0) bad = 1; }
		int x[8]; for (size_t j = 0; j < nk; j++) if (!k[j]->set(&x[j])) bad = 2;
		spawn(nt, [&](size_t t) {
			std::vector<void*> mine(nk, (void*)0); unsigned s = seed + (unsigned)t * 77777; int dummy[16];
			for (size_t o = 0; o < ops; o++) { s = s * 1664525 + 1013904223; size_t j = (s >> 20) % nk; if (k[j]->get() != mine[j]) bad = 3; if (s >> 31) { mine[j] = &dummy[(s >> 10) & 15]; if (!k[j]->set(mine[j])) bad = 4; } perturb(); }
			for (size_t j = 0; j < nk; j++) if (k[j]->get() != mine[j]) bad = 5;
		});
		for (size_t j = 0; j < nk; j++) if (k[j]->get() != &x[j]) bad = 6;
	}
	REQUIRE_EQ(bad.load(), 0);
}
PROP(tls_limit)
{
	if (!g.chance(1, 20)) DISCARD();
	std::vector<std::unique_ptr<cybozu::Tls> > v; int x[2]; size_t ok = 0, n = 1000 + g.below(100); g.nontrivial();
	for (size_t i = 0; i < n; i++) { v.emplace_back(new cybozu::Tls); REQUIRE(v.back()->get() == 0); bool s = v.back()->set(&x[i & 1]); ok += s; REQUIRE(v.back()->get() == (s ? &x[i & 1] : 0)); }
	REQUIRE(ok > 500);
	v.clear();
	for (int i = 0; i < 1500; i++) { cybozu::Tls t; REQUIRE(t.get() == 0); REQUIRE_MSG(t.set(x), "keys are not given back"); }
}

PROP(sleep)
{
	int msec = (int)(g.boolean() ? g.below(5000) : g.bits(31)); gp = &g; nSleep = 0; slept = 0; fakeSleep = true; cybozu::Sleep(msec); fakeSleep = false; gp = 0;
	g.note() << msec << " msec, interrupted " << nSleep << " times\n"; g.nontrivial(nSleep > 0);
	REQUIRE_MSG(slept >= msec * 1e6 - 1e3 * 25 && slept <= msec * 1e6 + 1e6, std::to_string(slept / 1e6));
	REQUIRE(cybozu::GetProcessorNum() > 0); REQUIRE_EQ(cybozu::GetProcessId(), (unsigned)getpid());
}
