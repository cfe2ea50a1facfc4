// A stand-in for the OpenMP runtime (the functions gcc's -fopenmp calls) and for the instrumentation calls of
// -fsanitize=thread.  The threads of a team exist, but only one of them runs at a time: which one, and where it is
// interrupted (at any memory access), is decided here, from a seed.  The memory every thread touches between two
// barriers can be recorded.  Linked to objects compiled with -fopenmp -fsanitize=thread, without libgomp and libtsan.
// This file itself is compiled without instrumentation.
#include "parsim.hpp"
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <time.h>
#include <vector>

namespace
{
	struct Access { std::uintptr_t a; std::uint32_t n; bool w; };
	enum class St { Ready, Barrier, Locked, Done };
	struct Loop { long long next, end, incr, chunk; bool made = false, single = false; };
	struct Thread
	{
		int tid = 0;
		St st = St::Ready;
		const void* waits = nullptr; // lock
		int sync = 0;                // holds that many locks
		int inside = 0;              // runs this file
		int nested = 0;              // is in that many regions inside the region: teams of one
		std::size_t ws = 0;          // worksharing constructs met so far
		long long taken = 0;
		sem_t sem;
		pthread_t id;
		std::vector<Access> log;
		void (*fn)(void*) = nullptr;
		void* data = nullptr;
	};
	thread_local Thread* me = nullptr;
	inline bool Alone() { return me == nullptr || me->nested != 0; } // in a team of one
	std::vector<Thread*> team;
	std::vector<int> order;       // rank of the threads
	std::map<const void*, Thread*> locks;
	std::vector<Loop> loops;
	std::vector<void*> quarantine;
	sem_t allDone;
	bool inRegion = false;

	int teamSize = 1;
	bool interleave = false;
	unsigned seed = 0;
	std::uint64_t rng = 1;
	std::FILE* rec = nullptr;
	int scenario = 0;
	long regions = 0;
	std::uintptr_t site = 0;
	long switches = 0;

	std::uint64_t Rand()
	{
		rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
		return rng;
	}

	void Flush(int phase); // the recorded accesses of a phase

	Thread* Pick()
	{
		std::vector<Thread*> r;
		for (auto t : team) { if (t->st == St::Ready) { r.push_back(t); } }
		if (r.empty()) { return nullptr; }
		if (interleave) { return r[Rand() % r.size()]; }
		return *std::min_element(r.begin(), r.end(), [](auto a, auto b) { return order[static_cast<std::size_t>(a->tid)] < order[static_cast<std::size_t>(b->tid)]; });
	}
	// let another thread run; the caller waits until it is picked again (unless it is done)
	void Switch()
	{
		Thread* self = me;
		Thread* t = Pick();
		if (t == nullptr)
		{
			bool done = true;
			for (auto x : team) { done = done && x->st == St::Done; }
			if (!done) { std::fprintf(stderr, "parsim: the threads wait for each other\n"); std::_Exit(3); }
			sem_post(&allDone);
			return;
		}
		if (t == self) { return; }
		sem_post(&t->sem);
		if (self->st != St::Done) { while (sem_wait(&self->sem) != 0) {} }
	}
	int phaseOfRegion = 0;
	void ReleaseBarrier()
	{
		for (auto t : team) { if (t->st != St::Done && t->st != St::Barrier) { return; } }
		Flush(phaseOfRegion++);
		for (auto t : team) { if (t->st == St::Barrier) { t->st = St::Ready; } }
	}
	void Barrier()
	{
		if (Alone()) { return; }
		me->inside++;
		me->st = St::Barrier;
		ReleaseBarrier();
		if (me->st != St::Ready || interleave) { Switch(); }
		me->inside--;
	}
	void Lock(const void* p)
	{
		if (me == nullptr) { return; }
		me->inside++;
		while (locks.count(p) && locks[p] != nullptr)
		{
			me->st = St::Locked; me->waits = p;
			Switch();
		}
		locks[p] = me;
		me->sync++;
		me->inside--;
	}
	bool TryLock(const void* p)
	{
		if (me == nullptr) { return true; }
		me->inside++;
		const bool got = !locks.count(p) || locks[p] == nullptr;
		if (got) { locks[p] = me; me->sync++; }
		me->inside--;
		return got;
	}
	void Unlock(const void* p)
	{
		if (me == nullptr) { return; }
		me->inside++;
		locks[p] = nullptr;
		me->sync--;
		for (auto t : team) { if (t->st == St::Locked && t->waits == p) { t->st = St::Ready; } }
		if (interleave) { Switch(); }
		me->inside--;
	}

	inline void Touch(const volatile void* p, std::size_t n, bool w)
	{
		Thread* t = me;
		if (t == nullptr || t->inside != 0) { return; }
		t->inside++;
		if (rec != nullptr && t->sync == 0)
		{
			const auto a = reinterpret_cast<std::uintptr_t>(p);
			if (t->log.empty() || t->log.back().a != a || t->log.back().n != n || t->log.back().w != w)
			{
				t->log.push_back({a, static_cast<std::uint32_t>(n), w});
			}
			if (t->log.size() > 400000)
			{
				auto& l = t->log;
				std::sort(l.begin(), l.end(), [](const auto& x, const auto& y) { return x.a != y.a ? x.a < y.a : x.n != y.n ? x.n < y.n : x.w < y.w; });
				l.erase(std::unique(l.begin(), l.end(), [](const auto& x, const auto& y) { return x.a == y.a && x.n == y.n && x.w == y.w; }), l.end());
			}
		}
		if (interleave && switches < 4000 && (Rand() & 63) == 0) { switches++; Switch(); }
		t->inside--;
	}

	void Flush(int phase)
	{
		if (rec == nullptr || team.size() < 2) { return; }
		// pattern of accesses (set of threads reading, set of threads writing) -> bytes
		std::map<std::uintptr_t, std::vector<std::pair<int, bool>>> bytes;
		struct Cut { std::uintptr_t a; };
		for (auto t : team)
		{
			std::map<std::uintptr_t, int> mine; // 1 read, 2 written
			for (const auto& x : t->log) { for (std::uint32_t i = 0; i < x.n; i++) { mine[x.a + i] |= x.w ? 2 : 1; } }
			t->log.clear();
			for (const auto& m : mine)
			{
				if (m.second & 1) { bytes[m.first].emplace_back(t->tid, false); }
				if (m.second & 2) { bytes[m.first].emplace_back(t->tid, true); }
			}
		}
		std::map<std::vector<std::pair<int, bool>>, long> classes;
		for (const auto& b : bytes) { classes[b.second]++; }
		std::string s = "{\"ev\":\"region\",\"k\":" + std::to_string(scenario) + ",\"region\":" + std::to_string(regions) + ",\"phase\":" + std::to_string(phase)
			+ ",\"site\":\"" + std::to_string(site) + "\",\"threads\":" + std::to_string(team.size()) + ",\"cls\":[";
		bool first = true;
		for (const auto& c : classes)
		{
			if (!first) { s += ','; }
			first = false;
			for (int w = 0; w < 2; w++)
			{
				s += w ? ",\"w\":[" : "{\"r\":[";
				bool f = true;
				for (const auto& x : c.first) { if (x.second == (w == 1)) { if (!f) { s += ','; } f = false; s += std::to_string(x.first + 1); } }
				s += ']';
			}
			s += ",\"bytes\":" + std::to_string(c.second) + "}";
		}
		s += "]}\n";
		std::fwrite(s.data(), 1, s.size(), rec);
	}

	void* Run(void* arg)
	{
		auto t = static_cast<Thread*>(arg);
		while (sem_wait(&t->sem) != 0) {}
		me = t;
		t->fn(t->data);
		t->inside++;
		t->st = St::Done;
		ReleaseBarrier();
		Switch();
		me = nullptr;
		return nullptr;
	}

	void Region(void (*fn)(void*), void* data, unsigned n, std::uintptr_t from)
	{
		if (inRegion || me != nullptr) // nested: a team of one
		{
			if (me != nullptr) { me->nested++; }
			fn(data);
			if (me != nullptr) { me->nested--; }
			return;
		}
		const auto size = static_cast<std::size_t>(n == 0 ? teamSize : static_cast<int>(n));
		inRegion = true;
		regions++; site = from; phaseOfRegion = 0; switches = 0;
		sem_init(&allDone, 0, 0);
		order.resize(size);
		for (std::size_t i = 0; i < size; i++) { order[i] = static_cast<int>(i); }
		if (seed != 0)
		{
			for (std::size_t i = size; i > 1; i--) { std::swap(order[i - 1], order[Rand() % i]); }
		}
		std::vector<Thread> ts(size);
		team.clear(); locks.clear();
		if (loops.size() != 0) { loops.clear(); }
		for (std::size_t i = 0; i < size; i++)
		{
			ts[i].tid = static_cast<int>(i); ts[i].fn = fn; ts[i].data = data;
			sem_init(&ts[i].sem, 0, 0);
			team.push_back(&ts[i]);
		}
		pthread_attr_t attr;
		pthread_attr_init(&attr);
		pthread_attr_setstacksize(&attr, 1 << 20);
		for (auto& t : ts)
		{
			if (pthread_create(&t.id, &attr, Run, &t) != 0) { std::fprintf(stderr, "parsim: no thread\n"); std::_Exit(2); }
		}
		sem_post(&Pick()->sem);
		while (sem_wait(&allDone) != 0) {}
		for (auto& t : ts) { pthread_join(t.id, nullptr); }
		Flush(phaseOfRegion);
		for (auto& t : ts) { sem_destroy(&t.sem); }
		sem_destroy(&allDone);
		team.clear();
		inRegion = false;
		for (auto p : quarantine) { std::free(p); }
		quarantine.clear();
	}

	bool NextChunk(Loop& l, long long& a, long long& b)
	{
		if (rec != nullptr) // every thread one iteration, if there are enough threads
		{
			const auto n = (l.end - l.next + l.incr - (l.incr > 0 ? 1 : -1)) / l.incr;
			const auto share = (n + static_cast<long long>(team.size()) - 1) / static_cast<long long>(team.size());
			if (me->taken++ != 0) { return false; }
			const auto f = me->tid * share;
			if (f >= n) { return false; }
			a = l.next + f * l.incr;
			b = l.next + std::min(n, f + share) * l.incr;
			return true;
		}
		if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) { return false; }
		a = l.next;
		b = a + l.chunk * l.incr;
		if (l.incr > 0 ? b > l.end : b < l.end) { b = l.end; }
		l.next = b;
		return true;
	}
	Loop& Construct()
	{
		const auto i = me->ws - 1;
		if (loops.size() <= i) { loops.resize(i + 1); }
		return loops[i];
	}
	bool LoopStart(long long s, long long e, long long incr, long long* a, long long* b)
	{
		if (Alone()) { *a = s; *b = e; return incr > 0 ? s < e : s > e; }
		me->inside++;
		me->ws++; me->taken = 0;
		auto& l = Construct();
		if (!l.made) { l.made = true; l.next = s; l.end = e; l.incr = incr; l.chunk = 1; }
		const bool r = NextChunk(l, *a, *b);
		if (interleave) { Switch(); }
		me->inside--;
		return r;
	}
	bool LoopNext(long long* a, long long* b)
	{
		if (Alone()) { return false; }
		me->inside++;
		const bool r = NextChunk(Construct(), *a, *b);
		if (interleave) { Switch(); }
		me->inside--;
		return r;
	}
	struct ParLoop { void (*fn)(void*); void* data; long long s, e, incr; };
	void ParLoopBody(void* p)
	{
		auto l = static_cast<ParLoop*>(p);
		if (Alone()) { l->fn(l->data); return; }
		me->inside++;
		me->ws++; me->taken = 0;
		auto& c = Construct();
		if (!c.made) { c.made = true; c.next = l->s; c.end = l->e; c.incr = l->incr; c.chunk = 1; }
		me->inside--;
		l->fn(l->data);
	}
}

namespace parsim
{
	void Schedule(int threads, bool inter, unsigned s)
	{
		teamSize = threads; interleave = inter; seed = s;
		rng = (static_cast<std::uint64_t>(s) + 1) * 0x9E3779B97F4A7C15ull | 1;
	}
	void Record(std::FILE* f, int k) { rec = f; scenario = k; }
	long Regions() { return regions; }
}

// allocation: nothing freed in a region is used again in it
void* operator new(std::size_t n) { if (void* p = std::malloc(n ? n : 1)) { return p; } throw std::bad_alloc(); }
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept
{
	if (p == nullptr) { return; }
	if (me != nullptr && me->inside == 0) { me->inside++; quarantine.push_back(p); me->inside--; }
	else { std::free(p); }
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

#define SITE (reinterpret_cast<std::uintptr_t>(__builtin_return_address(0)) - reinterpret_cast<std::uintptr_t>(&__executable_start))
extern "C"
{
	extern char __executable_start;
	// --- instrumentation -------------------------------------------------------------------------
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void* p) { Touch(p, n, false); } \
	void __tsan_write##n(void* p) { Touch(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { Touch(p, n, false); } \
	void __tsan_unaligned_write##n(void* p) { Touch(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { Touch(p, n, false); } \
	void __tsan_volatile_write##n(void* p) { Touch(p, n, true); } \
	void __tsan_read_write##n(void* p) { Touch(p, n, false); Touch(p, n, true); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void* p, std::size_t n) { Touch(p, n, false); }
	void __tsan_write_range(void* p, std::size_t n) { Touch(p, n, true); }
	void __tsan_vptr_read(void** p) { Touch(p, 8, false); }
	void __tsan_vptr_update(void** p, void* v) { if (*p != v) { Touch(p, 8, true); } }
#define AT(n, T) \
	T __tsan_atomic##n##_load(const volatile T* p, int) { if (me && interleave) { me->inside++; Switch(); me->inside--; } return *p; } \
	void __tsan_atomic##n##_store(volatile T* p, T v, int) { *p = v; } \
	T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { T o = *p; *p = v; return o; } \
	T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { T o = *p; *p = static_cast<T>(o + v); return o; } \
	T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { T o = *p; *p = static_cast<T>(o - v); return o; } \
	T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { T o = *p; *p = static_cast<T>(o & v); return o; } \
	T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { T o = *p; *p = static_cast<T>(o | v); return o; } \
	T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { T o = *p; *p = static_cast<T>(o ^ v); return o; } \
	T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int) { T o = *p; *p = static_cast<T>(~(o & v)); return o; } \
	bool __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
	bool __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { T o = *p; if (o == e) { *p = v; } return o; }
	AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
	void __tsan_atomic_thread_fence(int) {}
	void __tsan_atomic_signal_fence(int) {}
	void* __real_memcpy(void*, const void*, std::size_t);
	void* __real_memmove(void*, const void*, std::size_t);
	void* __real_memset(void*, int, std::size_t);
	void* __wrap_memcpy(void* d, const void* s, std::size_t n) { if (n) { Touch(s, n, false); Touch(d, n, true); } return __real_memcpy(d, s, n); }
	void* __wrap_memmove(void* d, const void* s, std::size_t n) { if (n) { Touch(s, n, false); Touch(d, n, true); } return __real_memmove(d, s, n); }
	void* __wrap_memset(void* d, int c, std::size_t n) { if (n) { Touch(d, n, true); } return __real_memset(d, c, n); }
	int __real_pthread_mutex_lock(pthread_mutex_t*);
	int __real_pthread_mutex_unlock(pthread_mutex_t*);
	int __real_pthread_mutex_trylock(pthread_mutex_t*);
	int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (me == nullptr) { return __real_pthread_mutex_lock(m); } Lock(m); return 0; }
	int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (me == nullptr) { return __real_pthread_mutex_unlock(m); } Unlock(m); return 0; }
	int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (me == nullptr) { return __real_pthread_mutex_trylock(m); } return TryLock(m) ? 0 : 16; }
	int __real___cxa_guard_acquire(std::uint64_t*);
	void __real___cxa_guard_release(std::uint64_t*);
	void __real___cxa_guard_abort(std::uint64_t*);
	int __wrap___cxa_guard_acquire(std::uint64_t* g) { if (me == nullptr) { return __real___cxa_guard_acquire(g); } Lock(g); if (__real___cxa_guard_acquire(g)) { return 1; } Unlock(g); return 0; }
	void __wrap___cxa_guard_release(std::uint64_t* g) { __real___cxa_guard_release(g); if (me) { Unlock(g); } }
	void __wrap___cxa_guard_abort(std::uint64_t* g) { __real___cxa_guard_abort(g); if (me) { Unlock(g); } }

	// --- OpenMP ----------------------------------------------------------------------------------
	void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { Region(fn, data, n, SITE); }
	void GOMP_barrier() { Barrier(); }
	static char critical, atomics;
	void GOMP_critical_start() { Lock(&critical); }
	void GOMP_critical_end() { Unlock(&critical); }
	void GOMP_critical_name_start(void** p) { Lock(p); }
	void GOMP_critical_name_end(void** p) { Unlock(p); }
	void GOMP_atomic_start() { Lock(&atomics); }
	void GOMP_atomic_end() { Unlock(&atomics); }
	bool GOMP_single_start() { if (Alone()) { return true; } me->ws++; auto& l = Construct(); const bool f = !l.single; l.single = true; return f; }
	void GOMP_loop_end() { Barrier(); }
	void GOMP_loop_end_nowait() {}
#define LOOPC(k) \
	bool GOMP_loop_##k##_start(long s, long e, long i, long, long* a, long* b) { long long x, y; if (!LoopStart(s, e, i, &x, &y)) { return false; } *a = x; *b = y; return true; } \
	bool GOMP_loop_##k##_next(long* a, long* b) { long long x, y; if (!LoopNext(&x, &y)) { return false; } *a = x; *b = y; return true; } \
	bool GOMP_loop_ull_##k##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long, unsigned long long* a, unsigned long long* b) \
	{ long long x, y; if (!LoopStart(s, e, i, &x, &y)) { return false; } *a = x; *b = y; return true; } \
	bool GOMP_loop_ull_##k##_next(unsigned long long* a, unsigned long long* b) { long long x, y; if (!LoopNext(&x, &y)) { return false; } *a = x; *b = y; return true; } \
	void GOMP_parallel_loop_##k(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long, unsigned) { ParLoop l{fn, data, s, e, i}; Region(ParLoopBody, &l, n, SITE); }
#define LOOPR(k) \
	bool GOMP_loop_##k##_start(long s, long e, long i, long* a, long* b) { long long x, y; if (!LoopStart(s, e, i, &x, &y)) { return false; } *a = x; *b = y; return true; } \
	bool GOMP_loop_##k##_next(long* a, long* b) { long long x, y; if (!LoopNext(&x, &y)) { return false; } *a = x; *b = y; return true; } \
	bool GOMP_loop_ull_##k##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) \
	{ long long x, y; if (!LoopStart(s, e, i, &x, &y)) { return false; } *a = x; *b = y; return true; } \
	bool GOMP_loop_ull_##k##_next(unsigned long long* a, unsigned long long* b) { long long x, y; if (!LoopNext(&x, &y)) { return false; } *a = x; *b = y; return true; } \
	void GOMP_parallel_loop_##k(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) { ParLoop l{fn, data, s, e, i}; Region(ParLoopBody, &l, n, SITE); }
	LOOPC(static) LOOPC(dynamic) LOOPC(guided) LOOPC(nonmonotonic_dynamic) LOOPC(nonmonotonic_guided)
	LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)

	int omp_get_thread_num() { return Alone() ? 0 : me->tid; }
	int omp_get_num_threads() { return Alone() ? 1 : static_cast<int>(team.size()); }
	int omp_get_max_threads() { return me ? 1 : teamSize; }
	int omp_get_num_procs() { return teamSize; }
	int omp_get_thread_limit() { return 1 << 20; }
	int omp_in_parallel() { return me != nullptr; }
	int omp_get_level() { return me == nullptr ? 0 : 1 + me->nested; }
	int omp_get_dynamic() { return 0; }
	void omp_set_dynamic(int) {}
	void omp_set_nested(int) {}
	void omp_set_num_threads(int) {} // the teams are as large as Schedule says
	double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }
	void omp_init_lock(void*) {}
	void omp_destroy_lock(void*) {}
	void omp_set_lock(void* p) { Lock(p); }
	void omp_unset_lock(void* p) { Unlock(p); }
	int omp_test_lock(void* p) { return TryLock(p); }
}
