#include "mcsched.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <pthread.h>
#include <new>
#include <map>

#include <unistd.h>
extern "C" char _end;

// this file and mc.cpp are not instrumented
namespace sched
{
	using mc::Ctx;
	static const int MaxThreads = 6; // thread 0 is the scenario
	typedef uint32_t Clock[MaxThreads];
	struct VC { Clock c{}; void join(const VC& o) { for (int i = 0; i < MaxThreads; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

	// ---- shadow of the memory -------------------------------------------------------------------------------
	struct Access { uint8_t tid, mask, write, atomic; uint32_t clock; };
	struct Cell { uintptr_t key; uint32_t generation; uint8_t freed; uint8_t count; Access a[10]; };
	static const size_t CellCount = 1 << 15; static Cell* cells; static uint32_t generation; static size_t cellsUsed;
	struct AtomicLoc { uintptr_t key; uint32_t generation; VC vc; };
	static const size_t LocCount = 1 << 10; static AtomicLoc* locs;

	// ---- arena ----------------------------------------------------------------------------------------------
	static const size_t ArenaSize = 8 << 20; static char* arena; static size_t arenaUsed; static bool active; // active: inside an execution
	struct Block { uint64_t size; uint32_t magic; uint32_t state; };
	static const uint32_t Magic = 0xB10CB10C;

	// ---- threads --------------------------------------------------------------------------------------------
	struct Thread
	{
		ucontext_t ctx; char* stack = nullptr; bool used = false, done = true; const void* waiting = nullptr;
		VC vc, acquireFence, releaseFence; std::function<void()>* body = nullptr; uint32_t position = 0;
	};
	static const size_t StackSize = 256 << 10;
	static Thread* T; static int cur; static int threads; static Ctx* ctx; static int preemptionsLeft; static bool running; static uint64_t stateSeed;
	static bool aborted; static bool skipped; static int inRuntime;
	static const char* knownKey;
	int self() { return cur; }
	void known(const char* key) { knownKey = key; }

	struct Enter { Enter() { inRuntime++; } ~Enter() { inRuntime--; } };

	static void setup()
	{
		if (cells) return;
		cells = (Cell*)mmap(nullptr, sizeof(Cell) * CellCount, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		locs = (AtomicLoc*)mmap(nullptr, sizeof(AtomicLoc) * LocCount, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		arena = (char*)mmap(nullptr, ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		T = new Thread[MaxThreads];
		for (int i = 1; i < MaxThreads; i++) T[i].stack = (char*)mmap(nullptr, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	}
	static void executionStart()
	{
		setup();
		generation++; cellsUsed = 0; arenaUsed = 0; cur = 0; threads = 1; running = false; aborted = skipped = false; inRuntime = 0; knownKey = nullptr;
		for (int i = 0; i < MaxThreads; i++) { T[i].vc = VC(); T[i].vc.c[i] = 1; T[i].acquireFence = T[i].releaseFence = VC(); T[i].done = true; T[i].waiting = nullptr; T[i].position = 0; }
		active = true;
	}
	static void executionEnd() { active = false; }
	static struct Install { Install() { mc::executionStart = &executionStart; mc::executionEnd = &executionEnd; } } install;

	[[noreturn]] static void leaveThread();
	// ends the thread; in the creating thread only notes the problem (this may be inside a destructor)
	static void report(const char* format, ...)
	{
		char b[600]; va_list ap; va_start(ap, format); vsnprintf(b, sizeof b, format, ap); va_end(ap);
		if (knownKey && cur != 0) { mc::finding(knownKey, "%s", b); skipped = aborted = true; leaveThread(); }
		mc::flag("%s", b);
		if (cur != 0) { aborted = true; leaveThread(); }
	}
	static const char* nameOf(int t) { static char b[4][24]; static int k; k = (k + 1) & 3; if (t == 0) return "the creating thread"; snprintf(b[k], sizeof b[k], "thread %d", t); return b[k]; }

	static const char* whereIs(uintptr_t a)
	{
		static char b[80];
		if (a >= (uintptr_t)arena && a < (uintptr_t)arena + ArenaSize) { snprintf(b, sizeof b, "allocated storage"); return b; }
		for (int i = 1; i < MaxThreads; i++) if (a >= (uintptr_t)T[i].stack && a < (uintptr_t)T[i].stack + StackSize) { snprintf(b, sizeof b, "a local variable of thread %d", i); return b; }
		snprintf(b, sizeof b, "static storage or a local variable of the creating thread, at %#lx", (unsigned long)a); return b;
	}
	static Cell* cell(uintptr_t key, bool create)
	{
		for (size_t i = (key * 0x9e3779b97f4a7c15ull) >> 49, n = 0; n < CellCount; i = (i + 1) & (CellCount - 1), n++)
		{
			Cell& c = cells[i];
			if (c.generation != generation)
			{
				if (!create) return nullptr;
				if (++cellsUsed > CellCount * 3 / 4) { fprintf(stderr, "sched: shadow full\n"); abort(); }
				c.key = key; c.generation = generation; c.freed = 0; c.count = 0; return &c;
			}
			if (c.key == key) return &c;
		}
		abort();
	}
	// blocks of the C library (exception objects, streams): not handed out by operator new, reused without our knowledge
	static bool foreign(uintptr_t a) { return a >= (uintptr_t)&_end && a < (uintptr_t)sbrk(0); }
	static bool ownStack(uintptr_t a)
	{
		if (cur == 0) return !(a >= (uintptr_t)arena && a < (uintptr_t)arena + ArenaSize) && threads == 1;
		uintptr_t s = (uintptr_t)T[cur].stack; return a >= s && a < s + StackSize;
	}
	static void touch(uintptr_t addr, size_t size, bool write, bool atomic)
	{
		if (!active || inRuntime || aborted) return;
		if (ownStack(addr) || (!(addr >= (uintptr_t)arena && addr < (uintptr_t)arena + ArenaSize) && foreign(addr))) return;
		Enter e;
		Thread& t = T[cur];
		uintptr_t end = addr + size;
		for (uintptr_t g = addr >> 3; g <= (end - 1) >> 3; g++)
		{
			int lo = (int)((g << 3) < addr ? addr - (g << 3) : 0), hi = (int)(((g + 1) << 3) > end ? end - (g << 3) : 8);
			uint8_t mask = (uint8_t)(((1 << hi) - 1) & ~((1 << lo) - 1));
			Cell* c = cell(g, true);
			if (c->freed & mask) report("%s %s memory that was already released by %s", nameOf(cur), write ? "writes" : "reads", nameOf(c->a[0].tid));
			int keep = 0;
			for (int i = 0; i < c->count; i++)
			{
				Access& a = c->a[i];
				if ((a.mask & mask) && a.tid != cur && (a.write || write) && !(a.atomic && atomic) && a.clock > t.vc.c[a.tid])
					report("race: %s %s memory that %s %s at the same time (%s)", nameOf(cur), write ? "writes" : "reads", nameOf(a.tid), a.write ? "writes" : "reads", whereIs(addr));
				bool replaced = a.tid == cur && (a.mask & ~mask) == 0 && (write || !a.write) && (!atomic || a.atomic);
				if (!replaced) c->a[keep++] = a;
			}
			c->count = keep;
			if (c->count == 10) { for (int i = 1; i < 10; i++) c->a[i - 1] = c->a[i]; c->count = 9; }
			c->a[c->count++] = { (uint8_t)cur, mask, (uint8_t)write, (uint8_t)atomic, t.vc.c[cur] };
		}
	}

	// ---- allocation -----------------------------------------------------------------------------------------
	static void* allocate(size_t n, size_t align)
	{
		if (!active || inRuntime || mc::isUntracked()) { void* p = nullptr; if (align > 16) { if (posix_memalign(&p, align, n ? n : 1)) abort(); } else p = malloc(n ? n : 1); if (!p) abort(); return p; }
		size_t a = align < 16 ? 16 : align; size_t at = (arenaUsed + sizeof(Block) + a - 1) / a * a;
		if (at + n + 64 > ArenaSize) { report("the execution keeps allocating memory"); throw std::bad_alloc(); }
		Block* b = (Block*)(arena + at - sizeof(Block)); b->size = n; b->magic = Magic; b->state = 1; arenaUsed = at + n + 16; // a gap between blocks
		memset(arena + at, 0xCD, n); memset(arena + at + n, 0xAB, 16);
		mc::trackBlock(1);
		return arena + at;
	}
	static void release(void* p)
	{
		if (!p) return;
		if (!((char*)p >= arena && (char*)p < arena + ArenaSize)) { if (!arena || !active || inRuntime || mc::isUntracked()) { free(p); return; } free(p); return; }
		if (!active || aborted) return;
		Block* b = (Block*)((char*)p - sizeof(Block));
		if (b->magic != Magic) { report("%s releases memory that was never allocated", nameOf(cur)); return; }
		if (b->state != 1) { report("%s releases memory that was already released", nameOf(cur)); return; }
		for (int i = 0; i < 16; i++) if ((unsigned char)((char*)p)[b->size + i] != 0xAB) report("memory behind a block was written");
		if (b->size) touch((uintptr_t)p, b->size, true, false);
		b->state = 2; mc::trackBlock(-1);
		if (inRuntime) return;
		Enter e; uintptr_t addr = (uintptr_t)p, end = addr + (b->size ? b->size : 1);
		for (uintptr_t g = addr >> 3; g <= (end - 1) >> 3; g++)
		{
			int hi = (int)(((g + 1) << 3) > end ? end - (g << 3) : 8); Cell* c = cell(g, true);
			c->freed |= (uint8_t)((1 << hi) - 1); c->count = 1; c->a[0] = { (uint8_t)cur, 0xFF, 1, 0, T[cur].vc.c[cur] };
		}
		memset(p, 0xDD, b->size);
	}

	// ---- scheduling -----------------------------------------------------------------------------------------
	static void switchTo(int next)
	{
		int from = cur; cur = next; int depth = inRuntime; inRuntime = 0;
		swapcontext(&T[from].ctx, &T[next].ctx);
		inRuntime = depth;
	}
	static void leaveThread()
	{
		T[cur].done = true; inRuntime = 0;
		cur = 0; setcontext(&T[0].ctx); abort();
	}
	static bool enabled(int i) { return !T[i].done && !T[i].waiting; }
	// a visible operation is about to happen: decide who goes on
	static void point()
	{
		if (!running || cur == 0 || inRuntime || aborted) return;
		Enter e;
		int options[MaxThreads], n = 0; options[n++] = cur;
		if (preemptionsLeft != 0) for (int i = 1; i < threads; i++) if (i != cur && enabled(i)) options[n++] = i;
		uint64_t h = stateSeed; for (int i = 1; i < threads; i++) h = mc::mix(h, T[i].position * 4 + (T[i].done ? 1 : 0) + (T[i].waiting ? 2 : 0));
		ctx->state(mc::mix(h, cur));
		int k = 0;
		if (n > 1) { try { k = ctx->choose(n); } catch (const mc::Skip&) { skipped = aborted = true; leaveThread(); } catch (const mc::Failure&) { aborted = true; leaveThread(); } }
		T[cur].position++;
		if (k) { if (preemptionsLeft > 0) preemptionsLeft--; ctx->log("  switch to thread %d", options[k]); T[cur].position--; switchTo(options[k]); T[cur].position++; }
	}
	static void body(int i)
	{
		try { (*T[i].body)(); }
		catch (const mc::Failure&) { aborted = true; }
		catch (const mc::Skip&) { skipped = aborted = true; }
		catch (const vl::Error& e) { std::string s; for (auto w = e.Description(); w && *w; w++) s += (char)*w; mc::flag("thread %d: unexpected error raised: %s", i, s.c_str()); aborted = true; }
		catch (...) { mc::flag("thread %d: unexpected exception", i); aborted = true; }
		leaveThread();
	}
	// picks another enabled thread when the current one cannot go on; runs in the creating thread
	void run(Ctx& c, std::vector<std::function<void()>> bodies, int preemptions, uint64_t seed)
	{
		ctx = &c; preemptionsLeft = preemptions; stateSeed = seed; threads = 1 + (int)bodies.size(); if (threads > MaxThreads) abort();
		for (int i = 1; i < threads; i++)
		{
			Thread& t = T[i]; t.done = false; t.waiting = nullptr; t.body = &bodies[i - 1]; t.position = 0; t.vc.join(T[0].vc);
			getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = StackSize; t.ctx.uc_link = nullptr;
			makecontext(&t.ctx, (void(*)())&body, 1, i);
		}
		T[0].vc.c[0]++; running = true;
		for (;;)
		{
			int options[MaxThreads], n = 0; for (int i = 1; i < threads; i++) if (enabled(i)) options[n++] = i;
			if (n == 0) break;
			int k = n > 1 ? c.choose(n) : 0; c.log("  run thread %d", options[k]);
			switchTo(options[k]);
			if (aborted) break;
		}
		running = false;
		if (skipped) throw mc::Skip();
		if (aborted) { aborted = false; active = false; throw mc::Failure(); }
		for (int i = 1; i < threads; i++) { if (!T[i].done) { active = false; mc::fail("deadlock: thread %d waits for ever", i); } T[0].vc.join(T[i].vc); }
		T[0].vc.c[0]++; threads = 1;
	}
	static void block(const void* what) // the current thread waits
	{
		T[cur].waiting = what; Enter e; T[cur].ctx.uc_link = nullptr;
		int from = cur; cur = 0; int depth = inRuntime; inRuntime = 0; swapcontext(&T[from].ctx, &T[0].ctx); inRuntime = depth;
	}
	static void wake(const void* what) { for (int i = 1; i < threads; i++) if (T[i].waiting == what) T[i].waiting = nullptr; }

	// ---- atomics --------------------------------------------------------------------------------------------
	static VC& loc(uintptr_t key)
	{
		for (size_t i = (key * 0x9e3779b97f4a7c15ull) >> 54, n = 0; n < LocCount; i = (i + 1) & (LocCount - 1), n++)
		{
			AtomicLoc& l = locs[i]; if (l.generation != generation) { l.key = key; l.generation = generation; l.vc = VC(); return l.vc; }
			if (l.key == key) return l.vc;
		}
		abort();
	}
	static bool isAcquire(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static bool isRelease(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	enum Kind { Load, Store, Rmw };
	static void before(const volatile void* a, size_t n, Kind k)
	{
		if (!active || inRuntime) return;
		point();
		touch((uintptr_t)a, n, k != Load, true);
	}
	static void after(const volatile void* a, Kind k, int mo)
	{
		if (!active || inRuntime || aborted) return;
		Enter e; Thread& t = T[cur]; VC& l = loc((uintptr_t)a);
		if (k != Store) { if (isAcquire(mo)) t.vc.join(l); else t.acquireFence.join(l); }
		if (k == Store) { l = t.releaseFence; if (isRelease(mo)) l.join(t.vc); }
		if (k == Rmw) { l.join(t.releaseFence); if (isRelease(mo)) l.join(t.vc); }
		if (k != Load) t.vc.c[cur]++;
		ctx && ctx->logging ? ctx->log("    thread %d: atomic %s", cur, k == Load ? "load" : k == Store ? "store" : "read-modify-write") : void();
		if (ctx && running) mc::countStep();
	}
	static void fence(int mo)
	{
		if (!active || inRuntime) return;
		Thread& t = T[cur]; if (isAcquire(mo)) t.vc.join(t.acquireFence); if (isRelease(mo)) { t.releaseFence = t.vc; t.vc.c[cur]++; }
	}
	static void syncAcquire(const void* a) { Enter e; T[cur].vc.join(loc((uintptr_t)a)); }
	static void syncRelease(const void* a) { Enter e; loc((uintptr_t)a).join(T[cur].vc); T[cur].vc.c[cur]++; }
}
using namespace sched;

void* operator new(size_t n) { return allocate(n, 16); }
void* operator new[](size_t n) { return allocate(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return allocate(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return allocate(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, 16); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }

extern "C"
{
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N(void* a) { touch((uintptr_t)a, N, false, false); } \
	void __tsan_write##N(void* a) { touch((uintptr_t)a, N, true, false); } \
	void __tsan_unaligned_read##N(void* a) { touch((uintptr_t)a, N, false, false); } \
	void __tsan_unaligned_write##N(void* a) { touch((uintptr_t)a, N, true, false); } \
	void __tsan_volatile_read##N(void* a) { touch((uintptr_t)a, N, false, false); } \
	void __tsan_volatile_write##N(void* a) { touch((uintptr_t)a, N, true, false); } \
	void __tsan_read##N##_pc(void* a, void*) { touch((uintptr_t)a, N, false, false); } \
	void __tsan_write##N##_pc(void* a, void*) { touch((uintptr_t)a, N, true, false); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void* a, size_t n) { if (n) touch((uintptr_t)a, n, false, false); }
	void __tsan_write_range(void* a, size_t n) { if (n) touch((uintptr_t)a, n, true, false); }
	void __tsan_vptr_update(void** a, void* v) { if (*a != v) touch((uintptr_t)a, 8, true, false); }
	void __tsan_vptr_read(void** a) { touch((uintptr_t)a, 8, false, false); }
	void __tsan_atomic_thread_fence(int mo) { fence(mo); }
	void __tsan_atomic_signal_fence(int) {}
#define AT(N, TY) \
	TY __tsan_atomic##N##_load(const volatile TY* a, int mo) { before(a, N / 8, Load); TY r = *a; after(a, Load, mo); return r; } \
	void __tsan_atomic##N##_store(volatile TY* a, TY v, int mo) { before(a, N / 8, Store); *a = v; after(a, Store, mo); } \
	TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int mo) { before(a, N / 8, Rmw); TY r = *a; *a = v; after(a, Rmw, mo); return r; } \
	TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int mo) { before(a, N / 8, Rmw); TY r = *a; *a = r + v; after(a, Rmw, mo); return r; } \
	TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int mo) { before(a, N / 8, Rmw); TY r = *a; *a = r - v; after(a, Rmw, mo); return r; } \
	TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int mo) { before(a, N / 8, Rmw); TY r = *a; *a = r & v; after(a, Rmw, mo); return r; } \
	TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int mo) { before(a, N / 8, Rmw); TY r = *a; *a = r | v; after(a, Rmw, mo); return r; } \
	TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int mo) { before(a, N / 8, Rmw); TY r = *a; *a = r ^ v; after(a, Rmw, mo); return r; } \
	TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int mo) { before(a, N / 8, Rmw); TY r = *a; *a = ~(r & v); after(a, Rmw, mo); return r; } \
	bool __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* e, TY v, int mo, int fmo) { before(a, N / 8, Rmw); if (*a == *e) { *a = v; after(a, Rmw, mo); return true; } *e = *a; after(a, Load, fmo); return false; } \
	bool __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* e, TY v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo); } \
	TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY e, TY v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
	AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

	// ---- locks and one-time initialisation, so that code using them is scheduled too -------------------------------
	int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
	static std::map<void*, int>& owners() { static auto m = new std::map<void*, int>; return *m; }
	int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
	{
		if (!active || inRuntime || !running || cur == 0) return __real_pthread_mutex_lock(m);
		point(); for (;;) { { Enter e; mc::Untracked u; if (owners().insert({ m, cur }).second) break; } block(m); }
		syncAcquire(m); return 0;
	}
	int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
	{
		if (!active || inRuntime || !running || cur == 0) return __real_pthread_mutex_trylock(m);
		point(); { Enter e; mc::Untracked u; if (!owners().insert({ m, cur }).second) return EBUSY; } syncAcquire(m); return 0;
	}
	int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
	{
		if (!active || inRuntime || !running || cur == 0) return __real_pthread_mutex_unlock(m);
		syncRelease(m); { Enter e; mc::Untracked u; owners().erase(m); } wake(m); return 0;
	}
	// a guard: byte 0 says initialised, byte 1 says in progress
	int __wrap___cxa_guard_acquire(char* g)
	{
		if (g[0]) { if (active && !inRuntime) syncAcquire(g); return 0; }
		while (g[1]) { if (cur == 0 || !running) abort(); block(g); }
		if (g[0]) { if (active && !inRuntime) syncAcquire(g); return 0; }
		g[1] = 1; return 1;
	}
	void __wrap___cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; if (active && !inRuntime) syncRelease(g); wake(g); }
	void __wrap___cxa_guard_abort(char* g) { g[1] = 0; wake(g); }

	// ---- memory functions are accesses too --------------------------------------------------------------------------
	void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
	void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { touch((uintptr_t)s, n, false, false); touch((uintptr_t)d, n, true, false); } return __real_memcpy(d, s, n); }
	void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { touch((uintptr_t)s, n, false, false); touch((uintptr_t)d, n, true, false); } return __real_memmove(d, s, n); }
	void* __wrap_memset(void* d, int v, size_t n) { if (n) touch((uintptr_t)d, n, true, false); return __real_memset(d, v, n); }
	int __wrap_memcmp(const void* a, const void* b, size_t n) { if (n) { touch((uintptr_t)a, n, false, false); touch((uintptr_t)b, n, false, false); } return __real_memcmp(a, b, n); }
}
