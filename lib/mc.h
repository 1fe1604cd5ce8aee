// Bounded-exhaustive explorer for the real code under /repo.
//
// A scenario is a function void(mc::Ctx&) that asks c.choose(n) whenever the explored space branches. The
// explorer re-executes the scenario once for every possible sequence of answers (depth first, with full
// backtracking), so a scenario whose choices are bounded is explored exhaustively. Each execution drives the
// real code together with a reference model and compares them after every operation.
//
// Exploration is split into tasks (scenario x shard of the choice tree) executed by forked workers. The choice
// tape of the running execution is kept in shared memory, so a crash, an AddressSanitizer report or a hang is
// reported with the exact choices that lead to it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <Basic.h>

namespace mc
{
	struct Failure { };
	struct Skip { };

	// records the first problem; usable from destructors and callbacks where throwing is not possible
	void flag(const char* format, ...) __attribute__((format(printf, 1, 2)));
	bool flagged();
	[[noreturn]] void fail(const char* format, ...) __attribute__((format(printf, 1, 2)));

	// reports a failure identified by `key` without ending the execution. The driver compares the key with the
	// committed list of known findings: a key that is not listed there is a violation.
	void finding(const char* key, const char* format, ...) __attribute__((format(printf, 2, 3)));

	struct Ctx
	{
		bool thorough = false;
		bool logging = false;

		// branch point: every value in [0, n) is explored
		int choose(int n);
		// a value in [lo, hi] inclusive
		int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
		bool flip() { return choose(2) == 1; }
		template<typename T> T pick(std::initializer_list<T> xs) { return xs.begin()[choose((int)xs.size())]; }
		int bound(int quick, int deep) const { return thorough ? deep : quick; }

		void step(uint64_t n = 1);                       // operations executed on the real code
		void state(uint64_t hash);                       // a state of the system (counted once per distinct hash)
		// true when this state has not been expanded with at least `budget` remaining steps in this task
		bool visit(uint64_t hash, int budget);
		void log(const char* format, ...) __attribute__((format(printf, 2, 3)));
	};

	typedef void(*ScenarioFn)(Ctx&);

	struct Register
	{
		// shards: how many tasks the scenario is split into; shardDepth: how many leading choices decide the shard
		Register(const char* name, ScenarioFn fn, int shards = 16, int shardDepth = 2);
	};

	inline uint64_t mix(uint64_t h, uint64_t v)
	{
		h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
		h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
		return h;
	}
	inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
	{
		auto b = (const unsigned char*)p;
		for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
		return mix(h, n);
	}
	template<typename C> uint64_t hashSeq(const C& c, uint64_t h = 7)
	{
		for (auto& x : c) h = mix(h, (uint64_t)x);
		return mix(h, c.size());
	}
	inline uint64_t hashStr(const char* s) { return hashBytes(s, strlen(s)); }

	int run(int argc, char** argv);

	// memory blocks currently allocated (AddressSanitizer builds), for storage-release checks
	long liveBlocks();
	// while positive, allocations are not attributed to the code under test
	struct Untracked { Untracked(); ~Untracked(); };
	// for runtimes that replace the allocator (lib/mcsched.cpp)
	void trackBlock(long n);
	bool isUntracked();
	void countStep();
	extern void(*executionStart)();
	extern void(*executionEnd)();
	// scenario-wide switch: set to false when an execution legitimately leaves allocations behind
	void expectNoLeak(bool on);

	// sizes next to powers of two (and their middles) and of ten, where capacities and halving change
	inline int bigSize(Ctx& c, int lo, int top)
	{
		std::vector<int> r;
		auto put = [&](long x) { for (long d = -1; d <= 1; d++) if (x + d >= lo && x + d <= top) { bool seen = false; for (int y : r) if (y == x + d) seen = true; if (!seen) r.push_back((int)(x + d)); } };
		for (long k = 1; k <= top; k *= 2) { put(k); put(k + k / 2); }
		for (long k = 10; k <= top; k *= 10) put(k);
		return r[c.choose((int)r.size())];
	}

	// ---- element type with tracked lifetime -------------------------------------------------------------
	struct Registry
	{
		static void add(const void* p, const char* what);
		static void remove(const void* p, const char* what);
		static bool alive(const void* p);
		static void use(const void* p, const char* what);
		static long live();
		static void reset();
	};

	// a value whose every instance is tracked: double construction, double destruction, use of a dead instance
	// and leaked instances are all reported
	struct Tracked
	{
		int v;
		static constexpr int Moved = -777;
		static constexpr int Default = -1;
		Tracked() :v(Default) { Registry::add(this, "default construction"); }
		Tracked(int _v) :v(_v) { Registry::add(this, "construction"); }
		Tracked(const Tracked& t) :v(t.v) { Registry::use(&t, "copy construction from"); Registry::add(this, "copy construction"); }
		Tracked(Tracked&& t) :v(t.v) { Registry::use(&t, "move construction from"); Registry::add(this, "move construction"); t.v = Moved; }
		~Tracked() { Registry::remove(this, "destruction"); v = -666; }
		Tracked& operator=(const Tracked& t) { Registry::use(this, "assignment to"); Registry::use(&t, "copy assignment from"); v = t.v; return *this; }
		Tracked& operator=(Tracked&& t) { Registry::use(this, "assignment to"); Registry::use(&t, "move assignment from"); if (this != &t) { v = t.v; t.v = Moved; } return *this; }
		auto operator<=>(const Tracked& t)const { Registry::use(this, "comparison of"); Registry::use(&t, "comparison of"); return v <=> t.v; }
		bool operator==(const Tracked& t)const { Registry::use(this, "comparison of"); Registry::use(&t, "comparison of"); return v == t.v; }
		explicit operator int()const { Registry::use(this, "reading"); return v; }
	};
}

#define MC_CHECK(COND, ...) do { if (!(COND)) ::mc::fail(__VA_ARGS__); } while (0)
// Types that cannot be copied or assigned. When the harness does not compile with them (the code under test now copies or
// assigns where it did not), it is compiled again with MC_PLAIN_COPY or MC_PLAIN_ASSIGN: the operation exists then, and
// performing it is the violation.
#ifdef MC_PLAIN_COPY
#define MC_NO_COPY { ::mc::fail("a value that can only be moved was copied"); }
#define MC_NO_COPY_ASSIGN { ::mc::fail("a value that can only be moved was assigned by copying"); return *this; }
#else
#define MC_NO_COPY = delete;
#define MC_NO_COPY_ASSIGN = delete;
#endif
#ifdef MC_PLAIN_ASSIGN
#define MC_NO_ASSIGN { ::mc::fail("a value that cannot be assigned was assigned"); return *this; }
#else
#define MC_NO_ASSIGN = delete;
#endif
#define MC_CONCAT2(a, b) a##b
#define MC_CONCAT(a, b) MC_CONCAT2(a, b)
#define MC_SCENARIO(NAME, ...) \
	static void MC_CONCAT(mc_scn_, NAME)(::mc::Ctx& c); \
	static ::mc::Register MC_CONCAT(mc_reg_, NAME)(#NAME, &MC_CONCAT(mc_scn_, NAME), ##__VA_ARGS__); \
	static void MC_CONCAT(mc_scn_, NAME)([[maybe_unused]] ::mc::Ctx& c)
