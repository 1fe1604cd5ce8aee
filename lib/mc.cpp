#include "mc.h"
#include <atomic>
#include <algorithm>
#include <map>
#include <unordered_map>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" const char* __asan_default_options()
{
	return "exitcode=77:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=4:"
		"malloc_context_size=12:handle_abort=1:detect_stack_use_after_return=0:thread_local_quarantine_size_kb=64:"
		"max_malloc_fill_size=512:print_legend=0:symbolize=1:max_allocation_size_mb=1024";
}
#endif

namespace mc
{
	static const int MaxTape = 1 << 14;
	static const int MaxWorkers = 64;
	static const int MaxMsg = 2000;

	struct Scenario { const char* name; ScenarioFn fn; int shards; int shardDepth; };
	static std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
	Register::Register(const char* name, ScenarioFn fn, int shards, int shardDepth) { scenarios().push_back({ name, fn, shards, shardDepth }); }

	struct WorkerShared
	{
		volatile int scenario;
		volatile int tapeLen;
		uint16_t tape[MaxTape];
		volatile int failed;       // 1 failure found, 2 hang, 3 memory, 4 nondeterminism
		char msg[MaxMsg];
	};
	static const int MaxScenarios = 256;
	struct Shared
	{
		std::atomic<int> nextTask;
		std::atomic<int> stop;
		std::atomic<int> truncated;
		std::atomic<uint64_t> executions, transitions, states, stateLookups;
		std::atomic<uint64_t> scnExec[MaxScenarios], scnStates[MaxScenarios], scnSteps[MaxScenarios];
		uint16_t sampleTape[MaxScenarios][512];
		volatile int sampleLen[MaxScenarios];
		struct { std::atomic<int> used; char key[64]; char msg[400]; int scenario; int tapeLen; uint16_t tape[512]; } findings[16];
		WorkerShared w[MaxWorkers];
	};
	static Shared* sh;
	static std::atomic<uint64_t>* stateTable;
	static uint64_t stateMask;

	// ---- current execution ----
	struct Choice { uint16_t v; uint16_t n; };
	static std::vector<Choice> path;
	static size_t pos;
	static WorkerShared* me;
	static WorkerShared replayShared;
	static bool g_flagged;
	static char g_msg[MaxMsg];
	static int shardIndex, shardCount, shardDepth;
	static uint64_t shardHash;
	static bool shardChecked;
	static uint64_t curSteps;
	static int curScenario;
	static std::unordered_map<uint64_t, int>* visited;
	static volatile uint64_t execCounter;
	static FILE* logFile;
	static int untracked;
	static bool leakExpected;

	static std::atomic<long> live{ 0 };
#if defined(__SANITIZE_ADDRESS__)
	static void mallocHook(const volatile void* p, size_t) { if (p && !untracked) live.fetch_add(1, std::memory_order_relaxed); }
	static void freeHook(const volatile void* p) { if (p && !untracked) live.fetch_sub(1, std::memory_order_relaxed); }
#endif
	long liveBlocks() { return live.load(); }
	Untracked::Untracked() { untracked++; }
	Untracked::~Untracked() { untracked--; }
	void trackBlock(long n) { if (!untracked) live.fetch_add(n, std::memory_order_relaxed); }
	bool isUntracked() { return untracked > 0; }
	void countStep() { curSteps++; }
	void(*executionStart)() = nullptr;
	void(*executionEnd)() = nullptr;
	void expectNoLeak(bool on) { leakExpected = !on; }

	void flag(const char* format, ...)
	{
		if (g_flagged) return;
		va_list ap; va_start(ap, format);
		vsnprintf(g_msg, sizeof g_msg, format, ap);
		va_end(ap);
		g_flagged = true;
	}
	bool flagged() { return g_flagged; }
	void finding(const char* key, const char* format, ...)
	{
		if (!sh) return;
		for (auto& f : sh->findings)
		{
			if (f.used.load() == 2) { if (!strcmp(f.key, key)) return; continue; }
			int e = 0;
			if (f.used.compare_exchange_strong(e, 1))
			{
				snprintf(f.key, sizeof f.key, "%s", key);
				va_list ap; va_start(ap, format); vsnprintf(f.msg, sizeof f.msg, format, ap); va_end(ap);
				f.scenario = curScenario; f.tapeLen = 0;
				for (size_t i = 0; i < pos && i < path.size() && i < 512; i++) f.tape[f.tapeLen++] = path[i].v;
				f.used = 2;
				return;
			}
		}
	}
	void fail(const char* format, ...)
	{
		if (!g_flagged)
		{
			va_list ap; va_start(ap, format);
			vsnprintf(g_msg, sizeof g_msg, format, ap);
			va_end(ap);
			g_flagged = true;
		}
		throw Failure();
	}

	int Ctx::choose(int n)
	{
		if (n <= 0) fail("harness: choose(%d)", n);
		if (pos < path.size())
		{
			if (path[pos].n != n)
			{
				if (path[pos].n == 0) { path[pos].n = (uint16_t)n; if (path[pos].v >= n) fail("harness: replay tape does not fit"); }
				else { me->failed = 4; fail("harness: nondeterministic branching at choice %zu: %d alternatives, %d before", pos, n, path[pos].n); }
			}
		}
		else
		{
			Untracked u;
			path.push_back({ 0, (uint16_t)n });
		}
		int v = path[pos].v;
		if (pos < (size_t)MaxTape) { me->tape[pos] = (uint16_t)v; me->tapeLen = (int)pos + 1; }
		pos++;
		if (!shardChecked && shardCount > 1)
		{
			shardHash = mix(shardHash, (uint64_t)v + 1);
			if (pos >= (size_t)shardDepth)
			{
				shardChecked = true;
				if ((int)(shardHash % (uint64_t)shardCount) != shardIndex) throw Skip();
			}
		}
		return v;
	}

	void Ctx::step(uint64_t n) { curSteps += n; if (g_flagged) throw Failure(); }

	void Ctx::state(uint64_t h)
	{
		if (!stateTable) return;
		h = mix(h, (uint64_t)curScenario + 1); if (h == 0) h = 1;
		uint64_t i = h & stateMask;
		for (int probe = 0; probe < 64; probe++)
		{
			uint64_t cur = stateTable[i].load(std::memory_order_relaxed);
			if (cur == h) return;
			if (cur == 0)
			{
				if (stateTable[i].compare_exchange_strong(cur, h)) { sh->states++; sh->scnStates[curScenario]++; return; }
				if (cur == h) return;
			}
			i = (i + 1) & stateMask;
		}
	}

	bool Ctx::visit(uint64_t h, int budget)
	{
		state(h);
		if (!visited || pos < path.size()) return true; // no pruning, or this point was already being expanded
		Untracked u;
		auto r = visited->emplace(h, budget);
		if (r.second) return true;
		if (r.first->second < budget) { r.first->second = budget; return true; }
		return false;
	}

	void Ctx::log(const char* format, ...)
	{
		if (!logging || !logFile) return;
		Untracked u;
		va_list ap; va_start(ap, format);
		vfprintf(logFile, format, ap);
		va_end(ap);
		fputc('\n', logFile);
		fflush(logFile);
	}

	// ---- registry of tracked objects ----
	static const size_t RegFirst = 1 << 13;
	static const void* regFirst[RegFirst];
	static const void** regTable = regFirst; // grows when an execution needs more, and is the first one again after it
	static size_t RegSize = RegFirst;
	static long regLive;
	static size_t regHash(const void* p) { return (size_t)(((uintptr_t)p * 0x9e3779b97f4a7c15ull) >> 38) & (RegSize - 1); }
	static const void* const Tomb = (const void*)1;
	static size_t regTombs;
	static void regRehash()
	{
		Untracked u;
		std::vector<const void*> all;
		for (size_t i = 0; i < RegSize; i++) { auto& p = regTable[i]; if (p && p != Tomb) all.push_back(p); p = nullptr; }
		regTombs = 0;
		if (all.size() > RegSize / 2)
		{
			if (regTable != regFirst) free(regTable);
			RegSize *= 4; regTable = (const void**)calloc(RegSize, sizeof(void*));
			if (!regTable) { fprintf(stderr, "harness: out of memory\n"); _exit(3); }
		}
		for (auto p : all) { size_t i = regHash(p); while (regTable[i]) i = (i + 1) & (RegSize - 1); regTable[i] = p; }
	}
	bool Registry::alive(const void* p)
	{
		for (size_t i = regHash(p), n = 0; n < RegSize; i = (i + 1) & (RegSize - 1), n++)
		{
			if (regTable[i] == p) return true;
			if (!regTable[i]) return false;
		}
		return false;
	}
	void Registry::add(const void* p, const char* what)
	{
		if (alive(p)) { flag("lifetime: %s over an element that is already alive", what); return; }
		if ((size_t)regLive + regTombs > RegSize * 3 / 4) regRehash();
		size_t i = regHash(p);
		while (regTable[i] && regTable[i] != Tomb) i = (i + 1) & (RegSize - 1);
		if (regTable[i] == Tomb) regTombs--;
		regTable[i] = p; regLive++;
	}
	void Registry::remove(const void* p, const char* what)
	{
		for (size_t i = regHash(p), n = 0; n < RegSize; i = (i + 1) & (RegSize - 1), n++)
		{
			if (regTable[i] == p)
			{
				if (!regTable[(i + 1) & (RegSize - 1)]) regTable[i] = nullptr; else { regTable[i] = Tomb; regTombs++; }
				regLive--;
				return;
			}
			if (!regTable[i]) break;
		}
		flag("lifetime: %s of an element that is not alive", what);
	}
	void Registry::use(const void* p, const char* what) { if (!alive(p)) flag("lifetime: %s an element that is not alive", what); }
	long Registry::live() { return regLive; }
	void Registry::reset()
	{
		if (regTable != regFirst) { Untracked u; free(regTable); regTable = regFirst; RegSize = RegFirst; memset(regFirst, 0, sizeof regFirst); }
		else if (regLive || regTombs) memset(regFirst, 0, sizeof regFirst);
		regLive = 0; regTombs = 0;
	}

	// ---- running one execution ----
	enum class Outcome { Ok, Failed, Skipped };

	static std::string narrow(const wchar_t* w)
	{
		std::string s;
		for (; w && *w; w++) s += (*w >= 32 && *w < 127) ? (char)*w : '?';
		return s;
	}

	static Outcome execute(const Scenario& s, Ctx& c)
	{
		pos = 0; shardHash = 17; shardChecked = false; curSteps = 0;
		g_flagged = false; leakExpected = false; me->tapeLen = 0;
		Registry::reset();
		long before = live.load();
		Outcome o = Outcome::Ok;
		if (executionStart) executionStart();
		try
		{
			s.fn(c);
		}
		catch (const Failure&) { o = Outcome::Failed; }
		catch (const Skip&) { o = Outcome::Skipped; }
		catch (const vl::Error& e) { flag("unexpected error raised: %s", narrow(e.Description()).c_str()); }
		catch (const std::exception& e) { flag("unexpected C++ exception: %s", e.what()); }
		catch (...)
		{
			auto t = abi::__cxa_current_exception_type();
			flag("unexpected exception of type %s", t ? t->name() : "?");
		}
		if (executionEnd) executionEnd();
		if (o == Outcome::Skipped) { if (executionStart) live = before; return o; }
		if (!g_flagged && Registry::live() != 0) flag("lifetime: %ld element(s) never destroyed", Registry::live());
		if (g_flagged) return Outcome::Failed;
		if (live.load() > before && !leakExpected)
		{
			snprintf(g_msg, sizeof g_msg, "storage: %ld allocated block(s) never released", live.load() - before);
			return Outcome::Failed; // the caller re-executes to rule out one-time initialisation
		}
		return Outcome::Ok;
	}

	static Outcome executeConfirmingLeaks(const Scenario& s, Ctx& c)
	{
		Outcome o = execute(s, c);
		if (o == Outcome::Failed && !g_flagged)
		{
			auto saved = path;
			for (int i = 0; i < 3 && o == Outcome::Failed && !g_flagged; i++) { path = saved; o = execute(s, c); }
			if (o == Outcome::Ok) return o;
		}
		return o;
	}

	static void onProf(int)
	{
		static uint64_t last; static int same;
		uint64_t now = execCounter;
		if (now == last) same++; else { same = 0; last = now; }
		char buf[64]; int fd = open("/proc/self/statm", O_RDONLY);
		if (fd >= 0)
		{
			ssize_t n = read(fd, buf, sizeof buf - 1); close(fd);
			if (n > 0)
			{
				buf[n] = 0; const char* p = strchr(buf, ' ');
				long rss = p ? atol(p + 1) : 0;
				if (rss > (3l << 30) / 4096) { me->failed = 3; strcpy(me->msg, "an operation keeps allocating memory (over 3 GB in one process)"); _exit(79); }
			}
		}
		if (same >= 200) { me->failed = 2; strcpy(me->msg, "an operation does not terminate (20 s of processor time in one execution)"); _exit(78); }
	}
	static void armWatchdog()
	{
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onProf; sa.sa_flags = SA_RESTART;
		sigaction(SIGPROF, &sa, nullptr);
		struct itimerval it = { {0, 100000}, {0, 100000} };
		setitimer(ITIMER_PROF, &it, nullptr);
	}

	static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

	struct Task { int scenario; int shard; int shards; };

	static void worker(int id, const std::vector<Task>& tasks, bool thorough, double deadline)
	{
		me = &sh->w[id];
		armWatchdog();
		Ctx c; c.thorough = thorough;
		path.reserve(1024);
		uint64_t accE = 0, accS = 0;
		auto flush = [&](int scn) { sh->executions += accE; sh->transitions += accS; sh->scnExec[scn] += accE; sh->scnSteps[scn] += accS; accE = accS = 0; };
		for (;;)
		{
			int t = sh->nextTask++;
			if (t >= (int)tasks.size() || sh->stop) break;
			auto& task = tasks[t];
			auto& s = scenarios()[task.scenario];
			curScenario = task.scenario; me->scenario = task.scenario;
			shardIndex = task.shard; shardCount = task.shards; shardDepth = s.shardDepth;
			path.clear();
			delete visited; visited = new std::unordered_map<uint64_t, int>;
			for (;;)
			{
				Outcome o = executeConfirmingLeaks(s, c);
				execCounter = execCounter + 1;
				if (o == Outcome::Failed)
				{
					flush(task.scenario);
					if (me->failed != 4) me->failed = 1;
					snprintf(me->msg, MaxMsg, "%s", g_msg);
					sh->stop = 1;
					_exit(1);
				}
				// shorten the path to what this execution really used, then backtrack
				path.resize(pos < path.size() ? pos : path.size());
				if (o == Outcome::Ok)
				{
					// a scenario that ends before shardDepth choices belongs to the shard its short prefix hashes to
					bool own = shardCount <= 1 || shardChecked || (int)(shardHash % (uint64_t)shardCount) == shardIndex;
					if (own)
					{
						accE++; accS += curSteps;
						if (pos <= 512 && (int)pos >= sh->sampleLen[task.scenario] && (accE & (accE - 1)) == 0)
						{
							for (size_t i = 0; i < pos; i++) sh->sampleTape[task.scenario][i] = path[i].v;
							sh->sampleLen[task.scenario] = (int)pos;
						}
					}
				}
				if ((accE & 255) == 0) { flush(task.scenario); if (sh->stop || now() > deadline) { if (now() > deadline) sh->truncated = 1; break; } }
				while (!path.empty() && path.back().v + 1 >= path.back().n) path.pop_back();
				if (path.empty()) break;
				path.back().v++;
			}
			flush(task.scenario);
			if (now() > deadline) { sh->truncated = 1; break; }
		}
		_exit(0);
	}

	static std::string jsonEscape(const std::string& s)
	{
		std::string r;
		for (unsigned char ch : s)
		{
			if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
			else if (ch == '\n') r += "\\n";
			else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
			else r += ch;
		}
		return r;
	}
	static std::string readFile(const std::string& f, size_t max = 6000)
	{
		std::string r; FILE* p = fopen(f.c_str(), "r"); if (!p) return r;
		char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0 && r.size() < max) r.append(b, n);
		fclose(p); if (r.size() > max) r.resize(max); return r;
	}

	struct ReplayResult { bool failed; std::string msg, trace; };
	// re-executes one tape in a child process with logging
	static ReplayResult replayTape(int scn, const std::vector<uint16_t>& tape, bool thorough, const std::string& tmp)
	{
		std::string lf = tmp + ".log", ef = tmp + ".err";
		unlink(lf.c_str()); unlink(ef.c_str());
		memset((void*)&sh->w[MaxWorkers - 1], 0, sizeof(WorkerShared));
		pid_t p = fork();
		if (p == 0)
		{
			int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			dup2(fd, 2);
			fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
			me = &sh->w[MaxWorkers - 1];
			logFile = fopen(lf.c_str(), "w");
			armWatchdog();
			path.clear(); for (auto v : tape) path.push_back({ v, 0 });
			shardCount = 1; curScenario = scn; me->scenario = scn; stateTable = nullptr; delete visited; visited = nullptr;
			Ctx c; c.thorough = thorough; c.logging = true;
			Outcome o = execute(scenarios()[scn], c);
			if (o == Outcome::Failed && !g_flagged)
			{
				c.logging = false;
				for (int i = 0; i < 3 && o == Outcome::Failed && !g_flagged; i++) { path.clear(); for (auto v : tape) path.push_back({ v, 0 }); o = execute(scenarios()[scn], c); }
			}
			fclose(logFile); logFile = nullptr;
			if (o == Outcome::Failed) { me->failed = 1; snprintf(me->msg, MaxMsg, "%s", g_msg); _exit(1); }
			_exit(0);
		}
		int st; waitpid(p, &st, 0);
		ReplayResult r;
		r.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
		auto& w = sh->w[MaxWorkers - 1];
		if (r.failed)
		{
			if (w.failed) r.msg = w.msg;
			else
			{
				char b[100]; snprintf(b, sizeof b, WIFSIGNALED(st) ? "the process was killed by signal %d" : "the process ended with status %d (memory error)", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
				r.msg = b;
				std::string e = readFile(ef, 1 << 20);
				auto k = e.find("ERROR: AddressSanitizer"); if (k != std::string::npos) r.msg = e.substr(k + 7, std::min<size_t>(e.find('\n', k) - k - 7, 300));
			}
		}
		r.trace = readFile(lf, 4000);
		if (r.failed) { std::string e = readFile(ef, 5000); if (!e.empty()) r.trace += "--- stderr ---\n" + e; }
		unlink(lf.c_str()); unlink(ef.c_str());
		return r;
	}

	int run(int argc, char** argv)
	{
		std::string tier = "quick", out, replay, only; int workers = 8; double budget = 600;
		int stateBits = 24;
		for (int i = 1; i < argc; i++)
		{
			std::string a = argv[i]; auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--tier") tier = next(); else if (a == "--out") out = next(); else if (a == "--replay") replay = next();
			else if (a == "--workers") workers = atoi(next().c_str()); else if (a == "--budget") budget = atof(next().c_str());
			else if (a == "--only") only = next(); else if (a == "--state-bits") stateBits = atoi(next().c_str());
			else if (a == "--list") { for (auto& s : scenarios()) printf("%s\n", s.name); return 0; }
		}
		bool thorough = tier == "thorough";
		if (workers > MaxWorkers - 1) workers = MaxWorkers - 1;
		sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		std::sort(scenarios().begin(), scenarios().end(), [](const Scenario& a, const Scenario& b) { return strcmp(a.name, b.name) < 0; });
#if defined(__SANITIZE_ADDRESS__)
		__sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
#endif
		std::string tmp = (out.empty() ? (replay.empty() ? std::string("/tmp/mc") : replay) : out) + ".tmp";
		if (!replay.empty())
		{
			FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
			char line[1 << 16]; int scn = -1; std::vector<uint16_t> tape; tmp += std::to_string(getpid());
			while (fgets(line, sizeof line, f))
			{
				char name[200];
				if (sscanf(line, "scenario %199s", name) == 1) for (size_t i = 0; i < scenarios().size(); i++) if (!strcmp(scenarios()[i].name, name)) scn = (int)i;
				if (!strncmp(line, "tier thorough", 13)) thorough = true;
				if (!strncmp(line, "tape", 4)) { char* p = line + 4; char* e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; tape.push_back((uint16_t)v); p = e; } }
			}
			fclose(f);
			if (scn < 0) { fprintf(stderr, "no such scenario\n"); return 2; }
			auto r = replayTape(scn, tape, thorough, tmp);
			printf("%s", r.trace.c_str());
			if (r.failed) { printf("FAILED: %s\n", r.msg.c_str()); return 1; }
			printf("OK\n");
			return 0;
		}
		stateMask = (1ull << stateBits) - 1;
		stateTable = (std::atomic<uint64_t>*)mmap(nullptr, sizeof(uint64_t) << stateBits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		std::vector<Task> tasks;
		int maxShards = 0; for (auto& s : scenarios()) maxShards = std::max(maxShards, s.shards);
		for (int k = 0; k < maxShards; k++)
			for (size_t i = 0; i < scenarios().size(); i++)
				if (k < scenarios()[i].shards && (only.empty() || only == scenarios()[i].name)) tasks.push_back({ (int)i, k, scenarios()[i].shards });
		double start = now(), deadline = start + budget;
		std::map<pid_t, int> pids; fflush(stdout); fflush(stderr);
		auto errName = [&](int i) { return tmp + ".w" + std::to_string(i); };
		for (int i = 0; i < workers; i++)
		{
			pid_t p = fork();
			if (p == 0)
			{
				int fd = open(errName(i).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
				fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
				worker(i, tasks, thorough, deadline);
			}
			pids[p] = i;
		}
		struct Viol { int scn; std::vector<uint16_t> tape; std::string msg, trace; int kind; };
		std::vector<Viol> viols;
		while (!pids.empty())
		{
			int st; pid_t p = wait(&st); if (p < 0) { if (errno == EINTR) continue; break; }
			auto it = pids.find(p); if (it == pids.end()) continue;
			int id = it->second; pids.erase(it);
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
			{
				sh->stop = 1;
				auto& w = sh->w[id];
				Viol v; v.scn = w.scenario; v.kind = w.failed;
				for (int i = 0; i < w.tapeLen && i < MaxTape; i++) v.tape.push_back(w.tape[i]);
				v.msg = w.failed ? w.msg : "memory error";
				viols.push_back(v);
			}
			unlink(errName(id).c_str());
		}
		int confirmed = 0, unconfirmed = 0;
		std::string vj;
		for (auto& v : viols)
		{
			auto r = replayTape(v.scn, v.tape, thorough, tmp);
			if (r.failed) { v.msg = r.msg; confirmed++; } else { unconfirmed++; }
			std::string t; for (auto x : v.tape) t += (t.empty() ? "" : " ") + std::to_string(x);
			vj += std::string(vj.empty() ? "" : ",") + "{\"scenario\":\"" + scenarios()[v.scn].name + "\",\"confirmed\":" + (r.failed ? "true" : "false") +
				",\"tape\":\"" + t + "\",\"msg\":\"" + jsonEscape(v.msg) + "\",\"trace\":\"" + jsonEscape(r.trace) + "\"}";
		}
		std::string sj, scj;
		for (size_t i = 0; i < scenarios().size(); i++)
		{
			if (!only.empty() && only != scenarios()[i].name) continue;
			char b[400]; snprintf(b, sizeof b, "\"%s\":{\"executions\":%llu,\"operations\":%llu,\"states\":%llu}", scenarios()[i].name,
				(unsigned long long)sh->scnExec[i].load(), (unsigned long long)sh->scnSteps[i].load(), (unsigned long long)sh->scnStates[i].load());
			scj += std::string(scj.empty() ? "" : ",") + b;
			if (viols.empty() && sh->sampleLen[i] >= 0 && sh->scnExec[i].load())
			{
				std::vector<uint16_t> tape(sh->sampleTape[i], sh->sampleTape[i] + sh->sampleLen[i]);
				auto r = replayTape((int)i, tape, thorough, tmp);
				std::string t; for (auto x : tape) t += (t.empty() ? "" : " ") + std::to_string(x);
				sj += std::string(sj.empty() ? "" : ",") + "{\"scenario\":\"" + scenarios()[i].name + "\",\"choices\":\"" + t + "\",\"trace\":\"" + jsonEscape(r.trace.substr(0, 600)) + "\"}";
			}
		}
		std::string kj;
		for (auto& k : sh->findings) if (k.used.load() == 2)
		{
			std::string t; for (int i = 0; i < k.tapeLen; i++) t += (t.empty() ? "" : " ") + std::to_string(k.tape[i]);
			kj += std::string(kj.empty() ? "" : ",") + "{\"key\":\"" + jsonEscape(k.key) + "\",\"scenario\":\"" + scenarios()[k.scenario].name + "\",\"tape\":\"" + t + "\",\"msg\":\"" + jsonEscape(k.msg) + "\"}";
		}
		FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
		fprintf(f, "{\"tier\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"complete\":%s,\"wall\":%.2f,\"confirmed\":%d,\"unconfirmed\":%d,\"scenarios\":{%s},\"samples\":[%s],\"findings\":[%s],\"violations\":[%s]}\n",
			tier.c_str(), (unsigned long long)sh->executions.load(), (unsigned long long)sh->transitions.load(), (unsigned long long)sh->states.load(),
			sh->truncated || !viols.empty() ? "false" : "true", now() - start, confirmed, unconfirmed, scj.c_str(), sj.c_str(), kj.c_str(), vj.c_str());
		if (f != stdout) fclose(f);
		return confirmed ? 1 : (unconfirmed ? 3 : 0);
	}
}

int main(int argc, char** argv) { return mc::run(argc, argv); }
